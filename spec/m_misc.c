#include "spec.h"
int spec_MPI_Errhandler_set(MPI_Comm c, MPI_Errhandler h) { return MPI_SUCCESS; }
int spec_MPI_Get_count(MPI_Status *s, MPI_Datatype t, int *n) { *n = s->get_count; return MPI_SUCCESS; }
int spec_MPI_Get_elements(MPI_Status *s, MPI_Datatype t, int *n)
{
  Datatype d = *(Datatype *)mpi_handle_to_datatype(t);
  *n = s->get_count * d->count;
  return MPI_SUCCESS;
}
int spec_MPI_Op_create(MPI_User_function *f, int c, MPI_Op *op) { *op = MPI_OP_NULL; return MPI_SUCCESS; }
int spec_MPI_Op_free(MPI_Op *op) { int open; *op = open; return MPI_SUCCESS; }
int spec_MPI_Info_create(MPI_Info *i) { *i = MPI_INFO_NULL; return MPI_SUCCESS; }
int spec_MPI_Info_set(MPI_Info i, char *k, char *v) { return MPI_SUCCESS; }
int spec_MPI_Info_free(MPI_Info *i) { *i = MPI_INFO_NULL; return MPI_SUCCESS; }

#include "spec.h"
/* communicators */
MPI_Comm spec_mpi_comm_new(void)
{
  int h; Comm *c;
  mpi_alloc_handle(&h, (void **)&c);
  c->sendlist = AP_list_new();
  c->recvlist = AP_list_new();
  return h;
}
int spec_MPI_Comm_size(MPI_Comm c, int *n) { *n = 1; return MPI_SUCCESS; }
int spec_MPI_Comm_rank(MPI_Comm c, int *n) { *n = 0; return MPI_SUCCESS; }
int spec_MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { *n = mpi_comm_new(); return MPI_SUCCESS; }
int spec_MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n)
{
  if (g == MPI_GROUP_NULL || g == MPI_GROUP_EMPTY) *n = MPI_COMM_NULL;
  else *n = mpi_comm_new();
  return MPI_SUCCESS;
}
int spec_MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n)
{
  if (color == MPI_UNDEFINED) *n = MPI_COMM_NULL;
  else *n = mpi_comm_new();
  return MPI_SUCCESS;
}
int spec_MPI_Comm_free(MPI_Comm *c)
{
  Comm *p;
  ASSUME(*c != MPI_COMM_NULL);
  p = mpi_handle_to_ptr(*c);
  ASSUME(AP_list_size(p->sendlist) == 0 && AP_list_size(p->recvlist) == 0);
  AP_list_free(p->sendlist);
  AP_list_free(p->recvlist);
  mpi_free_handle(*c);
  *c = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
/* the same with requests still queued: a warning may be printed */
int spec_MPI_Comm_free__pending(MPI_Comm *c)
{
  Comm *p;
  ASSUME(*c != MPI_COMM_NULL);
  p = mpi_handle_to_ptr(*c);
  AP_list_free(p->sendlist);
  AP_list_free(p->recvlist);
  mpi_free_handle(*c);
  *c = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int spec_MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{
  *g = c == MPI_COMM_NULL ? MPI_GROUP_NULL : MPI_GROUP_ONE;
  return MPI_SUCCESS;
}
int spec_MPI_Intercomm_create(MPI_Comm l, int a, MPI_Comm p, int b, int tag, MPI_Comm *n)
{
  if (l == MPI_COMM_NULL && p == MPI_COMM_NULL) *n = MPI_COMM_NULL;
  else *n = mpi_comm_new();
  return MPI_SUCCESS;
}
int spec_MPI_Intercomm_merge(MPI_Comm c, int high, MPI_Comm *n)
{
  *n = mpi_comm_new();
  return MPI_SUCCESS;
}
MPI_Comm spec_MPI_Comm_f2c(MPI_Fint c) { return c; }
MPI_Fint spec_MPI_Comm_c2f(MPI_Comm c) { return c; }

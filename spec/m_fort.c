/* written by tools/gen_fort.py: the Fortran bindings */
#include "spec.h"

extern int *f_MPI_STATUS_IGNORE, *f_MPI_STATUSES_IGNORE;
extern void *f_MPI_IN_PLACE;
/* the Fortran sentinels are recognised by address */
static MPI_Status *spec__st(int *s) { return s == f_MPI_STATUS_IGNORE ? MPI_STATUS_IGNORE : (MPI_Status *)s; }
static MPI_Status *spec__sts(int *s) { return s == f_MPI_STATUSES_IGNORE ? MPI_STATUSES_IGNORE : (MPI_Status *)s; }
static void *spec__ip(void *b) { return b == f_MPI_IN_PLACE ? MPI_IN_PLACE : b; }

int spec_mpi_isend_(void *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Isend(a0, *a1, *a2, *a3, *a4, *a5, a6);
  return MPI_SUCCESS;
}
int spec_mpi_send_(void *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *ierr)
{
  *ierr = MPI_Send(a0, *a1, *a2, *a3, *a4, *a5);
  return MPI_SUCCESS;
}
int spec_mpi_ssend_(void *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *ierr)
{
  *ierr = MPI_Ssend(a0, *a1, *a2, *a3, *a4, *a5);
  return MPI_SUCCESS;
}
int spec_mpi_rsend_(void *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *ierr)
{
  *ierr = MPI_Rsend(a0, *a1, *a2, *a3, *a4, *a5);
  return MPI_SUCCESS;
}
int spec_mpi_irsend_(void *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Irsend(a0, *a1, *a2, *a3, *a4, *a5, a6);
  return MPI_SUCCESS;
}
int spec_mpi_sendrecv_(void *a0, int *a1, int *a2, int *a3, int *a4, void *a5, int *a6, int *a7, int *a8, int *a9, int *a10, int *a11, int *ierr)
{
  *ierr = MPI_Sendrecv(a0, *a1, *a2, *a3, *a4, a5, *a6, *a7, *a8, *a9, *a10, spec__st(a11));
  return MPI_SUCCESS;
}
int spec_mpi_irecv_(void *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Irecv(a0, *a1, *a2, *a3, *a4, *a5, a6);
  return MPI_SUCCESS;
}
int spec_mpi_recv_(void *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Recv(a0, *a1, *a2, *a3, *a4, *a5, spec__st(a6));
  return MPI_SUCCESS;
}
int spec_mpi_test_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Test(a0, a1, spec__st(a2));
  return MPI_SUCCESS;
}
int spec_mpi_wait_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Wait(a0, spec__st(a1));
  return MPI_SUCCESS;
}
int spec_mpi_waitany_(int *a0, int *a1, int *a2, int *a3, int *ierr)
{
  *ierr = MPI_Waitany(*a0, a1, a2, spec__st(a3));
  if (*a2 != MPI_UNDEFINED) *a2 = *a2 + 1;
  return MPI_SUCCESS;
}
int spec_mpi_testany_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Testany(*a0, a1, a2, a3, spec__st(a4));
  if (*a2 != MPI_UNDEFINED) *a2 = *a2 + 1;
  return MPI_SUCCESS;
}
int spec_mpi_testall_(int *a0, int *a1, int *a2, int *a3, int *ierr)
{
  *ierr = MPI_Testall(*a0, a1, a2, spec__sts(a3));
  return MPI_SUCCESS;
}
int spec_mpi_waitall_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Waitall(*a0, a1, spec__sts(a2));
  return MPI_SUCCESS;
}
int spec_mpi_testsome_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  int i;
  *ierr = MPI_Testsome(*a0, a1, a2, a3, spec__sts(a4));
  for (i = 0; i < *a2; i++) a3[i] = a3[i] + 1;
  return MPI_SUCCESS;
}
int spec_mpi_waitsome_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  int i;
  *ierr = MPI_Waitsome(*a0, a1, a2, a3, spec__sts(a4));
  for (i = 0; i < *a2; i++) a3[i] = a3[i] + 1;
  return MPI_SUCCESS;
}
int spec_mpi_request_free_(int *a0, int *ierr)
{
  *ierr = MPI_Request_free(a0);
  return MPI_SUCCESS;
}
int spec_mpi_iprobe_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Iprobe(*a0, *a1, *a2, a3, spec__st(a4));
  return MPI_SUCCESS;
}
int spec_mpi_probe_(int *a0, int *a1, int *a2, int *a3, int *ierr)
{
  *ierr = MPI_Probe(*a0, *a1, *a2, spec__st(a3));
  return MPI_SUCCESS;
}
int spec_mpi_barrier_(int *a0, int *ierr)
{
  *ierr = MPI_Barrier(*a0);
  return MPI_SUCCESS;
}
int spec_mpi_bcast_(void *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Bcast(a0, *a1, *a2, *a3, *a4);
  return MPI_SUCCESS;
}
int spec_mpi_gather_(void *a0, int *a1, int *a2, void *a3, int *a4, int *a5, int *a6, int *a7, int *ierr)
{
  *ierr = MPI_Gather(spec__ip(a0), *a1, *a2, a3, *a4, *a5, *a6, *a7);
  return MPI_SUCCESS;
}
int spec_mpi_gatherv_(void *a0, int *a1, int *a2, void *a3, int *a4, int *a5, int *a6, int *a7, int *a8, int *ierr)
{
  *ierr = MPI_Gatherv(spec__ip(a0), *a1, *a2, a3, a4, a5, *a6, *a7, *a8);
  return MPI_SUCCESS;
}
int spec_mpi_allgather_(void *a0, int *a1, int *a2, void *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Allgather(spec__ip(a0), *a1, *a2, a3, *a4, *a5, *a6);
  return MPI_SUCCESS;
}
int spec_mpi_allgatherv_(void *a0, int *a1, int *a2, void *a3, int *a4, int *a5, int *a6, int *a7, int *ierr)
{
  *ierr = MPI_Allgatherv(spec__ip(a0), *a1, *a2, a3, a4, a5, *a6, *a7);
  return MPI_SUCCESS;
}
int spec_mpi_scatter_(void *a0, int *a1, int *a2, void *a3, int *a4, int *a5, int *a6, int *a7, int *ierr)
{
  *ierr = MPI_Scatter(a0, *a1, *a2, spec__ip(a3), *a4, *a5, *a6, *a7);
  return MPI_SUCCESS;
}
int spec_mpi_scatterv_(void *a0, int *a1, int *a2, int *a3, void *a4, int *a5, int *a6, int *a7, int *a8, int *ierr)
{
  *ierr = MPI_Scatterv(a0, a1, a2, *a3, spec__ip(a4), *a5, *a6, *a7, *a8);
  return MPI_SUCCESS;
}
int spec_mpi_reduce_(void *a0, void *a1, int *a2, int *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Reduce(spec__ip(a0), a1, *a2, *a3, *a4, *a5, *a6);
  return MPI_SUCCESS;
}
int spec_mpi_allreduce_(void *a0, void *a1, int *a2, int *a3, int *a4, int *a5, int *ierr)
{
  *ierr = MPI_Allreduce(spec__ip(a0), a1, *a2, *a3, *a4, *a5);
  return MPI_SUCCESS;
}
int spec_mpi_reduce_scatter_(void *a0, void *a1, int *a2, int *a3, int *a4, int *a5, int *ierr)
{
  *ierr = MPI_Reduce_scatter(spec__ip(a0), a1, a2, *a3, *a4, *a5);
  return MPI_SUCCESS;
}
int spec_mpi_scan_(void *a0, void *a1, int *a2, int *a3, int *a4, int *a5, int *ierr)
{
  *ierr = MPI_Scan(spec__ip(a0), a1, *a2, *a3, *a4, *a5);
  return MPI_SUCCESS;
}
int spec_mpi_alltoall_(void *a0, int *a1, int *a2, void *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Alltoall(spec__ip(a0), *a1, *a2, a3, *a4, *a5, *a6);
  return MPI_SUCCESS;
}
int spec_mpi_alltoallv_(void *a0, int *a1, int *a2, int *a3, void *a4, int *a5, int *a6, int *a7, int *a8, int *ierr)
{
  *ierr = MPI_Alltoallv(spec__ip(a0), a1, a2, *a3, a4, a5, a6, *a7, *a8);
  return MPI_SUCCESS;
}
int spec_mpi_alltoallw_(void *a0, int *a1, int *a2, int *a3, void *a4, int *a5, int *a6, int *a7, int *a8, int *ierr)
{
  *ierr = MPI_Alltoallw(spec__ip(a0), a1, a2, a3, a4, a5, a6, a7, *a8);
  return MPI_SUCCESS;
}
int spec_mpi_op_create_(MPI_User_function *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Op_create(a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_op_free_(int *a0, int *ierr)
{
  *ierr = MPI_Op_free(a0);
  return MPI_SUCCESS;
}
int spec_mpi_comm_free_(int *a0, int *ierr)
{
  *ierr = MPI_Comm_free(a0);
  return MPI_SUCCESS;
}
int spec_mpi_comm_size_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Comm_size(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_comm_rank_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Comm_rank(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_comm_dup_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Comm_dup(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_comm_create_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Comm_create(*a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_comm_split_(int *a0, int *a1, int *a2, int *a3, int *ierr)
{
  *ierr = MPI_Comm_split(*a0, *a1, *a2, a3);
  return MPI_SUCCESS;
}
int spec_mpi_comm_group_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Comm_group(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_intercomm_create_(int *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *ierr)
{
  *ierr = MPI_Intercomm_create(*a0, *a1, *a2, *a3, *a4, a5);
  return MPI_SUCCESS;
}
int spec_mpi_intercomm_merge_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Intercomm_merge(*a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_group_incl_(int *a0, int *a1, int *a2, int *a3, int *ierr)
{
  *ierr = MPI_Group_incl(*a0, *a1, a2, a3);
  return MPI_SUCCESS;
}
int spec_mpi_group_range_incl_(int *a0, int *a1, int (*a2)[3], int *a3, int *ierr)
{
  *ierr = MPI_Group_range_incl(*a0, *a1, a2, a3);
  return MPI_SUCCESS;
}
int spec_mpi_group_union_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Group_union(*a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_group_intersection_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Group_intersection(*a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_group_difference_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Group_difference(*a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_group_free_(int *a0, int *ierr)
{
  *ierr = MPI_Group_free(a0);
  return MPI_SUCCESS;
}
int spec_mpi_group_translate_ranks_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Group_translate_ranks(*a0, *a1, a2, *a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_cart_create_(int *a0, int *a1, int *a2, int *a3, int *a4, int *a5, int *ierr)
{
  *ierr = MPI_Cart_create(*a0, *a1, a2, a3, *a4, a5);
  return MPI_SUCCESS;
}
int spec_mpi_cart_get_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Cart_get(*a0, *a1, a2, a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_cart_coords_(int *a0, int *a1, int *a2, int *a3, int *ierr)
{
  *ierr = MPI_Cart_coords(*a0, *a1, *a2, a3);
  return MPI_SUCCESS;
}
int spec_mpi_dims_create_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Dims_create(*a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_get_count_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Get_count((MPI_Status *)a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_get_elements_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Get_elements((MPI_Status *)a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_info_create_(int *a0, int *ierr)
{
  *ierr = MPI_Info_create(a0);
  return MPI_SUCCESS;
}
int spec_mpi_info_set_(int *a0, char *a1, char *a2, int *ierr)
{
  *ierr = MPI_Info_set(*a0, a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_info_free_(int *a0, int *ierr)
{
  *ierr = MPI_Info_free(a0);
  return MPI_SUCCESS;
}
int spec_mpi_abort_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Abort(*a0, *a1);
  return MPI_SUCCESS;
}
int spec_mpi_error_string_(int *a0, char *a1, int *a2, int *ierr)
{
  *ierr = MPI_Error_string(*a0, a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_get_processor_name_(char *a0, int *a1, int *ierr)
{
  *ierr = MPI_Get_processor_name(a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_initialized_(int *a0, int *ierr)
{
  *ierr = MPI_Initialized(a0);
  return MPI_SUCCESS;
}
int spec_mpi_finalize_(int *ierr)
{
  *ierr = MPI_Finalize();
  return MPI_SUCCESS;
}
int spec_mpi_errhandler_set_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Errhandler_set(*a0, *a1);
  return MPI_SUCCESS;
}
int spec_mpi_pack_(void *a0, int *a1, int *a2, void *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Pack(a0, *a1, *a2, a3, *a4, a5, *a6);
  return MPI_SUCCESS;
}
int spec_mpi_unpack_(void *a0, int *a1, int *a2, void *a3, int *a4, int *a5, int *a6, int *ierr)
{
  *ierr = MPI_Unpack(a0, *a1, a2, a3, *a4, *a5, *a6);
  return MPI_SUCCESS;
}
int spec_mpi_type_extent_(int *a0, MPI_Aint *a1, int *ierr)
{
  *ierr = MPI_Type_extent(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_type_struct_(int *a0, int *a1, MPI_Aint *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Type_struct(*a0, a1, a2, a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_type_contiguous_(int *a0, int *a1, int *a2, int *ierr)
{
  *ierr = MPI_Type_contiguous(*a0, *a1, a2);
  return MPI_SUCCESS;
}
int spec_mpi_type_hvector_(int *a0, int *a1, MPI_Aint *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Type_hvector(*a0, *a1, *a2, *a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_type_create_hvector_(int *a0, int *a1, MPI_Aint *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Type_create_hvector(*a0, *a1, *a2, *a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_type_vector_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Type_vector(*a0, *a1, *a2, *a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_type_hindexed_(int *a0, int *a1, MPI_Aint *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Type_hindexed(*a0, a1, a2, *a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_type_indexed_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Type_indexed(*a0, a1, a2, *a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_type_create_indexed_block_(int *a0, int *a1, int *a2, int *a3, int *a4, int *ierr)
{
  *ierr = MPI_Type_create_indexed_block(*a0, *a1, a2, *a3, a4);
  return MPI_SUCCESS;
}
int spec_mpi_type_dup_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Type_dup(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_type_size_(int *a0, int *a1, int *ierr)
{
  *ierr = MPI_Type_size(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_type_lb_(int *a0, MPI_Aint *a1, int *ierr)
{
  *ierr = MPI_Type_lb(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_type_ub_(int *a0, MPI_Aint *a1, int *ierr)
{
  *ierr = MPI_Type_ub(*a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_type_commit_(int *a0, int *ierr)
{
  *ierr = MPI_Type_commit(a0);
  return MPI_SUCCESS;
}
int spec_mpi_type_free_(int *a0, int *ierr)
{
  *ierr = MPI_Type_free(a0);
  return MPI_SUCCESS;
}
int spec_mpi_address_(void *a0, MPI_Aint *a1, int *ierr)
{
  *ierr = MPI_Get_address(a0, a1);
  return MPI_SUCCESS;
}
int spec_mpi_get_address_(void *a0, MPI_Aint *a1, int *ierr)
{
  *ierr = MPI_Get_address(a0, a1);
  return MPI_SUCCESS;
}

int spec_mpi_pack_size_(int *n, int *t, int *c, int *size, int *ierr)
{
  MPI_Aint s;
  *ierr = MPI_Pack_size(*n, *t, *c, &s);
  *size = (int)s;
  return MPI_SUCCESS;
}
double spec_mpi_wtime_(void) { return MPI_Wtime(); }
void spec_mpi_get_version_(int *v, int *sv, int *ierr)
{
  MPI_Get_Version(v, sv);
  *ierr = MPI_SUCCESS;
}

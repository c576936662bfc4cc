#!/usr/bin/env python3
"""Writes spec/m_fort.c: reference models of the Fortran bindings.  The table is
the MPI standard's Fortran binding of each routine, in argument order:
  i  scalar INTEGER passed by reference, wanted by value
  a  scalar INTEGER(KIND=MPI_ADDRESS_KIND), wanted by value
  p  array or output INTEGER argument, passed through     l  the same, address-sized
  v  choice buffer, passed through      b  choice buffer that may be MPI_IN_PLACE
  s  status, may be MPI_STATUS_IGNORE   S  statuses, may be MPI_STATUSES_IGNORE
  q  status that is an input            f  procedure
  x  index output, 1-based for Fortran  X  index array output (k gives the length argument)
"""
T = '''
mpi_isend MPI_Isend viiiiip
mpi_send MPI_Send viiiii
mpi_ssend MPI_Ssend viiiii
mpi_rsend MPI_Rsend viiiii
mpi_irsend MPI_Irsend viiiiip
mpi_sendrecv MPI_Sendrecv viiiiviiiiis
mpi_irecv MPI_Irecv viiiiip
mpi_recv MPI_Recv viiiiis
mpi_test MPI_Test pps
mpi_wait MPI_Wait ps
mpi_waitany MPI_Waitany ipxs
mpi_testany MPI_Testany ipxps
mpi_testall MPI_Testall ippS
mpi_waitall MPI_Waitall ipS
mpi_testsome MPI_Testsome ipkXS
mpi_waitsome MPI_Waitsome ipkXS
mpi_request_free MPI_Request_free p
mpi_iprobe MPI_Iprobe iiips
mpi_probe MPI_Probe iiis
mpi_barrier MPI_Barrier i
mpi_bcast MPI_Bcast viiii
mpi_gather MPI_Gather biiviiii
mpi_gatherv MPI_Gatherv biivppiii
mpi_allgather MPI_Allgather biiviii
mpi_allgatherv MPI_Allgatherv biivppii
mpi_scatter MPI_Scatter viibiiii
mpi_scatterv MPI_Scatterv vppibiiii
mpi_reduce MPI_Reduce bviiiii
mpi_allreduce MPI_Allreduce bviiii
mpi_reduce_scatter MPI_Reduce_scatter bvpiii
mpi_scan MPI_Scan bviiii
mpi_alltoall MPI_Alltoall biiviii
mpi_alltoallv MPI_Alltoallv bppivppii
mpi_alltoallw MPI_Alltoallw bpppvpppi
mpi_op_create MPI_Op_create fip
mpi_op_free MPI_Op_free p
mpi_comm_free MPI_Comm_free p
mpi_comm_size MPI_Comm_size ip
mpi_comm_rank MPI_Comm_rank ip
mpi_comm_dup MPI_Comm_dup ip
mpi_comm_create MPI_Comm_create iip
mpi_comm_split MPI_Comm_split iiip
mpi_comm_group MPI_Comm_group ip
mpi_intercomm_create MPI_Intercomm_create iiiiip
mpi_intercomm_merge MPI_Intercomm_merge iip
mpi_group_incl MPI_Group_incl iipp
mpi_group_range_incl MPI_Group_range_incl iirp
mpi_group_union MPI_Group_union iip
mpi_group_intersection MPI_Group_intersection iip
mpi_group_difference MPI_Group_difference iip
mpi_group_free MPI_Group_free p
mpi_group_translate_ranks MPI_Group_translate_ranks iipip
mpi_cart_create MPI_Cart_create iippip
mpi_cart_get MPI_Cart_get iippp
mpi_cart_coords MPI_Cart_coords iiip
mpi_dims_create MPI_Dims_create iip
mpi_get_count MPI_Get_count qip
mpi_get_elements MPI_Get_elements qip
mpi_info_create MPI_Info_create p
mpi_info_set MPI_Info_set icc
mpi_info_free MPI_Info_free p
mpi_abort MPI_Abort ii
mpi_error_string MPI_Error_string icp
mpi_get_processor_name MPI_Get_processor_name cp
mpi_initialized MPI_Initialized p
mpi_finalize MPI_Finalize -
mpi_errhandler_set MPI_Errhandler_set ii
mpi_pack MPI_Pack viivipi
mpi_unpack MPI_Unpack vipviii
mpi_type_extent MPI_Type_extent il
mpi_type_struct MPI_Type_struct iplpp
mpi_type_contiguous MPI_Type_contiguous iip
mpi_type_hvector MPI_Type_hvector iiaip
mpi_type_create_hvector MPI_Type_create_hvector iiaip
mpi_type_vector MPI_Type_vector iiiip
mpi_type_hindexed MPI_Type_hindexed iplip
mpi_type_indexed MPI_Type_indexed ippip
mpi_type_create_indexed_block MPI_Type_create_indexed_block iipip
mpi_type_dup MPI_Type_dup ip
mpi_type_size MPI_Type_size ip
mpi_type_lb MPI_Type_lb il
mpi_type_ub MPI_Type_ub il
mpi_type_commit MPI_Type_commit p
mpi_type_free MPI_Type_free p
mpi_address MPI_Get_address vl
mpi_get_address MPI_Get_address vl
'''
TY = dict(i='int *', a='MPI_Aint *', p='int *', l='MPI_Aint *', v='void *', b='void *', s='int *', S='int *',
          q='int *', f='MPI_User_function *', x='int *', X='int *', k='int *', c='char *', r='int (*')


def gen():
    o = ['/* written by tools/gen_fort.py: the Fortran bindings */', '#include "spec.h"', '''
extern int *f_MPI_STATUS_IGNORE, *f_MPI_STATUSES_IGNORE;
extern void *f_MPI_IN_PLACE;
/* the Fortran sentinels are recognised by address */
static MPI_Status *spec__st(int *s) { return s == f_MPI_STATUS_IGNORE ? MPI_STATUS_IGNORE : (MPI_Status *)s; }
static MPI_Status *spec__sts(int *s) { return s == f_MPI_STATUSES_IGNORE ? MPI_STATUSES_IGNORE : (MPI_Status *)s; }
static void *spec__ip(void *b) { return b == f_MPI_IN_PLACE ? MPI_IN_PLACE : b; }
''']
    for l in T.strip().splitlines():
        f, c, k = l.split()
        k = '' if k == '-' else k
        ps, as_ = [], []
        for n, x in enumerate(k):
            a = 'a%d' % n
            ps.append('int (*%s)[3]' % a if x == 'r' else TY[x] + a)
            as_.append({'i': '*' + a, 'a': '*' + a, 's': 'spec__st(%s)' % a, 'S': 'spec__sts(%s)' % a, 'b': 'spec__ip(%s)' % a,
                        'q': '(MPI_Status *)' + a}.get(x, a))
        ps.append('int *ierr')
        o.append('int spec_%s_(%s)\n{' % (f, ', '.join(ps)))
        if 'X' in k:
            o.append('  int i;')
        o.append('  *ierr = %s(%s);' % (c, ', '.join(as_)))
        for n, x in enumerate(k):
            if x == 'x':
                o.append('  if (*a%d != MPI_UNDEFINED) *a%d = *a%d + 1;' % (n, n, n))
            if x == 'X':
                o.append('  for (i = 0; i < *a%d; i++) a%d[i] = a%d[i] + 1;' % (k.index('k'), n, n))
        o.append('  return MPI_SUCCESS;\n}')
    return '\n'.join(o) + '\n' + r'''
int spec_mpi_pack_size_(int *n, int *t, int *c, int *size, int *ierr)
{
  MPI_Aint s;
  *ierr = MPI_Pack_size(*n, *t, *c, &s);
  *size = (int)s;
  return MPI_SUCCESS;
}
double spec_mpi_wtime_(void) { return MPI_Wtime(); }
void spec_mpi_get_version_(int *v, int *sv, int *ierr)
{
  MPI_Get_Version(v, sv);
  *ierr = MPI_SUCCESS;
}
'''


FORT = [l.split()[0] + '_' for l in T.strip().splitlines()] + ['mpi_pack_size_', 'mpi_wtime_', 'mpi_get_version_']
if __name__ == '__main__':
    import os
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'm_fort.c'), 'w').write(gen())

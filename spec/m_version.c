#include "mpi.c"
void spec_mpi_get_library_version_(char *s, int *n, int *e)
{
  MPI_Get_library_version(s, n);
  if (*n >= MPI_MAX_LIBRARY_VERSION_STRING) { fprintf(stderr, "bad"); abort(); }
  memset(s + *n, ' ', MPI_MAX_LIBRARY_VERSION_STRING - *n);
  *e = MPI_SUCCESS;
}

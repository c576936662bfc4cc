#include "mpi.c"
#include <sys/time.h>
#include <time.h>
void spec_assume(int);
#define ASSUME(x) spec_assume(!!(x))
#define DIE() do { fprintf(stderr, "bad"); abort(); } while (0)
/* start and end of the library */
int spec_MPI_Init(int *argc, char **argv[])
{
  if (mpi_comm_new() != MPI_COMM_WORLD) DIE();
  FC_FUNC(mpi_get_fort_pointers, MPI_GET_FORT_POINTERS)();
  initialized = 1;
  return MPI_SUCCESS;
}
int spec_MPI_Init_thread(int *argc, char **argv[], int required, int *provided)
{
  *provided = required;
  if (mpi_comm_new() != MPI_COMM_WORLD) DIE();
  FC_FUNC(mpi_get_fort_pointers, MPI_GET_FORT_POINTERS)();
  initialized = 1;
  return MPI_SUCCESS;
}
int spec_MPI_Finalize(void)
{
  initialized = 0;
  mpi_destroy_handles();
  return MPI_SUCCESS;
}
int spec_MPI_Initialized(int *flag) { *flag = initialized; return MPI_SUCCESS; }
int spec_MPI_Abort(MPI_Comm c, int code)
{
  fprintf(stderr, "abort");
  exit(code);
}
int spec_MPI_Error_string(int code, char *s, int *n)
{
  sprintf(s, "MPI Error: code %d\n", code);
  *n = strlen(s);
  return MPI_SUCCESS;
}
int spec_MPI_Get_processor_name(char *s, int *n)
{
  if (gethostname(s, MPI_MAX_PROCESSOR_NAME) != 0)
    strncpy(s, "unknown host name", MPI_MAX_PROCESSOR_NAME);
  s[MPI_MAX_PROCESSOR_NAME - 1] = 0;
  *n = strlen(s);
  return MPI_SUCCESS;
}
int spec_MPI_Get_library_version(char *s, int *n)
{
  strncpy(s, mpi_version_string, MPI_MAX_LIBRARY_VERSION_STRING);
  s[MPI_MAX_LIBRARY_VERSION_STRING - 1] = 0;
  *n = strlen(s);
  return MPI_SUCCESS;
}
int spec_MPI_Get_library_version__copy(char *s, int *n)
{
  size_t k = strlen(mpi_version_string);
  if (k > MPI_MAX_LIBRARY_VERSION_STRING - 1) k = MPI_MAX_LIBRARY_VERSION_STRING - 1;
  memcpy(s, mpi_version_string, k);
  s[k] = 0;
  *n = k;
  return MPI_SUCCESS;
}
int spec_MPI_Get_Version(int *a, int *b) { *a = 1; *b = 0; return MPI_SUCCESS; }
void spec_mpi_save_fort_pointers_(int *a, int *b, int *c)
{
  f_MPI_STATUS_IGNORE = a;
  f_MPI_STATUSES_IGNORE = b;
  f_MPI_IN_PLACE = c;
}
MPI_Status *spec_mpi_c_status(int *s) { return s == f_MPI_STATUS_IGNORE ? MPI_STATUS_IGNORE : (MPI_Status *)s; }
MPI_Status *spec_mpi_c_statuses(int *s) { return s == f_MPI_STATUSES_IGNORE ? MPI_STATUSES_IGNORE : (MPI_Status *)s; }
void *spec_mpi_c_in_place(void *b) { return b == (void *)f_MPI_IN_PLACE ? MPI_IN_PLACE : b; }

double spec_MPI_Wtime(void)
{
  struct timeval tv;
  if (gettimeofday(&tv, 0)) DIE();
  return (double)tv.tv_sec + (double)tv.tv_usec / 1e6;
}
/* or a clock in nanoseconds */
double spec_MPI_Wtime__realtime(void)
{
  struct timespec tv;
  if (clock_gettime(CLOCK_REALTIME, &tv)) DIE();
  return (double)tv.tv_sec + (double)tv.tv_nsec / 1e9;
}

#include "spec.h"
#define DIE() do { fprintf(stderr, "bad"); abort(); } while (0)
int spec_MPI_Cart_create(MPI_Comm c, int nd, int *dims, int *per, int re, MPI_Comm *n)
{
  int i;
  for (i = 0; i < nd; i++)
    if (dims[i] > 1) DIE();
  *n = mpi_comm_new();
  return MPI_SUCCESS;
}
int spec_MPI_Cart_get(MPI_Comm c, int nd, int *dims, int *per, int *coords)
{
  int i, open;
  for (i = 0; i < nd; i++) dims[i] = 1;
  for (i = 0; i < nd; i++) coords[i] = 0;
  for (i = 0; i < nd; i++) per[i] = open;
  return MPI_SUCCESS;
}
int spec_MPI_Cart_coords(MPI_Comm c, int rank, int nd, int *coords)
{
  int i;
  if (rank != 0) DIE();
  for (i = 0; i < nd; i++) coords[i] = 0;
  return MPI_SUCCESS;
}
int spec_MPI_Dims_create(int nn, int nd, int *dims)
{
  int i;
  if (nn > 1) DIE();
  for (i = 0; i < nd; i++) dims[i] = 1;
  return MPI_SUCCESS;
}

#include "spec.h"
/* groups: none, no member, one member */
#define GROUP(g) ASSUME((g) == MPI_GROUP_NULL || (g) == MPI_GROUP_EMPTY || (g) == MPI_GROUP_ONE)
#define DIE() do { fprintf(stderr, "bad"); abort(); } while (0)
#define MEMBERS(g) ((g) == MPI_GROUP_ONE)

int spec_MPI_Group_incl(MPI_Group g, int n, int *r, MPI_Group *out)
{
  GROUP(g); ASSUME(n >= 0);
  if (g == MPI_GROUP_NULL) DIE();
  if (g == MPI_GROUP_EMPTY || n == 0) { *out = MPI_GROUP_EMPTY; return MPI_SUCCESS; }
  if (n != 1) DIE();
  if (r[0] != 0) DIE();
  *out = MPI_GROUP_ONE;
  return MPI_SUCCESS;
}
int spec_MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group *out)
{
  GROUP(g); ASSUME(n >= 0);
  if (g == MPI_GROUP_NULL) DIE();
  if (g == MPI_GROUP_EMPTY || n == 0) { *out = MPI_GROUP_EMPTY; return MPI_SUCCESS; }
  if (n != 1) DIE();
  if (r[0][0] != 0 || r[0][1] != 0) DIE();
  *out = MPI_GROUP_ONE;
  return MPI_SUCCESS;
}
int spec_MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *out)
{
  GROUP(a); GROUP(b);
  if (a == MPI_GROUP_NULL || b == MPI_GROUP_NULL) DIE();
  if (MEMBERS(a) || MEMBERS(b)) *out = MPI_GROUP_ONE; else *out = MPI_GROUP_EMPTY;
  return MPI_SUCCESS;
}
int spec_MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *out)
{
  GROUP(a); GROUP(b);
  if (a == MPI_GROUP_NULL || b == MPI_GROUP_NULL) DIE();
  if (MEMBERS(a) && MEMBERS(b)) *out = MPI_GROUP_ONE; else *out = MPI_GROUP_EMPTY;
  return MPI_SUCCESS;
}
int spec_MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *out)
{
  GROUP(a); GROUP(b);
  if (a == MPI_GROUP_NULL || b == MPI_GROUP_NULL) DIE();
  if (MEMBERS(a) && !MEMBERS(b)) *out = MPI_GROUP_ONE; else *out = MPI_GROUP_EMPTY;
  return MPI_SUCCESS;
}
int spec_MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int spec_MPI_Group_translate_ranks(MPI_Group a, int n, int *r1, MPI_Group b, int *r2)
{
  int i;
  GROUP(a); GROUP(b); ASSUME(n >= 0);
  if (a == MPI_GROUP_NULL || b == MPI_GROUP_NULL) DIE();
  if (n == 0) return MPI_SUCCESS;
  if (a == MPI_GROUP_EMPTY) DIE();
  for (i = 0; i < n; i++) {
    if (r1[i] != 0) DIE();
    r2[i] = b == MPI_GROUP_ONE ? 0 : MPI_UNDEFINED;
  }
  return MPI_SUCCESS;
}
MPI_Group spec_MPI_Group_f2c(MPI_Fint g) { return g; }
MPI_Fint spec_MPI_Group_c2f(MPI_Group g) { return g; }

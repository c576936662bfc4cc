#include "spec.h"
/* collectives on one process: own data, placed where the standard says */
#define DIE() do { fprintf(stderr, "bad root"); abort(); } while (0)
#define TYPE(h) (*(Datatype *)mpi_handle_to_datatype(h))
extern int Pcopy_data2(void *, int, Datatype, void *, int, Datatype);
extern int Type_extent(Datatype, MPI_Aint *);

static MPI_Aint spec__ext(MPI_Datatype t) { MPI_Aint e; Type_extent(TYPE(t), &e); return e; }
#define COPY(s, sc, st, d, dc, dt) Pcopy_data2(s, sc, TYPE(st), d, dc, TYPE(dt))

/* the root of a rooted operation: this process (0), or MPI_ROOT: nothing to do.
 * An operation in place has nothing to move. */
#define ROOTED(root, inplace) \
  if (inplace) { ASSUME(root == 0 || root == MPI_ROOT); return MPI_SUCCESS; } \
  if (root == MPI_ROOT) return MPI_SUCCESS; \
  if (root != 0) DIE()

int spec_MPI_Barrier(MPI_Comm c) { return MPI_SUCCESS; }
int spec_MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  ROOTED(root, 0);
  return MPI_SUCCESS;
}
int spec_MPI_Gather(void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm c)
{
  ROOTED(root, s == MPI_IN_PLACE);
  COPY(s, sc, st, r, rc, rt);
  return MPI_SUCCESS;
}
int spec_MPI_Gatherv(void *s, int sc, MPI_Datatype st, void *r, int *rc, int *d, MPI_Datatype rt, int root, MPI_Comm c)
{
  ROOTED(root, s == MPI_IN_PLACE);
  COPY(s, sc, st, (char *)r + d[0] * spec__ext(rt), rc[0], rt);
  return MPI_SUCCESS;
}
int spec_MPI_Allgather(void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c)
{
  if (s == MPI_IN_PLACE) return MPI_SUCCESS;
  COPY(s, sc, st, r, rc, rt);
  return MPI_SUCCESS;
}
int spec_MPI_Allgatherv(void *s, int sc, MPI_Datatype st, void *r, int *rc, int *d, MPI_Datatype rt, MPI_Comm c)
{
  if (s == MPI_IN_PLACE) return MPI_SUCCESS;
  COPY(s, sc, st, (char *)r + d[0] * spec__ext(rt), rc[0], rt);
  return MPI_SUCCESS;
}
int spec_MPI_Scatter(void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm c)
{
  ROOTED(root, r == MPI_IN_PLACE);
  COPY(s, sc, st, r, rc, rt);
  return MPI_SUCCESS;
}
int spec_MPI_Scatterv(void *s, int *sc, int *d, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm c)
{
  ROOTED(root, r == MPI_IN_PLACE);
  COPY((char *)s + d[0] * spec__ext(st), sc[0], st, r, rc, rt);
  return MPI_SUCCESS;
}
int spec_MPI_Reduce(void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
  ROOTED(root, s == MPI_IN_PLACE);
  COPY(s, n, t, r, n, t);
  return MPI_SUCCESS;
}
int spec_MPI_Allreduce(void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  if (s == MPI_IN_PLACE) return MPI_SUCCESS;
  COPY(s, n, t, r, n, t);
  return MPI_SUCCESS;
}
int spec_MPI_Reduce_scatter(void *s, void *r, int *n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  if (s == MPI_IN_PLACE) return MPI_SUCCESS;
  COPY(s, n[0], t, r, n[0], t);
  return MPI_SUCCESS;
}
int spec_MPI_Scan(void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  if (s == MPI_IN_PLACE) return MPI_SUCCESS;
  COPY(s, n, t, r, n, t);
  return MPI_SUCCESS;
}
int spec_MPI_Alltoall(void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c)
{
  if (s == MPI_IN_PLACE) return MPI_SUCCESS;
  COPY(s, sc, st, r, rc, rt);
  return MPI_SUCCESS;
}
int spec_MPI_Alltoallv(void *s, int *sc, int *sd, MPI_Datatype st, void *r, int *rc, int *rd, MPI_Datatype rt, MPI_Comm c)
{
  if (s == MPI_IN_PLACE) return MPI_SUCCESS;
  COPY((char *)s + sd[0] * spec__ext(st), sc[0], st, (char *)r + rd[0] * spec__ext(rt), rc[0], rt);
  return MPI_SUCCESS;
}
int spec_MPI_Alltoallw(void *s, int *sc, int *sd, MPI_Datatype *st, void *r, int *rc, int *rd, MPI_Datatype *rt, MPI_Comm c)
{
  if (s == MPI_IN_PLACE) return MPI_SUCCESS;
  COPY((char *)s + sd[0], sc[0], st[0], (char *)r + rd[0], rc[0], rt[0]);
  return MPI_SUCCESS;
}
MPI_Op spec_MPI_Op_f2c(MPI_Fint op) { return op; }
MPI_Fint spec_MPI_Op_c2f(MPI_Op op) { return op; }

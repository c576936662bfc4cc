#include "spec.h"
#define STOP() do { fprintf(stderr, "bad"); exit(1); } while (0)
#define TYPE(h) (*(Datatype *)mpi_handle_to_datatype(h))
extern int Pcopy_data2(void *, int, Datatype, void *, int, Datatype);

/* small cases in which differences are looked for */
void spec__peel_Pcopy_data2(void *src, int sc, Datatype st, void *dst, int dc, Datatype dt)
{
  ASSUME(st->committed && dt->committed);
  if (dc == 2) {
    ASSUME(dt->count == 1);
    if (sc == 1) ASSUME(st->count == 2); else { ASSUME(sc == 2); ASSUME(st->count == 1); }
  } else {
    ASSUME(dc == 1);
    if (dt->count == 2) {
      if (sc == 1) ASSUME(st->count == 2); else { ASSUME(sc == 2); ASSUME(st->count == 1); }
    } else {
      ASSUME(dt->count == 1);
      ASSUME(sc == 1);
      ASSUME(st->count == 1 || st->count == 0);
    }
  }
}
static void spec__few(int n, Datatype t)
{
  if (n == 2) ASSUME(t->count == 1);
  else {
    ASSUME(n == 1);
    ASSUME(t->count == 2);
  }
}
void spec__peel_Pack(void *in, int n, Datatype t, void *out, int outsize, int *pos, Comm *c) { spec__few(n, t); }
void spec__peel_Unpack(void *in, int insize, int *pos, void *out, int n, Datatype t, Comm *c) { spec__few(n, t); }
/* element i of the message is entry i%n of instance i/n of the type */
int spec_Pcopy_data2(void *src, int sc, Datatype st, void *dst, int dc, Datatype dt)
{
  int i;
  MPI_Aint se, de;
  ASSUME(sc >= 0 && dc >= 0);
  if (!st->committed || !dt->committed) STOP();
  if (sc * st->count < dc * dt->count) STOP();
  Type_extent(st, &se);
  Type_extent(dt, &de);
  for (i = 0; i < dc * dt->count; i++) {
    typepair *p = &st->pairs[i % st->count], *q = &dt->pairs[i % dt->count];
#ifdef TYPE_CHECKING
    if (p->type != q->type) STOP();
#endif
    memcpy((char *)dst + (i / dt->count) * de + q->disp,
           (char *)src + (i / st->count) * se + p->disp, Simpletype_length(q->type));
  }
  return MPI_SUCCESS;
}
int spec_copy_data2(void *src, int sc, MPI_Datatype st, void *dst, int dc, MPI_Datatype dt)
{
  return Pcopy_data2(src, sc, TYPE(st), dst, dc, TYPE(dt));
}

int spec_Pack(void *in, int n, Datatype t, void *out, int outsize, int *pos, Comm *c)
{
  int i, j;
  MPI_Aint e;
  ASSUME(n >= 0);
  Type_extent(t, &e);
  for (i = 0; i < n; i++)
    for (j = 0; j < t->count; j++) {
      int len = Simpletype_length(t->pairs[j].type);
      if (*pos + len > outsize) STOP();
      memcpy((char *)out + *pos, (char *)in + i * e + t->pairs[j].disp, len);
      *pos += len;
    }
  return MPI_SUCCESS;
}
int spec_Unpack(void *in, int insize, int *pos, void *out, int n, Datatype t, Comm *c)
{
  int i, j;
  MPI_Aint e;
  ASSUME(n >= 0);
  Type_extent(t, &e);
  for (i = 0; i < n; i++)
    for (j = 0; j < t->count; j++) {
      int len = Simpletype_length(t->pairs[j].type);
      if (*pos + len > insize) STOP();
      memcpy((char *)out + i * e + t->pairs[j].disp, (char *)in + *pos, len);
      *pos += len;
    }
  return MPI_SUCCESS;
}
/* the same, with room for everything checked before anything is copied */
static int spec__size(int n, Datatype t)
{
  int i, s = 0;
  for (i = 0; i < t->count; i++) s += Simpletype_length(t->pairs[i].type);
  return n * s;
}
int spec_Pack__whole(void *in, int n, Datatype t, void *out, int outsize, int *pos, Comm *c)
{
  int i, j;
  MPI_Aint e;
  ASSUME(n >= 0);
  Type_extent(t, &e);
  if (*pos + spec__size(n, t) > outsize) STOP();
  for (i = 0; i < n; i++)
    for (j = 0; j < t->count; j++) {
      int len = Simpletype_length(t->pairs[j].type);
      memcpy((char *)out + *pos, (char *)in + i * e + t->pairs[j].disp, len);
      *pos += len;
    }
  return MPI_SUCCESS;
}
int spec_Unpack__whole(void *in, int insize, int *pos, void *out, int n, Datatype t, Comm *c)
{
  int i, j;
  MPI_Aint e;
  ASSUME(n >= 0);
  Type_extent(t, &e);
  if (*pos + spec__size(n, t) > insize) STOP();
  for (i = 0; i < n; i++)
    for (j = 0; j < t->count; j++) {
      int len = Simpletype_length(t->pairs[j].type);
      memcpy((char *)out + i * e + t->pairs[j].disp, (char *)in + *pos, len);
      *pos += len;
    }
  return MPI_SUCCESS;
}
int spec_MPI_Pack(void *in, int n, MPI_Datatype t, void *out, int outsize, int *pos, MPI_Comm c)
{
  return Pack(in, n, TYPE(t), out, outsize, pos, mpi_handle_to_ptr(c));
}
int spec_MPI_Unpack(void *in, int insize, int *pos, void *out, int n, MPI_Datatype t, MPI_Comm c)
{
  return Unpack(in, insize, pos, out, n, TYPE(t), mpi_handle_to_ptr(c));
}
int spec_MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm c, MPI_Aint *size)
{
  Datatype d = TYPE(t);
  MPI_Aint s = 0;
  int i;
  for (i = 0; i < d->count; i++) s += Simpletype_length(d->pairs[i].type);
  *size = s * n;
  return MPI_SUCCESS;
}

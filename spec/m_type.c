#include "spec.h"
#include <limits.h>
#include <stddef.h>
/* datatypes */
#define TYPE(h) (*(Datatype *)mpi_handle_to_datatype(h))
extern int Pcopy_data2(void *, int, Datatype, void *, int, Datatype);
extern int Type_extent(Datatype, MPI_Aint *);
extern int Simpletype_length(Simpletype);
extern int Type_struct(int, int *, MPI_Aint *, Datatype *, Datatype *);

Datatype *spec_mpi_handle_to_datatype(int h)
{
  if (h < 0) return (Datatype *)&simpletypes[-1 - h];
  return (Datatype *)mpi_handle_to_ptr(h);
}

/* extent: ub - lb, rounded up to a multiple of the largest basic element when
 * no bound was set by the user */
int spec_Type_extent(Datatype t, MPI_Aint *e)
{
  MPI_Aint d = t->ub - t->lb;
  if (t->o_lb || t->o_ub) *e = d;
  else {
    long m = INT_MIN;
    int i;
    for (i = 0; i < t->count; i++) {
      int l = Simpletype_length(t->pairs[i].type);
      if (l > m) m = l;
    }
    m = (int)m;
    *e = d % m == 0 ? d : d + (m - (int)(d % m));
  }
  return MPI_SUCCESS;
}
int spec_MPI_Type_extent(MPI_Datatype t, MPI_Aint *e) { Type_extent(TYPE(t), e); return MPI_SUCCESS; }
int spec_Type_size(Datatype t, int *size)
{
  int i, s = 0;
  for (i = 0; i < t->count; i++) s += Simpletype_length(t->pairs[i].type);
  *size = s;
  return MPI_SUCCESS;
}
int spec_MPI_Type_size(MPI_Datatype t, int *size) { return spec_Type_size(TYPE(t), size); }
int spec_MPI_Type_lb(MPI_Datatype t, MPI_Aint *b) { *b = TYPE(t)->lb; return MPI_SUCCESS; }
int spec_MPI_Type_ub(MPI_Datatype t, MPI_Aint *b) { *b = TYPE(t)->ub; return MPI_SUCCESS; }
int spec_MPI_Get_address(void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
int spec_MPI_Address(void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
int spec_MPI_Type_commit(MPI_Datatype *t) { TYPE(*t)->committed = 1; return MPI_SUCCESS; }
int spec_MPI_Type_free(MPI_Datatype *t)
{
  free(TYPE(*t));
  mpi_free_handle(*t);
  *t = MPI_DATATYPE_NULL;
  return MPI_SUCCESS;
}

void spec__pre_calc_lb(Datatype t) { ASSUME(t->count >= 0); }
void spec__pre_calc_ub(Datatype t) { ASSUME(t->count >= 0); }
long spec_calc_lb(Datatype t)
{
  long m = LONG_MAX;
  int i;
  if (t->count == 0) return 0;
  for (i = 0; i < t->count; i++)
    if (t->pairs[i].disp < m) m = t->pairs[i].disp;
  return m;
}
long spec_calc_ub(Datatype t)
{
  long m = LONG_MIN;
  int i;
  if (t->count == 0) return 0;
  for (i = 0; i < t->count; i++) {
    long e = t->pairs[i].disp + Simpletype_length(t->pairs[i].type);
    if (e > m) m = e;
  }
  return m;
}

/* ---- the general builder: flattens count blocks, block i being blocklens[i]
 * instances of oldtypes[i], an extent apart, from displacements[i] on */
#define MAPSIZE(n) (offsetof(Typestruct, pairs) + ((n) > 0 ? (n) : 1) * sizeof(typepair))
#define MARK(t) ((t)->pairs[0].type == SIMPLE_LOWER || (t)->pairs[0].type == SIMPLE_UPPER)
#define KIND(i) old[i]->pairs[0].type
#define ORDINARY(i) do { ASSUME(KIND(i) == SIMPLE_INT); ASSUME(old[i]->count == 1); } while (0)
void spec__peel_Type_struct(int count, int *bl, MPI_Aint *disp, Datatype *old, Datatype *newtype)
{
  if (count == 2) {
    if (KIND(0) == SIMPLE_LOWER) {
      if (KIND(1) != SIMPLE_LOWER) { ORDINARY(1); ASSUME(bl[1] == 1); }
    } else if (KIND(0) == SIMPLE_UPPER) {
      if (KIND(1) != SIMPLE_UPPER) { ORDINARY(1); ASSUME(bl[1] == 1); }
    } else {
      ORDINARY(0);
      ASSUME(bl[0] == 1);
      if (KIND(1) != SIMPLE_LOWER && KIND(1) != SIMPLE_UPPER) {
        ORDINARY(1);
        ASSUME(bl[1] == 0 || bl[1] == 1);
      }
    }
  } else if (count == 1) {
    ASSUME(KIND(0) == SIMPLE_INT);
    if (bl[0] == 2) ASSUME(old[0]->count == 1);
    else {
      ASSUME(bl[0] == 1);
      ASSUME(old[0]->count == 2);
    }
  } else
    ASSUME(count == 0);
}
int spec_Type_struct(int count, int *bl, MPI_Aint *disp, Datatype *old, Datatype *newtype)
{
  Datatype t;
  int i, j, k, n = 0, m = 0, lo = 0, up = 0;
  MPI_Aint lb = LONG_MAX, ub = LONG_MIN, e, at;
  ASSUME(count >= 0);
  for (i = 0; i < count; i++) {
    Datatype o = old[i];
    if (o->pairs[0].type == SIMPLE_LOWER) {
      if (disp[i] < lb) lb = disp[i];
      lo = 1;
    } else if (o->pairs[0].type == SIMPLE_UPPER) {
      if (disp[i] > ub) ub = disp[i];
      up = 1;
    } else {
      if (o->o_lb && bl[i] > 0) lo = 1;
      if (o->o_ub && bl[i] > 0) up = 1;
      n += bl[i] * o->count;
    }
  }
  ASSUME(n >= 0);
  t = malloc(MAPSIZE(n));
  if (!t) { fprintf(stderr, "memory"); abort(); }
  t->pairs[0].disp = 0;
  t->pairs[0].type = SIMPLE_BYTE;
  t->o_lb = 0;
  t->o_ub = 0;
  t->committed = 0;
  t->count = n;
  for (i = 0; i < count; i++) {
    Datatype o = old[i];
    if (MARK(o)) continue;
    for (j = 0; j < bl[i]; j++) {
      Type_extent(o, &e);
      at = disp[i] + j * e;
      if (o->o_lb && o->lb + at < lb) lb = o->lb + at;
      if (o->o_ub && o->ub + at > ub) ub = o->ub + at;
      for (k = 0; k < o->count; k++) {
        t->pairs[m].type = o->pairs[k].type;
        t->pairs[m].disp = o->pairs[k].disp + at;
        m++;
      }
    }
  }
  if (lo) { t->o_lb = 1; t->lb = lb; } else t->lb = calc_lb(t);
  if (up) { t->o_ub = 1; t->ub = ub; } else t->ub = calc_ub(t);
  *newtype = t;
  return MPI_SUCCESS;
}

/* ---- constructors, in terms of the general builder */
#define NEW(h, p) Datatype *p; mpi_alloc_handle(h, (void **)&p)
#define ARR(n) int bl[n]; MPI_Aint d[n]; Datatype o[n]; int i; ASSUME(n >= 0)
int spec_MPI_Type_struct(int n, int *b, MPI_Aint *d, MPI_Datatype *old, MPI_Datatype *nt)
{
  Datatype o[n];
  int i;
  ASSUME(n >= 0);
  for (i = 0; i < n; i++) o[i] = TYPE(old[i]);
  NEW(nt, p);
  return Type_struct(n, b, d, o, p);
}
int spec_MPI_Type_contiguous(int n, MPI_Datatype old, MPI_Datatype *nt)
{
  ARR(n);
  Datatype t = TYPE(old);
  MPI_Aint e;
  NEW(nt, p);
  Type_extent(t, &e);
  for (i = 0; i < n; i++) { bl[i] = 1; d[i] = e * i; o[i] = t; }
  return Type_struct(n, bl, d, o, p);
}
int spec_MPI_Type_contiguous__one(int n, MPI_Datatype old, MPI_Datatype *nt)
{
  Datatype t = TYPE(old);
  MPI_Aint d = 0;
  NEW(nt, p);
  ASSUME(n >= 0);
  return Type_struct(1, &n, &d, &t, p);
}
int spec_MPI_Type_contiguous__guard(int n, MPI_Datatype old, MPI_Datatype *nt)
{
  Datatype t = TYPE(old);
  MPI_Aint d = 0;
  NEW(nt, p);
  return Type_struct(n > 0 ? 1 : 0, &n, &d, &t, p);
}
int spec_MPI_Type_hvector(int n, int len, MPI_Aint stride, MPI_Datatype old, MPI_Datatype *nt)
{
  ARR(n);
  Datatype t = TYPE(old);
  NEW(nt, p);
  for (i = 0; i < n; i++) { bl[i] = len; d[i] = stride * i; o[i] = t; }
  return Type_struct(n, bl, d, o, p);
}
int spec_MPI_Type_create_hvector(int n, int len, MPI_Aint stride, MPI_Datatype old, MPI_Datatype *nt)
{
  ARR(n);
  Datatype t = TYPE(old);
  NEW(nt, p);
  for (i = 0; i < n; i++) { bl[i] = len; d[i] = stride * i; o[i] = t; }
  return Type_struct(n, bl, d, o, p);
}
int spec_MPI_Type_vector(int n, int len, int stride, MPI_Datatype old, MPI_Datatype *nt)
{
  ARR(n);
  Datatype t = TYPE(old);
  MPI_Aint e;
  NEW(nt, p);
  Type_extent(t, &e);
  for (i = 0; i < n; i++) { bl[i] = len; d[i] = stride * e * i; o[i] = t; }
  return Type_struct(n, bl, d, o, p);
}
int spec_MPI_Type_hindexed(int n, int *b, MPI_Aint *disp, MPI_Datatype old, MPI_Datatype *nt)
{
  Datatype o[n], t = TYPE(old);
  int i;
  ASSUME(n >= 0);
  NEW(nt, p);
  for (i = 0; i < n; i++) o[i] = t;
  return Type_struct(n, b, disp, o, p);
}
int spec_MPI_Type_indexed(int n, int *b, int *disp, MPI_Datatype old, MPI_Datatype *nt)
{
  MPI_Aint d[n], e;
  Datatype o[n], t = TYPE(old);
  int i;
  ASSUME(n >= 0);
  NEW(nt, p);
  Type_extent(t, &e);
  for (i = 0; i < n; i++) { o[i] = t; d[i] = disp[i] * e; }
  return Type_struct(n, b, d, o, p);
}
int spec_MPI_Type_create_indexed_block(int n, int len, int *disp, MPI_Datatype old, MPI_Datatype *nt)
{
  ARR(n);
  Datatype t = TYPE(old);
  MPI_Aint e;
  NEW(nt, p);
  Type_extent(t, &e);
  for (i = 0; i < n; i++) { bl[i] = len; o[i] = t; d[i] = disp[i] * e; }
  return Type_struct(n, bl, d, o, p);
}
int spec_MPI_Type_dup(MPI_Datatype old, MPI_Datatype *nt)
{
  Datatype t = TYPE(old), n;
  int i;
  NEW(nt, p);
  ASSUME(t->count >= 0);
  n = malloc(MAPSIZE(t->count));
  if (!n) { fprintf(stderr, "memory"); abort(); }
  n->count = t->count;
  n->committed = t->committed;
  n->lb = t->lb;
  n->ub = t->ub;
  n->o_lb = t->o_lb;
  n->o_ub = t->o_ub;
  n->pairs[0].disp = t->pairs[0].disp;
  n->pairs[0].type = t->pairs[0].type;
  for (i = 0; i < t->count; i++) {
    n->pairs[i].disp = t->pairs[i].disp;
    n->pairs[i].type = t->pairs[i].type;
  }
  *p = n;
  return MPI_SUCCESS;
}

/* size of a basic type; markers and anything else have none */
int spec_Simpletype_length(Simpletype t)
{
  switch (t) {
  case SIMPLE_CHAR: case SIMPLE_UCHAR: case SIMPLE_SCHAR: case SIMPLE_BYTE: case SIMPLE_FINTEGER1: return 1;
  case SIMPLE_SHORT: case SIMPLE_USHORT: return sizeof(short);
  case SIMPLE_FINTEGER2: return 2;
  case SIMPLE_INT: case SIMPLE_UINT: return sizeof(int);
  case SIMPLE_LONG: case SIMPLE_ULONG: return sizeof(long);
  case SIMPLE_LONGLONG: case SIMPLE_ULONGLONG: return sizeof(long long);
  case SIMPLE_WCHAR: return sizeof(wchar_t);
  case SIMPLE_OFFSET: return sizeof(MPI_Offset);
  case SIMPLE_FLOAT: return sizeof(float);
  case SIMPLE_DOUBLE: return sizeof(double);
  case SIMPLE_LDOUBLE: return sizeof(long double);
  case SIMPLE_FINTEGER: return FSIZE_INTEGER;
  case SIMPLE_FREAL: return FSIZE_REAL;
  case SIMPLE_FDPRECISION: return FSIZE_DPRECISION;
  case SIMPLE_FCOMPLEX: return FSIZE_COMPLEX;
  case SIMPLE_FDCOMPLEX: return FSIZE_DCOMPLEX;
  case SIMPLE_FLOGICAL: return FSIZE_LOGICAL;
  case SIMPLE_FCHARACTER: return FSIZE_CHARACTER;
  case SIMPLE_FINTEGER4: case SIMPLE_FREAL4: return 4;
  case SIMPLE_FINTEGER8: case SIMPLE_FREAL8: case SIMPLE_FCOMPLEX8: return 8;
  case SIMPLE_FINTEGER16: case SIMPLE_FREAL16: case SIMPLE_FCOMPLEX16: return 16;
  case SIMPLE_FCOMPLEX32: return 32;
  }
  fprintf(stderr, "invalid type");
  exit(1);
}

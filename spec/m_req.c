#include "spec.h"
/* completion */
#define DIE() do { fprintf(stderr, "bad"); abort(); } while (0)

static void spec__empty(MPI_Status *st)
{
  if (st) {
    st->MPI_SOURCE = MPI_ANY_SOURCE;
    st->MPI_TAG = MPI_ANY_TAG;
    st->get_count = 0;
  }
}
/* 1 when the request (null or complete) is finished; it is then released once
 * and null */
static int spec__try(MPI_Request *rq, MPI_Status *st)
{
  Req *r;
  if (*rq == MPI_REQUEST_NULL) { spec__empty(st); return 1; }
  r = mpi_handle_to_ptr(*rq);
  ASSUME(r->complete == 0 || r->complete == 1);
  if (!r->complete) return 0;
  if (st) {
    st->MPI_SOURCE = r->source;
    st->MPI_TAG = r->tag;
    st->get_count = r->count;
  }
  mpi_free_handle(*rq);
  *rq = MPI_REQUEST_NULL;
  return 1;
}
int spec_MPI_Test(MPI_Request *rq, int *flag, MPI_Status *st)
{
  *flag = spec__try(rq, st);
  return MPI_SUCCESS;
}
int spec_MPI_Wait(MPI_Request *rq, MPI_Status *st)
{
  if (!spec__try(rq, st)) DIE();
  return MPI_SUCCESS;
}
/* small cases in which differences are looked for: ready, pending and null
 * requests in between others */
static void spec__ready(MPI_Request r) { ASSUME(r != MPI_REQUEST_NULL); ASSUME(((Req *)mpi_handle_to_ptr(r))->complete == 1); }
static void spec__pending(MPI_Request r) { ASSUME(r != MPI_REQUEST_NULL); ASSUME(((Req *)mpi_handle_to_ptr(r))->complete == 0); }
static void spec__null(MPI_Request r) { ASSUME(r == MPI_REQUEST_NULL); }
static void spec__some(int n, MPI_Request *rq)
{
  if (n == 5) {
    spec__ready(rq[0]); spec__ready(rq[1]); spec__null(rq[2]); spec__ready(rq[3]); spec__pending(rq[4]);
  } else {
    ASSUME(n == 4);
    spec__null(rq[0]); spec__pending(rq[1]); spec__ready(rq[2]); spec__ready(rq[3]);
  }
}
static void spec__all(int n, MPI_Request *rq)
{
  if (n == 4) {
    spec__ready(rq[0]); spec__ready(rq[1]); spec__null(rq[2]);
    if (rq[3] == MPI_REQUEST_NULL) ; else spec__ready(rq[3]);
  } else {
    ASSUME(n == 3);
    spec__ready(rq[0]); spec__ready(rq[1]); spec__pending(rq[2]);
  }
}
static void spec__any(int n, MPI_Request *rq)
{
  ASSUME(n == 4);
  spec__null(rq[0]); spec__pending(rq[1]); spec__null(rq[2]);
  if (rq[3] == MPI_REQUEST_NULL) ; else spec__ready(rq[3]);
}
void spec__peel_MPI_Testsome(int n, MPI_Request *rq, int *out, int *idx, MPI_Status *st) { spec__some(n, rq); }
void spec__peel_MPI_Waitsome(int n, MPI_Request *rq, int *out, int *idx, MPI_Status *st) { spec__some(n, rq); }
void spec__peel_MPI_Testall(int n, MPI_Request *rq, int *flag, MPI_Status *st) { spec__all(n, rq); }
void spec__peel_MPI_Waitall(int n, MPI_Request *rq, MPI_Status *st) { spec__all(n, rq); }
void spec__peel_MPI_Testany(int n, MPI_Request *rq, int *index, int *flag, MPI_Status *st) { spec__any(n, rq); }
void spec__peel_MPI_Waitany(int n, MPI_Request *rq, int *index, MPI_Status *st) { spec__any(n, rq); }
int spec_MPI_Testany(int n, MPI_Request *rq, int *index, int *flag, MPI_Status *st)
{
  int i, active = 0;
  ASSUME(n >= 0);
  for (i = 0; i < n; i++) {
    if (rq[i] == MPI_REQUEST_NULL) continue;
    active++;
    if (spec__try(&rq[i], st)) {
      *index = i;
      *flag = 1;
      return MPI_SUCCESS;
    }
  }
  *index = MPI_UNDEFINED;
  if (active) { *flag = 0; return MPI_SUCCESS; }
  spec__empty(st);
  *flag = 1;
  return MPI_SUCCESS;
}
int spec_MPI_Waitany(int n, MPI_Request *rq, int *index, MPI_Status *st)
{
  int i, active = 0;
  ASSUME(n >= 0);
  for (i = 0; i < n; i++) {
    if (rq[i] == MPI_REQUEST_NULL) continue;
    active++;
    if (spec__try(&rq[i], st)) {
      *index = i;
      return MPI_SUCCESS;
    }
  }
  if (active) DIE();
  *index = MPI_UNDEFINED;
  spec__empty(st);
  return MPI_SUCCESS;
}
int spec_MPI_Testall(int n, MPI_Request *rq, int *flag, MPI_Status *st)
{
  int i, all = 1;
  ASSUME(n >= 0);
  for (i = 0; i < n; i++) {
    Req *r;
    if (rq[i] == MPI_REQUEST_NULL) continue;
    r = mpi_handle_to_ptr(rq[i]);
    if (!r->complete) all = 0;
  }
  *flag = all;
  if (!all) return MPI_SUCCESS;
  for (i = 0; i < n; i++)
    spec__try(&rq[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
  return MPI_SUCCESS;
}
int spec_MPI_Waitall(int n, MPI_Request *rq, MPI_Status *st)
{
  int i;
  ASSUME(n >= 0);
  for (i = 0; i < n; i++)
    if (!spec__try(&rq[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i])) DIE();
  return MPI_SUCCESS;
}
/* the same, noticing an unfinished request before completing any */
int spec_MPI_Waitall__testall(int n, MPI_Request *rq, MPI_Status *st)
{
  int i, all = 1;
  ASSUME(n >= 0);
  for (i = 0; i < n; i++) {
    Req *r;
    if (rq[i] == MPI_REQUEST_NULL) continue;
    r = mpi_handle_to_ptr(rq[i]);
    if (!r->complete) all = 0;
  }
  if (!all) DIE();
  for (i = 0; i < n; i++)
    spec__try(&rq[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
  return MPI_SUCCESS;
}
int spec_MPI_Testsome(int n, MPI_Request *rq, int *out, int *idx, MPI_Status *st)
{
  int i, k = 0, active = 0;
  ASSUME(n >= 0);
  for (i = 0; i < n; i++) {
    if (rq[i] == MPI_REQUEST_NULL) continue;
    active++;
    if (spec__try(&rq[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[k])) {
      idx[k] = i;
      k++;
    }
  }
  *out = active ? k : MPI_UNDEFINED;
  return MPI_SUCCESS;
}
int spec_MPI_Waitsome(int n, MPI_Request *rq, int *out, int *idx, MPI_Status *st)
{
  int i, k = 0, active = 0;
  ASSUME(n >= 0);
  for (i = 0; i < n; i++) {
    if (rq[i] == MPI_REQUEST_NULL) continue;
    active++;
    if (spec__try(&rq[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[k])) {
      idx[k] = i;
      k++;
    }
  }
  if (active && k == 0) DIE();
  *out = active ? k : MPI_UNDEFINED;
  return MPI_SUCCESS;
}
int spec_MPI_Request_free(MPI_Request *rq)
{
  Req *r;
  if (*rq != MPI_REQUEST_NULL) {
    r = mpi_handle_to_ptr(*rq);
    if (r->complete) mpi_free_handle(*rq);
    else r->detached = 1;
    *rq = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
  }
  *rq = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
MPI_Request spec_MPI_Request_f2c(MPI_Fint r) { return r; }
MPI_Fint spec_MPI_Request_c2f(MPI_Request r) { return r; }

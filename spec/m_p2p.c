#include "spec.h"
/* point-to-point messages within one process */
#define DIE() do { fprintf(stderr, "bad"); abort(); } while (0)
#define TYPE(h) (*(Datatype *)mpi_handle_to_datatype(h))
extern int Pcopy_data2(void *, int, Datatype, void *, int, Datatype);
#ifdef INFO
int print_list(pList list, char *msg, int num);
#endif

int spec_MPI_Isend(void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request *request)
{
  Comm *c;
  Req *s, *r;
  pListitem i;
  int h;
  ASSUME(comm != MPI_COMM_NULL);
  c = mpi_handle_to_ptr(comm);
  if (dest != 0 && dest != MPI_PROC_NULL) DIE();
  mpi_alloc_handle(&h, (void **)&s);
  *request = h;
  s->handle = h;
  s->detached = 0;
  s->count = count;
  if (dest == MPI_PROC_NULL) {
    s->complete = 1;
    s->source = MPI_PROC_NULL;
    s->tag = MPI_ANY_TAG;
    return MPI_SUCCESS;
  }
  s->source = 0;
  s->tag = tag;
  /* oldest posted receive that accepts the tag */
  for (i = c->recvlist->head; i; i = i->next) {
    r = i->data;
    if (r->tag == MPI_ANY_TAG || r->tag == tag) {
      AP_list_delete_item(c->recvlist, i);
      Pcopy_data2(buf, count, TYPE(type), r->buf, r->count, TYPE(r->type));
      s->complete = 1;
      r->complete = 1;
      r->source = 0;
      r->tag = tag;
      if (r->detached) mpi_free_handle(r->handle);
      return MPI_SUCCESS;
    }
  }
  s->buf = buf;
  s->type = type;
  s->complete = 0;
  s->listitem = AP_list_append(c->sendlist, s);
  return MPI_SUCCESS;
}

int spec_MPI_Irecv(void *buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Request *request)
{
  Comm *c;
  Req *s, *r;
  pListitem i;
  int h;
  ASSUME(comm != MPI_COMM_NULL);
  c = mpi_handle_to_ptr(comm);
  if (source != 0 && source != MPI_ANY_SOURCE && source != MPI_PROC_NULL) DIE();
  mpi_alloc_handle(&h, (void **)&r);
  *request = h;
  r->handle = h;
  r->detached = 0;
  if (source == MPI_PROC_NULL) {
    r->complete = 1;
    r->count = 0;
    r->source = MPI_PROC_NULL;
    r->tag = MPI_ANY_TAG;
    return MPI_SUCCESS;
  }
  r->count = count;
  /* oldest queued message with an acceptable tag */
  for (i = c->sendlist->head; i; i = i->next) {
    s = i->data;
    if (tag == MPI_ANY_TAG || s->tag == tag) {
      AP_list_delete_item(c->sendlist, i);
      Pcopy_data2(s->buf, s->count, TYPE(s->type), buf, count, TYPE(type));
      r->complete = 1;
      r->source = 0;
      r->tag = s->tag;
      s->complete = 1;
      if (s->detached) mpi_free_handle(s->handle);
      return MPI_SUCCESS;
    }
  }
  r->buf = buf;
  r->type = type;
  r->tag = tag;
  r->complete = 0;
  r->listitem = AP_list_append(c->recvlist, r);
  return MPI_SUCCESS;
}

int spec_MPI_Send(void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
{
  MPI_Request r;
  ASSUME(comm != MPI_COMM_NULL);
  MPI_Isend(buf, count, type, dest, tag, comm, &r);
  MPI_Wait(&r, MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}
int spec_MPI_Ssend(void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
{
  MPI_Request r;
  ASSUME(comm != MPI_COMM_NULL);
  MPI_Isend(buf, count, type, dest, tag, comm, &r);
  MPI_Wait(&r, MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}
int spec_MPI_Rsend(void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
{
  MPI_Request r;
  ASSUME(comm != MPI_COMM_NULL);
  MPI_Isend(buf, count, type, dest, tag, comm, &r);
  MPI_Wait(&r, MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}
int spec_MPI_Recv(void *buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Status *st)
{
  MPI_Request r;
  ASSUME(comm != MPI_COMM_NULL);
  MPI_Irecv(buf, count, type, source, tag, comm, &r);
  MPI_Wait(&r, st);
  return MPI_SUCCESS;
}
int spec_MPI_Irsend(void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request *request)
{
  Req *q;
  ASSUME(comm != MPI_COMM_NULL);
  MPI_Isend(buf, count, type, dest, tag, comm, request);
  q = mpi_handle_to_ptr(*request);
  if (!q->complete) DIE();
  return MPI_SUCCESS;
}

int spec_MPI_Sendrecv(void *sb, int sc, MPI_Datatype st, int dest, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *stat)
{
  MPI_Request r;
  MPI_Irecv(rb, rc, rt, src, rtag, comm, &r);
  MPI_Send(sb, sc, st, dest, stag, comm);
  MPI_Wait(&r, stat);
  return MPI_SUCCESS;
}
int spec_MPI_Sendrecv__2(void *sb, int sc, MPI_Datatype st, int dest, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *stat)
{
  MPI_Request r, s;
  MPI_Irecv(rb, rc, rt, src, rtag, comm, &r);
  MPI_Isend(sb, sc, st, dest, stag, comm, &s);
  MPI_Wait(&s, MPI_STATUS_IGNORE);
  MPI_Wait(&r, stat);
  return MPI_SUCCESS;
}
int spec_MPI_Sendrecv__3(void *sb, int sc, MPI_Datatype st, int dest, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *stat)
{
  MPI_Request r, s;
  MPI_Irecv(rb, rc, rt, src, rtag, comm, &r);
  MPI_Isend(sb, sc, st, dest, stag, comm, &s);
  MPI_Wait(&r, stat);
  MPI_Wait(&s, MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}

int spec_MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag, MPI_Status *st)
{
  Comm *c;
  pListitem i;
  ASSUME(comm != MPI_COMM_NULL);
  c = mpi_handle_to_ptr(comm);
  if (source == MPI_PROC_NULL) {
    *flag = 1;
    if (st) {
      st->MPI_SOURCE = MPI_PROC_NULL;
      st->MPI_TAG = MPI_ANY_TAG;
      st->get_count = 0;
    }
    return MPI_SUCCESS;
  }
  if (source != 0 && source != MPI_ANY_SOURCE) DIE();
  for (i = c->sendlist->head; i; i = i->next) {
    Req *s = i->data;
    if (tag == MPI_ANY_TAG || s->tag == tag) {
      *flag = 1;
      if (st) {
        st->MPI_SOURCE = 0;
        st->MPI_TAG = s->tag;
        st->get_count = s->count;
      }
      return MPI_SUCCESS;
    }
  }
  *flag = 0;
  return MPI_SUCCESS;
}
int spec_MPI_Probe(int source, int tag, MPI_Comm comm, MPI_Status *st)
{
  int flag;
  ASSUME(comm != MPI_COMM_NULL);
  MPI_Iprobe(source, tag, comm, &flag, st);
  if (!flag) DIE();
  return MPI_SUCCESS;
}
int spec_MPI_Sendrecv__4(void *sb, int sc, MPI_Datatype st, int dest, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *stat)
{
  MPI_Request s;
  MPI_Isend(sb, sc, st, dest, stag, comm, &s);
  MPI_Recv(rb, rc, rt, src, rtag, comm, stat);
  MPI_Wait(&s, MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}
int spec_MPI_Sendrecv__5(void *sb, int sc, MPI_Datatype st, int dest, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *stat)
{
  MPI_Request r, s;
  MPI_Isend(sb, sc, st, dest, stag, comm, &s);
  MPI_Irecv(rb, rc, rt, src, rtag, comm, &r);
  MPI_Wait(&r, stat);
  MPI_Wait(&s, MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}
int spec_MPI_Sendrecv__6(void *sb, int sc, MPI_Datatype st, int dest, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *stat)
{
  MPI_Request r, s;
  MPI_Isend(sb, sc, st, dest, stag, comm, &s);
  MPI_Irecv(rb, rc, rt, src, rtag, comm, &r);
  MPI_Wait(&s, MPI_STATUS_IGNORE);
  MPI_Wait(&r, stat);
  return MPI_SUCCESS;
}

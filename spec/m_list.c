#include <stdlib.h>
#include <stdio.h>
#include "listops.h"
#include "listP.h"
void spec_assume(int);
#define ASSUME(x) spec_assume(!!(x))
#define IFF(a, b) if (a) ASSUME(b); else ASSUME(!(b));

static pListitem spec__node(void)
{
  pListitem n = malloc(sizeof(Listitem));
  if (!n) { fprintf(stderr, "memory"); abort(); }
  return n;
}
pList spec_AP_list_new(void)
{
  pList l = malloc(sizeof(List));
  if (!l) { fprintf(stderr, "memory"); abort(); }
  l->head = l->tail = NULL;
  l->count = 0;
  return l;
}
/* a list is empty at both ends or at neither */
void spec__pre_AP_list_append(pList l, void *d) { IFF(l->head == NULL, l->tail == NULL) }
void spec__pre_AP_list_prepend(pList l, void *d) { IFF(l->head == NULL, l->tail == NULL) }
/* an item without predecessor is the head, and so on */
void spec__pre_AP_list_delete_item(pList l, pListitem it)
{
  pListitem p = it->prev, n = it->next;
#ifdef CHECKS
  ASSUME(it->list == l);
#endif
  IFF(p == NULL, it == l->head)
  IFF(n == NULL, it == l->tail)
  ASSUME(p != it && n != it && (p != n || p == NULL));
}
pListitem spec_AP_list_append(pList l, void *d)
{
  pListitem n = spec__node();
  n->data = d;
  n->next = NULL;
  n->prev = l->tail;
#ifdef CHECKS
  n->list = l;
#endif
  if (l->tail == NULL) l->head = n;
  else l->tail->next = n;
  l->tail = n;
  l->count++;
  return n;
}
pListitem spec_AP_list_prepend(pList l, void *d)
{
  pListitem n = spec__node();
  n->data = d;
  n->prev = NULL;
  n->next = l->head;
#ifdef CHECKS
  n->list = l;
#endif
  if (l->head != NULL) l->head->prev = n;
  if (l->tail == NULL) l->tail = n;
  l->head = n;
  l->count++;
  return n;
}
void spec_AP_list_delete_item(pList l, pListitem it)
{
  pListitem p = it->prev, n = it->next;
  if (p == NULL) l->head = n; else p->next = n;
  if (n == NULL) l->tail = p; else n->prev = p;
  l->count--;
  free(it);
}
pListitem spec_AP_list_search(pList l, void *d)
{
  pListitem c;
  for (c = l->head; c; c = c->next)
    if (c->data == d) return c;
  return NULL;
}
pListitem spec_AP_list_search_func(pList l, int (*f)(void *, void *), void *d)
{
  pListitem c;
  for (c = l->head; c; c = c->next)
    if (f(c->data, d)) return c;
  return NULL;
}
int spec_AP_list_delete(pList l, void *d)
{
  pListitem c;
  for (c = l->head; c; c = c->next)
    if (c->data == d) { AP_list_delete_item(l, c); return 1; }
  return 0;
}
int spec_AP_list_size(pList l) { return l->count; }
pListitem spec_AP_listitem_prev(pListitem i) { return i->prev; }
pListitem spec_AP_listitem_next(pListitem i) { return i->next; }
void *spec_AP_listitem_data(pListitem i) { return i->data; }
pListitem spec_AP_list_head_item(pList l) { return l->head; }
int spec_AP_list_head(pList l, void **d)
{
  if (l->head == NULL) return 0;
  *d = l->head->data;
  return 1;
}
int spec_AP_list_tail(pList l, void **d)
{
  if (l->tail == NULL) return 0;
  *d = l->tail->data;
  return 1;
}
void spec_AP_list_free(pList l)
{
  pListitem c = l->head, n;
  int k = 0;
  while (c) {
    n = c->next;
    free(c);
    k++;
    c = n;
  }
  ASSUME(k == l->count);
  free(l);
}
int spec_AP_list_next(pList l, void **d, void **t)
{
  pListitem c = *t ? ((pListitem)*t)->next : l->head;
  if (!c) return 0;
  *d = c->data;
  *t = c;
  return 1;
}
int spec_AP_list_apply(pList l, int (*f)(void *, void *), void *d)
{
  pListitem c;
  int n = 0;
  for (c = l->head; c; c = c->next)
    n += f(c->data, d);
  return n;
}
void *spec_AP_list_braindead_next(pList l, void **t)
{
  pListitem c = *t ? ((pListitem)*t)->next : l->head;
  if (!c) return NULL;
  *t = c;
  return c->data;
}

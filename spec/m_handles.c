#include "handles.c"
void spec_assume(int);
#define ASSUME(x) spec_assume(!!(x))

/* a fresh pool: item i of block 0 names itself and precedes item i+1; item 0
 * is not in the pool */
static void spec__fresh(void)
{
  int i;
  for (i = 0; i < BLOCK_ITEMS; i++)
    block0[i].handle = i;
  for (i = 0; i < BLOCK_ITEMS - 1; i++)
    block0[i].next = &block0[i + 1];
  block0[BLOCK_ITEMS - 1].next = NULL;
  block0[0].next = NULL;
  nextfree = &block0[1];
  for (i = 1; i < MAX_BLOCKS; i++)
    blocks[i] = NULL;
  blocks[0] = block0;
  nblocks = 1;
  need_to_init = 0;
}

void spec_mpi_alloc_handle(int *handle, void **data)
{
  Handleitem *it;
  int i;
  if (need_to_init) {
    spec__fresh();
    *handle = 1;
    *data = &block0[1].data;
    nextfree = &block0[2];
    block0[1].next = NULL;
    return;
  }
  it = nextfree;
  if (it == NULL) {
    if (nblocks == MAX_BLOCKS) { fprintf(stderr, "full"); abort(); }
    ASSUME(nblocks > 0 && nblocks < MAX_BLOCKS);
    it = malloc(sizeof(Handleitem) * BLOCK_ITEMS);
    blocks[nblocks] = it;
    for (i = 0; i < BLOCK_ITEMS; i++)
      it[i].handle = nblocks * BLOCK_ITEMS + i;
    for (i = 0; i < BLOCK_ITEMS - 1; i++)
      it[i].next = &it[i + 1];
    it[BLOCK_ITEMS - 1].next = NULL;
    it[0].next = NULL;
    nextfree = &it[1];
    *handle = nblocks * BLOCK_ITEMS;
    *data = &it[0].data;
    nblocks++;
    return;
  }
  nextfree = it->next;
  it->next = NULL;
  *handle = it->handle;
  *data = &it->data;
}

/* handles are those the library gave out */
void spec__pre_mpi_handle_to_ptr(int h) { ASSUME(h >= 0 && h < MAX_BLOCKS * BLOCK_ITEMS); }
void spec__pre_mpi_free_handle(int h) { ASSUME(h >= 0 && h < MAX_BLOCKS * BLOCK_ITEMS); }
/* with CHECKS the code verifies the handle it is given: a call with a handle
   that names nothing is outside of what callers may do */
#ifdef CHECKS
#define LIVE(h) ASSUME((h) / BLOCK_ITEMS < nblocks && blocks[(h) / BLOCK_ITEMS][(h) % BLOCK_ITEMS].handle == (h))
#else
#define LIVE(h)
#endif
void *spec_mpi_handle_to_ptr(int h)
{
  if (need_to_init) spec__fresh();
  if (h == 0) return NULL;
  ASSUME(h > 0 && h < MAX_BLOCKS * BLOCK_ITEMS);
  LIVE(h);
  return &blocks[h / BLOCK_ITEMS][h % BLOCK_ITEMS].data;
}

void spec_mpi_free_handle(int h)
{
  Handleitem *it;
  if (h == 0) return;
  if (need_to_init) { fprintf(stderr, "no"); abort(); }
  ASSUME(h > 0 && h < MAX_BLOCKS * BLOCK_ITEMS);
  LIVE(h);
  it = &blocks[h / BLOCK_ITEMS][h % BLOCK_ITEMS];
#ifdef CHECKS
  ASSUME(it->next == NULL);  /* a handle in use is on no free list */
#endif
  it->next = nextfree;
  nextfree = it;
}

void spec_mpi_destroy_handles(void)
{
  int i;
  if (need_to_init) return;
  for (i = 1; i < nblocks; i++)
    free(blocks[i]);
  need_to_init = 1;
}
void spec_mpi_destroy_handles__down(void)
{
  int i;
  if (need_to_init) return;
  for (i = nblocks - 1; i > 0; i--)
    free(blocks[i]);
  need_to_init = 1;
}
void *spec_mpi_malloc(int n)
{
  void *p = malloc(n);
  if (p == NULL) { fprintf(stderr, "memory"); abort(); }
  return p;
}
void spec_mpi_free(void *p) { free(p); }

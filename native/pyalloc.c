/*
 * Guarded allocator for liblbfgs inside the Python extension: lbfgs.c is
 * compiled with malloc/free renamed to these.  Every block ends at a page that
 * cannot be accessed, becomes inaccessible when freed and stays so until
 * vp_reset(); a chosen allocation fails; live blocks are counted.
 */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>

#define PAGE 4096
#define SLOTS 4096
#define SLOTPAGES 2
static char *arena;
static size_t slot_size[SLOTS];             /* size + 1 while live */
static int next, live, allocs, fail_at, fail_forever, bad_free;

void vp_reset(void)
{
    if (!arena)
        arena = mmap(NULL, (size_t)SLOTS * SLOTPAGES * PAGE, PROT_NONE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    else
        mprotect(arena, (size_t)SLOTS * SLOTPAGES * PAGE, PROT_NONE);
    memset(slot_size, 0, sizeof slot_size);
    next = live = allocs = fail_at = fail_forever = bad_free = 0;
}
void vp_arm(int k, int forever) { allocs = 0; fail_at = k; fail_forever = forever; }
int vp_allocs(void) { return allocs; }
int vp_live(void) { return live; }
int vp_bad(void) { return bad_free; }

void *vp_malloc(size_t size)
{
    int k = ++allocs;
    size_t room = (SLOTPAGES - 1) * (size_t)PAGE;
    char *base;
    if (!arena) vp_reset();
    if (fail_at && (k == fail_at || (fail_forever && k > fail_at))) return NULL;
    if (size > room || next >= SLOTS) return NULL;
    base = arena + (size_t)next * SLOTPAGES * PAGE;
    mprotect(base, room, PROT_READ | PROT_WRITE);
    memset(base, 0x5a, room - size);
    memset(base + room - size, 0xfb, size);
    slot_size[next++] = size + 1;
    ++live;
    return base + room - size;
}

void vp_free(void *p)
{
    size_t i, room = (SLOTPAGES - 1) * (size_t)PAGE;
    char *base, *c;
    if (!p) return;
    i = ((char *)p - arena) / (SLOTPAGES * (size_t)PAGE);
    base = arena + i * SLOTPAGES * PAGE;
    if (i >= SLOTS || !slot_size[i] ||
        (char *)p != base + room - (slot_size[i] - 1)) {
        ++bad_free;
        return;
    }
    for (c = base; c < (char *)p; ++c)
        if (*c != 0x5a) { ++bad_free; break; }
    slot_size[i] = 0;
    mprotect(base, room, PROT_NONE);
    --live;
}

void *vp_calloc(size_t n, size_t size)
{
    void *p = vp_malloc(n * size);
    if (p) memset(p, 0, n * size);
    return p;
}

void *vp_realloc(void *p, size_t size)
{
    void *q = vp_malloc(size);
    if (p && q) {
        size_t i = ((char *)p - arena) / (SLOTPAGES * (size_t)PAGE);
        size_t old = i < SLOTS && slot_size[i] ? slot_size[i] - 1 : 0;
        memcpy(q, p, old < size ? old : size);
        vp_free(p);
    }
    return q;
}

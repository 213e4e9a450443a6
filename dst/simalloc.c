/* Fault-injecting data allocator for numpy (installed through PyDataMem_SetHandler).
 *
 * Every numpy array buffer in the process is obtained through sim_malloc/sim_calloc/
 * sim_realloc.  While a thread is "armed", its allocations of at least `threshold` bytes are
 * counted, and the `fail_at`-th of them (1-based; 0 = only count) returns NULL once, which numpy
 * reports as MemoryError from wherever the allocation really happened.  Unarmed threads
 * always get memory.  New memory holds what the simulator decides (zeros, or a multiple of some
 * number that differs from block to block), never what happened to be there.  The live-byte counter gives the exact amount of array memory held.
 */
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

static __thread int armed = 0;
static __thread long threshold = 1, fail_at = 0, counted = 0, fired = 0;
static __thread int sticky = 0;
static long long live_bytes = 0, live_blocks = 0, total_allocs = 0;

/* what new memory contains before it is written to: every block its own multiple of a value */
static double dirt = 0.0;
static long long dirty_blocks = 0;

static void soil(void *p, size_t from, size_t size)
{
    if (!p || size <= from) return;
    long long k = __atomic_fetch_add(&dirty_blocks, 1, __ATOMIC_RELAXED);
    double v = dirt * (1.0 + (double)(k % 97));
    size_t i = from;
    for (; i % sizeof v && i < size; i++) ((char *)p)[i] = ((char *)&v)[i % sizeof v];
    for (; i + sizeof v <= size; i += sizeof v) memcpy((char *)p + i, &v, sizeof v);
    for (; i < size; i++) ((char *)p)[i] = ((char *)&v)[i % sizeof v];
}

static int deny(size_t size)
{
    if (!armed || (long)size < threshold)
        return 0;
    counted++;
    if (fail_at > 0 && (counted == fail_at || (sticky && counted > fail_at))) {
        fired++;
        return 1;
    }
    return 0;
}

static void *account(void *p)
{
    if (p) {
        __atomic_add_fetch(&live_bytes, (long long)malloc_usable_size(p), __ATOMIC_RELAXED);
        __atomic_add_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&total_allocs, 1, __ATOMIC_RELAXED);
    }
    return p;
}

static void unaccount(void *p)
{
    if (p) {
        __atomic_sub_fetch(&live_bytes, (long long)malloc_usable_size(p), __ATOMIC_RELAXED);
        __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
    }
}

static void *sim_malloc(void *ctx, size_t size)
{
    (void)ctx;
    if (deny(size)) return NULL;
    void *p = account(malloc(size ? size : 1));
    soil(p, 0, size);
    return p;
}

static void *sim_calloc(void *ctx, size_t n, size_t el)
{
    (void)ctx;
    if (deny(n * el)) return NULL;
    return account(calloc(n ? n : 1, el ? el : 1));
}

static void *sim_realloc(void *ctx, void *p, size_t size)
{
    (void)ctx;
    if (deny(size)) return NULL;
    unaccount(p);
    size_t old = p ? malloc_usable_size(p) : 0;
    void *q = realloc(p, size ? size : 1);
    if (!q) { account(p); return NULL; }
    soil(q, old, size);
    return account(q);
}

static void sim_free(void *ctx, void *p, size_t size)
{
    (void)ctx; (void)size;
    unaccount(p);
    free(p);
}

/* layout of numpy's PyDataMem_Handler (numpy >= 1.22, version 1) */
typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *, size_t);
} allocator_t;
typedef struct {
    char name[127];
    uint8_t version;
    allocator_t allocator;
} handler_t;

static handler_t handler = {
    "pyotf_sim_allocator", 1, {NULL, sim_malloc, sim_calloc, sim_realloc, sim_free}};

void *sim_handler(void) { return &handler; }

/* all counters are thread-local: a parked thread keeps its own */
void sim_arm(long nth, long min_size, int keep)
{
    fail_at = nth; threshold = min_size; counted = 0; fired = 0; sticky = keep;
    armed = 1;
}
long sim_disarm(void) { armed = 0; return fired; }
/* the harness's own allocations inside a callback are neither counted nor failed */
int sim_pause(void) { int was = armed; armed = 0; return was; }
void sim_restore(int was) { armed = was; }
void sim_dirt(double v) { dirt = v; dirty_blocks = 0; }
long sim_counted(void) { return counted; }
long sim_fired(void) { return fired; }
long long sim_live_bytes(void) { return live_bytes; }
long long sim_live_blocks(void) { return live_blocks; }
long long sim_total_allocs(void) { return total_allocs; }

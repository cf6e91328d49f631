/* Implementations of the GC_* API the runtime allocates through.

   VP_GC_MALLOC: every object is its own malloc block and nothing is ever collected, so
   AddressSanitizer / MemorySanitizer see the exact bounds (and initialisation) of every
   Minim object, stack segment, table and string.  GC_malloc zeroes, as Boehm's does;
   GC_malloc_atomic does not.

   VP_GC_QUAR: a collector that never reuses what it frees, with its own schedule.
   VP_GC_MINIM: the project's own collector, with collections forced.
   VP_GC_BOEHM: the real Boehm collector, with counters around it. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

unsigned long long vp_alloc_count, vp_alloc_bytes, vp_alloc_limit, vp_gc_count;
unsigned long long vp_big_allocs;       /* stack-segment sized allocations */

static void account(size_t n) {
    vp_alloc_count++;
    vp_alloc_bytes += n;
    if (n >= 32000) vp_big_allocs++;
    if (vp_alloc_limit && vp_alloc_bytes > vp_alloc_limit) {
        static const char m[] = "VP-OUT-OF-BUDGET\n";
        (void) !write(2, m, sizeof m - 1);
        _exit(77);
    }
}

#if defined(VP_GC_MALLOC)
#include "boehm-gc/include/gc.h"
void *GC_malloc(size_t n) {
    void *p;
    account(n);
    p = calloc(1, n ? n : 1);
    if (!p) { fprintf(stderr, "VP-OUT-OF-BUDGET\n"); _exit(77); }
    return p;
}
void *GC_malloc_atomic(size_t n) {
    void *p;
    account(n);
    p = malloc(n ? n : 1);
    if (!p) { fprintf(stderr, "VP-OUT-OF-BUDGET\n"); _exit(77); }
    return p;
}
void *GC_malloc_uncollectable(size_t n) { return GC_malloc(n); }
void *GC_realloc(void *p, size_t n) { account(n); return realloc(p, n ? n : 1); }
void GC_free(void *p) { free(p); }
void GC_register_finalizer(void *o, GC_finalization_proc fn, void *cd,
                           GC_finalization_proc *ofn, void **ocd) {
    (void) o; (void) fn; (void) cd;
    if (ofn) *ofn = 0;
    if (ocd) *ocd = 0;
}
void GC_add_roots(void *lo, void *hi) { (void) lo; (void) hi; }
void GC_init(void) { }
void GC_deinit(void) { }
void GC_disable(void) { }
void GC_enable(void) { }
void GC_gcollect(void) { }
unsigned long long vp_live_peak;
void vp_gc_arm(void) { }
#elif defined(VP_GC_QUAR)
/* A collector made for finding what the runtime fails to keep reachable: conservative mark (stack,
   registers, static data, registered roots, interior pointers, as Boehm's), and a sweep that fills
   the storage of every dead object with 0xDB and never hands it out again, so that any later use
   reads a wild pointer or a nonsensical type.  Collections happen only where the schedule says:
   VP_GC_PERIOD = k: gaps of 1..2k-1 allocations, with bursts of collections at every allocation. */
#include "boehm-gc/include/gc.h"
#include <stdint.h>
#include <sys/mman.h>
#include <signal.h>
#define CHUNK 65536UL
#define ARENA (8UL << 30)
#define NCHUNK (ARENA / CHUNK)
#define START 1
#define MARK 2
#define ATOMIC 4
struct chunk { uint32_t size;           /* granules per object; 0: unused; ~0: later part of a large object */
               uint32_t used;           /* objects handed out */
               uint32_t live; uint32_t back; };
static unsigned char *arena, *state;    /* state: one byte per granule */
static struct chunk *chunks;
static uint32_t nchunks, freelist[512], nfree;
static uint32_t current[64][2];
static unsigned char **mstack; static size_t msp;
static struct root { char *lo, *hi; } roots[64]; static int nroots;
static struct fin { void *o; GC_finalization_proc fn; void *cd; } *fins, *run; static int nfins;
#define NFIN 65536
static unsigned long long period, next_gc, rnd, since; static int armed, burst;
unsigned long long vp_live_peak, vp_freed;
extern char __data_start[], _end[];
extern void *__libc_stack_end;

/* With VP_GC_OLD, what was allocated before the program starts is kept for good and only the pages of it
   the program writes to are scanned, which makes a collection at every allocation affordable. */
static size_t old;                      /* chunks that are old */
static uint32_t *dirty, ndirty;
#define NDIRTY (1 << 18)

static void *map(size_t n) {
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "VP-HARNESS: no arena\n"); _exit(99); }
    return p;
}
static void setup(void) {
    arena = map(ARENA); state = map(ARENA / 16); chunks = map(NCHUNK * sizeof *chunks); mstack = map(1UL << 30);
    dirty = map(NDIRTY * sizeof *dirty); fins = map(NFIN * sizeof *fins); run = map(NFIN * sizeof *run);
}
static void *alloc(size_t n, int atomic) {
    size_t g = (n + 1 + 15) / 16, i, k;
    unsigned char *p;
    int cls;
    if (!arena) setup();
    if (g > 64) {                       /* sizes above 1 KB: powers of two up to half a chunk */
        for (k = 128, cls = 32; k < g; k *= 2) cls++;
        if (k <= CHUNK / 32) g = k;
    } else { if (g > 16) g = (g + 7) / 8 * 8; cls = g <= 16 ? g : 16 + g / 8; }
    if (g > CHUNK / 32) {
        size_t nc = (g * 16 + CHUNK - 1) / CHUNK;
        if (nchunks + nc > NCHUNK) { fprintf(stderr, "VP-OUT-OF-BUDGET\n"); _exit(77); }
        i = nchunks; nchunks += nc;
        for (k = 1; k < nc; k++) { chunks[i + k].size = ~0u; chunks[i + k].back = k; }
        chunks[i].size = nc * CHUNK / 16; chunks[i].used = 1;
        p = arena + i * CHUNK;
    } else {
        uint32_t *c = &current[cls][atomic];
        if (!*c || (chunks[*c].used + 1) * g > CHUNK / 16) {
            if (nfree) i = freelist[--nfree];
            else {
                if (!nchunks) nchunks = 1;
                if (nchunks >= NCHUNK) { fprintf(stderr, "VP-OUT-OF-BUDGET\n"); _exit(77); }
                i = nchunks++;
            }
            chunks[i].size = g; chunks[i].used = 0;
            *c = i;
        }
        p = arena + *c * CHUNK + chunks[*c].used++ * g * 16;
    }
    state[(p - arena) / 16] = START | (atomic ? ATOMIC : 0);
    return p;
}
static inline void push(uintptr_t w) {
    size_t off = w - (uintptr_t) arena, ci, oi;
    struct chunk *c;
    unsigned char *s;
    if (off >= (size_t) nchunks * CHUNK || off < old * CHUNK) return;
    ci = off / CHUNK;
    if (chunks[ci].size == ~0u) ci -= chunks[ci].back;
    c = &chunks[ci];
    if (!c->size) return;
    oi = (off - ci * CHUNK) / 16 / c->size;
    if (oi >= c->used) return;
    s = &state[ci * (CHUNK / 16) + oi * c->size];
    if ((*s & (START | MARK)) != START) return;
    *s |= MARK;
    if (!(*s & ATOMIC)) mstack[msp++] = arena + ci * CHUNK + oi * c->size * 16;
}
static void scan(char *lo, char *hi) {
    uintptr_t *p = (uintptr_t *) (((uintptr_t) lo + 7) & ~7UL);
    for (; (char *) (p + 1) <= hi; p++) push(*p);
}
static void scan_page(size_t page) {
    size_t ci = page * 4096 / CHUNK, i, lo, hi;
    struct chunk *c;
    if (chunks[ci].size == ~0u) ci -= chunks[ci].back;
    c = &chunks[ci];
    if (!c->size) return;
    if (c->size > CHUNK / 32) {
        if ((state[ci * (CHUNK / 16)] & (START | ATOMIC)) == START)
            scan((char *) arena + page * 4096, (char *) arena + (page + 1) * 4096);
        return;
    }
    lo = (page * 4096 - ci * CHUNK) / 16 / c->size;
    hi = (page * 4096 + 4095 - ci * CHUNK) / 16 / c->size;
    for (i = lo; i <= hi && i < c->used; i++) {
        unsigned char *o = arena + ci * CHUNK + i * c->size * 16UL;
        if ((state[(o - arena) / 16] & (START | ATOMIC)) == START) scan((char *) o, (char *) o + c->size * 16UL);
    }
}
static void fault(int sig, siginfo_t *si, void *u) {
    size_t off = (unsigned char *) si->si_addr - arena;
    (void) u;
    if ((unsigned char *) si->si_addr < arena || off >= old * CHUNK || ndirty >= NDIRTY) {
        signal(sig, SIG_DFL);
        return;
    }
    dirty[ndirty++] = off / 4096;
    mprotect(arena + off / 4096 * 4096, 4096, PROT_READ | PROT_WRITE);
}
static void freeze(void) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = fault;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0);
    old = nchunks;
    mprotect(arena, old * CHUNK, PROT_READ);
}
static void drain(void) {
    while (msp) {
        unsigned char *o = mstack[--msp];
        struct chunk *c = &chunks[(o - arena) / CHUNK];
        scan((char *) o, (char *) o + (size_t) c->size * 16);
    }
}
/* the caller's registers are in its frame, which is above this one */
static void __attribute__((noinline)) scan_stack(void) {
    scan((char *) __builtin_frame_address(0), (char *) __libc_stack_end);
    __asm__ volatile ("" ::: "memory");
}
static void __attribute__((noinline)) collect(void) {
    int i, nrun = 0;
    size_t c, k;
    unsigned long long bytes = 0;
    __builtin_unwind_init();
    if (!arena) setup();
    vp_gc_count++;
    scan_stack();
    scan(__data_start, _end);
    for (i = 0; i < nroots; i++) scan(roots[i].lo, roots[i].hi);
    for (c = 0; c < ndirty; c++) scan_page(dirty[c]);
    drain();
    for (i = 0; i < nfins; ) {          /* finalizable objects die one collection later, as Boehm's do */
        unsigned char *o = fins[i].o;
        if (!(state[(o - arena) / 16] & MARK) && o >= arena + old * CHUNK) { run[nrun++] = fins[i]; fins[i] = fins[--nfins]; }
        else i++;
    }
    for (i = 0; i < nrun; i++) push((uintptr_t) run[i].o);
    drain();
    for (c = old; c < nchunks; c++) {
        struct chunk *q = &chunks[c];
        uint32_t live = 0;
        unsigned char *s = state + c * (CHUNK / 16);
        if (!q->size || q->size == ~0u) continue;
        if (q->live == ~0u) continue;   /* nothing left here */
        for (k = 0; k < q->used; k++, s += q->size) {
            if (*s & MARK) { *s &= ~MARK; live++; bytes += q->size * 16UL; }
            else if (*s & START) {
                *s = 0; vp_freed++;
                memset(arena + (s - state) * 16UL, 0xDB, q->size * 16UL);
            }
        }
        if (!live && (q->size > CHUNK / 32 || (q->used + 1) * q->size > CHUNK / 16)) {
            if (!armed && q->size <= CHUNK / 32 && nfree < 512) {      /* while booting, storage is used again */
                madvise(arena + c * CHUNK, CHUNK, MADV_DONTNEED);
                memset(state + c * (CHUNK / 16), 0, CHUNK / 16);
                q->size = q->used = 0;
                for (i = 0; i < 128; i++) if ((&current[0][0])[i] == c) (&current[0][0])[i] = 0;
                freelist[nfree++] = c;
            } else q->live = ~0u;
        }
    }
    if (bytes > vp_live_peak) vp_live_peak = bytes;
    for (i = 0; i < nrun; i++) if (run[i].fn) run[i].fn(run[i].o, run[i].cd);
    memset(run, 0, sizeof *run * nrun);
}
static void plan(void) {
    rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL;
    if (burst > 0) { burst--; next_gc = 1; return; }
    if (period > 1 && (rnd >> 33) % 8 == 0) burst = (rnd >> 40) % 24;
    next_gc = 1 + (rnd >> 35) % (2 * period - 1);
}
void vp_gc_arm(void) {
    const char *s = getenv("VP_GC_PERIOD");
    period = s ? strtoull(s, 0, 10) : 0;
    s = getenv("VP_GC_SEED");
    rnd = s ? strtoull(s, 0, 10) * 7919 : 1;
    armed = 1; since = 0;
    memset(current, 0, sizeof current);     /* the same addresses under every schedule */
    nfree = 0;
    if (period && getenv("VP_GC_OLD")) freeze();
    if (period) plan();
}
/* VP_GC_BOOT: the schedule of VP_GC_PERIOD from the very start, for the command-line program */
static void __attribute__((constructor)) from_start(void) {
    if (getenv("VP_GC_BOOT")) { setup(); vp_gc_arm(); }
}
void vp_gc_settle(void) { collect(); vp_freed = 0; }
static void tick(size_t n) {
    account(n);
    if (!armed) { since += n; if (since > (64UL << 20)) { since = 0; collect(); } return; }
    if (period && ++since >= next_gc) { since = 0; plan(); collect(); }
}
void *GC_malloc(size_t n) { tick(n); return alloc(n, 0); }
void *GC_malloc_atomic(size_t n) {
    void *p;
    tick(n);
    p = alloc(n, 1);
    memset(p, 0xA5, n);
    return p;
}
void *GC_malloc_uncollectable(size_t n) { void *p = calloc(1, n); GC_add_roots(p, (char *) p + n); return p; }
void GC_free(void *p) { (void) p; }
void *GC_realloc(void *p, size_t n) {
    size_t old, off = (char *) p - (char *) arena;
    void *q = GC_malloc(n);
    if (!p) return q;
    old = chunks[off / CHUNK].size * 16UL;
    memcpy(q, p, old < n ? old : n);
    return q;
}
void GC_register_finalizer(void *o, GC_finalization_proc fn, void *cd, GC_finalization_proc *ofn, void **ocd) {
    if (ofn) *ofn = 0;
    if (ocd) *ocd = 0;
    if (!arena) setup();
    if (nfins < NFIN) { fins[nfins].o = o; fins[nfins].fn = fn; fins[nfins++].cd = cd; }
}
void GC_add_roots(void *lo, void *hi) {
    if (nroots < 64) { roots[nroots].lo = lo; roots[nroots++].hi = hi; }
}
void GC_init(void) { }
void GC_deinit(void) { }
void GC_disable(void) { }
void GC_enable(void) { }
void GC_gcollect(void) { collect(); }
#elif defined(VP_GC_MINIM)
/* VP_GC_MINIM: the project's own collector (src/gc/minim-gc), told to collect every
   VP_GC_PERIOD allocations once a job runs. */
#include "src/gc/minim-gc/gc.h"
static unsigned long long period, left;
unsigned long long vp_freed, vp_live_peak;
static void tick(size_t n) {
    account(n);
    if (period && --left == 0) {
        size_t a = GC_get_allocated(), b;
        left = period;
        vp_gc_count++;
        GC_collect();
        b = GC_get_allocated();
        if (b < a) vp_freed += a - b;
        if (b > vp_live_peak) vp_live_peak = b;
    }
}
void *vp_GC_alloc(size_t n) { tick(n); return GC_alloc(n); }
void *vp_GC_alloc_atomic(size_t n) { tick(n); return GC_alloc_atomic(n); }
void *vp_GC_calloc(size_t m, size_t n) { tick(m * n); return GC_calloc(m, n); }
void *vp_GC_calloc_atomic(size_t m, size_t n) { tick(m * n); return GC_calloc_atomic(m, n); }
void vp_gc_arm(void) {
    const char *e = getenv("VP_GC_PERIOD");
    period = e ? strtoull(e, 0, 10) : 0;
    e = getenv("VP_GC_SEED");
    left = period ? 1 + (e ? strtoull(e, 0, 10) : 0) % period : 0;
}
#else
/* wrapper around Boehm: the runtime is compiled with -DGC_malloc=vp_GC_malloc etc. */
#include <gc.h>
static unsigned long long period, live_period, armed;
unsigned long long vp_live_peak;        /* most bytes in use right after a collection */
static void live(void) {
    unsigned long long n;
    GC_gcollect();
    n = GC_get_heap_size() - GC_get_free_bytes();
    if (n > vp_live_peak) vp_live_peak = n;
    vp_gc_count++;
}
void vp_gc_arm(void) {
    const char *s = getenv("VP_GC_PERIOD");
    period = s ? strtoull(s, 0, 10) : 0;
    s = getenv("VP_LIVE_PERIOD");
    live_period = s ? strtoull(s, 0, 10) : 0;
    armed = 1;
}
static void tick(size_t n) {
    account(n);
    if (armed && period && vp_alloc_count % period == 0) {
        vp_gc_count++;
        GC_gcollect();
    }
    if (armed && live_period && vp_alloc_count % live_period == 0) live();
}
void *vp_GC_malloc(size_t n) { tick(n); return GC_malloc(n); }
void *vp_GC_malloc_atomic(size_t n) {
    void *p;
    tick(n);
    p = GC_malloc_atomic(n);
    if (period && p) memset(p, 0xA5, n);   /* never rely on stale contents */
    return p;
}
#endif

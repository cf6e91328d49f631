// Random histories of the operations of minim-gc against a shadow heap.
//   gcdrive SEED OPS PROFILE
// The shadow knows every block the collector handed out, the bytes the
// program wrote into it, its marker, its destructor and whether it is a
// root; reachability is computed over those bytes and over the stack slots
// of the frames below. On a difference: "BROKEN op=<n> <what>", exit 3.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <alloca.h>
#include <malloc.h>
#include "gc.h"

#define NOINLINE __attribute__((noinline, noclone))

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
#define __real_free free

// ---- failure injection: allocations made by the collector --------------
static int inject;           // 0 none, n: the n-th from now fails, -1 all fail
static int armed;
static unsigned long injected;
static int fails(void) {
    if (!armed) return 0;
    if (inject == -1) { injected++; return 1; }
    if (inject > 0 && --inject == 0) { injected++; armed = 0; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n) { return fails() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t m, size_t n) { return fails() ? NULL : __real_calloc(m, n); }
void *__wrap_realloc(void *p, size_t n) { return fails() ? NULL : __real_realloc(p, n); }

// ---- random -------------------------------------------------------------
static uint64_t rs;
static uint64_t rnd(void) {
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return rs * 0x2545F4914F6CDD1DULL >> 11;
}
static unsigned long below(unsigned long n) { return n ? rnd() % n : 0; }
static int chance(int pc) { return (int)below(100) < pc; }

// ---- shadow -------------------------------------------------------------
enum { CONS, ATOMIC, EVEN, NOTHING };
typedef struct blk {
    struct blk *hnext;
    char *addr; size_t size; unsigned char *copy;
    int mrk, dtor, root, live, gone, pos, calls, must;
    unsigned long id;
} blk;
#define HB 131072
static blk *htab[HB];
static blk **live; static int nlive, alive_cap;      // blocks the model knows to be held
static blk **dead; static int ndead, dead_cap;       // with a destructor, unreachable, not yet released
static size_t sum;                                   // bytes of live
static size_t excess;                                // bytes of blocks that are unreachable but maybe held
static unsigned long nid, op;
static unsigned long C_alloc, C_collect, C_auto, C_dtor, C_free, C_realloc, C_write, C_verify, C_maxlive,
    C_reach, C_freed, C_null, C_reg, C_frames, C_stuck;

static const char *opname = "";
static void broken(const char *f, ...) {
    va_list a; va_start(a, f);
    armed = 0;
    printf("BROKEN op=%lu (%s) ", op, opname); vprintf(f, a); printf("\n"); fflush(stdout);
    _Exit(3);
}
static unsigned hh(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 40) % HB; }
static blk *find(void *p) { for (blk *b = htab[hh(p)]; b; b = b->hnext) if (b->addr == (char *)p) return b; return 0; }
static blk *find_dead(void *p) { for (int i = 0; i < ndead; i++) if (dead[i]->addr == (char *)p) return dead[i]; return 0; }

// addresses of blocks released explicitly, not handed out again since
#define NDANGLE 64
static char *dangle[NDANGLE]; static int ndangle;

static void hadd(blk *b) { unsigned h = hh(b->addr); b->hnext = htab[h]; htab[h] = b; }
static void hdel(blk *b) { blk **q = &htab[hh(b->addr)]; while (*q != b) q = &(*q)->hnext; *q = b->hnext; }
static void enlist(blk *b) {
    if (nlive == alive_cap) live = __real_realloc(live, sizeof(blk *) * (alive_cap = alive_cap * 2 + 64));
    b->pos = nlive; live[nlive++] = b; hadd(b); sum += b->size; b->live = 1;
    if ((unsigned long)nlive > C_maxlive) C_maxlive = nlive;
    for (int i = 0; i < ndangle; i++) if (dangle[i] == b->addr) { dangle[i] = dangle[--ndangle]; break; }
}
static void delist(blk *b) {
    live[b->pos] = live[--nlive]; live[b->pos]->pos = b->pos;
    hdel(b); sum -= b->size; b->live = 0;
}
static void drop(blk *b) { __real_free(b->copy); __real_free(b); }

static blk **pend; static int npend, pend_cap;   // destructor calls in the current operation
static int finishing;
static void called(void *p, int which) {
    blk *b = find(p);
    C_dtor++;
    if (!b) {
        b = find_dead(p);
        if (!b) broken("destructor called for something that is not a block that is held: %p", p);
    }
    if (b->dtor != which) broken("block %lu (%zu bytes): destructor %d called, %d registered", b->id, b->size, which, b->dtor);
    if (b->calls) broken("block %lu (%zu bytes): destructor called a second time", b->id, b->size);
    b->calls++;
    if (memcmp(p, b->copy, b->size)) broken("block %lu (%zu bytes): contents changed before its destructor ran", b->id, b->size);
    if (npend == pend_cap) pend = __real_realloc(pend, sizeof(blk *) * (pend_cap = pend_cap * 2 + 64));
    pend[npend++] = b;
}
static void dtor1(void *p) { called(p, 1); }
static void dtor2(void *p) { called(p, 2); }
static void mrk_even(void mark(void *, void *), void *gc, void *p) {
    blk *b = find(p);
    if (!b) { if (find_dead(p) || excess) return; broken("marker called for something that is not a block that is held: %p", p); }
    if (b->mrk != EVEN) broken("block %lu: a marker called that is not its own", b->id);
    for (size_t i = 0; i < b->size / 8; i += 2) mark(gc, ((void **)p)[i]);
}
static void mrk_nothing(void mark(void *, void *), void *gc, void *p) {
    blk *b = find(p);
    if (!b) { if (find_dead(p) || excess) return; broken("marker called for something that is not a block that is held: %p", p); }
    if (b->mrk != NOTHING) broken("block %lu: a marker called that is not its own", b->id);
}
typedef void (*dt)(void *);
typedef void (*mk)(void (void *, void *), void *, void *);
static dt dtors[] = { 0, dtor1, dtor2 };
static mk mrks[] = { 0, (mk)GC_atomic_mrk, mrk_even, mrk_nothing };

// ---- stack slots --------------------------------------------------------
#define NS 12
typedef struct fr { struct fr *up; volatile uintptr_t *slot; } fr;
static fr *frames;   // allocated outside of the stack

// ---- reachability -------------------------------------------------------
static blk **todo; static int ntodo, todo_cap;
static void visit(uintptr_t w) {
    blk *b = find((void *)w);
    if (!b || b->must) return;
    b->must = 1;
    if (ntodo == todo_cap) todo = __real_realloc(todo, sizeof(blk *) * (todo_cap = todo_cap * 2 + 64));
    todo[ntodo++] = b;
}
static NOINLINE size_t reach(void) {
    size_t total = 0;
    for (int i = 0; i < nlive; i++) live[i]->must = 0;
    for (int i = 0; i < nlive; i++) if (live[i]->root) visit((uintptr_t)live[i]->addr);
    for (fr *f = frames; f; f = f->up) for (int i = 0; i < NS; i++) visit(f->slot[i]);
    while (ntodo) {
        blk *b = todo[--ntodo];
        total += b->size;
        size_t step = b->mrk == EVEN ? 2 : 1;
        if (b->mrk == CONS || b->mrk == EVEN)
            for (size_t i = 0; i < b->size / 8; i += step) { uintptr_t w; memcpy(&w, b->copy + 8 * i, 8); visit(w); }
    }
    return total;
}
static NOINLINE void verify(void) {
    C_verify += nlive;
    for (int i = 0; i < nlive; i++)
        if (memcmp(live[i]->addr, live[i]->copy, live[i]->size))
            broken("block %lu (%zu bytes) changed although nothing wrote to it", live[i]->id, live[i]->size);
}
static NOINLINE void verify_some(void) {
    for (int k = 0; k < 4 && nlive; k++) {
        blk *b = live[below(nlive)]; C_verify++;
        if (b->must && memcmp(b->addr, b->copy, b->size)) broken("block %lu (%zu bytes) changed although nothing wrote to it", b->id, b->size);
    }
}
static NOINLINE void scrub(void) {
    size_t n = 65536 + below(65536);
    volatile char *p = alloca(n);
    for (size_t i = 0; i < n; i++) p[i] = 0;
}
// the collector may have collected during the last operation; it counts
// `extra` bytes the shadow does not know yet
static NOINLINE void settle(size_t extra) {
    size_t must = reach();
    for (int i = 0; i < npend; i++)
        if (pend[i]->live && pend[i]->must)
            broken("block %lu (%zu bytes) destroyed although it is reachable%s", pend[i]->id, pend[i]->size, pend[i]->root ? " (a root)" : "");
    for (int i = 0; i < nlive; ) {
        blk *b = live[i];
        if (b->must) { i++; continue; }
        delist(b); C_freed++;
        if (b->calls || !b->dtor) drop(b);
        else {
            if (ndead == dead_cap) dead = __real_realloc(dead, sizeof(blk *) * (dead_cap = dead_cap * 2 + 64));
            dead[ndead++] = b;
        }
    }
    for (int i = 0; i < ndead; ) { if (dead[i]->calls) { drop(dead[i]); dead[i] = dead[--ndead]; } else i++; }
    npend = 0;
    size_t a = GC_get_allocated() - extra;
    if (a < sum || sum != must) broken("%zu bytes reachable, the collector counts %zu allocated", must, a);
    excess = a - sum;
    size_t owed = 0; for (int i = 0; i < ndead; i++) owed += dead[i]->size;
    if (owed > excess) broken("%zu bytes have not been destroyed, the collector counts %zu beyond the %zu reachable", owed, excess, sum);
    verify();
}
static int paused;
static NOINLINE void after_alloc(int explicit) {
    // an operation that may have collected
    if (npend || GC_get_allocated() != sum + excess) {
        if (paused && !explicit && !injected) broken("collected while paused");
        C_auto++;
        settle(0);
    }
}
static NOINLINE void after_plain(void) {
    if (npend) broken("a destructor ran");
    if (GC_get_allocated() != sum + excess) broken("%zu bytes allocated, the collector counts %zu", sum + excess, GC_get_allocated());
}

// ---- operations ---------------------------------------------------------
static int profile;
static uintptr_t some_word(void) {
    int k = below(20);
    if (k < 9 && nlive) return (uintptr_t)live[below(nlive)]->addr;
    if (k < 12 && nlive) return (uintptr_t)live[nlive - 1 - below(nlive < 8 ? nlive : 8)]->addr;
    if (k == 12 && nlive) { blk *b = live[below(nlive)]; return (uintptr_t)b->addr + 1 + below(b->size < 64 ? 64 : b->size); } // inside
    if (k == 13 && ndangle) return (uintptr_t)dangle[below(ndangle)];
    if (k == 14) return (uintptr_t)frames->slot;
    if (k == 15) return ~(uintptr_t)0 - below(64);
    return below(1000) * 2 + 1;
}
// only words that never keep something the model takes for released
static uintptr_t held_word(void) {
    for (;;) {
        uintptr_t w = some_word();
        if (!find_dead((void *)w)) return w;
    }
}
static void put(blk *b, size_t i, uintptr_t w) { memcpy(b->copy + 8 * i, &w, 8); memcpy(b->addr + 8 * i, &w, 8); C_write++; }
static size_t some_size(void) {
    static const int small[] = { 8, 16, 16, 16, 24, 32, 32, 40, 48, 64, 72, 100, 128 };
    int k = below(100);
    if (k < 80) return small[below(13)];
    if (k < 84) return below(8);
    if (k < 94) return below(600);
    if (profile == 3 && chance(30)) return below(600000);
    if (k < 99) return below(6000);
    return profile == 3 ? below(4000000) : below(300000);
}
static NOINLINE void keep(blk *b) {
    // into a slot, into other blocks, or nowhere
    int k = below(100);
    if (k < 30 || !nlive) {
        fr *f = frames; for (int d = below(4); d && f->up; d--) f = f->up;
        f->slot[below(NS)] = (uintptr_t)b->addr;
    } else if (k < 90) {
        for (int t = 0; t < 6; t++) {
            blk *o = live[below(nlive)];
            if (o == b || o->size < 8 || o->mrk == ATOMIC || o->mrk == NOTHING) continue;
            put(o, chance(25) ? o->size / 8 - 1 : below(o->size / 8), (uintptr_t)b->addr);
            break;
        }
    }
}
static NOINLINE void check_new(char *p, size_t n, int zeroed) {
    if (((uintptr_t)p & 7) != 0) broken("block at %p is not aligned", p);
    if (find(p)) broken("the block at %p is held already (block %lu)", p, find(p)->id);
    blk *z = find_dead(p);
    if (z) broken("the block at %p is handed out again, its destructor has not run (block %lu)", p, z->id);
    if (zeroed) for (size_t i = 0; i < n; i++) if (p[i]) broken("byte %zu of a cleared block of %zu is %d", i, n, p[i]);
}
static NOINLINE blk *fresh(char *p, size_t n, int m, int d) {
    blk *b = __real_calloc(1, sizeof(blk));
    b->addr = p; b->size = n; b->mrk = m; b->dtor = d; b->id = ++nid; b->copy = __real_malloc(n ? n : 1);
    for (size_t i = 0; i < n; i++) b->copy[i] = (unsigned char)rnd() | 1;
    for (size_t i = 0; i < n / 8; i++) { uintptr_t w = i < 64 ? held_word() : (uintptr_t)(2 * i + 1); memcpy(b->copy + 8 * i, &w, 8); }
    memcpy(p, b->copy, n);
    enlist(b);
    b->must = 1;
    return b;
}
static NOINLINE void do_alloc(void) {
    size_t n = some_size(); int m = CONS, d = 0, zero = 0; char *p;
    int how = below(12), inj = profile == 4 && chance(20);
    unsigned long before = injected;
    if (profile == 1 || chance(50)) how = 8 + below(4);
    if (inj) { inject = chance(50) ? -1 : 1 + (int)below(3); armed = 1; }
    switch (how) {
    case 0: case 1: case 2: opname = "alloc"; p = GC_alloc(n); break;
    case 3: case 4: opname = "calloc"; zero = 1; p = GC_calloc(1 + n / 8, 8); n = (1 + n / 8) * 8; break;
    case 5: opname = "alloc_atomic"; m = ATOMIC; p = GC_alloc_atomic(n); break;
    case 6: opname = "calloc_atomic"; m = ATOMIC; zero = 1; p = GC_calloc_atomic(n, 1); break;
    case 7: opname = "realloc of nothing"; p = GC_realloc(NULL, n = n ? n : 1); break;
    case 8: case 9: opname = "alloc_opt"; d = below(3); m = below(4); p = GC_alloc_opt(n, dtors[d], mrks[m]); break;
    case 10: opname = "calloc_opt"; d = 1 + below(2); m = below(4); zero = 1; p = GC_calloc_opt(n, 2, dtors[d], mrks[m]); n *= 2; break;
    default: opname = "alloc_opt"; d = 1 + below(2); m = CONS; p = GC_alloc_opt(n, dtors[d], NULL); break;
    }
    armed = 0;
    C_alloc++;
    if (!p) {
        if (injected == before) broken("an allocation of %zu bytes failed", n);
        C_null++;
        after_alloc(injected != before);
        return;
    }
    if (inj && inject == -1 && injected != before) broken("an allocation of %zu bytes returned a block although there is no memory", n);
    // was there a collection? the new block is not in the shadow yet
    if (npend || GC_get_allocated() != sum + excess + n) {
        if (paused && injected == before) broken("collected while paused");
        C_auto++;
        settle(n);
    }
    check_new(p, n, zero);
    keep(fresh(p, n, m, d));
}
static NOINLINE blk *any(void) { return nlive ? live[below(nlive)] : NULL; }
static NOINLINE blk *a_must(void) {
    if (!nlive) return NULL;
    reach();
    for (int t = 0; t < 20; t++) { blk *b = any(); if (b->must) return b; }
    return NULL;
}
static NOINLINE void do_write(void) {
    blk *b = any(); opname = "write";
    if (!b || b->size < 8) return;
    if (!chance(90)) { if (b->size % 8) { size_t i = b->size - 1; b->copy[i] ^= 0x55; b->addr[i] ^= 0x55; } return; }
    put(b, chance(25) ? b->size / 8 - 1 : below(b->size / 8), held_word());
}
static NOINLINE void do_slot(void) {
    opname = "slot";
    fr *f = frames; for (int d = below(4); d && f->up; d--) f = f->up;
    f->slot[below(NS)] = chance(40) ? 0 : held_word();
}
static NOINLINE void do_root(void) {
    blk *b = any(); opname = "register_root";
    int roots = 0; if (!b) return;
    for (int i = 0; i < nlive; i++) roots += live[i]->root;
    if (roots > (profile == 7 ? nlive / 3 : 12) || find_dead(b->addr)) return;
    GC_register_root(b->addr); b->root = 1;
    if (chance(5)) GC_register_root((void *)(b->addr + 8));   // not a block
    after_plain();
}
static NOINLINE void do_register(void) {
    blk *b = any(); if (!b) return;
    opname = "register_dtor/mrk";
    if (chance(50)) { b->dtor = 1 + below(2); GC_register_dtor(b->addr, (void (*)(void *, void *))dtors[b->dtor]); }
    else { b->mrk = below(4); GC_register_mrk(b->addr, mrks[b->mrk]); }
    if (chance(5)) { GC_register_dtor(b->addr + 1, NULL); GC_register_mrk((void *)8, NULL); }
    after_plain();
}
static NOINLINE void do_free(void) {
    opname = "free"; C_free++;
    if (chance(5)) { GC_free(chance(50) ? NULL : (char *)&opname); after_plain(); return; }
    blk *b = any(); if (!b) return;
    char *p = b->addr; int d = b->dtor, r = b->root;
    if (chance(80)) GC_free(p); else { opname = "realloc to nothing"; if (GC_realloc(p, 0) != NULL) broken("realloc to no bytes returned a block"); }
    if (npend != (d ? 1 : 0)) broken("freed block %lu (%s, %s): %d destructor calls", b->id, d ? "with destructor" : "no destructor", r ? "root" : "no root", npend);
    if (d && pend[0] != b) broken("freed block %lu: destructor of block %lu called", b->id, pend[0]->id);
    npend = 0; delist(b); drop(b);
    if (ndangle < NDANGLE) dangle[ndangle++] = p;
    after_plain();
}
static NOINLINE void do_realloc(void) {
    opname = "realloc"; C_realloc++;
    blk *b = a_must(); if (!b) return;
    char *p = b->addr; size_t n = 1 + some_size(), o = b->size, w = o < n ? o : n;
    int m = below(4), d = below(3), how = below(3), inj = profile == 4 && chance(40); char *q;
    unsigned long before = injected;
    if (chance(4)) {     // cannot be met
        n = ~(size_t)0 - below(80);
        opname = "realloc of too much";
        q = chance(50) ? GC_realloc(p, n) : GC_realloc_opt(p, n >> below(4), dtors[d], mrks[m]);
        if (q) broken("realloc to %zu bytes returned a block", n);
        C_null++;
        b->root += 2; settle(0); b->root -= 2;
        if (memcmp(b->addr, b->copy, b->size)) broken("block %lu changed by a realloc that failed", b->id);
        return;
    }
    if (inj) { inject = chance(40) ? -1 : 1 + (int)below(2); armed = 1; }
    // everything it refers to must survive a collection on the way
    switch (how) {
    case 0: d = 0; m = CONS; q = GC_realloc(p, n); break;
    case 1: d = 0; m = ATOMIC; q = GC_realloc_atomic(p, n); break;
    default: q = GC_realloc_opt(p, n, dtors[d], mrks[m]);
    }
    armed = 0;
    if (!q) {
        if (injected == before) broken("a realloc from %zu to %zu bytes failed", o, n);
        C_null++;
        b->root += 2; settle(0); b->root -= 2;
        if (memcmp(b->addr, b->copy, b->size)) broken("block %lu changed by a realloc that failed", b->id);
        return;
    }
    if (memcmp(q, b->copy, w)) broken("realloc from %zu to %zu bytes: the contents differ", o, n);
    int r = b->root;
    if (injected != before || npend) {   // it may have collected
        // the block held what its old contents referred to, with its old marker
        reach();
        b->root += 2;
        size_t must = reach(); (void)must;
        for (int i = 0; i < npend; i++)
            if (pend[i]->live && pend[i]->must) broken("realloc: block %lu (%zu bytes) destroyed although it is reachable", pend[i]->id, pend[i]->size);
        // what is not reachable is not judged now: the next collection does
        for (int i = 0; i < nlive; ) {
            blk *x = live[i]; if (x->must) { i++; continue; }
            delist(x);
            if (x->calls || !x->dtor) drop(x); else { if (ndead == dead_cap) dead = __real_realloc(dead, sizeof(blk *) * (dead_cap = dead_cap * 2 + 64)); dead[ndead++] = x; }
        }
        for (int i = 0; i < ndead; ) { if (dead[i]->calls) { drop(dead[i]); dead[i] = dead[--ndead]; } else i++; }
        npend = 0;
    }
    delist(b);
    b->root = r & 1;
    b->copy = __real_realloc(b->copy, n); b->addr = q; b->size = n; b->mrk = m; b->dtor = d;
    for (size_t i = w; i < n; i++) { b->copy[i] = (unsigned char)(i * 7) | 1; q[i] = (char)b->copy[i]; }
    if (find(q)) broken("realloc: the block at %p is held already", q);
    enlist(b);
    // references to the old address are not references to the block any more
    if (q != p && ndangle < NDANGLE && !find(p)) dangle[ndangle++] = p;
    if (chance(80)) keep(b);
    size_t a = GC_get_allocated();
    if (injected != before) { if (a < sum) broken("%zu bytes reachable, the collector counts %zu allocated", sum, a); excess = a - sum; verify(); }
    else after_plain();
}
static NOINLINE void do_too_much(void) {
    opname = "alloc of too much";
    size_t n = ~(size_t)0 - below(80); char *q;
    if (chance(30)) n >>= below(4);
    switch (below(5)) {
    case 0: q = GC_alloc(n); break;
    case 1: q = GC_alloc_atomic(n); break;
    case 2: q = GC_calloc(n / 2 + 2, 2 + below(3)); break;
    case 3: q = GC_calloc(((size_t)1 << 32) + below(3), ((size_t)1 << 32) + below(3)); break;
    default: q = GC_calloc_atomic(((size_t)1 << (61 + below(3))), 8 + below(3)); break;
    }
    if (q) broken("an allocation that cannot be met returned a block");
    C_null++;
    after_alloc(1);
}
static NOINLINE void do_stats(void) {
    opname = "get_reachable"; C_reach++;
    size_t must = reach(), a = GC_get_allocated(), r = GC_get_reachable(), c;
    if (r < must) broken("%zu bytes are reachable, the collector counts %zu", must, r);
    if (r > a) broken("%zu of %zu bytes reachable", r, a);
    c = GC_get_collectable();
    if (c > a || a - c < must) broken("%zu of %zu bytes collectable, %zu reachable", c, a, must);
    after_plain();
}

// hold a block in one callee-saved register only
uintptr_t hold_rbx(uintptr_t p, void (*f)(void)); uintptr_t hold_rbp(uintptr_t p, void (*f)(void));
uintptr_t hold_r12(uintptr_t p, void (*f)(void)); uintptr_t hold_r13(uintptr_t p, void (*f)(void));
uintptr_t hold_r14(uintptr_t p, void (*f)(void)); uintptr_t hold_r15(uintptr_t p, void (*f)(void));
#define HOLD(R) __asm__(".text\n.globl hold_" #R "\n.type hold_" #R ",@function\nhold_" #R ":\n push %" #R "\n mov %rdi,%" #R "\n mov %rsi,%rax\n" \
    " xor %edi,%edi\n xor %esi,%esi\n xor %edx,%edx\n xor %ecx,%ecx\n call *%rax\n mov %" #R ",%rax\n pop %" #R "\n ret\n");
HOLD(rbx) HOLD(rbp) HOLD(r12) HOLD(r13) HOLD(r14) HOLD(r15)
static uintptr_t (*holds[])(uintptr_t, void (*)(void)) = { hold_rbx, hold_rbp, hold_r12, hold_r13, hold_r14, hold_r15 };
static blk *held;
static NOINLINE uintptr_t pick(void) {
    // a block nothing else refers to
    held = fresh(GC_alloc_opt(48, dtor1, NULL), 48, CONS, 1);
    return (uintptr_t)held->addr;
}
static NOINLINE void do_register_held(int which) {
    uintptr_t p = holds[which](pick(), GC_collect);
    if (held->calls) broken("block %lu destroyed although register %d holds it", held->id, which);
    if ((char *)p != held->addr || memcmp(held->addr, held->copy, 48)) broken("block %lu changed although register %d holds it", held->id, which);
}
static NOINLINE void register_op(void) {
    static const char *rn[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
    int w = below(6); opname = rn[w]; C_reg++;
    // the allocation may collect by itself
    GC_pause();
    do_register_held(w);
    if (!paused) GC_resume();
    held->root += 2; settle(0); held->root -= 2;
}

static int misses; static unsigned long C_maxmiss;
#ifndef MISS
#define MISS 150
#endif
static NOINLINE void do_collect(void) {
    opname = "collect"; C_collect++;
    scrub();
    GC_collect();
}
static NOINLINE void after_collect(void) {
    settle(0);
    if (excess) {
        C_stuck++;
        if ((unsigned long)++misses > C_maxmiss) C_maxmiss = misses;
        if (misses > MISS) broken("%zu bytes that nothing reaches are still held after %d collections (%zu reachable)", excess, misses, sum);
    } else misses = 0;
}

static unsigned long ops;
static NOINLINE void frame(int depth);
static NOINLINE int step(void) {
    int k = below(1000);
    op++;
    if (k < 430) do_alloc();
    else if (k < 640) do_write();
    else if (k < 780) do_slot();
    else if (k < 800) do_root();
    else if (k < 850) do_register();
    else if (k < 900) do_free();
    else if (k < 940) do_realloc();
    else if (k < 950) do_too_much();
    else if (k < 960) do_stats();
    else if (k < (profile == 3 ? 971 : 965)) { opname = "pause"; GC_pause(); paused = 1; }
    else if (k < 975) { opname = "resume"; GC_resume(); paused = 0; }
    else if (k < 980) register_op();
    else if (k < 990) return 1;
    else if (k < 995) return 2;
    else return 3;
    return 0;
}
// many blocks in few chains of the collector's table, many of them roots
static NOINLINE void crowd(unsigned long n) {
    static const int sizes[] = { 8, 16, 24, 32, 40 };
    opname = "crowd";
    for (unsigned long i = 0; i < n; i++) {
        size_t z = sizes[below(5)]; int d = below(3);
        char *p = GC_alloc_opt(z, dtors[d], NULL);
        check_new(p, z, 0);
        blk *b = fresh(p, z, CONS, d);
        if (chance(30)) { GC_register_root(p); b->root = 1; }
        else if (chance(60)) keep(b);
    }
    after_plain();
}
static NOINLINE void uncrowd(void) {
    // the table has to shrink
    opname = "uncrowd";
    int n = nlive / 8;
    while (nlive > n) {
        blk *b = live[below(nlive)]; char *p = b->addr; int d = b->dtor;
        GC_free(p);
        if (npend != (d != 0)) broken("freed block %lu: %d destructor calls", b->id, npend);
        npend = 0; delist(b); drop(b);
    }
    after_plain();
    do_collect(); after_collect();
    after_plain();
}
static NOINLINE void frame(int depth) {
    volatile uintptr_t slot[NS];
    for (int i = 0; i < NS; i++) slot[i] = 0;
    fr *f = __real_malloc(sizeof(fr)); f->up = frames; f->slot = slot; frames = f;
    C_frames++;
    int every = profile == 2 ? 8 : profile == 7 ? 6 : 1;
    if (profile == 7 && depth == 0) crowd(3000 + below(27000));
    unsigned long half = ops / 2;
    while (op < ops) {
        if (profile == 7 && depth == 0 && op >= half) { half = ops; uncrowd(); }
        int r = step();
        if (r == 2 && depth < 12) { scrub(); frame(depth + 1); }
        if (r == 3 && depth > 0) break;
        if (r == 1 && below(every) == 0) {
            do_collect(); after_collect();
            for (int t = 0; t < 4 && misses; t++) { do_collect(); after_collect(); }
        }
    }
    for (int i = 0; i < NS; i++) slot[i] = 0;
    frames = f->up; __real_free(f);
}


// shapes a random history seldom builds
typedef struct cell { struct cell *first, *next; uintptr_t n; } cell;
static NOINLINE cell *chain(int n, int by_first) {
    cell *l = NULL;
    for (int i = 0; i < n; i++) { cell *c = GC_alloc(sizeof(cell)); c->n = i; c->first = by_first ? l : NULL; c->next = by_first ? NULL : l; l = c; }
    return l;
}
static NOINLINE void walk(cell *l, int n, int by_first) {
    for (int i = n - 1; i >= 0; i--) { if (!l || l->n != (uintptr_t)i) broken("chain of %d cells: cell %d changed", n, i); l = by_first ? l->first : l->next; }
    if (l) broken("chain of %d cells: too long", n);
}
static NOINLINE void chains(int n, int by_first) {
    cell *volatile l = chain(n, by_first);
    GC_collect(); walk(l, n, by_first);
    GC_get_reachable(); GC_collect(); walk(l, n, by_first);
    l = NULL;
}
static NOINLINE void shapes(void) {
    opname = "chains";
    chains(profile == 5 ? 200000 : 3000, 1); chains(profile == 5 ? 200000 : 3000, 0);
    scrub(); GC_collect(); scrub(); GC_collect();
    if (GC_get_allocated() > 1000) { scrub(); GC_collect(); }
    if (GC_get_allocated() > 1000) broken("chains: %zu bytes held after they were dropped", GC_get_allocated());
}
static NOINLINE void junk(unsigned long i) {
    volatile char *volatile p = GC_alloc(1 + i * 37 % 4000);
    p[0] = 1;
}
static size_t in_use(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static NOINLINE void churn(void) {
    // far more garbage than could be kept
    opname = "garbage";
    size_t base = in_use(), most = 0; unsigned long n = 300000;
    for (unsigned long i = 0; i < n; i++) {
        junk(i);
        if (i % 512 == 0) { size_t a = GC_get_allocated(), u = in_use() - base; if (a > most) most = a; if (u > most && u < ((size_t)1 << 40)) most = u; }
        if (most > ((size_t)192 << 20)) broken("%zu bytes held of blocks nothing refers to", most);
    }
    printf("garbage=%lu most=%zu\n", n, most);
    GC_collect();
}

int main(int argc, char **argv) {
    void *volatile base = NULL;
    unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1;
    ops = argc > 2 ? strtoul(argv[2], 0, 10) : 2000;
    profile = argc > 3 ? atoi(argv[3]) : 0;
    rs = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (int i = 0; i < 8; i++) rnd();
    size_t first = 0;
    int rounds = profile == 6 ? 12 : 1;
    for (int k = 0; k < rounds; k++) {
        GC_init((void *)&base);
        if (profile == 5) { shapes(); }
        else if (profile == 6) { churn(); }
        else frame(0);
        scrub();
        // what is left is destroyed at the end, once
        opname = "finalize"; finishing = 1;
        int want = 0; for (int i = 0; i < nlive; i++) want += live[i]->dtor != 0;
        want += ndead;
        GC_finalize();
        if (npend != want) broken("%d blocks with a destructor were left, %d destructor calls", want, npend);
        size_t u = in_use();
        if (k == 1) first = u;
        if (k > 1 && u > first + 1000000) broken("%zu bytes more in use after %d runs of the collector", u - first, k + 1);
    }
    printf("OK ops=%lu alloc=%lu collect=%lu auto=%lu dtor=%lu free=%lu realloc=%lu write=%lu verify=%lu maxlive=%lu reach=%lu freed=%lu null=%lu reg=%lu frames=%lu injected=%lu retained=%lu maxmiss=%lu\n",
           op, C_alloc, C_collect, C_auto, C_dtor, C_free, C_realloc, C_write, C_verify, C_maxlive, C_reach, C_freed, C_null, C_reg, C_frames, injected, C_stuck, C_maxmiss);
    return 0;
}

/* Stand-in for <gc.h>: lets the harness decide what stands behind the GC_* API that
   src/gc/gc.h maps the runtime's allocations to.  See harness/gcshim.c. */
#ifndef VP_GC_SHIM_H
#define VP_GC_SHIM_H
#include <stddef.h>
#include <stdlib.h>
typedef void (*GC_finalization_proc)(void *, void *);
void *GC_malloc(size_t n);
void *GC_malloc_atomic(size_t n);
void *GC_malloc_uncollectable(size_t n);
void *GC_realloc(void *p, size_t n);
void GC_free(void *p);
void GC_register_finalizer(void *o, GC_finalization_proc fn, void *cd,
                           GC_finalization_proc *ofn, void **ocd);
void GC_add_roots(void *lo, void *hi);
void GC_init(void);
void GC_deinit(void);
void GC_disable(void);
void GC_enable(void);
void GC_gcollect(void);
#endif

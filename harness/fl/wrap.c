/* counts live heap blocks of flint-extras and the stand-in (linked with --wrap); the harness' own C++ allocations are not counted */
#include <stdlib.h>
long flint_shim_live = 0;
void * __real_malloc(size_t n); void * __real_calloc(size_t n, size_t m); void * __real_realloc(void * p, size_t n); void __real_free(void * p); void * __real_aligned_alloc(size_t a, size_t n);
void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); if (p) flint_shim_live++; return p; }
void * __wrap_calloc(size_t n, size_t m) { void * p = __real_calloc(n, m); if (p) flint_shim_live++; return p; }
void * __wrap_realloc(void * p, size_t n) { void * q = __real_realloc(p, n); if (!p && q) flint_shim_live++; return q; }
void __wrap_free(void * p) { if (p) flint_shim_live--; __real_free(p); }
void * __wrap_aligned_alloc(size_t a, size_t n) { void * p = __real_aligned_alloc(a, n); if (p) flint_shim_live++; return p; }

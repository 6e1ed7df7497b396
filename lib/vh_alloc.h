/* Allocation wrappers for sources compiled with -Dmalloc=vh_malloc etc.
   A block whose size is symbolic is an unbounded array to the solver; here
   every block gets a constant size by splitting on the size instead.
   VH_ALLOC_POW2: sizes are split on powers of two (what dstr_t asks for);
   otherwise exactly. Blocks above VH_ALLOC_MAX go straight to malloc. */
#ifndef VH_ALLOC_H
#define VH_ALLOC_H
#undef malloc
#undef realloc
#ifndef VH_NO_FREE
#undef free
#endif
void *malloc(size_t); void free(void*);
#ifndef VH_ALLOC_MAX
#define VH_ALLOC_MAX 16
#endif
#ifdef VH_CBMC
void *vh_malloc(size_t n){
    if(n > VH_ALLOC_MAX) return malloc(n);
#ifdef VH_ALLOC_POW2
    __CPROVER_assert((n & (n - 1)) == 0, "unmodeled allocation size");
    for(size_t k = 1; k < VH_ALLOC_MAX; k *= 2) if(n == k) return malloc(k);
#else
    for(size_t k = 0; k < VH_ALLOC_MAX; k++) if(n == k) return malloc(k);
#endif
    return malloc(VH_ALLOC_MAX);
}
#else
void *vh_malloc(size_t n){ return malloc(n); }
#endif
#ifndef VH_OWN_REALLOC
#ifdef VH_CBMC
void *vh_realloc(void *p, size_t n){
    char *q = vh_malloc(n);
    if(!q) return NULL;
    if(p){
        size_t old = __CPROVER_OBJECT_SIZE(p);
        for(size_t i = 0; i < VH_ALLOC_MAX; i++)
            if(i < old && i < n) q[i] = ((char*)p)[i];
        free(p);
    }
    return q;
}
#else
void *realloc(void*, size_t);
void *vh_realloc(void *p, size_t n){ return realloc(p, n); }
#endif
#endif
#endif

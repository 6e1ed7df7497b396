/* Models linked into every symbolic build: logging and trace formatting have
   empty bodies; reaching a fatal log line or abort() is a failure; plus the
   libc functions CBMC has no model for. */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "libdstr/libdstr.h"

int pvt_do_log(log_level_t l, const char *f, const fmt_i **a, size_t n){
    (void)l; (void)f; (void)a; (void)n; return 0;
}
void pvt_do_log_fatal(const char *f, const fmt_i **a, size_t n){
    (void)f; (void)a; (void)n;
    __CPROVER_assert(0, "CHECK: process aborts (fatal log)");
    __CPROVER_assume(0);
}
derr_type_t pvt_trace_quiet(derr_t *e, const char *f, const fmt_i **a, size_t n){
    (void)e; (void)f; (void)a; (void)n; return E_NONE;
}
void abort(void){
    __CPROVER_assert(0, "CHECK: process aborts");
    __CPROVER_assume(0);
}
#ifdef VH_LOOPMEM
// byte-loop forms of the library's copies: far cheaper for the solver than
// the array-theory versions when lengths are symbolic and small
void *memcpy(void *d, const void *s, size_t n){
    __CPROVER_assert(n == 0 || d != s || 1, "memcpy");
    if(n){
        __CPROVER_assert(__CPROVER_r_ok(s, n), "memcpy source region readable");
        __CPROVER_assert(__CPROVER_w_ok(d, n), "memcpy destination region writeable");
        __CPROVER_assert(!__CPROVER_same_object(d, s) ||
            (size_t)__CPROVER_POINTER_OFFSET(d) >= (size_t)__CPROVER_POINTER_OFFSET(s) + n ||
            (size_t)__CPROVER_POINTER_OFFSET(s) >= (size_t)__CPROVER_POINTER_OFFSET(d) + n,
            "memcpy regions do not overlap");
    }
    for(size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i];
    return d;
}
void *memmove(void *d, const void *s, size_t n){
    if(n){
        __CPROVER_assert(__CPROVER_r_ok(s, n), "memmove source region readable");
        __CPROVER_assert(__CPROVER_w_ok(d, n), "memmove destination region writeable");
    }
    if(!__CPROVER_same_object(d, s) || __CPROVER_POINTER_OFFSET(d) < __CPROVER_POINTER_OFFSET(s)){
        for(size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i];
    }else{
        for(size_t i = n; i > 0; i--) ((char*)d)[i-1] = ((const char*)s)[i-1];
    }
    return d;
}
void *memset(void *d, int c, size_t n){
    if(n) __CPROVER_assert(__CPROVER_w_ok(d, n), "memset destination region writeable");
    for(size_t i = 0; i < n; i++) ((char*)d)[i] = (char)c;
    return d;
}
#endif
void explicit_bzero(void *p, size_t n){ memset(p, 0, n); }

/* libc for the LLVM-IR engine: plain definitions, written without branches on
   data where that keeps paths together */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libdstr/libdstr.h"
int __vh_errno;
int *__errno_location(void){ return &__vh_errno; }
size_t strlen(const char *s){ size_t n = 0; while(s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m){ size_t n = 0; while(n < m && s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n){
    const unsigned char *x = a, *y = b; int r = 0;
    for(size_t i = n; i-- > 0;){ int d = (int)x[i] - (int)y[i]; r = d ? d : r; }
    return r;
}
int bcmp(const void *a, const void *b, size_t n){ return memcmp(a, b, n); }
int strcmp(const char *a, const char *b){
    for(;; a++, b++){
        if((unsigned char)*a != (unsigned char)*b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
        if(!*a) return 0;
    }
}
int strncmp(const char *a, const char *b, size_t n){
    for(; n; a++, b++, n--){
        if((unsigned char)*a != (unsigned char)*b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
        if(!*a) return 0;
    }
    return 0;
}
char *strchr(const char *s, int c){ for(;; s++){ if(*s == (char)c) return (char*)s; if(!*s) return NULL; } }
char *strrchr(const char *s, int c){ char *r = NULL; for(;; s++){ if(*s == (char)c) r = (char*)s; if(!*s) return r; } }
void *memchr(const void *s, int c, size_t n){ const unsigned char *p = s; for(; n; n--, p++) if(*p == (unsigned char)c) return (void*)p; return NULL; }
void *memrchr(const void *s, int c, size_t n){ const unsigned char *p = s; while(n--) if(p[n] == (unsigned char)c) return (void*)(p + n); return NULL; }
char *strcpy(char *d, const char *s){ size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
void explicit_bzero(void *p, size_t n){ memset(p, 0, n); }
int isdigit(int c){ return c >= '0' && c <= '9'; }
int isupper(int c){ return c >= 'A' && c <= 'Z'; }
int islower(int c){ return c >= 'a' && c <= 'z'; }
int isalpha(int c){ return isupper(c) | islower(c); }
int isalnum(int c){ return isalpha(c) | isdigit(c); }
int isspace(int c){ return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isprint(int c){ return (c >= 32) & (c < 127); }
int isgraph(int c){ return (c > 32) & (c < 127); }
int isxdigit(int c){ return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int ispunct(int c){ return isgraph(c) & !isalnum(c); }
int iscntrl(int c){ return (c < 32) | (c == 127); }
int isblank(int c){ return (c == ' ') | (c == 9); }
int tolower(int c){ return isupper(c) ? c + 32 : c; }
int toupper(int c){ return islower(c) ? c - 32 : c; }
int strcasecmp(const char *a, const char *b){
    for(;; a++, b++){
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if(x != y) return x - y;
        if(!x) return 0;
    }
}
int strncasecmp(const char *a, const char *b, size_t n){
    for(; n; a++, b++, n--){
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if(x != y) return x - y;
        if(!x) return 0;
    }
    return 0;
}
char *strerror(int e){ (void)e; return "error"; }
int pvt_do_log(log_level_t l, const char *f, const fmt_i **a, size_t n){
    (void)l; (void)f; (void)a; (void)n; return 0;
}
void __sx_check(int, const char*);
void __sx_end(void);
void pvt_do_log_fatal(const char *f, const fmt_i **a, size_t n){
    (void)f; (void)a; (void)n;
    __sx_check(0, "process aborts (fatal log)");
    __sx_end();
}
derr_type_t pvt_trace_quiet(derr_t *e, const char *f, const fmt_i **a, size_t n){
    (void)e; (void)f; (void)a; (void)n; return E_NONE;
}
void flockfile(FILE *f){ (void)f; }
void funlockfile(FILE *f){ (void)f; }
// the conversions which the sources use
static size_t vh_num(char *b, size_t w, size_t cap, uint64_t v, unsigned base, unsigned width){
    uint64_t p = 1; unsigned n = 1;
    while(n < 20 && v / p >= base){ p *= base; n++; }
    while(width > n){ if(w < cap) b[w] = '0'; w++; width--; }
    for(; n; n--, p /= base){
        unsigned d = (unsigned)(v / p % base);
        if(w < cap) b[w] = (char)(d < 10 ? '0' + d : 'a' + d - 10);
        w++;
    }
    return w;
}
int vsnprintf(char *b, size_t cap, const char *f, va_list ap){
    size_t w = 0;
    for(; *f; f++){
        if(*f != '%'){ if(w < cap) b[w] = *f; w++; continue; }
        f++;
        unsigned width = 0; int l = 0;
        if(*f == '.' || *f == '0') f++;
        while(*f >= '0' && *f <= '9') width = width*10 + (unsigned)(*f++ - '0');
        while(*f == 'l' || *f == 'j' || *f == 'z'){ l = 1; f++; }
        if(*f == 'd' || *f == 'i'){
            int64_t v = l ? va_arg(ap, int64_t) : va_arg(ap, int);
            if(v < 0){ if(w < cap) b[w] = '-'; w++; w = vh_num(b, w, cap, (uint64_t)0 - (uint64_t)v, 10, width); }
            else w = vh_num(b, w, cap, (uint64_t)v, 10, width);
        }else if(*f == 'u' || *f == 'x'){
            uint64_t v = l ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
            w = vh_num(b, w, cap, v, *f == 'x' ? 16 : 10, width);
        }else if(*f == 's'){
            const char *s = va_arg(ap, const char*);
            for(; *s; s++){ if(w < cap) b[w] = *s; w++; }
        }else if(*f == 'c'){ int c = va_arg(ap, int); if(w < cap) b[w] = (char)c; w++; }
        else if(*f == 'p'){ void *p = va_arg(ap, void*); (void)p; if(w < cap) b[w] = 'p'; w++; }
        else if(*f == '%'){ if(w < cap) b[w] = '%'; w++; }
        else __builtin_trap();
    }
    if(cap) b[w < cap ? w : cap - 1] = 0;
    return (int)w;
}
int snprintf(char *b, size_t cap, const char *f, ...){
    va_list ap; va_start(ap, f);
    int r = vsnprintf(b, cap, f, ap);
    va_end(ap);
    return r;
}
int sprintf(char *b, const char *f, ...){
    va_list ap; va_start(ap, f);
    int r = vsnprintf(b, (size_t)1 << 30, f, ap);
    va_end(ap);
    return r;
}

char *strstr(const char *h, const char *n){
    for(;; h++){
        size_t i = 0;
        while(n[i] && h[i] == n[i]) i++;
        if(!n[i]) return (char*)h;
        if(!*h) return 0;
    }
}

/* single-threaded locks */
#include <pthread.h>
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a){ (void)a; memset(m, 0, sizeof(*m)); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m){ (void)m; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m){ int *p = (int*)m; if(*p) abort(); *p = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m){ int *p = (int*)m; if(!*p) abort(); *p = 0; return 0; }

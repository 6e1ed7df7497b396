/* vh.h: the harness side of the verification framework.
   The same harness source is compiled twice:
     - by goto-cc, where every nd_*() value is a fresh symbolic variable, and
     - natively (gcc + ASan + UBSan), where nd_*() pops the values of a solver
       counterexample, so a violation is only reported if the real code shows it. */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

#if defined(VH_SX)

// path-based engine (sx/): values are symbolic, branches fork
uint64_t __sx_nd(unsigned bits);
void __sx_assume(int c);
void __sx_check(int c, const char *msg);
void __sx_reach(const char *name);
uint64_t __sx_pick(uint64_t v);
static inline uint64_t nd_u64(void){ return __sx_nd(64); }
static inline uint32_t nd_u32(void){ return (uint32_t)__sx_nd(32); }
static inline uint16_t nd_u16(void){ return (uint16_t)__sx_nd(16); }
static inline uint8_t nd_u8(void){ return (uint8_t)__sx_nd(8); }
static inline bool nd_bool(void){ return __sx_nd(8) & 1; }
#define VH_ASSUME(c) __sx_assume(!!(c))
#define VH_CHECK(c, msg) __sx_check(!!(c), msg)
#define VH_REACH(name) __sx_reach(name)
#define VH_NATIVE 0

#elif defined(VH_CBMC)

uint64_t nondet_vh_u64(void);
uint32_t nondet_vh_u32(void);
uint16_t nondet_vh_u16(void);
uint8_t nondet_vh_u8(void);
_Bool nondet_vh_bool(void);

static inline uint64_t nd_u64(void){
    uint64_t v = nondet_vh_u64(); __CPROVER_input("nd", v); return v;
}
static inline uint32_t nd_u32(void){
    uint32_t v = nondet_vh_u32(); __CPROVER_input("nd", v); return v;
}
static inline uint16_t nd_u16(void){
    uint16_t v = nondet_vh_u16(); __CPROVER_input("nd", v); return v;
}
static inline uint8_t nd_u8(void){
    uint8_t v = nondet_vh_u8(); __CPROVER_input("nd", v); return v;
}
static inline bool nd_bool(void){
    _Bool b = nondet_vh_bool(); uint8_t v = b; __CPROVER_input("nd", v); return b;
}

#define VH_ASSUME(c) __CPROVER_assume(c)
#define VH_CHECK(c, msg) __CPROVER_assert((c), "CHECK: " msg)
#define VH_REACH(name) __CPROVER_assert(0, "REACH: " name)
#define VH_NATIVE 0
#define VH_MAIN(...)

#else

uint64_t vh_pop(void);
void vh_check_failed(const char *msg);
void vh_assume_failed(const char *file, int line);
void vh_reach(const char *name);

static inline uint64_t nd_u64(void){ return vh_pop(); }
static inline uint32_t nd_u32(void){ return (uint32_t)vh_pop(); }
static inline uint16_t nd_u16(void){ return (uint16_t)vh_pop(); }
static inline uint8_t nd_u8(void){ return (uint8_t)vh_pop(); }
static inline bool nd_bool(void){ return (bool)(vh_pop() & 1); }

#define VH_ASSUME(c) do { if(!(c)) vh_assume_failed(__FILE__, __LINE__); } while(0)
#define VH_CHECK(c, msg) do { if(!(c)) vh_check_failed(msg); } while(0)
#define VH_REACH(name) vh_reach(name)
#define VH_NATIVE 1

#endif

static inline int32_t nd_i32(void){ return (int32_t)nd_u32(); }
static inline int64_t nd_i64(void){ return (int64_t)nd_u64(); }
static inline size_t nd_size(size_t max){
    size_t v = (size_t)nd_u64(); VH_ASSUME(v <= max); return v;
}
// small symbolic number in [0,max], max<256
static inline unsigned nd_upto(unsigned max){
    unsigned v = nd_u8(); VH_ASSUME(v <= max); return v;
}
// the same, but each value is explored separately (a concrete number)
static inline unsigned nd_pick(unsigned max){
    unsigned v = nd_upto(max);
#ifdef VH_SX
    v = (unsigned)__sx_pick(v);
#endif
    return v;
}
// fill buf with arbitrary bytes (fixed length)
static inline void nd_bytes(char *buf, size_t n){
    for(size_t i = 0; i < n; i++) buf[i] = (char)nd_u8();
}

#endif

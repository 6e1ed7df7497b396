// Decimal/octal/hex integer text is parsed exactly, or rejected.
//@ property P01
//@ src libdstr/common.c libdstr/logger.c libdstr/fmt.c libdstr/cvt.c
//@ bounds: number strings of 0..6 arbitrary bytes, and of each type-limit prefix (base 10: 18446744073709551, 9223372036854775, 429496, 214748; base 16 and 8 likewise) with optional sign followed by 0..6 arbitrary bytes; base 8, 10 and 16; thorough: 0..18 (base 16) and 0..24 (base 8) arbitrary bytes
//@ assume: 64-bit long/size_t as on this platform
//@ entry h_unsigned@10 defs=BASE=10,LEN=5,PRE="" unwind=30
//@ entry h_unsigned@16 defs=BASE=16,LEN=6,PRE="" unwind=30
//@ entry h_unsigned@8 defs=BASE=8,LEN=6,PRE="" unwind=30
//@ entry h_unsigned@10max defs=BASE=10,LEN=5,PRE="18446744073709551" unwind=30
//@ entry h_unsigned@10max32 defs=BASE=10,LEN=5,PRE="429496" unwind=30
//@ entry h_unsigned@16max defs=BASE=16,LEN=6,PRE="FFFFFFFFfffff" unwind=30
//@ entry h_unsigned@8max defs=BASE=8,LEN=6,PRE="17777777777777777777" unwind=30
//@ entry h_signed@10 defs=BASE=10,LEN=5,PRE="" unwind=30
//@ entry h_signed@16 defs=BASE=16,LEN=6,PRE="" unwind=30
//@ entry h_signed@8 defs=BASE=8,LEN=6,PRE="" unwind=30
//@ entry h_signed@10max defs=BASE=10,LEN=5,PRE="9223372036854775" unwind=30
//@ entry h_signed@10min defs=BASE=10,LEN=5,PRE="-9223372036854775" unwind=30
//@ entry h_signed@10max32 defs=BASE=10,LEN=5,PRE="+214748" unwind=30
//@ entry h_signed@10min32 defs=BASE=10,LEN=5,PRE="-214748" unwind=30
//@ entry h_signed@16min defs=BASE=16,LEN=6,PRE="-800000000000" unwind=30
//@ entry h_unsigned@16full defs=BASE=16,LEN=18,PRE="" unwind=30 tier=thorough timeout=1500
//@ entry h_unsigned@8full defs=BASE=8,LEN=24,PRE="" unwind=30 tier=thorough timeout=1500
//@ entry h_signed@16full defs=BASE=16,LEN=18,PRE="" unwind=30 tier=thorough timeout=1500
//@ entry h_unsigned@10ten defs=BASE=10,LEN=11,PRE="" unwind=30 tier=thorough timeout=1500
//@ entry h_badbase defs=BASE=10,LEN=3,PRE="" unwind=8
#include "vh.h"
#include "libdstr/libdstr.h"

#define PLEN (sizeof(PRE) - 1)
typedef unsigned __int128 u128;

typedef struct { bool ok, neg; u128 mag; } ref_t;

// the meaning of a number string: optional sign, then only digits of the base
static ref_t ref_parse(const char *s, size_t n){
    ref_t r = {0};
    size_t i = 0;
    if(n > 0 && (s[0] == '-' || s[0] == '+')){ r.neg = s[0] == '-'; i = 1; }
    bool any = false, bad = false;
    for(size_t k = 0; k < PLEN + LEN; k++){
        if(k < i || k >= n) continue;
        unsigned char c = (unsigned char)s[k];
        unsigned d = 99;
        if(c >= '0' && c <= '9') d = c - '0';
        else if(c >= 'a' && c <= 'f') d = c - 'a' + 10u;
        else if(c >= 'A' && c <= 'F') d = c - 'A' + 10u;
        if(d >= BASE) bad = true;
        any = true;
        // 24 octal digits is 72 bits; no overflow of the reference
        r.mag = r.mag * BASE + d;
    }
    r.ok = any && !bad;
    return r;
}

#define SETUP \
    char buf[PLEN + LEN]; \
    for(size_t i = 0; i < PLEN; i++) buf[i] = PRE[i]; \
    nd_bytes(buf + PLEN, LEN); \
    size_t n = PLEN + nd_size(LEN); \
    dstr_t d; \
    DSTR_WRAP(d, buf, n, false); \
    ref_t r = ref_parse(buf, n);

#define ONE_U(suffix, T, max) do { \
    T v = (T)77; \
    derr_t e = dstr_to##suffix(&d, &v, BASE); \
    bool want = r.ok && !r.neg && r.mag <= (u128)(max); \
    VH_CHECK(is_error(e) == !want, "to" #suffix " accepts exactly the in-range numbers"); \
    VH_CHECK(!want || v == (T)r.mag, "to" #suffix " returns the value written"); \
    VH_CHECK(want || e.type == E_PARAM, "to" #suffix " reports a parameter error"); \
    DROP_VAR(&e); \
} while(0)

#define ONE_I(suffix, T, max) do { \
    T v = (T)77; \
    derr_t e = dstr_to##suffix(&d, &v, BASE); \
    bool want = r.ok && r.mag <= (u128)(max) + (r.neg ? 1 : 0); \
    VH_CHECK(is_error(e) == !want, "to" #suffix " accepts exactly the in-range numbers"); \
    VH_CHECK(!want || (r.neg ? (u128)(-((__int128)v)) == r.mag : (u128)v == r.mag), \
        "to" #suffix " returns the value written"); \
    VH_CHECK(want || e.type == E_PARAM, "to" #suffix " reports a parameter error"); \
    DROP_VAR(&e); \
} while(0)

void h_unsigned(void){
    SETUP
    switch(nd_u8() % 6){
        case 0: ONE_U(u, unsigned int, UINT_MAX); break;
        case 1: ONE_U(ul, unsigned long, ULONG_MAX); break;
        case 2: ONE_U(size, size_t, SIZE_MAX); break;
        case 3: ONE_U(ull, unsigned long long, ULLONG_MAX); break;
        case 4: ONE_U(u64, uint64_t, UINT64_MAX); break;
        default: ONE_U(umax, uintmax_t, UINTMAX_MAX); break;
    }
    if(r.ok && !r.neg) VH_REACH("valid number");
    if(!r.ok) VH_REACH("not a number");
}

void h_signed(void){
    SETUP
    switch(nd_u8() % 5){
        case 0: ONE_I(i, int, INT_MAX); break;
        case 1: ONE_I(l, long, LONG_MAX); break;
        case 2: ONE_I(ll, long long, LLONG_MAX); break;
        case 3: ONE_I(i64, int64_t, INT64_MAX); break;
        default: ONE_I(imax, intmax_t, INTMAX_MAX); break;
    }
    if(r.ok) VH_REACH("valid number");
    if(!r.ok) VH_REACH("not a number");
}

void h_badbase(void){
    SETUP
    int base = (int)nd_u8();
    VH_ASSUME(base != 8 && base != 10 && base != 16);
    unsigned int u = 5; int i = 5;
    derr_t e = dstr_tou(&d, &u, base);
    VH_CHECK(is_error(e), "unsupported base is an error");
    DROP_VAR(&e);
    e = dstr_toi(&d, &i, base);
    VH_CHECK(is_error(e), "unsupported base is an error");
    DROP_VAR(&e);
    (void)r;
    VH_REACH("end");
}

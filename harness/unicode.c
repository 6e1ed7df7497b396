// UTF-8 / UTF-16: exact, and insensitive to how the input is chunked
//@ property P03
//@ src libdstr/common.c libdstr/logger.c libdstr/fmt.c libdstr/unicode.c
//@ bounds: encoders: every 32-bit code point; UTF-8 decoder: every byte string of 0..N bytes (quick N=5, thorough N=7) against a reference of RFC 3629; every split of it into two chunks; UTF-16: every string of 0..8 bytes, split anywhere, big- and little-endian and BOM
//@ entry h_encode8 unwind=8
//@ entry h_encode16 unwind=10
//@ entry h_decode8 defs=N=5 unwind=8
//@ entry h_chunk8 defs=N=4 unwind=7
//@ entry h_decode16 defs=N=8 unwind=14
//@ entry h_decode8@deep defs=N=6 unwind=9 tier=thorough timeout=1500
//@ entry h_chunk8@deep defs=N=6 unwind=9 tier=thorough timeout=1500
#include "vh.h"
#include "libdstr/libdstr.h"
#ifndef N
#define N 4
#endif

typedef struct { unsigned char b[8]; size_t n; } bytes_t;
typedef struct { uint32_t cp[2*N + 2]; size_t n; } cps_t;
typedef struct { uint16_t u[4]; size_t n; } u16s_t;

static derr_type_t get_byte(char c, void *data){
    bytes_t *o = data;
    VH_CHECK(o->n < 8, "at most 8 bytes per code point");
    o->b[o->n++] = (unsigned char)c;
    return E_NONE;
}
static derr_type_t get_u16(uint16_t c, void *data){
    u16s_t *o = data;
    VH_CHECK(o->n < 4, "at most 2 units per code point");
    o->u[o->n++] = c;
    return E_NONE;
}
static derr_type_t get_cp(uint32_t c, void *data){
    cps_t *o = data;
    VH_CHECK(o->n < 2*N + 2, "at most one code point per byte");
    o->cp[o->n++] = c;
    return E_NONE;
}

static bool scalar(uint32_t c){
    return c < 0xD800 || (c > 0xDFFF && c < 0x110000);
}

void h_encode8(void){
    uint32_t cp = nd_u32();
    bytes_t o = {0};
    derr_type_t et = utf8_encode_quiet(cp, get_byte, &o);
    VH_CHECK((et == E_NONE) == scalar(cp), "exactly the unicode scalar values encode to utf8");
    if(et == E_NONE){
        size_t want = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
        VH_CHECK(o.n == want, "utf8 length is minimal");
        cps_t back = {0};
        derr_type_t et2 = utf8_decode_quiet((char*)o.b, o.n, get_cp, &back);
        VH_CHECK(et2 == E_NONE && back.n == 1 && back.cp[0] == cp, "utf8 encode then decode is the identity");
        if(want == 4) VH_REACH("four byte code point");
    }else VH_REACH("rejected code point");
}

void h_encode16(void){
    uint32_t cp = nd_u32();
    u16s_t o = {0};
    derr_type_t et = utf16_encode_quiet(cp, get_u16, &o);
    VH_CHECK((et == E_NONE) == scalar(cp), "exactly the unicode scalar values encode to utf16");
    if(et == E_NONE){
        bool be = nd_bool();
        char b[8];
        for(size_t i = 0; i < o.n; i++){
            b[2*i + !be] = (char)(o.u[i] >> 8);
            b[2*i + be] = (char)(o.u[i] & 0xff);
        }
        cps_t back = {0};
        derr_type_t et2 = be ? utf16_be_decode_quiet(b, 2*o.n, get_cp, &back)
                             : utf16_le_decode_quiet(b, 2*o.n, get_cp, &back);
        VH_CHECK(et2 == E_NONE && back.n == 1 && back.cp[0] == cp, "utf16 encode then decode is the identity");
        if(o.n == 2) VH_REACH("surrogate pair");
    }else VH_REACH("rejected code point");
}

// RFC 3629 table; returns false if malformed
static bool ref_utf8(const unsigned char *s, size_t n, cps_t *o){
    size_t i = 0;
    for(size_t k = 0; k < N; k++){
        if(i >= n) break;
        unsigned char a = s[i];
        if(a < 0x80){ o->cp[o->n++] = a; i++; continue; }
        size_t len; unsigned char lo = 0x80, hi = 0xBF; uint32_t c;
        if(a >= 0xC2 && a <= 0xDF){ len = 2; c = a & 0x1fu; }
        else if(a >= 0xE0 && a <= 0xEF){ len = 3; c = a & 0xfu; if(a==0xE0) lo=0xA0; if(a==0xED) hi=0x9F; }
        else if(a >= 0xF0 && a <= 0xF4){ len = 4; c = a & 7u; if(a==0xF0) lo=0x90; if(a==0xF4) hi=0x8F; }
        else return false;
        if(n - i < len) return false;
        for(size_t j = 1; j < 4; j++){
            if(j >= len) break;
            unsigned char x = s[i+j];
            if(x < (j==1?lo:0x80) || x > (j==1?hi:0xBF)) return false;
            c = (c << 6) | (x & 0x3fu);
        }
        o->cp[o->n++] = c;
        i += len;
    }
    return true;
}

void h_decode8(void){
    char b[N]; nd_bytes(b, N);
    size_t n = nd_size(N);
    cps_t want = {0}, got = {0};
    bool ok = ref_utf8((unsigned char*)b, n, &want);
    derr_type_t et = utf8_decode_quiet(b, n, get_cp, &got);
    VH_CHECK(ok == (et == E_NONE), "exactly well-formed utf8 is accepted");
    if(ok){
        VH_CHECK(got.n == want.n, "utf8 decodes to the right number of code points");
        for(size_t i = 0; i < N; i++)
            if(i < want.n) VH_CHECK(got.cp[i] == want.cp[i], "utf8 decodes to the right code points");
        if(want.n == N - 2) VH_REACH("multi byte text");
    }else VH_REACH("malformed text");
}

void h_chunk8(void){
    char b[N]; nd_bytes(b, N);
    size_t n = nd_size(N), k = nd_size(N);
    VH_ASSUME(k <= n);
    cps_t one = {0}, two = {0};
    uint32_t cp = 0, cp2 = 0; size_t tail = 0, tail2 = 0;
    derr_type_t e1 = utf8_decode_stream(b, n, get_cp, &one, &cp, &tail);
    derr_type_t e2 = utf8_decode_stream(b, k, get_cp, &two, &cp2, &tail2);
    if(!e2) e2 = utf8_decode_stream(b + k, n - k, get_cp, &two, &cp2, &tail2);
    VH_CHECK((e1 == E_NONE) == (e2 == E_NONE), "chunking does not change whether utf8 is accepted");
    if(!e1){
        VH_CHECK(tail == tail2, "chunking does not change whether utf8 is complete");
        VH_CHECK(one.n == two.n, "chunking does not change the decoded text");
        for(size_t i = 0; i < N; i++)
            if(i < one.n) VH_CHECK(one.cp[i] == two.cp[i], "chunking does not change the decoded text");
        if(k > 0 && k < n && tail) VH_REACH("split inside a sequence");
    }
}

void h_decode16(void){
    char b[N]; nd_bytes(b, N);
    size_t n = nd_size(N), k = nd_size(N);
    VH_ASSUME(k <= n);
    unsigned mode = nd_upto(2);
    utf16_state_t st = mode == 0 ? (utf16_state_t){0} : mode == 1 ? utf16_start_be() : utf16_start_le();
    // reference
    unsigned char *u = (unsigned char*)b;
    cps_t want = {0}; bool ok = true, be = mode == 1, stop = false;
    size_t i = 0;
    if(mode == 0){
        if(n < 2) stop = true;
        else if(u[0] == 0xFE && u[1] == 0xFF) be = true;
        else if(!(u[0] == 0xFF && u[1] == 0xFE)) ok = false;
        i = 2;
    }
    if(n % 2) ok = false;
    for(size_t q = 0; q < N/2; q++){
        if(!ok || stop || i + 2 > n) break;
        uint32_t a = be ? (uint32_t)(u[i] << 8 | u[i+1]) : (uint32_t)(u[i+1] << 8 | u[i]);
        i += 2;
        if(a >= 0xDC00 && a <= 0xDFFF){ ok = false; break; }
        if(a >= 0xD800 && a < 0xDC00){
            if(i + 2 > n){ ok = false; break; }
            uint32_t c = be ? (uint32_t)(u[i] << 8 | u[i+1]) : (uint32_t)(u[i+1] << 8 | u[i]);
            i += 2;
            if(c < 0xDC00 || c > 0xDFFF){ ok = false; break; }
            a = 0x10000 + ((a - 0xD800) << 10) + (c - 0xDC00);
        }
        want.cp[want.n++] = a;
    }
    cps_t got = {0}, two = {0};
    derr_type_t et = mode == 0 ? utf16_decode_quiet(b, n, get_cp, &got)
        : mode == 1 ? utf16_be_decode_quiet(b, n, get_cp, &got) : utf16_le_decode_quiet(b, n, get_cp, &got);
    VH_CHECK(ok == (et == E_NONE), "exactly well-formed utf16 is accepted");
    if(ok){
        VH_CHECK(got.n == want.n, "utf16 decodes to the right number of code points");
        for(size_t q = 0; q < N/2; q++)
            if(q < want.n) VH_CHECK(got.cp[q] == want.cp[q], "utf16 decodes to the right code points");
        derr_type_t e2 = utf16_decode_stream(b, k, get_cp, &two, &st);
        if(!e2) e2 = utf16_decode_stream(b + k, n - k, get_cp, &two, &st);
        VH_CHECK(e2 == E_NONE && st.state == 0, "a split utf16 string is still accepted");
        VH_CHECK(two.n == want.n, "chunking does not change the decoded utf16");
        for(size_t q = 0; q < N/2; q++)
            if(q < want.n) VH_CHECK(two.cp[q] == want.cp[q], "chunking does not change the decoded utf16");
        if(k % 2 && want.n > 1) VH_REACH("split inside a unit");
    }else VH_REACH("malformed text");
}

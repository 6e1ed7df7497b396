// base64 and hex codecs: exact, invertible, insensitive to chunking
//@ property P02
//@ src dstr
//@ bounds: base64: every byte string of 0..N bytes (N=7 quick, 10 thorough), every split into two chunks, line widths 0, 4 and 8; decoding of every text of 0..8 bytes over the full byte alphabet; hex: every byte string of 0..4 bytes and every text of 0..6 bytes; output buffers of every size up to the needed one
//@ entry h_encode defs=N=7 unwind=16
//@ entry h_lines defs=N=7 unwind=20
//@ entry h_roundtrip defs=N=6 unwind=14
//@ entry h_stream_enc@4 defs=N=5,LW=4,CUT=4 unwind=14 checks=0 copy=4
//@ entry h_stream_enc@8 defs=N=7,LW=8,CUT=5 unwind=16 checks=0 copy=5
//@ entry h_stream_dec@2 defs=N=5,CUT=2 unwind=14 checks=0 copy=5
//@ entry h_stream_dec@7 defs=N=7,CUT=7 unwind=14 checks=0 copy=5
//@ entry h_stream_dec@6 defs=N=7,CUT=6 unwind=14 checks=0 copy=5
//@ entry h_stream_dec@9 defs=N=8,CUT=9 unwind=14 checks=0 copy=5 tier=thorough
//@ entry h_stream_dec@4 defs=N=8,CUT=4 unwind=14 checks=0 copy=5 tier=thorough
//@ entry h_stream_enc@1 defs=N=9,LW=4,CUT=1 unwind=24 checks=0 copy=9 tier=thorough timeout=1200
//@ entry h_stream_enc@7 defs=N=10,LW=8,CUT=7 unwind=24 checks=0 copy=10 tier=thorough timeout=1200
//@ entry h_decode_any unwind=12
//@ entry h_writer defs=N=7 unwind=14
//@ entry h_fixed defs=N=6 unwind=14
//@ entry h_hex unwind=12
//@ entry h_hex_any unwind=10
//@ entry h_roundtrip@deep defs=N=10 unwind=20 tier=thorough timeout=1200
#include "vh.h"
#include "libdstr/libdstr.h"
#ifndef N
#define N 7
#endif
#ifndef CUT
#define CUT 4
#endif
#define OUT (((N + 2) / 3) * 4 + 8)

#ifdef VH_CBMC
// bin2hex formats with this one conversion
int snprintf(char *s, size_t n, const char *f, ...){
    __builtin_va_list ap; __builtin_va_start(ap, f);
    unsigned v = __builtin_va_arg(ap, unsigned char);
    __builtin_va_end(ap);
    __CPROVER_assert(f[0]=='%' && f[1]=='.' && f[2]=='2' && f[3]=='x' && !f[4] && n >= 3, "unmodeled snprintf");
    s[0] = "0123456789abcdef"[(v >> 4) & 15]; s[1] = "0123456789abcdef"[v & 15]; s[2] = 0;
    return 2;
}
#endif

static const char alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// character i of the RFC 4648 encoding of s[0:n]
static char ref_char(const char *s, size_t n, size_t i){
    size_t g = (i / 4) * 3;
    unsigned b0 = (unsigned char)s[g];
    unsigned b1 = g + 1 < n ? (unsigned char)s[g+1] : 0;
    unsigned b2 = g + 2 < n ? (unsigned char)s[g+2] : 0;
    uint32_t v = b0 << 16 | b1 << 8 | b2;
    switch(i % 4){
        case 0: return alpha[(v >> 18) & 63];
        case 1: return alpha[(v >> 12) & 63];
        case 2: return g + 1 < n ? alpha[(v >> 6) & 63] : '=';
        default: return g + 2 < n ? alpha[v & 63] : '=';
    }
}

static dstr_t wrap(char *b, size_t size, size_t len){
    return (dstr_t){ .data = b, .size = size, .len = len, .fixed_size = true };
}

void h_encode(void){
    char in[N]; nd_bytes(in, N);
    size_t n = nd_size(N);
    char ob[OUT]; dstr_t out = wrap(ob, OUT, 0);
    dstr_t bin = wrap(in, N, n);
    derr_t e = bin2b64(&bin, &out);
    VH_CHECK(!e.type, "encoding into enough space succeeds");
    VH_CHECK(out.len == (n + 2) / 3 * 4, "encoded length is exact");
    VH_CHECK(out.len <= bin2b64_output_len(n), "encoded length prediction is sufficient");
    for(size_t i = 0; i < OUT; i++){
        if(i < out.len) VH_CHECK(ob[i] == ref_char(in, n, i), "base64 text follows RFC 4648");
    }
    if(n == N) VH_REACH("full length");
    if(n == 2) VH_REACH("one pad");
}

// with a line width, the text is the same but for the line breaks
void h_lines(void){
    char in[N]; nd_bytes(in, N);
    size_t n = nd_size(N);
    size_t lw = nd_bool() ? 4 : 8;
    char ob[OUT]; dstr_t out = wrap(ob, OUT, 0);
    dstr_t bin = wrap(in, N, n);
    derr_t e = bin2b64_stream(&bin, &out, lw, true);
    VH_CHECK(!e.type && bin.len == 0, "forced end encodes everything");
    size_t j = 0, col = 0;
    for(size_t i = 0; i < OUT; i++){
        if(i >= out.len) break;
        if(ob[i] == '\n'){
            VH_CHECK(col == lw || i + 1 == out.len, "lines are full except the last");
            VH_CHECK(col > 0, "no empty lines");
            col = 0;
        }else{
            VH_CHECK(ob[i] == ref_char(in, n, j), "line-wrapped text follows RFC 4648");
            j++; col++;
            VH_CHECK(col <= lw, "lines are at most the line width");
        }
    }
    VH_CHECK(j == (n + 2) / 3 * 4, "nothing is lost");
    VH_CHECK(col == 0, "output ends with a line break");
    if(lw == 4 && n == N) VH_REACH("several lines");
}

void h_stream_enc(void){
    char in[N]; nd_bytes(in, N);
    size_t cut = CUT;
#ifndef LW
#define LW 4
#endif
    size_t lw = LW;
    char w1[OUT], w2[OUT]; dstr_t a = wrap(w1, OUT, 0), b = wrap(w2, OUT, 0);
    char all[N]; for(size_t i = 0; i < N; i++) all[i] = in[i];
    dstr_t whole = wrap(all, N, N);
    derr_t e = bin2b64_stream(&whole, &a, lw, true);
    VH_CHECK(!e.type, "one chunk");
    // feed the buffer in two pieces; unconsumed bytes stay at its front
    char buf[N]; dstr_t part = wrap(buf, N, 0);
    for(size_t i = 0; i < N; i++) if(i < cut) buf[part.len++] = in[i];
    e = bin2b64_stream(&part, &b, lw, false);
    VH_CHECK(!e.type, "first chunk");
    VH_CHECK(part.len < 6, "only an incomplete line is held back");
    for(size_t i = 0; i < N; i++) if(i >= cut){
        VH_CHECK(part.len < N, "stream keeps at most the unread bytes");
        buf[part.len++] = in[i];
    }
    e = bin2b64_stream(&part, &b, lw, true);
    VH_CHECK(!e.type, "second chunk");
    VH_CHECK(a.len == b.len, "chunked encoding has the same length");
    for(size_t i = 0; i < OUT; i++) if(i < a.len)
        VH_CHECK(w1[i] == w2[i], "chunked encoding gives the same text");
    VH_REACH("split");
}

void h_roundtrip(void){
    char in[N]; nd_bytes(in, N);
    size_t n = nd_size(N);
    char ob[OUT]; dstr_t out = wrap(ob, OUT, 0);
    char db[N]; dstr_t back = wrap(db, N, 0);
    dstr_t bin = wrap(in, N, n);
    derr_t e = bin2b64(&bin, &out);
    VH_CHECK(!e.type, "encodes");
    e = b642bin(&out, &back);
    VH_CHECK(!e.type, "what was encoded decodes, into exactly the original size");
    VH_CHECK(back.len == n, "decoded length is the original length");
    VH_CHECK(n <= b642bin_output_len(out.len), "decoded length prediction is sufficient");
    for(size_t i = 0; i < N; i++) if(i < n)
        VH_CHECK(db[i] == in[i], "decoding inverts encoding");
    if(n == N - 1) VH_REACH("padded");
}

void h_stream_dec(void){
    char in[N]; nd_bytes(in, N);
    size_t n = N;
    char ob[OUT]; dstr_t out = wrap(ob, OUT, 0);
    for(size_t i = 0; i < (N + 2) / 3 * 4; i++) ob[out.len++] = ref_char(in, n, i);
    derr_t e;
    size_t cut = CUT; VH_ASSUME(cut <= out.len);
    char tb[OUT]; dstr_t txt = wrap(tb, OUT, 0);
    char db[N]; dstr_t back = wrap(db, N, 0);
    for(size_t i = 0; i < OUT; i++) if(i < cut) tb[txt.len++] = ob[i];
    e = b642bin_stream(&txt, &back);
    VH_CHECK(!e.type && txt.len < 4, "only an incomplete group is held back");
    for(size_t i = 0; i < OUT; i++) if(i >= cut && i < out.len){
        VH_CHECK(txt.len < OUT, "room"); tb[txt.len++] = ob[i];
    }
    e = b642bin_stream(&txt, &back);
    VH_CHECK(!e.type && txt.len == 0, "everything is consumed");
    VH_CHECK(back.len == n, "chunked decoding has the same length");
    for(size_t i = 0; i < N; i++) if(i < n)
        VH_CHECK(db[i] == in[i], "chunked decoding gives the same bytes");
    VH_REACH("split inside a group");
}

static int val(char c){
    for(int i = 0; i < 64; i++) if(alpha[i] == c) return i;
    return -1;
}

#define T 8
void h_decode_any(void){
    char t[T]; nd_bytes(t, T);
    size_t n = nd_size(T);
    char db[6]; dstr_t back = wrap(db, 6, 0);
    dstr_t txt = wrap(t, T, n);
    derr_t e = b642bin(&txt, &back);
    size_t sig = 0; bool eq = false;
    for(size_t i = 0; i < T; i++){
        if(i >= n) break;
        char c = t[i];
        bool a = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/';
        if(a || c == '=') sig++;
        if(c == '=') eq = true;
    }
    if(sig % 4) VH_CHECK(e.type != E_NONE, "text cut inside a group is refused");
    VH_CHECK(e.type == E_NONE || e.type == E_PARAM, "bad text is a parameter error");
    if(!e.type && !eq) VH_CHECK(back.len == sig / 4 * 3, "every group of text gives three bytes");
    if(!e.type && n == 4 && sig == 4) VH_REACH("accepted");
    if(e.type) VH_REACH("refused");
}

static char wbuf[OUT]; static size_t wlen;
static derr_type_t w_putc(writer_i *iface, char c){
    (void)iface;
    VH_CHECK(wlen < OUT, "encoder output is bounded");
    wbuf[wlen++] = c; return E_NONE;
}
static derr_type_t w_puts(writer_i *iface, const char *s, size_t n){
    for(size_t i = 0; i < n; i++) w_putc(iface, s[i]);
    return E_NONE;
}
// the formatting pipeline's encoder agrees with the buffer encoder
void h_writer(void){
    char in[N]; nd_bytes(in, N);
    size_t n = nd_size(N), cut = nd_size(N); VH_ASSUME(cut <= n);
    wlen = 0;
    writer_t sink = { .puts = w_puts, .putc = w_putc };
    writer_i s = { .w = &sink };
    _writer_b64_t w = { { &_writer_b64 }, &s };
    derr_type_t t = w.iface.w->puts(&w.iface, in, cut);
    VH_CHECK(!t, "first piece");
    for(size_t i = 0; i < N; i++) if(i >= cut && i < n){
        t = w.iface.w->putc(&w.iface, in[i]);
        VH_CHECK(!t, "next byte");
    }
    t = w.iface.w->unlock(&w.iface);
    VH_CHECK(!t, "finish");
    VH_CHECK(wlen == (n + 2) / 3 * 4, "writer output length is exact");
    for(size_t i = 0; i < OUT; i++) if(i < wlen)
        VH_CHECK(wbuf[i] == ref_char(in, n, i), "writer output follows RFC 4648");
    if(cut == 2 && n == N) VH_REACH("split");
}

// too little space is an error, never an overrun or a wrong success
void h_fixed(void){
    char in[N]; nd_bytes(in, N);
    size_t n = nd_size(N);
    size_t room = nd_size(OUT);
    char ob[OUT]; for(size_t i = 0; i < OUT; i++) ob[i] = 0x55;
    dstr_t out = wrap(ob, room, 0);
    dstr_t bin = wrap(in, N, n);
    derr_t e = bin2b64(&bin, &out);
    VH_CHECK((e.type == E_NONE) == (room >= (n + 2) / 3 * 4), "encoding fails exactly when the buffer is too small");
    VH_CHECK(out.len <= room, "length stays inside the buffer");
    for(size_t i = 0; i < OUT; i++) if(i >= room) VH_CHECK(ob[i] == 0x55, "nothing is written beyond the buffer");
    if(e.type) VH_REACH("too small"); else if(room == 4) VH_REACH("exact fit");
}

#define HN 4
void h_hex(void){
    char in[HN]; nd_bytes(in, HN);
    size_t n = nd_size(HN);
    char ob[2*HN]; dstr_t out = wrap(ob, 2*HN, 0);
    char db[HN]; dstr_t back = wrap(db, HN, 0);
    dstr_t bin = wrap(in, HN, n);
    derr_t e = bin2hex(&bin, &out);
    VH_CHECK(!e.type && out.len == 2*n, "two digits per byte");
    for(size_t i = 0; i < HN; i++) if(i < n){
        unsigned char u = (unsigned char)in[i];
        VH_CHECK(ob[2*i] == "0123456789abcdef"[u >> 4] && ob[2*i+1] == "0123456789abcdef"[u & 15], "hex digits are right");
        VH_CHECK(hex_high_nibble(u) == ob[2*i] && hex_low_nibble(u) == ob[2*i+1], "nibble helpers agree");
    }
    e = hex2bin(&out, &back);
    VH_CHECK(!e.type && back.len == n, "hex decodes");
    for(size_t i = 0; i < HN; i++) if(i < n) VH_CHECK(db[i] == in[i], "hex round trip");
    if(n == HN) VH_REACH("full");
}

#define HT 6
static int hexval(char c){
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    if(c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
void h_hex_any(void){
    char t[HT]; nd_bytes(t, HT);
    size_t n = nd_size(HT);
    char db[HT]; dstr_t back = wrap(db, HT, 0);
    dstr_t txt = wrap(t, HT, n);
    // whitespace is only recognized in the ascii range
    for(size_t i = 0; i < HT; i++) VH_ASSUME((signed char)t[i] >= 0);
    derr_t e = hex2bin(&txt, &back);
    bool ok = true; size_t nd = 0; unsigned char want[HT];
    for(size_t i = 0; i < HT; i++){
        if(i >= n) break;
        int v = hexval(t[i]);
        if(v < 0){
            if(t[i] == ' ' || (t[i] >= '\t' && t[i] <= '\r')) continue;
            ok = false; break;
        }
        if(nd % 2 == 0) want[nd/2] = (unsigned char)(v << 4); else want[nd/2] |= (unsigned char)v;
        nd++;
    }
    if(nd % 2) ok = false;
    VH_CHECK(ok == (e.type == E_NONE), "exactly whole bytes of hex digits are accepted");
    if(ok){
        VH_CHECK(back.len == nd / 2, "hex byte count");
        for(size_t i = 0; i < HT; i++) if(i < back.len) VH_CHECK((unsigned char)db[i] == want[i], "hex value");
        if(nd == 4) VH_REACH("accepted with spaces");
    }else VH_REACH("refused");
}

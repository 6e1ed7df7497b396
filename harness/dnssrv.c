// the DNS server: what it accepts from the network and what it answers
//@ property P60 P61
//@ engine sx
//@ src dstr server/dns/parse.c server/dns/write.c server/dns/dns.c server/dns/rrl.c
//@ gen web
//@ stub _fmt_pkt
//@ bounds: P60: (any byte) packets of up to 17 bytes with at most one question; a question followed by records in any section whose 13 bytes are arbitrary, or by two records with up to 6 bytes of data each; names with pointers; up to 13 bytes of EDNS options
//@ bounds: P61: 9 names (upper or lower case, written with and without pointers), every type, class, id and flag byte, with and without EDNS of any size, every state of the challenge; 10 queries at any times within 32 s
//@ entry h_raw prop=P60 jobs=6
//@ entry h_rrs prop=P60 jobs=6
//@ entry h_rrs@2 prop=P60 defs=T=15 jobs=8 tier=thorough timeout=3000
//@ entry h_two prop=P60 jobs=6
//@ entry h_opts prop=P60 jobs=6
//@ entry h_name prop=P60 jobs=6
//@ entry h_query prop=P61 jobs=6
//@ entry h_rrl prop=P61 jobs=4
#ifndef T
#define T 13
#endif
#ifndef N
#define N 0
#endif
#include "vh.h"
#include "server/dns/libdns.h"

derr_type_t _fmt_pkt(const fmt_i *iface, writer_i *out){ (void)iface; (void)out; return E_NONE; }
static const dstr_t unsure_; const dstr_t *UNSURE = &unsure_;

static unsigned char *pk; static size_t pn;
static void pkt(size_t n){ pk = malloc(n ? n : 1); VH_ASSUME(pk != NULL); pn = n; }
/* what the challenge store says */
static const dstr_t *secret; static char asked[64]; static size_t nasked; static int nget;
static const dstr_t *iget(kvp_i *k, lstr_t u){ (void)k; nget++; nasked = u.len; if(u.len <= 64) memcpy(asked, u.str, u.len); return secret; }
static kvp_i kvp = { .iget = iget };

/* the bytes which say how the packet is laid out take each of their values in turn, all others stay open */
static bool shaping, coarse; static bool fixed[400];
static unsigned pick_len(size_t at){
    if(!shaping || fixed[at]) return pk[at];
    fixed[at] = true;
    unsigned room = (unsigned)(pn - at - 1); if(room > 62) room = 62;
    unsigned k = nd_pick(coarse && room > 2 ? 5 : room + 3);
    if(coarse && room > 2 && k > 1) k = k == 2 ? room - (room > 11 ? 11 : 0) : room + k - 2;
    unsigned char c = nd_u8();
    if(k <= room) return pk[at] = (unsigned char)k;
    if(k == room + 1){ VH_ASSUME(c > room && c < 64); }
    else if(k == room + 2){ VH_ASSUME(c >= 64 && c < 192); }
    else{ c = 192; }
    return pk[at] = c;
}
static unsigned pick_to(size_t at){
    unsigned hi = pk[at - 1] & 63;
    if(shaping && !fixed[at]){
        fixed[at] = true;
        unsigned k = 11 + nd_pick(coarse ? 3 : (unsigned)pn - 11);
        if(coarse && k > 12) k = k == 13 ? 17 : (unsigned)pn;
        if(k < pn) pk[at] = (unsigned char)k;
        else{ pk[at] = nd_u8(); VH_ASSUME(pk[at] >= pn); }
    }
    return hi << 8 | pk[at];
}
static unsigned pick_len16(size_t at, size_t room){
    if(!shaping || fixed[at] || fixed[at + 1]) return (unsigned)(pk[at] << 8 | pk[at + 1]);
    fixed[at] = fixed[at + 1] = true;
    unsigned k = nd_pick((unsigned)room + 1);
    if(k <= room){ pk[at] = 0; pk[at + 1] = (unsigned char)k; return k; }
    VH_ASSUME((pk[at] << 8 | pk[at + 1]) > (int)room);
    return 65535;
}

/* RFC 1035 and 6891, read from the packet on its own */
#define BAD ((size_t)-1)
static unsigned lab_at[130]; static unsigned lab_n[130]; static int nlab;
static size_t r_name(size_t at){
    size_t end = 0, total = 0; bool jumped = false, just = false; nlab = 0;
    while(1){
        if(at >= pn) return BAD;
        unsigned l = pick_len(at++);
        if(l >= 0xC0){
            if(just || at >= pn) return BAD;
            unsigned to = pick_to(at++);
            if(!jumped) end = at;
            jumped = just = true; at = to;
            continue;
        }
        if(l > 63 || l > pn - at) return BAD;
        just = false;
        total += l + 1; if(total > 255) return BAD;
        if(!l) return jumped ? end : at;
        lab_at[nlab] = (unsigned)at; lab_n[nlab++] = l;
        at += l;
    }
}
static unsigned u16(size_t at){ return (unsigned)(pk[at] << 8 | pk[at + 1]); }
static struct { bool ok, edns; unsigned size, qtype, qclass; size_t qend; } ref;
static void r_packet(void){
    ref.ok = ref.edns = false;
    if(pn < 12) return;
    size_t at = 12;
    for(unsigned q = u16(4); q-- && at != BAD;) at = r_name(at);
    if(at == BAD || pn - at < 4) return;
    ref.qtype = u16(at); ref.qclass = u16(at + 2); at += 4; ref.qend = at;
    for(int s = 0; s < 3; s++) for(unsigned i = 0, n = u16(6 + 2 * (size_t)s); i < n; i++){
        size_t name = at;
        at = r_name(at);
        if(at == BAD || pn - at < 10) return;
        unsigned type = u16(at), cls = u16(at + 2), len = pick_len16(at + 8, pn - at - 10); at += 10;
        if(pn - at < len) return;
        if(s == 2 && type == 41){
            if(ref.edns || pk[name]) return;
            ref.edns = true; ref.size = cls;
            for(size_t o = at; o < at + len;){ if(at + len - o < 4) return; unsigned ol = pick_len16(o + 2, at + len - o - 4); o += 4; if(at + len - o < ol) return; o += ol; }
        }
        at += len;
    }
    ref.ok = u16(4) == 1;
}
/* the answer there should be */
static unsigned char ex[600]; static size_t xn;
static void x8(unsigned v){ VH_CHECK(xn < sizeof ex, "x"); ex[xn++] = (unsigned char)v; }
static void x16(unsigned v){ x8(v >> 8); x8(v & 255); }
static void x32(unsigned v){ x16(v >> 16); x16(v & 65535); }
static void xs(const char *s, size_t n){ x8((unsigned)n); for(size_t i = 0; i < n; i++) x8((unsigned char)s[i]); }
#define XS(s) xs(s, sizeof s - 1)
static void zone(void){ XS("user"); XS("splintermail"); XS("com"); x8(0); }
static bool same(int i, const char *s, size_t n){
    if(lab_n[i] != n) return false;
    for(size_t k = 0; k < n; k++){ unsigned c = pk[lab_at[i] + k]; if(c >= 'A' && c <= 'Z') c += 32; if(c != (unsigned char)s[k]) return false; }
    return true;
}
#define SAME(i, s) same(i, s, sizeof s - 1)
static void rr(unsigned type, unsigned ttl, unsigned len){ x16(type); x16(1); x32(ttl); x16(len); }
static void soa(void){ zone(); rr(6, 86400, 71); XS("ns1"); XS("splintermail"); XS("com"); x8(0); XS("hostmaster"); XS("splintermail"); XS("com"); x8(0); x32(20231108); x32(300); x32(60); x32(86400); x32(60); }
static void caa(void){ x16(0xC00C); rr(257, 60, 22); x8(128); XS("issue"); for(const char *s = "letsencrypt.org"; *s; s++) x8((unsigned char)*s); }
static bool expected(void){
    xn = 0;
    r_packet();
    if(!ref.ok) return false;
    if(pk[2] & 0xF8 || ref.qclass != 1 || ref.qtype == 0) return false;
    size_t end = r_name(12); (void)end;
    int n = nlab;
    if(n < 3 || !SAME(n - 1, "com") || !SAME(n - 2, "splintermail") || !SAME(n - 3, "user")) return false;
    unsigned t = ref.qtype, rcode = 0, an = 0, ns = 0; bool aa = true;
    bool basic = t <= 16 || t == 28 || t == 257;
    x16(u16(0)); x16(0); x16(1); x16(0); x16(0); x16(0);
    for(int i = 0; i < n; i++){ x8(lab_n[i]); for(unsigned k = 0; k < lab_n[i]; k++) x8(pk[lab_at[i] + k]); }
    x8(0); x16(t); x16(1);
    if(!basic){ rcode = 4; aa = false; }
    else if(n == 3 && t == 6){ soa(); an = 1; }
    else if(n == 3 && t == 2){ zone(); rr(2, 86400, 22); XS("ns1"); XS("splintermail"); XS("com"); x8(0); zone(); rr(2, 86400, 22); XS("ns2"); XS("splintermail"); XS("com"); x8(0); an = 2; }
    else if((n == 3 || n == 4) && t == 257){ caa(); an = 1; }
    else if(n == 4 && t == 1){ x16(0xC00C); rr(1, 86400, 4); x32(0x7F000001); an = 1; }
    else if(n == 4 && t == 28){ x16(0xC00C); rr(28, 86400, 16); x32(0); x32(0); x32(0); x32(1); an = 1; }
    else if(n == 5 && SAME(0, "_acme-challenge") && t == 16 && secret == UNSURE) rcode = 2;
    else if(n == 5 && SAME(0, "_acme-challenge") && t == 16 && secret){ x16(0xC00C); rr(16, 60, 1 + (unsigned)secret->len); xs(secret->data, secret->len); an = 1; }
    else { if(n > 5 || (n == 5 && !SAME(0, "_acme-challenge"))) rcode = 3; soa(); ns = 1; }
    ex[2] = (unsigned char)(0x80 | (aa ? 4 : 0) | (pk[2] & 1)); ex[3] = (unsigned char)rcode;
    ex[7] = (unsigned char)an; ex[9] = (unsigned char)ns;
    if(ref.edns){ ex[11] = 1; x8(0); x16(41); x16(1280); x32(0); x16(0); }
    return true;
}
static void ask(bool compare){
    static const size_t cap = 4096;
    char *r = malloc(cap); VH_ASSUME(r != NULL);
    nget = 0;
    size_t n = handle_packet((char*)pk, pn, &kvp, r, cap);
    if(!compare) VH_CHECK(n == 0 || n >= 12, "silence or an answer");
    else{
        bool e = expected();
        VH_CHECK(e == (n != 0), "answers are given to proper queries, and to them only");
        if(e && n){
            VH_CHECK(n == xn && n <= 512, "the answer has its length");
#ifndef VH_SX
            for(size_t i = 0; i < n && i < xn; i++) if((unsigned char)r[i] != ex[i]) fprintf(stderr, "%zu: %02x, not %02x\n", i, (unsigned char)r[i], ex[i]);
#endif
            bool eq = true; for(size_t i = 0; i < n && i < xn; i++) eq &= (unsigned char)r[i] == ex[i];
            VH_CHECK(eq, "the answer is the right one");
            if(nget){ bool q = nasked == lab_n[1]; if(q) for(size_t i = 0; i < nasked; i++) q &= (unsigned char)asked[i] == pk[lab_at[1] + i]; VH_CHECK(q, "the challenge is the user's"); }
        }
    }
    free(r); free(pk);
}
static size_t put(size_t at, const char *s, size_t n){ memcpy(pk + at, s, n); return at + n; }
#define USER "\4user\14splintermail\3com"
#define PUT(at, s) put(at, s, sizeof s - 1)
static void head(unsigned qd, unsigned an, unsigned ns, unsigned ar){ memset(pk, 0, 12); pk[0] = 1; pk[5] = (unsigned char)qd; pk[7] = (unsigned char)an; pk[9] = (unsigned char)ns; pk[11] = (unsigned char)ar; }

static void shape(void){ shaping = true; memset(fixed, 0, sizeof fixed); memset(fixed, 1, 12); r_packet(); shaping = false; }
static void shape2(void){ shaping = true; r_packet(); shaping = false; }
static void noise(size_t from){ for(size_t i = from; i < pn; i++) pk[i] = nd_u8(); }
// short packets
void h_raw(void){
    size_t n = nd_pick(12 + 5);
    pkt(n);
    noise(0);
    if(n >= 12) for(size_t i = 4; i < 12; i += 2){ pk[i] = 0; unsigned k = nd_pick(i == 4 ? 1 : i == 10 ? 1 : 0); pk[i + 1] = (unsigned char)k; }
    if(n >= 12) shape();
    ask(true);
    VH_REACH("raw");
}
// a question and then anything
void h_rrs(void){
    pkt(12 + 5 + T);
    unsigned k = nd_pick(6);
    static const unsigned char cnt[7][3] = { {0,0,1}, {0,0,2}, {1,0,0}, {1,0,1}, {0,1,1}, {0,2,0}, {2,0,0} };
    head(1, cnt[k][0], cnt[k][1], cnt[k][2]);
    noise(13);
    coarse = true; shape();
    ask(true);
    VH_REACH("rrs");
}
// two records
void h_two(void){
    static const unsigned char cnt[4][3] = { {0,0,2}, {0,2,0}, {2,0,0}, {1,0,1} };
    unsigned k = nd_pick(3), l1 = nd_pick(6), l2 = nd_pick(6);
    pkt(12 + sizeof USER + 4 + 22 + l1 + l2);
    head(1, cnt[k][0], cnt[k][1], cnt[k][2]);
    size_t at = put(12, USER, sizeof USER), o1, o2;
    pk[at++] = 0; pk[at++] = 6; pk[at++] = 0; pk[at++] = 1;
    noise(at); memset(fixed, 1, sizeof fixed);
    pk[at] = pk[at + 9] = 0; pk[at + 10] = (unsigned char)l1; o1 = at + 11; at += 11 + l1;
    pk[at] = pk[at + 9] = 0; pk[at + 10] = (unsigned char)l2; o2 = at + 11;
    memset(fixed + o1, 0, l1); memset(fixed + o2, 0, l2);
    shape2();
    ask(true);
    VH_REACH("two");
}
// options
void h_opts(void){
    size_t n = nd_pick(13);
    pkt(12 + sizeof USER + 4 + 11 + n);
    head(1, 0, 0, 1);
    size_t at = put(12, USER, sizeof USER);
    pk[at++] = 0; pk[at++] = 6; pk[at++] = 0; pk[at++] = 1;
    pk[at++] = 0; pk[at++] = 0; pk[at++] = 41;
    for(int i = 0; i < 6; i++) pk[at++] = nd_u8();
    pk[at++] = 0; pk[at++] = (unsigned char)n;
    noise(at);
    memset(fixed, 1, sizeof fixed); memset(fixed + at, 0, n); shape2();
    ask(true);
    VH_REACH("opts");
}
// names made of labels and pointers
void h_name(void){
    pkt(12 + 6 + N);
    head(1, 0, 0, 0);
    noise(12);
    shape();
    ask(true);
    VH_REACH("name");
}
static const char *const NAMES[9] = { USER, "\1x" USER, "\17_acme-challenge\1x" USER, "\1y\1x" USER, "\1z\17_acme-challenge\1x" USER, "\14splintermail\3com", "\4user\14splintermail\3org", "\4user\14splintermaim\3com", "\4usex\14splintermail\3com" };

// a proper query
void h_query(void){
    unsigned k = nd_pick(8);
    size_t n = strlen(NAMES[k]) + 1;
    bool ptr = nd_pick(1), edns = nd_pick(1);
    char big[200];
    dstr_t sec; 
    switch(nd_pick(3)){
        case 0: secret = NULL; break;
        case 1: secret = UNSURE; break;
        case 2: for(int i = 0; i < 3; i++) big[i] = (char)nd_u8(); DSTR_WRAP(sec, big, 3, false); secret = &sec; break;
        case 3: memset(big, 'q', sizeof big); DSTR_WRAP(sec, big, sizeof big, false); secret = &sec; break;
    }
    // with a pointer, "com" stands at the end of the packet
    size_t len = ptr ? 12 + n - 5 + 2 + 4 + (edns ? 11 : 0) : 12 + n + 4 + (edns ? 11 : 0);
    size_t rec = ptr ? 2 + 10 + 5 : 0;
    pkt(len + rec);
    head(1, 0, ptr, edns);
    pk[0] = nd_u8(); pk[1] = nd_u8(); pk[2] = nd_u8(); pk[3] = nd_u8();
    size_t at = put(12, NAMES[k], ptr ? n - 5 : n);
    size_t from = at;
    if(ptr) at += 2;
    pk[at++] = nd_u8(); pk[at++] = nd_u8(); pk[at] = nd_u8(); VH_ASSUME(pk[at] <= 1); at++; pk[at] = nd_u8(); VH_ASSUME(pk[at] <= 2); at++;
    if(ptr){
        pk[at++] = 0xC0; pk[at++] = 12;
        pk[at++] = 0; pk[at++] = 41; pk[at++] = 0; pk[at++] = 1; for(int i = 0; i < 4; i++) pk[at++] = nd_u8();
        pk[at++] = 0; pk[at++] = 5;
        pk[from] = 0xC0; pk[from + 1] = (unsigned char)at;
        at = put(at, NAMES[k] + n - 5, 5);
    }
    if(edns){ pk[at++] = 0; pk[at++] = 0; pk[at++] = 41; for(int i = 0; i < 6; i++) pk[at++] = nd_u8(); pk[at++] = 0; pk[at++] = 0; }
    // a letter in either case
    size_t c = 12 + 1 + nd_pick(3);
    if(nd_pick(1) && pk[c] >= 'a' && pk[c] <= 'z') pk[c] -= 32;
    ask(true);
    VH_REACH("query");
}
// how often somebody is answered
void h_rrl(void){
    rrl_t r; derr_t e = rrl_init(&r, 1 + nd_pick(1)); VH_ASSUME(!is_error(e)); DROP_VAR(&e);
    struct sockaddr_in a = { .sin_family = AF_INET }; a.sin_addr.s_addr = nd_pick(1) ? 0x0100007F : 0xFFFFFFFF;
    xtime_t s = (xtime_t)(30 + nd_pick(2));
    int n = 0, c = 0;
    for(int i = 0; i < 12; i++){
        unsigned d = i && !(i & 3) ? nd_pick(2) : i == 9 ? nd_pick(1) : 0;
        if(d){ s += d == 2 ? 31 : 1; n = c = 0; }
        xtime_t ns = (xtime_t)nd_u32(); VH_ASSUME(ns >= 0 && ns < SECOND);
        if(rrl_check(&r, (struct sockaddr*)&a, s * SECOND + ns)) n++;
        c++;
        VH_CHECK(n <= 8, "eight answers a second at most");
        VH_CHECK(n >= 7 || n == c, "up to seven a second are answered");
    }
    rrl_free(&r);
    VH_REACH("rrl");
}

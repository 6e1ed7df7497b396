// message file names, UID sets and SEARCH
//@ property P21 P24 P25
//@ engine sx
//@ src dstr libimaildir/name.c libimaildir/util.c libimaildir/search.c libimap/expression.c libimap/extension.c libimap/imf.c gen/libimap/generated/imf_scan.c gen/libimap/generated/imf_parse.c
//@ gen imap
//@ stub _fmt_dstr_dbg
//@ assume: quoting the offending input in an error message is checked by P10
//@ bounds: P21: names written from boundary epochs, keys and lengths with hosts of 3 and infos of 2 arbitrary bytes; names with any two adjacent bytes arbitrary
//@ bounds: P24: 2 (thorough 3) operations over arbitrary 32-bit UIDs, 3 over UIDs below 128 or within 128 of the largest
//@ bounds: P25: every search key, views with arbitrary UIDs, flags, dates and sizes, sets of 2 arbitrary ranges, headers and bodies of 3 arbitrary bytes, needles to 2 bytes, trees of 3 operators
//@ entry h_name prop=P21 leak=1
//@ entry h_name_any prop=P21 leak=1 jobs=2
//@ entry h_name_short prop=P21 leak=1 jobs=2
//@ entry h_ssb prop=P24 defs=K=2 leak=1
//@ entry h_ssb@3 prop=P24 defs=K=3,SMALL leak=1 jobs=4
//@ entry h_ssb@3+ prop=P24 defs=K=3 leak=1 tier=thorough timeout=2500 jobs=8
//@ entry h_ssb_del prop=P24 leak=1
//@ entry h_flags prop=P25
//@ entry h_logic prop=P25
//@ entry h_sets prop=P25
//@ entry h_dates prop=P25
//@ entry h_nums prop=P25
//@ entry h_header prop=P25 jobs=2
//@ entry h_text prop=P25 jobs=4
//@ entry h_text_real prop=P25 jobs=2 leak=1
#ifndef K
#define K 1
#endif
#include "vh.h"
#include "libimaildir/libimaildir.h"

derr_type_t _fmt_dstr_dbg(const fmt_i *iface, writer_i *out){ (void)iface; (void)out; return E_NONE; }
static dstr_t D(char *p, size_t n){ return (dstr_t){ .data = p, .len = n, .size = n, .fixed_size = true }; }
static char low(char c){ return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool bytes_eq(const char *a, const char *b, size_t n){ bool r = true; for(size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }

/* P21 */
static const uint64_t epochs[] = { 0, 9, 1234567890, UINT64_MAX };
static const unsigned uids[] = { 1, 9, 10, 4294967295u };
static const size_t lens[] = { 0, 7, 1048576, SIZE_MAX };

void h_name(void){
    uint64_t ep = epochs[nd_pick(3)]; unsigned u = uids[nd_pick(3)]; size_t len = lens[nd_pick(3)];
    msg_key_t key = nd_pick(1) ? KEY_UP(u) : KEY_LOCAL(u);
    char h[3], f[2]; nd_bytes(h, 3); nd_bytes(f, 2);
    size_t nf = nd_pick(2);
    dstr_t host = D(h, 3), info = D(f, nf);
    DSTR_VAR(name, 256);
    derr_t e = maildir_name_write(&name, ep, key, len, &host, nf ? &info : NULL);
    VH_CHECK(!is_error(e), "any name can be written");
    for(size_t i = 0; i < name.len - nf; i++) VH_CHECK(name.data[i] != '/' && (name.data[i] != ':' || (nf && i == name.len - nf - 1)), "a host never adds a path or field separator");
    uint64_t ep2 = 5; msg_key_t k2 = { 5, 5 }; size_t len2 = 5; DSTR_VAR(h2, 64); DSTR_VAR(i2, 64);
    e = maildir_name_parse(&name, &ep2, &k2, &len2, &h2, &i2);
    bool colon = false; for(size_t i = 0; i < nf; i++) if(f[i] == ':') colon = true;
    if(colon){ VH_CHECK(is_error(e), "two infos are refused"); DROP_VAR(&e); return; }
    VH_CHECK(!is_error(e), "a written name is read"); DROP_VAR(&e);
    VH_CHECK(ep2 == ep && k2.uid_up == key.uid_up && k2.uid_local == key.uid_local && len2 == len, "numbers survive");
    size_t n = 0; bool ok = true;
    for(int i = 0; i < 3; i++){
        if(h[i] == '/'){ ok &= n + 3 <= h2.len && bytes_eq(h2.data + n, "057", 3); n += 3; }
        else if(h[i] == ':'){ ok &= n + 3 <= h2.len && bytes_eq(h2.data + n, "072", 3); n += 3; }
        else { ok &= n < h2.len && h2.data[n] == h[i]; n++; }
    }
    VH_CHECK(ok && n == h2.len, "the host survives, with separators encoded");
    VH_CHECK(i2.len == nf && bytes_eq(i2.data, f, nf), "the info survives");
    if(n == 9) VH_REACH("three separators");
}

// reference: a decimal number with an optional plus sign
static bool num(const char *p, size_t n, uint64_t max, uint64_t *out){
    size_t i = n && p[0] == '+'; *out = 0;
    if(i == n) return false;
    for(; i < n; i++){
        if(p[i] < '0' || p[i] > '9') return false;
        *out = *out * 10 + (uint64_t)(p[i] - '0');
        if(*out > max) return false;
    }
    return true;
}
void h_name_short(void){
    static const char full[] = "0.1,1,0,0.h:2,S";
    char t[16]; memcpy(t, full, sizeof full);
    size_t L = nd_pick(15);
    size_t at = nd_pick(14); if(at < L) t[at] = (char)nd_u8();
    dstr_t name = D(t, L);
    uint64_t ep = 5; msg_key_t k = { 77, 77 }; size_t len = 77; DSTR_VAR(h, 64); DSTR_VAR(i, 64);
    derr_t e = maildir_name_parse(&name, &ep, &k, &len, &h, &i);
    if(!is_error(e)){
        VH_CHECK(L >= 10 && (k.uid_up == 0) != (k.uid_local == 0) && len < 10 && k.uid_up < 12, "a name that is read identifies one message");
        VH_REACH("read");
    }
    if((at >= L || t[at] == full[at]) && L >= 10) VH_CHECK(!is_error(e), "a short name is read");
    DROP_VAR(&e);
}
void h_name_any(void){
    char t[] = "0123456789.1,12,0,3.my.h:2,S";
    size_t L = sizeof t - 1, at = nd_pick((unsigned)L - 2);
    t[at] = (char)nd_u8(); t[at + 1] = (char)nd_u8();
    dstr_t name = D(t, L);
    // split by hand
    size_t colon = L, nc = 0;
    for(size_t i = 0; i < L; i++) if(t[i] == ':'){ if(!nc++) colon = i; }
    size_t d[2] = { colon, colon }, nd = 0;
    for(size_t i = 0; i < colon && nd < 2; i++) if(t[i] == '.') d[nd++] = i;
    bool good = nc <= 1 && nd == 2;
    size_t c[4], k = 0; uint64_t ep = 0, ver = 0, up = 0, lo = 0, ln = 0;
    if(good){
        for(size_t i = d[0] + 1; i < d[1]; i++) if(t[i] == ','){ if(k < 4) c[k] = i; k++; }
        good = k == 3;
    }
    if(good) good = num(t, d[0], UINT64_MAX, &ep) && num(t + d[0] + 1, c[0] - d[0] - 1, UINT32_MAX, &ver)
        && num(t + c[0] + 1, c[1] - c[0] - 1, UINT32_MAX, &up) && num(t + c[1] + 1, c[2] - c[1] - 1, UINT32_MAX, &lo)
        && num(t + c[2] + 1, d[1] - c[2] - 1, UINT64_MAX, &ln) && ver == 1 && (up == 0) != (lo == 0);
    uint64_t ep2 = 5; msg_key_t k2 = { 5, 5 }; size_t len2 = 5; DSTR_VAR(h2, 64); DSTR_VAR(i2, 64);
    derr_t e = maildir_name_parse(&name, &ep2, &k2, &len2, &h2, &i2);
    VH_CHECK(is_error(e) == !good, "exactly the well-formed names are read");
    if(!is_error(e)){
        VH_CHECK(ep2 == ep && k2.uid_up == up && k2.uid_local == lo && len2 == ln, "as the numbers written");
        VH_CHECK(h2.len == colon - d[1] - 1 && bytes_eq(h2.data, t + d[1] + 1, h2.len), "as the host written");
        size_t ni = colon < L ? L - colon - 1 : 0;
        VH_CHECK(i2.len == ni && bytes_eq(i2.data, t + colon + 1, ni), "as the info written");
        VH_REACH("read");
    }
    derr_t e2 = maildir_name_parse(&name, NULL, NULL, NULL, NULL, NULL);
    VH_CHECK(is_error(e2) == is_error(e), "validation agrees with reading");
    DROP_VAR(&e); DROP_VAR(&e2);
}

/* P24 */
#ifdef SMALL   // numbers near both ends
#define NUM() ((uint32_t)(int8_t)nd_u8())
#else
#define NUM() nd_u32()
#endif
static bool in_set(const ie_seq_set_t *s, unsigned v){ for(; s; s = s->next) if(v >= s->n1 && v <= s->n2) return true; return false; }
static void check_dense(const ie_seq_set_t *s){
    for(; s; s = s->next){
        VH_CHECK(s->n1 && s->n1 <= s->n2, "ranges are straight");
        if(s->next) VH_CHECK(s->n2 < s->next->n1 && s->next->n1 - s->n2 > 1, "ranges are sorted, apart and as few as possible");
    }
}
void h_ssb(void){
    seq_set_builder_t ssb; seq_set_builder_prep(&ssb);
    unsigned a[K], b[K]; bool in = false, any = false; unsigned probe = NUM();
    for(int i = 0; i < K; i++){
        a[i] = NUM(); b[i] = nd_pick(1) ? NUM() : a[i];
        derr_t e = a[i] == b[i] ? seq_set_builder_add_val(&ssb, a[i]) : seq_set_builder_add_range(&ssb, a[i], b[i]);
        bool zero = !a[i] || !b[i];
        VH_CHECK(is_error(e) == zero, "zero is no UID"); DROP_VAR(&e);
        if(!zero){ any = true; if(probe >= MIN(a[i], b[i]) && probe <= MAX(a[i], b[i])) in = true; }
    }
    VH_CHECK(seq_set_builder_isempty(&ssb) == !any, "emptiness");
    derr_t e = E_OK;
    ie_seq_set_t *s = seq_set_builder_extract(&e, &ssb);
    VH_CHECK(!is_error(e), "no error");
    VH_CHECK(in_set(s, probe) == in, "a set holds exactly the numbers added");
    check_dense(s);
    VH_CHECK(!!s == any, "empty set");
    if(s && !s->next && s->n2 == UINT_MAX && s->n1 == UINT_MAX - 1) VH_REACH("top");
    ie_seq_set_free(s);
}
void h_ssb_del(void){
    seq_set_builder_t ssb; seq_set_builder_prep(&ssb);
    unsigned a[3]; unsigned probe = nd_u32();
    for(int i = 0; i < 3; i++){
        a[i] = nd_u32(); VH_ASSUME(a[i]);
        derr_t e = seq_set_builder_add_val(&ssb, a[i]); VH_CHECK(!is_error(e), "added");
    }
    unsigned d = nd_u32(); VH_ASSUME(d);
    seq_set_builder_del_val(&ssb, d);
    unsigned lo = UINT_MAX; bool any = false; for(int i = 0; i < 3; i++) if(a[i] != d && (!any || a[i] < lo)){ lo = a[i]; any = true; }
    unsigned p = 0;
    if(nd_pick(1)){
        p = seq_set_builder_pop_val(&ssb);
        VH_CHECK(p == (any ? lo : 0), "the least number is taken");
    }
    bool used = false, in = false, left = false;
    for(int i = 0; i < 3; i++){
        if(a[i] == d) continue;
        if(p && a[i] == p && !used){ used = true; continue; }   // only one of equal values is taken
        left = true; if(a[i] == probe) in = true;
    }
    derr_t e = E_OK;
    ie_seq_set_t *s = seq_set_builder_extract(&e, &ssb);
    VH_CHECK(!is_error(e) && !!s == left && in_set(s, probe) == in, "deleted and taken numbers are gone, others stay");
    check_dense(s);
    if(left && p) VH_REACH("left");
    ie_seq_set_free(s);
}

/* P25 */
static imf_hdrs_t *hdrs; static imf_t *imf; static int bad;
static derr_t get_hdrs(void *d, const imf_hdrs_t **out){ derr_t e = E_OK; (void)d; *out = hdrs; if(bad) ORIG(&e, E_PARAM, "unparsable"); return e; }
static derr_t get_imf(void *d, const imf_t **out){ derr_t e = E_OK; (void)d; *out = imf; if(bad) ORIG(&e, E_PARAM, "unparsable"); return e; }
static msg_view_t view; static unsigned seq = 1, seq_max = 1, uid_max = 1;
static bool eval(const ie_search_key_t *k){
    bool out = true; memset(&out, 0xff, 0);
    derr_t e = search_key_eval(k, &view, seq, seq_max, uid_max, get_hdrs, NULL, get_imf, NULL, &out);
    VH_CHECK(!is_error(e), "no search fails");
    return out;
}
static ie_search_key_t key0(ie_search_key_type_t t){ return (ie_search_key_t){ .type = t }; }

void h_flags(void){
    uint8_t f = nd_u8();
    view.flags = (msg_flags_t){ .answered = f & 1, .flagged = f >> 1 & 1, .seen = f >> 2 & 1, .draft = f >> 3 & 1, .deleted = f >> 4 & 1 };
    static const struct { ie_search_key_type_t t; int bit; bool want; } T[] = {
        { IE_SEARCH_ANSWERED, 0, true }, { IE_SEARCH_UNANSWERED, 0, false }, { IE_SEARCH_FLAGGED, 1, true }, { IE_SEARCH_UNFLAGGED, 1, false },
        { IE_SEARCH_SEEN, 2, true }, { IE_SEARCH_UNSEEN, 2, false }, { IE_SEARCH_DRAFT, 3, true }, { IE_SEARCH_UNDRAFT, 3, false },
        { IE_SEARCH_DELETED, 4, true }, { IE_SEARCH_UNDELETED, 4, false } };
    for(size_t i = 0; i < 10; i++){ ie_search_key_t k = key0(T[i].t); VH_CHECK(eval(&k) == ((f >> T[i].bit & 1) == T[i].want), "a flag search is about that flag"); }
    ie_search_key_t k = key0(IE_SEARCH_ALL); VH_CHECK(eval(&k), "ALL");
    // nothing is ever recent, and there are no keywords
    k = key0(IE_SEARCH_OLD); VH_CHECK(eval(&k), "OLD"); k = key0(IE_SEARCH_NEW); VH_CHECK(!eval(&k), "NEW"); k = key0(IE_SEARCH_RECENT); VH_CHECK(!eval(&k), "RECENT");
    k = key0(IE_SEARCH_KEYWORD); VH_CHECK(!eval(&k), "KEYWORD"); k = key0(IE_SEARCH_UNKEYWORD); VH_CHECK(eval(&k), "UNKEYWORD");
    if(f == 31) VH_REACH("all flags");
}

void h_logic(void){
    bool v[4];
    uint8_t f = nd_u8();
    for(int i = 0; i < 4; i++) v[i] = f >> i & 1;
    view.flags = (msg_flags_t){ .answered = v[0], .flagged = v[1], .seen = v[2], .draft = v[3] };
    ie_search_key_t leaf[4] = { key0(IE_SEARCH_ANSWERED), key0(IE_SEARCH_FLAGGED), key0(IE_SEARCH_UNSEEN), key0(IE_SEARCH_DRAFT) };
    v[2] = !v[2];
    ie_search_key_t mid[2], top; bool m[2], t;
    for(int i = 0; i < 2; i++){
        ie_search_key_t *a = &leaf[2*i], *b = &leaf[2*i+1]; bool va = v[2*i], vb = v[2*i+1];
        switch(nd_pick(3)){
            case 0: mid[i] = (ie_search_key_t){ IE_SEARCH_AND, { .pair = { a, b } } }; m[i] = va && vb; break;
            case 1: mid[i] = (ie_search_key_t){ IE_SEARCH_OR, { .pair = { a, b } } }; m[i] = va || vb; break;
            case 2: mid[i] = (ie_search_key_t){ IE_SEARCH_NOT, { .key = a } }; m[i] = !va; break;
            default: mid[i] = (ie_search_key_t){ IE_SEARCH_GROUP, { .key = b } }; m[i] = vb; break;
        }
    }
    switch(nd_pick(3)){
        case 0: top = (ie_search_key_t){ IE_SEARCH_AND, { .pair = { &mid[0], &mid[1] } } }; t = m[0] && m[1]; break;
        case 1: top = (ie_search_key_t){ IE_SEARCH_OR, { .pair = { &mid[0], &mid[1] } } }; t = m[0] || m[1]; break;
        case 2: top = (ie_search_key_t){ IE_SEARCH_NOT, { .key = &mid[0] } }; t = !m[0]; break;
        default: top = (ie_search_key_t){ IE_SEARCH_GROUP, { .key = &mid[1] } }; t = m[1]; break;
    }
    VH_CHECK(eval(&top) == t, "boolean operators mean what they say");
    if(t) VH_REACH("true");
}

void h_sets(void){
    ie_seq_set_t s2 = { .n1 = nd_u32(), .n2 = nd_u32() }, s1 = { .n1 = nd_u32(), .n2 = nd_u32(), .next = &s2 };
    bool uid = nd_pick(1);
    view.uid_dn = nd_u32(); uid_max = nd_u32(); seq = nd_u32(); seq_max = nd_u32();
    VH_ASSUME(view.uid_dn && seq && view.uid_dn <= uid_max && seq <= seq_max);
    ie_search_key_t k = { uid ? IE_SEARCH_UID : IE_SEARCH_SEQ_SET, { .seq_set = &s1 } };
    unsigned v = uid ? view.uid_dn : seq, max = uid ? uid_max : seq_max;
    bool in = false;
    for(ie_seq_set_t *s = &s1; s; s = s->next){
        // 0 stands for the largest number in use
        unsigned a = s->n1 ? s->n1 : max, b = s->n2 ? s->n2 : max;
        if((a <= v && v <= b) || (b <= v && v <= a)) in = true;
    }
    VH_CHECK(eval(&k) == in, "a set holds what is within one of its ranges");
    if(in && s1.n1 > s1.n2 && !s1.n2) VH_REACH("reversed star");
}

static imap_time_t any_date(void){ return (imap_time_t){ .year = 1900 + (int)nd_upto(250), .month = 1 + (int)nd_upto(11), .day = 1 + (int)nd_upto(30), .hour = (int)nd_upto(23), .min = (int)nd_upto(59), .sec = (int)nd_upto(60), .z_hour = (int)nd_upto(24) - 12, .z_min = (int)nd_upto(59) }; }
void h_dates(void){
    view.internaldate = any_date(); imap_time_t d = any_date();
    long a = (view.internaldate.year * 16L + view.internaldate.month) * 32 + view.internaldate.day, b = (d.year * 16L + d.month) * 32 + d.day;
    ie_search_key_t k = { IE_SEARCH_BEFORE, { .date = d } };
    VH_CHECK(eval(&k) == (a < b), "BEFORE compares dates"); k.type = IE_SEARCH_ON; VH_CHECK(eval(&k) == (a == b), "ON compares dates");
    k.type = IE_SEARCH_SINCE; VH_CHECK(eval(&k) == (a >= b), "SINCE compares dates");
    if(a == b) VH_REACH("same day");
}
void h_nums(void){
    view.length = (size_t)nd_u64(); unsigned n = nd_u32();
    ie_search_key_t k = { IE_SEARCH_LARGER, { .num = n } };
    VH_CHECK(eval(&k) == (view.length > n), "LARGER"); k.type = IE_SEARCH_SMALLER; VH_CHECK(eval(&k) == (view.length < n), "SMALLER");
    if(view.length > UINT_MAX) VH_REACH("big");
}

static bool holds(const char *t, size_t n, const char *p, size_t m){
    for(size_t i = 0; i + m <= n; i++){ bool eq = true; for(size_t j = 0; j < m; j++) if(low(t[i+j]) != low(p[j])) eq = false; if(eq) return true; }
    return false;
}
static char msg[32]; static dstr_t msgd; static char pat[2]; static ie_dstr_t needle;
static void any_needle(void){ nd_bytes(pat, 2); needle.dstr = D(pat, nd_pick(2)); }

// two headers with names of any case and values of any bytes
void h_header(void){
    static const char names[6][8] = { "Subject", "Bcc", "Cc", "From", "To", "X-Y" };
    unsigned w = nd_pick(5), x = nd_pick(2) * 3 % 6;
    size_t nl[2] = { strlen(names[w]), strlen(names[x]) };
    size_t at = 0, st[2], vs[2];
    for(int i = 0; i < 2; i++){
        st[i] = at;
        for(size_t j = 0; j < nl[i]; j++) msg[at++] = names[i ? x : w][j];
        unsigned fold = nd_pick(1); if(fold) msg[st[i]] = low(msg[st[i]]);
        vs[i] = at; nd_bytes(msg + at, 2); at += 2;
    }
    msgd = D(msg, at);
    imf_hdr_t h[2];
    for(int i = 0; i < 2; i++) h[i] = (imf_hdr_t){ .name = { &msgd, st[i], nl[i] }, .value = { &msgd, vs[i], 2 }, .next = i ? NULL : &h[1] };
    imf_hdrs_t hs = { .hdr = nd_pick(3) ? h : NULL }; hdrs = &hs; bad = !nd_pick(3);
    any_needle();
    static const ie_search_key_type_t T[6] = { IE_SEARCH_SUBJECT, IE_SEARCH_BCC, IE_SEARCH_CC, IE_SEARCH_FROM, IE_SEARCH_TO, IE_SEARCH_HEADER };
    unsigned q = nd_pick(5);
    ie_search_key_t k = { .type = T[q] };
    ie_dstr_t hn; char hname[8];
    if(q == 5){ memcpy(hname, names[w], 8); hname[0] = low(hname[0]); hn.dstr = D(hname, nl[0]); k.param.header = (ie_search_header_t){ .name = &hn, .value = &needle }; }
    else k.param.dstr = &needle;
    unsigned target = q == 5 ? w : q;
    bool want = false;
    if(!bad && hs.hdr) for(int i = 0; i < 2; i++) if((i ? x : w) == target && holds(msg + vs[i], 2, pat, needle.dstr.len)) want = true;
    VH_CHECK(eval(&k) == want, "a header search is about the headers of that name");
    if(want && needle.dstr.len == 0) VH_REACH("empty needle");
    if(want && x == target && w != target) VH_REACH("second header");
}

// header section "a:", bytes, separator; body
void h_text(void){
    size_t nh = 2 + nd_pick(2), nb = nd_pick(2);
    nd_bytes(msg, nh + nb); msgd = D(msg, nh + nb);
    imf_hdrs_t hs = { .bytes = { &msgd, 0, nh } }; imf_t im = { .bytes = { &msgd, 0, nh + nb }, .body = { &msgd, nh, nb } };
    hdrs = &hs; imf = &im; bad = !nd_pick(3);
    any_needle();
    ie_search_key_t k = { IE_SEARCH_BODY, { .dstr = &needle } };
    VH_CHECK(eval(&k) == (!bad && holds(msg + nh, nb, pat, needle.dstr.len)), "BODY is about the body");
    k.type = IE_SEARCH_TEXT;
    bool all = !bad && holds(msg, nh + nb, pat, needle.dstr.len);
    VH_CHECK(eval(&k) == all, "TEXT is about all of the message");
    if(all && !holds(msg, nh, pat, needle.dstr.len) && !holds(msg + nh, nb, pat, needle.dstr.len)) VH_REACH("across the boundary");
}

// the same over the real message parser
void h_text_real(void){
    char t[] = "subject: ab\r\nX: q\r\nto: cd\r\nDate: Fri, 1 Dec 2000 01:02:03 -0130\r\n\r\nhello";
    size_t L = sizeof t - 1;
    static const unsigned at[] = { 9, 10, 16, 23, 24, 68, 70 };
    unsigned p = at[nd_pick(6)]; char c = (char)nd_u8(); VH_ASSUME(c > ' ' && c < 127); t[p] = c;
    msgd = D(t, L);
    derr_t e = imf_hdrs_parse(&msgd, NULL, NULL, &hdrs); VH_CHECK(!is_error(e), "headers are read");
    imf_hdrs_t *again; e = imf_hdrs_parse(&msgd, NULL, NULL, &again); VH_CHECK(!is_error(e), "headers are read");
    e = imf_parse(&msgd, NULL, NULL, &again, &imf); VH_CHECK(!is_error(e), "messages are read");
    VH_CHECK(hdrs->bytes.len + 5 == L && imf->body.start == L - 5 && imf->body.len == 5, "the body starts after the empty line");
    pat[0] = c; pat[1] = 'b'; needle.dstr = D(pat, 1);
    ie_search_key_t k = { IE_SEARCH_SUBJECT, { .dstr = &needle } };
    VH_CHECK(eval(&k) == holds(t + 9, 2, pat, 1), "SUBJECT"); k.type = IE_SEARCH_TO; VH_CHECK(eval(&k) == holds(t + 23, 2, pat, 1), "TO");
    k.type = IE_SEARCH_BODY; VH_CHECK(eval(&k) == holds(t + L - 5, 5, pat, 1), "BODY"); k.type = IE_SEARCH_TEXT; VH_CHECK(eval(&k), "TEXT");
    imap_time_t d = { .year = 2000, .month = 12, .day = 1 + (int)nd_pick(1) };
    ie_search_key_t kd = { IE_SEARCH_SENTON, { .date = d } }; VH_CHECK(eval(&kd) == (d.day == 1), "SENTON");
    kd.type = IE_SEARCH_SENTBEFORE; VH_CHECK(eval(&kd) == (d.day == 2), "SENTBEFORE"); kd.type = IE_SEARCH_SENTSINCE; VH_CHECK(eval(&kd) == (d.day == 1), "SENTSINCE");
    imf_hdrs_free(hdrs); imf_free(imf);
    VH_REACH("parsed");
}

// what FETCH answers about the content of a message
//@ property P33
//@ engine sx
//@ src dstr libdstr/fileops.c libimaildir/dn.c libimaildir/msg.c libimaildir/util.c libimaildir/search.c libimap/expression.c libimap/extension.c libimap/imf.c gen/libimap/generated/imf_scan.c gen/libimap/generated/imf_parse.c
//@ gen imap
//@ libc vfs
//@ stub _fmt_dstr_dbg imap_resp_assert_writable imaildir_dn_select_failed imaildir_dn_synced imaildir_dn_build_views imaildir_dn_request_update imaildir_dn_open_msg imaildir_dn_close_msg
//@ nop imf_handle_error
//@ bounds: P33: 12 message structures nested to depth 3, with an arbitrary byte at any of their places or cut short anywhere; 24 kinds of FETCH item, pairs of them, part numbers to 3 and depth 3, partial fetches; disk errors at every call
//@ entry h_plain leak=1 jobs=6
//@ entry h_parts leak=1 jobs=6
//@ entry h_broken@1 leak=1 jobs=8 defs=NB=4,NS=5
//@ entry h_broken@2 leak=1 jobs=8 tier=thorough timeout=1500
//@ entry h_disk leak=1 jobs=6
//@ entry h_crash leak=1 jobs=8 tier=thorough timeout=2400
#define VFS_N 8
#define VFS_NF 4
#define VFS_MAX 512
#include "vh.h"
#include "libimaildir/libimaildir.h"
#include "vfs.h"
derr_type_t _fmt_dstr_dbg(const fmt_i *iface, writer_i *out){ (void)iface; (void)out; return E_NONE; }
imap_resp_t *imap_resp_assert_writable(derr_t *e, imap_resp_t *resp, const extensions_t *exts){ (void)e; (void)exts; return resp; }
#define OK(call, why) do{ derr_t e_ = (call); VH_CHECK(!is_error(e_), why); DROP_VAR(&e_); }while(0)
static dn_t dn;
static void cb_schedule(dn_cb_i *cb){ (void)cb; }
static dn_cb_i cb = { .schedule = cb_schedule };
static extensions_t exts;
static imaildir_t m;
static int nopen;
static char *msg; static size_t mlen;
bool imaildir_dn_select_failed(imaildir_t *x, ie_status_t *st){ (void)x; *st = IE_ST_OK; return true; }
bool imaildir_dn_synced(imaildir_t *x, bool examine){ (void)x; (void)examine; return true; }
derr_t imaildir_dn_build_views(imaildir_t *x, dn_t *d, jsw_atree_t *views, unsigned *mx, unsigned *vld){ (void)x; (void)d; (void)views; *mx = 1; *vld = 1; return E_OK; }
derr_t imaildir_dn_request_update(imaildir_t *x, update_req_t *req){ (void)x; update_req_free(req); VH_CHECK(0, "peeking changes nothing"); return E_OK; }
derr_t imaildir_dn_open_msg(imaildir_t *x, const msg_key_t key, int *fd){
    derr_t e = E_OK; (void)x; (void)key;
    PROP(&e, dopen("/msg", O_RDONLY, 0, fd));
    nopen++;
    return e;
}
void imaildir_dn_close_msg(imaildir_t *x, const msg_key_t key, int *fd){ (void)x; (void)key; VW(close)(*fd); *fd = -1; nopen--; }

static link_t out;
static void begin(const char *data, size_t len){
    vfs_mkfile("/msg", data, (unsigned)len);
    link_init(&out);
    OK(dn_init(&dn, &m, &cb, &exts, false), "init");
    msg_t g = { .key = { .uid_up = 5 }, .uid_dn = 5, .length = len, .flags = { .seen = true } };
    msg_view_t *v; OK(msg_view_new(&v, &g), "view");
    jsw_ainsert(&dn.views, &v->node);
}
static void end(void){ VH_CHECK(nopen == 0, "the message is closed"); dn_free(&dn); vfs_end(); }

/* what to ask for */
static derr_t be;
static ie_fetch_attrs_t *at0(void){ be = E_OK; return ie_fetch_attrs_new(&be); }
static ie_fetch_attrs_t *simple(ie_fetch_attrs_t *a, ie_fetch_simple_t k){ return ie_fetch_attrs_add_simple(&be, a, k); }
static ie_sect_part_t *part(unsigned a, unsigned b, unsigned c){
    if(!a) return NULL;
    ie_sect_part_t *p = ie_sect_part_new(&be, a);
    if(b) p = ie_sect_part_add(&be, p, ie_sect_part_new(&be, b));
    if(c) p = ie_sect_part_add(&be, p, ie_sect_part_new(&be, c));
    return p;
}
#define NOTXT (-1)
static ie_fetch_extra_t *extra(ie_sect_part_t *p, int txt, const char *hdr, int from, int n){
    ie_sect_txt_t *t = txt == NOTXT ? NULL : ie_sect_txt_new(&be, (ie_sect_txt_type_t)txt, hdr ? ie_dstr_new2(&be, dstr_from_cstr((char*)hdr)) : NULL);
    ie_sect_t *s = p || t ? ie_sect_new(&be, p, t) : NULL;
    return ie_fetch_extra_new(&be, true, s, n >= 0 ? ie_partial_new(&be, (unsigned)from, (unsigned)n) : NULL);
}
static ie_fetch_attrs_t *add(ie_fetch_attrs_t *a, ie_fetch_extra_t *x){ return ie_fetch_attrs_add_extra(&be, a, x); }
static char st;                 // 'O' or 'N'
static imap_resp_t *resp;       // the FETCH response
static derr_t fetch(ie_fetch_attrs_t *a){
    derr_t e = E_OK;
    ie_fetch_cmd_t *f = ie_fetch_cmd_new(&be, false, ie_seq_set_new(&be, 1, 1), a, NULL);
    ie_dstr_t *t = ie_dstr_new2(&be, DSTR_LIT("t"));
    OK(be, "command");
    bool ok = false;
    st = 0; resp = NULL;
    for(int i = 0; i < 3 && !ok && !is_error(e); i++) e = dn_fetch(&dn, &t, &f, &out, &ok);
    link_t *l;
    while((l = link_list_pop_first(&out))){
        imap_resp_t *r = CONTAINER_OF(l, imap_resp_t, link);
        if(r->type == IMAP_RESP_FETCH && !resp){ resp = r; continue; }
        if(r->type == IMAP_RESP_STATUS_TYPE && r->arg.status_type->tag) st = r->arg.status_type->status == IE_ST_OK ? 'O' : r->arg.status_type->status == IE_ST_NO ? 'N' : 'B';
        imap_resp_free(r);
    }
    if(!is_error(e)) VH_CHECK(ok && st && resp, "FETCH is answered"); else { ie_fetch_cmd_free(f); ie_dstr_free(t); }
    return e;
}
static void done(void){ if(resp) imap_resp_free(resp); resp = NULL; }
typedef struct { bool ok; size_t n; char d[VFS_MAX]; } txt_t;
static void take(txt_t *t, const ie_dstr_t *d){
    t->n = 0; t->ok = d != NULL;
    if(!d) return;
    VH_CHECK(d->dstr.len <= mlen, "no more than the message");
    for(size_t i = 0; i < d->dstr.len && i < VFS_MAX; i++) t->d[t->n++] = d->dstr.data[i];
}
static void body(txt_t *t, ie_fetch_extra_t *x){
    OK(fetch(add(at0(), x)), "FETCH of a readable message succeeds");
    ie_fetch_resp_extra_t *r = resp ? resp->arg.fetch->extras : NULL;
    t->ok = false; t->n = 0;
    if(st == 'O'){
        VH_CHECK(r && !r->next, "FETCH answers what was asked for");
        if(r){ if(r->content) take(t, r->content); else { t->ok = true; t->n = 0; } }
    }else VH_CHECK(!r, "no answer for a missing part");
    done();
}
static bool is(const txt_t *t, const char *s, size_t n){
    if(!t->ok || t->n != n) return false;
    for(size_t i = 0; i < n; i++) if(t->d[i] != s[i]) return false;
    return true;
}
static bool isz(const txt_t *t, const char *s){ return is(t, s, strlen(s)); }
static txt_t A, B, C;

#define EOL "\r\n"
// a plain message: headers, an empty line, the body
void h_plain(void){
    static char buf[64]; static const char *H[] = { "A: x" EOL, "ab:y" EOL, "A:" EOL " z" EOL };
    static char hdrs[64], fa[64], fn[64]; size_t n = 0, nfa = 0, nfn = 0;
    unsigned k = (unsigned)nd_pick(3); unsigned which[3];
    for(unsigned i = 0; i < k; i++){
        which[i] = (unsigned)nd_pick(2);
        const char *h = H[which[i]];
        for(const char *p = h; *p; p++){ buf[n++] = *p; if(which[i] != 1) fa[nfa++] = *p; else fn[nfn++] = *p; }
    }
    for(const char *p = EOL; *p; p++){ buf[n++] = *p; fa[nfa++] = *p; fn[nfn++] = *p; }
    size_t hlen = n, bl = nd_pick(2);
    for(size_t i = 0; i < bl; i++) buf[n++] = (char)nd_u8();
    msg = buf; mlen = n;
    begin(buf, n);
    body(&A, extra(NULL, NOTXT, NULL, 0, -1)); VH_CHECK(is(&A, buf, n), "BODY[] is the message");
    body(&A, extra(NULL, IE_SECT_HEADER, NULL, 0, -1)); VH_CHECK(is(&A, buf, hlen), "BODY[HEADER] is the header");
    body(&A, extra(NULL, IE_SECT_TEXT, NULL, 0, -1)); VH_CHECK(is(&A, buf + hlen, n - hlen), "BODY[TEXT] is the body");
    body(&A, extra(part(1, 0, 0), NOTXT, NULL, 0, -1)); VH_CHECK(is(&A, buf + hlen, n - hlen), "BODY[1] is the body");
    body(&A, extra(NULL, IE_SECT_HDR_FLDS, "a", 0, -1)); VH_CHECK(is(&A, fa, nfa), "HEADER.FIELDS picks the fields");
    body(&A, extra(NULL, IE_SECT_HDR_FLDS_NOT, "A", 0, -1)); VH_CHECK(is(&A, fn, nfn), "HEADER.FIELDS.NOT picks the others");
    body(&A, extra(part(2, 0, 0), NOTXT, NULL, 0, -1)); VH_CHECK(!A.ok, "a plain message has one part");
    body(&A, extra(part(1, 1, 0), NOTXT, NULL, 0, -1)); VH_CHECK(!A.ok, "a plain message has no nested parts");
    size_t from = nd_pick(1) ? hlen - 1 : 0, len = nd_pick(3), to = from + len < n ? from + len : n;
    body(&A, extra(NULL, NOTXT, NULL, (int)from, (int)len)); VH_CHECK(is(&A, buf + from, to - from), "a partial fetch is that part");
    body(&A, extra(NULL, NOTXT, NULL, 999, 2)); VH_CHECK(is(&A, buf, 0), "a partial fetch beyond the end is empty");
    ie_fetch_attrs_t *a = simple(simple(simple(at0(), IE_FETCH_ATTR_RFC822), IE_FETCH_ATTR_RFC822_HEADER), IE_FETCH_ATTR_RFC822_TEXT);
    a = simple(simple(a, IE_FETCH_ATTR_ENVELOPE), IE_FETCH_ATTR_BODY);
    OK(fetch(a), "FETCH of a readable message succeeds");
    VH_CHECK(st == 'O', "FETCH of a readable message succeeds");
    if(resp){
        take(&A, resp->arg.fetch->rfc822); VH_CHECK(is(&A, buf, n), "RFC822 is the message");
        take(&A, resp->arg.fetch->rfc822_hdr); VH_CHECK(is(&A, buf, hlen), "RFC822.HEADER is the header");
        take(&A, resp->arg.fetch->rfc822_text); VH_CHECK(is(&A, buf + hlen, n - hlen), "RFC822.TEXT is the body");
        ie_body_t *b = resp->arg.fetch->body;
        VH_CHECK(resp->arg.fetch->envelope && b && b->type == IE_BODY_TEXT && b->nbytes == n - hlen, "BODY describes the body");
        unsigned lf = 0, cr = 0; for(size_t i = hlen; i < n; i++){ lf += buf[i] == '\n'; cr += buf[i] == '\r'; }
        if(b) VH_CHECK(b->nlines == (lf ? lf : cr), "BODY counts the lines");
    }
    done();
    if(k == 3 && which[2] == 2) VH_REACH("three headers");
    end();
}

/* messages with parts, and what is in them */
typedef struct { unsigned p[3]; int txt; const char *is; } sub_t;
typedef struct { const char *msg; sub_t s[12]; const char *shape; } mime_t;
#define MP(b) "Content-Type: multipart/mixed; boundary=" b EOL EOL
#define P1 "X: 1" EOL EOL "one"
#define P2 EOL "two" EOL "2"
#define INNER "S: i" EOL EOL "in"
#define RFC "Content-Type: message/rfc822" EOL EOL
static const mime_t T[] = {
    { MP("b") "pre" EOL "--b" EOL P1 EOL "--b" EOL P2 EOL "--b--" EOL, {
        { {1}, NOTXT, "one" }, { {2}, NOTXT, "two" EOL "2" }, { {3}, NOTXT, NULL }, { {1,1}, NOTXT, NULL },
        { {1}, IE_SECT_MIME, "X: 1" EOL EOL }, { {2}, IE_SECT_MIME, EOL }, { {1}, IE_SECT_TEXT, NULL }, { {1}, IE_SECT_HEADER, NULL }, { {1}, IE_SECT_HDR_FLDS, NULL }, { {1}, IE_SECT_HDR_FLDS_NOT, NULL } }, "(tt)" },
    { MP("b") "--b" EOL RFC INNER EOL "--b" EOL P1 EOL "--b--", {
        { {1}, NOTXT, INNER }, { {1}, IE_SECT_HEADER, "S: i" EOL EOL }, { {1}, IE_SECT_TEXT, "in" }, { {1,1}, NOTXT, "in" }, { {1}, IE_SECT_MIME, RFC }, { {1,2}, NOTXT, NULL }, { {1,1,1}, NOTXT, NULL },
        { {1}, IE_SECT_HDR_FLDS, "S: i" EOL EOL }, { {1}, IE_SECT_HDR_FLDS_NOT, EOL }, { {2}, NOTXT, "one" } }, "(mtt)" },
    { MP("b") "--b" EOL MP("c") "--c" EOL P1 EOL "--c" EOL P2 EOL "--c--" EOL "--b" EOL P2 EOL "--b--", {
        { {1,1}, NOTXT, "one" }, { {1,2}, NOTXT, "two" EOL "2" }, { {1,3}, NOTXT, NULL }, { {2}, NOTXT, "two" EOL "2" }, { {1,1}, IE_SECT_MIME, "X: 1" EOL EOL }, { {1}, IE_SECT_MIME, MP("c") }, { {1,1,1}, NOTXT, NULL } }, "((tt)t)" },
    { RFC INNER, { { {1}, NOTXT, INNER }, { {1,1}, NOTXT, "in" }, { {1,2}, NOTXT, NULL }, { {2}, NOTXT, NULL } }, "mt" },
    { "Content-Type: multipart/digest; boundary=\"b\"" EOL EOL "--b" EOL EOL INNER EOL "--b" EOL "Content-Type: text/plain" EOL EOL "x" EOL "--b--", {
        { {1}, NOTXT, INNER }, { {1}, IE_SECT_TEXT, "in" }, { {2}, NOTXT, "x" }, { {2}, IE_SECT_TEXT, NULL } }, "(mtt)" },
    { "Content-Type: multipart/mixed" EOL EOL "--b" EOL P1 EOL "--b--", { { {1}, NOTXT, "" }, { {2}, NOTXT, NULL } }, "(t)" },
    { MP("b") "nothing", { { {1}, NOTXT, "" }, { {2}, NOTXT, NULL } }, "(t)" },
    { "Content-Type: image/x" EOL EOL "\1\2", { { {1}, NOTXT, "\1\2" }, { {2}, NOTXT, NULL } }, "b" },
    { MP("b") "--b" EOL RFC MP("c") "--c" EOL P1 EOL "--c" EOL P2 EOL "--c--" EOL "--b--", {
        { {1,1}, NOTXT, "one" }, { {1,2}, NOTXT, "two" EOL "2" }, { {1,1}, IE_SECT_MIME, "X: 1" EOL EOL }, { {1}, IE_SECT_HEADER, MP("c") }, { {1,3}, NOTXT, NULL } }, "(m(tt))" },
    { MP("b") "--b" EOL "no header" EOL EOL "x" EOL "--b" EOL P1 EOL "--b--", { { {2}, NOTXT, "one" } }, NULL },
    { MP("b") "--b" EOL RFC "no header" EOL EOL "x" EOL "--b" EOL P1 EOL "--b--", { { {2}, NOTXT, "one" } }, NULL },
    { MP("b") "--b" EOL MP("c") "--c" EOL "no header" EOL EOL "x" EOL "--c--" EOL "--b" EOL P1 EOL "--b--", { { {2}, NOTXT, "one" } }, NULL },
};
#define NT (sizeof(T) / sizeof(*T))
static char shape[32]; static size_t nshape;
static void put(char c){ if(nshape < sizeof(shape) - 1){ shape[nshape++] = c; shape[nshape] = 0; } }
static unsigned lines(const txt_t *t){ unsigned lf = 0, cr = 0; for(size_t i = 0; i < t->n; i++){ lf += t->d[i] == '\n'; cr += t->d[i] == '\r'; } return lf ? lf : cr; }
static ie_fetch_resp_t *keep;
// the structure says how large each part is: compare with the part itself
static void walk(const ie_body_t *b, unsigned p0, unsigned p1, unsigned p2, int depth){
    if(b->type == IE_BODY_MULTI){
        put('(');
        unsigned n = 0;
        for(const ie_body_t *x = b->multiparts; x; x = x->next){ n++; if(depth == 0) walk(x, n, 0, 0, 1); else if(depth == 1) walk(x, p0, n, 0, 2); else if(depth == 2) walk(x, p0, p1, n, 3); }
        put(')');
        if(depth < 3){ body(&C, extra(depth == 0 ? part(n + 1, 0, 0) : depth == 1 ? part(p0, n + 1, 0) : part(p0, p1, n + 1), NOTXT, NULL, 0, -1)); VH_CHECK(!C.ok, "no more parts than the structure says"); }
        return;
    }
    put(b->type == IE_BODY_TEXT ? 't' : b->type == IE_BODY_MESSAGE ? 'm' : 'b');
    if(depth == 0){ p0 = 1; }
    body(&C, extra(part(p0, p1, p2), NOTXT, NULL, 0, -1));
    VH_CHECK(C.ok && C.n == b->nbytes, "a part is as long as the structure says");
    if(b->type != IE_BODY_BASIC) VH_CHECK(b->nlines == lines(&C), "a part has as many lines as the structure says");
    if(b->type == IE_BODY_MESSAGE){
        body(&A, extra(part(p0, p1, p2), IE_SECT_HEADER, NULL, 0, -1)); body(&B, extra(part(p0, p1, p2), IE_SECT_TEXT, NULL, 0, -1));
        if(depth > 0) VH_CHECK(A.ok && B.ok && A.n + B.n == C.n, "a message is its header and its text");
        if(b->msgbody && depth > 0 && depth < 3 && b->msgbody->type == IE_BODY_MULTI) walk(b->msgbody, p0, p1, p2, depth);
        else if(b->msgbody && depth == 1) walk(b->msgbody, p0, 1, 0, 2);
        else if(b->msgbody) put('t');
    }
}
static bool structure(void){
    OK(fetch(simple(at0(), IE_FETCH_ATTR_BODYSTRUCT)), "FETCH of a readable message succeeds");
    VH_CHECK(st == 'O', "FETCH of a readable message succeeds");
    if(!resp || !resp->arg.fetch->bodystruct){ done(); return false; }
    imap_resp_t *r = resp; resp = NULL;
    nshape = 0; shape[0] = 0;
    walk(r->arg.fetch->bodystruct, 0, 0, 0, 0);
    imap_resp_free(r);
    return true;
}
void h_parts(void){
    const mime_t *t = &T[nd_pick(NT - 1)];
    msg = (char*)t->msg; mlen = strlen(t->msg);
    begin(t->msg, mlen);
    for(const sub_t *s = t->s; s->p[0]; s++){
        bool f = s->txt == IE_SECT_HDR_FLDS || s->txt == IE_SECT_HDR_FLDS_NOT;
        body(&A, extra(part(s->p[0], s->p[1], s->p[2]), s->txt, f ? "S" : NULL, 0, -1));
        if(s->is) VH_CHECK(isz(&A, s->is), "a part of a message is what is between the boundaries"); else VH_CHECK(!A.ok, "a part which is not there is missing");
        // missing parts are remembered, present ones too
        ie_fetch_attrs_t *a = add(at0(), extra(part(s->p[0], s->p[1], s->p[2]), s->txt, f ? "S" : NULL, 0, -1));
        a = add(a, extra(NULL, IE_SECT_TEXT, NULL, 0, -1));
        OK(fetch(a), "FETCH of a readable message succeeds");
        VH_CHECK(st == (s->is ? 'O' : 'N'), "FETCH tells that a part is missing");
        done();
    }
    if(t->s[1].is || !t->shape) VH_REACH("parts");
    structure();
    if(t->shape) VH_CHECK(strcmp(shape, t->shape) == 0, "BODYSTRUCTURE tells the structure");
    // the message itself is still all there, however it is asked for
    unsigned k = (unsigned)nd_pick(3);
    ie_fetch_attrs_t *a = at0();
    if(k == 0) a = add(add(a, extra(NULL, NOTXT, NULL, 3, 5)), extra(NULL, NOTXT, NULL, 0, -1));
    if(k == 1) a = add(add(a, extra(NULL, NOTXT, NULL, 0, -1)), extra(NULL, NOTXT, NULL, 3, 5));
    if(k == 2) a = simple(add(add(a, extra(NULL, NOTXT, NULL, 3, 5)), extra(NULL, IE_SECT_TEXT, NULL, 0, -1)), IE_FETCH_ATTR_RFC822);
    if(k == 3) a = simple(add(add(a, extra(NULL, NOTXT, NULL, 0, 2)), extra(NULL, NOTXT, NULL, 2, 9999)), IE_FETCH_ATTR_BODYSTRUCT);
    OK(fetch(a), "FETCH of a readable message succeeds");
    if(resp){
        int n = 0;
        for(ie_fetch_resp_extra_t *x = resp->arg.fetch->extras; x; x = x->next, n++){
            if(x->sect) continue;
            size_t from = x->offset ? x->offset->num : 0;
            take(&A, x->content);
            VH_CHECK(A.ok && A.n <= mlen - from && is(&A, t->msg + from, A.n) && (x->offset || A.n == mlen), "each item is its part of the message");
            if(x->offset) VH_CHECK(A.n == (k < 3 ? 5 : from ? mlen - 2 : 2), "a partial fetch is as long as asked for");
        }
        VH_CHECK(n == 2, "every item is answered");
        if(k == 2){ take(&A, resp->arg.fetch->rfc822); VH_CHECK(is(&A, t->msg, mlen), "RFC822 is the message"); }
    }
    done();
    end();
}
// no message, however broken, breaks FETCH
static char mut[VFS_MAX];
static void anything(void){
    body(&A, extra(NULL, NOTXT, NULL, 0, -1)); VH_CHECK(is(&A, mut, mlen), "BODY[] is the message");
    body(&A, extra(NULL, IE_SECT_HEADER, NULL, 0, -1)); body(&B, extra(NULL, IE_SECT_TEXT, NULL, 0, -1));
    VH_CHECK(A.ok && B.ok && A.n + B.n == mlen && is(&A, mut, A.n) && is(&B, mut + A.n, B.n), "a message is its header and its text");
    OK(fetch(simple(at0(), IE_FETCH_ATTR_ENVELOPE)), "FETCH of a readable message succeeds"); VH_CHECK(st == 'O', "FETCH of a readable message succeeds"); done();
    static const int tx[] = { IE_SECT_MIME, IE_SECT_HDR_FLDS, IE_SECT_HDR_FLDS_NOT };
    for(int i = 0; i < 3; i++) body(&A, extra(part(1, 0, 0), tx[i], i ? "S" : NULL, 0, -1));
    structure();
}
#ifndef NB
#define NB NT
#define NS 10
#endif
void h_broken(void){
    static const unsigned char some[] = { 0, 1, 4, 8 };
    unsigned w = (unsigned)nd_pick(NB - 1);
    const mime_t *t = &T[NB < NT ? some[w & 3] : w];
    mlen = strlen(t->msg);
    for(size_t i = 0; i < mlen; i++) mut[i] = t->msg[i];
    if(nd_pick(1)){ size_t at = nd_pick(mlen - 1); static const char S[] = { '\r', '\n', ':', '-', ';', '\x80', 0, ' ', 'b', '"' }; mut[at] = S[nd_pick(NS - 1)]; }
    else mlen = nd_pick(mlen - 1);
    msg = mut;
    vfs_rchunk = NB < NT ? 13 : nd_pick(1) * 13;
    begin(mut, mlen);
    anything();
    if(mlen > 10) VH_REACH("long");
    end();
}
void h_crash(void){
    const mime_t *t = &T[nd_pick(NT - 1)];
    mlen = strlen(t->msg);
    for(size_t i = 0; i < mlen; i++) mut[i] = t->msg[i];
    size_t at = nd_pick(mlen - 2); mut[at] = (char)nd_u8(); mut[at + 1] = (char)nd_u8();
    msg = mut;
    begin(mut, mlen);
    anything();
    VH_REACH("done");
    end();
}
// a failing disk is noticed
void h_disk(void){
    const mime_t *t = &T[nd_pick(2)];
    msg = (char*)t->msg; mlen = strlen(t->msg);
    begin(t->msg, mlen);
    vfs_rfail_at = 1 + nd_pick(2); vfs_rchunk = 40;
    ie_fetch_attrs_t *a = at0();
    unsigned k = (unsigned)nd_pick(9);
    static const ie_fetch_simple_t S[] = { IE_FETCH_ATTR_ENVELOPE, IE_FETCH_ATTR_BODY, IE_FETCH_ATTR_BODYSTRUCT, IE_FETCH_ATTR_RFC822, IE_FETCH_ATTR_RFC822_HEADER, IE_FETCH_ATTR_RFC822_TEXT };
    if(k < 6) a = simple(a, S[k]);
    if(k == 6) a = add(a, extra(NULL, NOTXT, NULL, 0, -1));
    if(k == 7) a = add(a, extra(NULL, NOTXT, NULL, 0, 5));
    if(k == 8) a = add(a, extra(part(1, 0, 0), IE_SECT_MIME, NULL, 0, -1));
    if(k == 9) a = add(a, extra(NULL, IE_SECT_HDR_FLDS, "S", 0, 4));
    derr_t e = fetch(a);
    if(is_error(e)){ VH_REACH("error"); }
    else VH_CHECK(st == 'O', "FETCH succeeds");
    if(vfs_rds >= vfs_rfail_at) VH_CHECK(is_error(e), "a failing disk is noticed");
    DROP_VAR(&e);
    done();
    end();
}

// one client's view of a mailbox: sequence numbers, untagged updates, commands
//@ property P27 P28
//@ engine sx
//@ src dstr libimaildir/dn.c libimaildir/msg.c libimaildir/util.c libimaildir/search.c libimap/expression.c libimap/extension.c
//@ gen imap
//@ libc vfs
//@ stub _fmt_dstr_dbg imap_resp_assert_writable imaildir_dn_select_failed imaildir_dn_synced imaildir_dn_build_views imaildir_dn_request_update imaildir_dn_open_msg imaildir_dn_close_msg imf_free imf_hdrs_free mime_param_free mime_content_type_free
//@ bounds: P27: up to 3 messages and 2 arriving, 3 (thorough 4) changes of 7 kinds by others between any two commands of 11 kinds, STORE and EXPUNGE answered at once or after another change, accepted or refused
//@ bounds: P28: sequence and UID sets of 2 ranges over the ends of the mailbox, 0, * and numbers beyond; read-write and read-only; every flag
//@ assume: that a response can be written is P31; searches use the ALL, SEEN and UID keys (P25 covers the others)
//@ entry h_seq@1 prop=P27 defs=K=2 leak=1 jobs=6
//@ entry h_seq@2 prop=P27 defs=K=3 tier=thorough leak=1 jobs=8 timeout=3000
//@ entry h_two prop=P27 defs=K=1 leak=1 jobs=6
//@ entry h_fail prop=P27 leak=1
//@ entry h_sets prop=P28 leak=1 jobs=6
//@ entry h_readonly prop=P28 leak=1
//@ entry h_close prop=P28 leak=1
//@ entry h_select prop=P28 leak=1
#ifndef K
#define K 2
#endif
#define VFS_N 8
#define VFS_NF 4
#include "vh.h"
#include "libimaildir/libimaildir.h"
#include "vfs.h"

derr_type_t _fmt_dstr_dbg(const fmt_i *iface, writer_i *out){ (void)iface; (void)out; return E_NONE; }
imap_resp_t *imap_resp_assert_writable(derr_t *e, imap_resp_t *resp, const extensions_t *exts){ (void)e; (void)exts; return resp; }

#define OK(call, why) do{ derr_t e_ = (call); VH_CHECK(!is_error(e_), why); DROP_VAR(&e_); }while(0)
#define NM 6
// what the mailbox holds
static struct { unsigned uid; int fl; bool live, told; } srv[NM];
static int nsrv;
static dn_t dn;
static int scheduled;
static void cb_schedule(dn_cb_i *cb){ (void)cb; scheduled++; }
static dn_cb_i cb = { .schedule = cb_schedule };
static extensions_t exts;
static imaildir_t m;     // only its address is used
enum { ANS = 1, FLAG = 2, SEEN = 4, DRAFT = 8, DEL = 16 };
static int bits(msg_flags_t f){ return f.answered | f.flagged << 1 | f.seen << 2 | f.draft << 3 | f.deleted << 4; }
static msg_flags_t unbits(int b){ return (msg_flags_t){ .answered = b & 1, .flagged = b >> 1 & 1, .seen = b >> 2 & 1, .draft = b >> 3 & 1, .deleted = b >> 4 & 1 }; }
static msg_view_t *view_of(int i){
    msg_t g = { .key = { .uid_up = 100 + srv[i].uid }, .uid_dn = srv[i].uid, .length = 10 + srv[i].uid, .flags = unbits(srv[i].fl), .internaldate = { .year = 2000 + i, .month = 1, .day = 2 } };
    msg_view_t *v; OK(msg_view_new(&v, &g), "view"); return v;
}
static void tell(update_type_e t, update_arg_u a){ update_t *u; OK(update_new(&u, NULL, t, a), "update"); dn_imaildir_update(&dn, u); }
static unsigned max_uid;
static void ev_new(void){
    if(nsrv == NM) return;
    srv[nsrv].uid = max_uid += 2; srv[nsrv].fl = 0; srv[nsrv].live = true; nsrv++;
    tell(UPDATE_NEW, (update_arg_u){ .new = view_of(nsrv - 1) });
}
static void ev_meta(int i, int fl){
    if(i >= nsrv) return;
    srv[i].fl = fl;
    tell(UPDATE_META, (update_arg_u){ .meta = view_of(i) });
}
static void ev_expunge(int i){
    if(i < 0 || i >= nsrv || !srv[i].live) return;
    srv[i].live = false;
    msg_expunge_t *x; OK(msg_expunge_new(&x, (msg_key_t){ .uid_up = 100 + srv[i].uid }, srv[i].uid, MSG_EXPUNGE_PUSHED, 7), "expunge");
    tell(UPDATE_EXPUNGE, (update_arg_u){ .expunge = x });
}
static void event(unsigned k){
    switch(k){
        case 0: ev_new(); break;
        case 1: case 2: case 3: if((int)k - 1 < nsrv) ev_meta((int)k - 1, srv[k - 1].fl ^ FLAG); break;
        case 4: case 5: case 6: ev_expunge((int)k - 4); break;
        case 7: ev_expunge(nsrv - 1); break;

    }
}
#define EVENTS 8
static void ev_sync(bool refuse){
    derr_t e = E_OK;
    ie_st_resp_t *r = refuse ? ie_st_resp_new(&e, ie_dstr_new2(&e, DSTR_LIT("up")), IE_ST_NO, NULL, ie_dstr_new2(&e, DSTR_LIT("no"))) : NULL;
    OK(e, "sync");
    tell(UPDATE_SYNC, (update_arg_u){ .sync = r });
}

void imf_free(imf_t *x){ (void)x; }
void imf_hdrs_free(imf_hdrs_t *x){ (void)x; }
void mime_param_free(mime_param_t *x){ (void)x; }
void mime_content_type_free(mime_content_type_t *x){ (void)x; }
/* the mail store */
bool imaildir_dn_select_failed(imaildir_t *x, ie_status_t *st){ (void)x; *st = IE_ST_OK; return true; }
bool imaildir_dn_synced(imaildir_t *x, bool examine){ (void)x; (void)examine; return true; }
derr_t imaildir_dn_build_views(imaildir_t *x, dn_t *d, jsw_atree_t *views, unsigned *mx, unsigned *vld){
    (void)x; (void)d;
    for(int i = 0; i < nsrv; i++) if(srv[i].live) jsw_ainsert(views, &view_of(i)->node);
    *mx = max_uid; *vld = 77;
    return E_OK;
}
static int nopen, opened[NM];
static bool open_fails, req_fails;
derr_t imaildir_dn_open_msg(imaildir_t *x, const msg_key_t key, int *fd){
    derr_t e = E_OK; (void)x;
    if(open_fails) ORIG(&e, E_FS, "no file");
    for(int i = 0; i < nsrv; i++) if(key.uid_up == 100 + srv[i].uid){ opened[i]++; nopen++; *fd = VW(open)("/msg", 0); return e; }
    VH_CHECK(0, "only messages of the mailbox are opened");
    return e;
}
void imaildir_dn_close_msg(imaildir_t *x, const msg_key_t key, int *fd){ (void)x; (void)key; VW(close)(*fd); *fd = -1; nopen--; }
// what was asked of the mail store
static struct { int n, type, sign, fl; bool on[NM]; bool sync_now, refuse; unsigned before, after; } rq;
static int apply(int old, int sign, int fl){ return sign == 0 ? fl : sign > 0 ? old | fl : old & ~fl; }
static void carry_out(void){
    if(!rq.refuse) for(int i = 0; i < nsrv; i++) if(rq.on[i]){
        if(rq.type == UPDATE_REQ_STORE){ int f = apply(srv[i].fl, rq.sign, rq.fl); if(f != srv[i].fl) ev_meta(i, f); }
        if(rq.type == UPDATE_REQ_EXPUNGE) ev_expunge(i);
    }
    event(rq.after);
    ev_sync(rq.refuse);
}
derr_t imaildir_dn_request_update(imaildir_t *x, update_req_t *req){
    VH_CHECK(x == &m && req->requester == &dn, "request");
    rq.n++; rq.type = req->type;
    for(int i = 0; i < NM; i++) rq.on[i] = false;
    msg_key_list_t *k = NULL;
    switch(req->type){
        case UPDATE_REQ_STORE: {
            k = req->val.msg_store->keys; rq.sign = req->val.msg_store->sign;
            ie_flags_t *f = req->val.msg_store->flags;
            rq.fl = f ? f->answered | f->flagged << 1 | f->seen << 2 | f->draft << 3 | f->deleted << 4 : 0;
            break;
        }
        case UPDATE_REQ_EXPUNGE: k = req->val.msg_keys; break;
        case UPDATE_REQ_COPY: k = req->val.msg_copy->keys; break;
    }
    for(; k; k = k->next){
        int at = -1;
        for(int i = 0; i < nsrv; i++) if(k->key.uid_up == 100 + srv[i].uid) at = i;
        VH_CHECK(at >= 0 && !rq.on[at], "a request names messages of the mailbox, each once");
        rq.on[at] = true;
    }
    update_req_free(req);
    if(req_fails){ derr_t e = E_OK; ORIG(&e, E_FS, "failed"); }
    if(rq.sync_now) carry_out();
    return E_OK;
}

/* the client */
static struct { unsigned uid; bool known; int fl; } c[NM + 2];
static int nc;
static link_t out;
static const char *tagged;      // "OK" and so on, once the command was answered
static bool got_search; static unsigned found[NM]; static int nfound;
static int nfetch; static struct { int i; bool intdate, size, body; int year; } fetched[NM]; static bool got_fetch[NM];
static unsigned told_uidnext, told_unseen, told_vld; static bool got_exists, got_plus;
static int fbits(const ie_fflags_t *f){ return f->answered | f->flagged << 1 | f->seen << 2 | f->draft << 3 | f->deleted << 4; }
static void hear(bool uid_mode, bool may_expunge){
    link_t *l;
    bool once[NM + 2] = {0};
    tagged = NULL; got_search = got_exists = got_plus = false; nfound = nfetch = 0; told_unseen = 0;
    for(int i = 0; i < NM; i++) got_fetch[i] = false;
    while((l = link_list_pop_first(&out))){
        imap_resp_t *r = CONTAINER_OF(l, imap_resp_t, link);
        VH_CHECK(!tagged, "the tagged response is the last one");
        switch(r->type){
            case IMAP_RESP_STATUS_TYPE: {
                ie_st_resp_t *s = r->arg.status_type;
                if(s->tag){
                    VH_CHECK(dstr_cmp2(s->tag->dstr, DSTR_LIT("t")) == 0, "the answer carries the command's tag");
                    tagged = s->status == IE_ST_OK ? "OK" : s->status == IE_ST_NO ? "NO" : "BAD";
                }else if(s->code && s->code->type == IE_ST_CODE_UNSEEN){ VH_CHECK(!told_unseen, "one UNSEEN"); told_unseen = s->code->arg.unseen; }
                else if(s->code && s->code->type == IE_ST_CODE_UIDNEXT) told_uidnext = s->code->arg.uidnext;
                else if(s->code && s->code->type == IE_ST_CODE_UIDVLD) told_vld = s->code->arg.uidvld;
                break;
            }
            case IMAP_RESP_EXISTS:
                VH_CHECK((int)r->arg.exists >= nc, "EXISTS never goes back");
                VH_CHECK(r->arg.exists <= NM, "EXISTS counts messages");
                while(nc < (int)r->arg.exists){ c[nc].uid = 0; c[nc].known = false; once[nc] = false; nc++; }
                got_exists = true;
                break;
            case IMAP_RESP_EXPUNGE: {
                unsigned n = r->arg.expunge;
                VH_CHECK(may_expunge, "no EXPUNGE while a command uses sequence numbers");
                VH_CHECK(n >= 1 && (int)n <= nc, "EXPUNGE names a message the client knows of");
                if(n < 1 || (int)n > nc) break;
                for(int i = (int)n - 1; i < nc - 1; i++){ c[i] = c[i + 1]; once[i] = once[i + 1]; }
                nc--;
                break;
            }
            case IMAP_RESP_FETCH: {
                ie_fetch_resp_t *f = r->arg.fetch;
                VH_CHECK(f->seq_num >= 1 && (int)f->seq_num <= nc, "FETCH names a message the client knows of");
                if(f->seq_num < 1 || (int)f->seq_num > nc) break;
                int i = (int)f->seq_num - 1;
                VH_CHECK(!once[i], "one FETCH response per message");
                once[i] = true;
                if(uid_mode) VH_CHECK(f->uid, "answers to UID commands name the UID");
                if(f->uid){ VH_CHECK(!c[i].uid || c[i].uid == f->uid, "a sequence number keeps its message"); c[i].uid = f->uid; }
                if(f->flags){ c[i].known = true; c[i].fl = fbits(f->flags); }
                if(nfetch < NM){ fetched[nfetch].i = i; fetched[nfetch].intdate = f->intdate.year; fetched[nfetch].year = f->intdate.year; fetched[nfetch].size = f->rfc822_size != NULL; fetched[nfetch].body = f->extras != NULL; nfetch++; }
                got_fetch[i] = true;
                if(f->rfc822_size) VH_CHECK(c[i].uid && f->rfc822_size->num == 10 + c[i].uid, "the size is the message's");
                break;
            }
            case IMAP_RESP_SEARCH:
                VH_CHECK(!got_search, "one SEARCH response"); got_search = true;
                for(ie_nums_t *n = r->arg.search->nums; n; n = n->next){ VH_CHECK(nfound < NM, "found"); if(nfound < NM) found[nfound++] = n->num; }
                break;
            case IMAP_RESP_PLUS: got_plus = true; break;
            default: break;
        }
        imap_resp_free(r);
    }
    // what the client thinks and what we think it thinks
    VH_CHECK((int)jsw_asize(&dn.views) == nc, "the client counts the messages right");
    jsw_atrav_t t; int i = 0;
    for(jsw_anode_t *n = jsw_atfirst(&t, &dn.views); n && i < nc; n = jsw_atnext(&t), i++){
        msg_view_t *v = CONTAINER_OF(n, msg_view_t, node);
        VH_CHECK(!c[i].uid || c[i].uid == v->uid_dn, "a sequence number keeps its message");
        c[i].uid = v->uid_dn;
        if(c[i].known) VH_CHECK(c[i].fl == bits(v->flags), "the client knows the flags of a message");
    }
}
static int at(int i){ for(int j = 0; j < nsrv; j++) if(srv[j].uid == c[i].uid) return j; return -1; }
static ie_dstr_t *newtag(void){ derr_t e = E_OK; ie_dstr_t *t = ie_dstr_new2(&e, DSTR_LIT("t")); OK(e, "tag"); return t; }
static void tag_done(ie_dstr_t *t){ VH_CHECK(t == NULL, "the tag is used"); ie_dstr_free(t); }

static void begin(int n, bool examine){
    link_init(&out);
    max_uid = 1; nsrv = 0;
    for(int i = 0; i < n; i++){ srv[i].uid = max_uid += 2; srv[i].fl = 0; srv[i].live = true; nsrv++; }
    OK(dn_init(&dn, &m, &cb, &exts, examine), "init");
}
static void select_box(void){
    ie_dstr_t *t = newtag(); bool ok, success;
    OK(dn_select(&dn, &t, &out, &ok, &success), "select");
    VH_CHECK(ok && success, "a ready mailbox is selected");
    nc = 0;
    hear(false, false);
    VH_CHECK(got_exists && tagged && tagged[0] == 'O', "SELECT succeeds and tells EXISTS");
    VH_CHECK(told_uidnext == max_uid + 1, "SELECT tells the next UID");
    tag_done(t);
}
static void finish(void){
    // everything is taken over in the end
    OK(dn_gather_updates(&dn, true, false, NULL, &out), "gather");
    hear(false, true);
    int n = 0;
    for(int i = 0; i < nsrv; i++) if(srv[i].live){
        VH_CHECK(n < nc && c[n].uid == srv[i].uid, "the client ends up with the messages of the mailbox");
        if(n < nc && c[n].known) VH_CHECK(c[n].fl == srv[i].fl, "and their flags");
        n++;
    }
    VH_CHECK(n == nc, "and no others");
    VH_CHECK(link_list_isempty(&dn.pending_updates), "no update is left over");
    VH_CHECK(nopen == 0, "no message is left open");
    dn_free(&dn);
}

static void cmd_noop(void){ OK(dn_gather_updates(&dn, true, false, NULL, &out), "gather"); hear(false, true); }
static ie_seq_set_t *set2(unsigned a, unsigned b, unsigned x, unsigned y, bool two){
    derr_t e = E_OK; ie_seq_set_t *s = ie_seq_set_new(&e, a, b); if(two) s = ie_seq_set_append(&e, s, ie_seq_set_new(&e, x, y)); OK(e, "set"); return s;
}
// which of the client's messages a set names
static bool in_one(unsigned v, unsigned a, unsigned b, unsigned mx){ if(!a) a = mx; if(!b) b = mx; return a <= b ? v >= a && v <= b : v >= b && v <= a; }
static bool named(const ie_seq_set_t *s, bool uid_mode, int i){
    if(!nc) return false;
    for(; s; s = s->next) if(in_one(uid_mode ? c[i].uid : (unsigned)i + 1, s->n1, s->n2, uid_mode ? c[nc - 1].uid : (unsigned)nc)) return true;
    return false;
}
static bool valid_set(const ie_seq_set_t *s, bool uid_mode){
    if(uid_mode) return true;
    if(!nc) return false;
    for(; s; s = s->next) if(s->n1 > (unsigned)nc || s->n2 > (unsigned)nc) return false;
    return true;
}
static ie_flags_t *flags_of(int fl){
    derr_t e = E_OK; ie_flags_t *f = ie_flags_new(&e);
    if(fl & ANS) f = ie_flags_add_simple(&e, f, IE_FLAG_ANSWERED); if(fl & FLAG) f = ie_flags_add_simple(&e, f, IE_FLAG_FLAGGED); if(fl & SEEN) f = ie_flags_add_simple(&e, f, IE_FLAG_SEEN);
    if(fl & DRAFT) f = ie_flags_add_simple(&e, f, IE_FLAG_DRAFT); if(fl & DEL) f = ie_flags_add_simple(&e, f, IE_FLAG_DELETED);
    OK(e, "flags"); return f;
}
// what the client named, by message
static bool wanted[NM];
static int want(const ie_seq_set_t *s, bool uid_mode){
    int n = 0;
    for(int i = 0; i < NM; i++) wanted[i] = false;
    for(int i = 0; i < nc; i++) if(named(s, uid_mode, i)){ wanted[at(i)] = true; n++; }
    return n;
}
static void same_request(const char *why){ for(int i = 0; i < nsrv; i++) VH_CHECK(rq.on[i] == wanted[i], why); }
static void cmd_store(ie_seq_set_t *s, bool uid_mode, int sign, bool silent, int fl){
    derr_t e = E_OK;
    bool valid = valid_set(s, uid_mode); int n = want(s, uid_mode);
    ie_store_cmd_t *st = ie_store_cmd_new(&e, uid_mode, s, NULL, sign, silent, flags_of(fl)); OK(e, "store");
    ie_dstr_t *t = newtag(); bool ok = false;
    rq.n = 0;
    bool before_known[NM]; int before_fl[NM], nbefore = nc; bool on[NM];
    for(int i = 0; i < nc; i++){ before_known[i] = c[i].known; before_fl[i] = c[i].fl; on[i] = valid && named(s, uid_mode, i); }
    OK(dn_store(&dn, &t, st, &out, &ok), "store");
    if(!valid || !n || dn.examine){
        VH_CHECK(ok && rq.n == 0, "a STORE of nothing is answered at once");
    }else{
        VH_CHECK(!ok && rq.n == 1 && rq.type == UPDATE_REQ_STORE && rq.sign == sign && rq.fl == fl, "a STORE is passed on as it is");
        same_request("STORE changes the messages named");
        if(!rq.sync_now){
            OK(dn_store(&dn, &t, st, &out, &ok), "store"); VH_CHECK(!ok && link_list_isempty(&out), "a STORE waits for its result");
            event(rq.before);
            carry_out();
        }
        OK(dn_store(&dn, &t, st, &out, &ok), "store"); VH_CHECK(ok, "a STORE ends with its result");
        // a client takes a silent STORE for done
        if(silent && !rq.refuse) for(int i = 0; i < nbefore; i++) if(on[i] && (before_known[i] || sign == 0)){ c[i].known = true; c[i].fl = apply(before_fl[i], sign, fl); }
    }
    hear(uid_mode, uid_mode || !(valid && n) );
    VH_CHECK(tagged != NULL, "a command is answered");
    if(tagged) VH_CHECK(tagged[0] == (dn.examine ? 'N' : !valid ? 'B' : n && rq.refuse ? 'N' : 'O'), "STORE tells how it went");
    if(valid && n && !dn.examine && !silent && !rq.refuse && !uid_mode) for(int i = 0; i < nbefore; i++) if(on[i] && srv[at(i)].live) VH_CHECK(got_fetch[i], "STORE reports the new flags");
    ie_store_cmd_free(st); tag_done(t);
}
static void cmd_expunge(void){
    ie_dstr_t *t = newtag(); bool ok;
    int n = 0;
    for(int i = 0; i < NM; i++) wanted[i] = false;
    jsw_atrav_t tr; int j = 0;
    for(jsw_anode_t *a = jsw_atfirst(&tr, &dn.views); a; a = jsw_atnext(&tr), j++) if(CONTAINER_OF(a, msg_view_t, node)->flags.deleted){ wanted[at(j)] = true; n++; }
    rq.n = 0;
    OK(dn_expunge(&dn, &t, &out, &ok), "expunge");
    if(!n || dn.examine) VH_CHECK(ok && rq.n == 0, "an EXPUNGE of nothing is answered at once");
    else{
        VH_CHECK(!ok && rq.n == 1 && rq.type == UPDATE_REQ_EXPUNGE, "an EXPUNGE is passed on");
        same_request("EXPUNGE removes the deleted messages");
        if(!rq.sync_now){ event(rq.before); carry_out(); }
        OK(dn_expunge(&dn, &t, &out, &ok), "expunge"); VH_CHECK(ok, "an EXPUNGE ends with its result");
    }
    hear(false, true);
    if(tagged) VH_CHECK(tagged[0] == (dn.examine || (n && rq.refuse) ? 'N' : 'O'), "EXPUNGE tells how it went");
    VH_CHECK(tagged != NULL, "a command is answered");
    tag_done(t);
}
static void cmd_copy(ie_seq_set_t *s, bool uid_mode){
    derr_t e = E_OK;
    bool valid = valid_set(s, uid_mode); int n = want(s, uid_mode);
    ie_copy_cmd_t *cp = ie_copy_cmd_new(&e, uid_mode, s, ie_mailbox_new_inbox(&e)); OK(e, "copy");
    ie_dstr_t *t = newtag(); bool ok;
    rq.n = 0;
    OK(dn_copy(&dn, &t, cp, &out, &ok), "copy");
    if(!valid || !n) VH_CHECK(ok && rq.n == 0, "a COPY of nothing is answered at once");
    else{
        VH_CHECK(!ok && rq.n == 1 && rq.type == UPDATE_REQ_COPY, "a COPY is passed on");
        same_request("COPY copies the messages named");
        if(!rq.sync_now){ event(rq.before); carry_out(); }
        OK(dn_copy(&dn, &t, cp, &out, &ok), "copy"); VH_CHECK(ok, "a COPY ends with its result");
    }
    hear(uid_mode, true);
    if(tagged) VH_CHECK(tagged[0] == (!valid ? 'B' : n && rq.refuse ? 'N' : 'O'), "COPY tells how it went");
    VH_CHECK(tagged != NULL, "a command is answered");
    ie_copy_cmd_free(cp); tag_done(t);
}
// FETCH; body: 0 flags, 1 flags, date and size, 2 BODY.PEEK[], 3 BODY[]
static void cmd_fetch(ie_seq_set_t *s, bool uid_mode, int body){
    derr_t e = E_OK;
    bool valid = valid_set(s, uid_mode); int n = want(s, uid_mode), unseen = 0;
    bool on[NM] = {0};
    for(int i = 0; i < nc; i++) on[i] = valid && named(s, uid_mode, i);
    jsw_atrav_t tr; int j = 0;
    for(jsw_anode_t *a = jsw_atfirst(&tr, &dn.views); a; a = jsw_atnext(&tr), j++) if(on[j]){ wanted[at(j)] = !CONTAINER_OF(a, msg_view_t, node)->flags.seen; unseen += wanted[at(j)]; }
    ie_fetch_attrs_t *a = ie_fetch_attrs_new(&e);
    if(body < 2) a = ie_fetch_attrs_add_simple(&e, a, IE_FETCH_ATTR_FLAGS);
    if(body == 1){ a = ie_fetch_attrs_add_simple(&e, a, IE_FETCH_ATTR_INTDATE); a = ie_fetch_attrs_add_simple(&e, a, IE_FETCH_ATTR_UID); a = ie_fetch_attrs_add_simple(&e, a, IE_FETCH_ATTR_RFC822_SIZE); }
    if(body > 1) a = ie_fetch_attrs_add_extra(&e, a, ie_fetch_extra_new(&e, body == 2, NULL, NULL));
    ie_fetch_cmd_t *f = ie_fetch_cmd_new(&e, uid_mode, s, a, NULL); OK(e, "fetch");
    ie_dstr_t *t = newtag(); bool ok = false;
    rq.n = 0; int nb = nc;
    OK(dn_fetch(&dn, &t, &f, &out, &ok), "fetch");
    bool marks = body == 3 && valid && unseen && !dn.examine;
    VH_CHECK(rq.n == marks, "only reading a message's body marks it as seen");
    if(marks){
        VH_CHECK(rq.type == UPDATE_REQ_STORE && rq.sign == 1 && rq.fl == SEEN, "read messages are marked as seen");
        same_request("read messages are marked as seen");
        if(!rq.sync_now){ OK(dn_fetch(&dn, &t, &f, &out, &ok), "fetch"); VH_CHECK(!ok, "FETCH waits"); event(rq.before); carry_out(); }
    }
    for(int i = 0; !ok && i < NM + 3; i++) OK(dn_fetch(&dn, &t, &f, &out, &ok), "fetch");
    VH_CHECK(ok, "a FETCH ends");
    bool refused = marks && rq.refuse;
    hear(uid_mode, uid_mode);
    VH_CHECK(tagged != NULL, "a command is answered");
    if(tagged) VH_CHECK(tagged[0] == (!valid ? 'B' : refused ? 'N' : 'O'), "FETCH tells how it went");
    if(valid && !refused && !uid_mode) for(int i = 0; i < nb; i++) if(on[i]) VH_CHECK(got_fetch[i], "FETCH answers for every message named");
    if(valid && !refused){ int k = 0; for(int i = 0; i < nfetch; i++) k += body == 1 ? fetched[i].size && fetched[i].intdate : body > 1 ? fetched[i].body : 1; if(body) VH_CHECK(k == n, "FETCH answers for the messages named, and for no other"); else VH_CHECK(k >= n, "FETCH answers for the messages named"); }
    if(!valid || refused) for(int i = 0; i < nfetch; i++) VH_CHECK(!fetched[i].body && !fetched[i].size, "a refused FETCH reads nothing");
    tag_done(t);
}
static void cmd_search(bool uid_mode, int key){
    derr_t e = E_OK;
    ie_search_key_t *k = key == 0 ? ie_search_0(&e, IE_SEARCH_ALL) : key == 1 ? ie_search_0(&e, IE_SEARCH_FLAGGED) : ie_search_seq_set(&e, IE_SEARCH_UID, ie_seq_set_new(&e, 4, 6));
    ie_search_cmd_t *s = ie_search_cmd_new(&e, uid_mode, NULL, k); OK(e, "search");
    unsigned expect[NM]; int n = 0, j = 0;
    jsw_atrav_t tr;
    for(jsw_anode_t *a = jsw_atfirst(&tr, &dn.views); a; a = jsw_atnext(&tr), j++){
        msg_view_t *v = CONTAINER_OF(a, msg_view_t, node);
        if(key == 0 || (key == 1 && v->flags.flagged) || (key == 2 && v->uid_dn >= 4 && v->uid_dn <= 6)) expect[n++] = uid_mode ? v->uid_dn : (unsigned)j + 1;
    }
    ie_dstr_t *t = newtag();
    OK(dn_search(&dn, &t, s, &out), "search");
    hear(uid_mode, uid_mode);
    VH_CHECK(tagged != NULL, "a command is answered");
    if(tagged) VH_CHECK(tagged[0] == 'O', "SEARCH succeeds");
    VH_CHECK(got_search && nfound == n, "SEARCH finds the messages");
    for(int i = 0; i < n && i < nfound; i++) VH_CHECK(found[i] == expect[i], "SEARCH names the messages, in order");
    ie_search_cmd_free(s); tag_done(t);
}
static void cmd_idle(unsigned ev){
    ie_dstr_t *t = newtag();
    OK(dn_idle(&dn, &t, &out), "idle"); hear(false, true); VH_CHECK(got_plus && !tagged, "IDLE is accepted");
    int s = scheduled; bool full = nsrv == NM; int live = 0; for(int i = 0; i < nsrv; i++) live += srv[i].live;
    event(ev);
    int l2 = 0; for(int i = 0; i < nsrv; i++) l2 += srv[i].live;
    if(live != l2 && !full) VH_CHECK(scheduled > s, "an idle client is woken for updates");
    if(nd_pick(1)){ OK(dn_gather_updates(&dn, true, false, NULL, &out), "gather"); hear(false, true); }
    OK(dn_idle_done(&dn, NULL, &out), "done"); hear(false, true);
    VH_CHECK(tagged && tagged[0] == 'O', "IDLE ends");
    tag_done(t);
}
static int few;
static void command(unsigned k){
    rq.sync_now = true; rq.refuse = false; rq.before = rq.after = EVENTS;
    static const unsigned char S[3][2] = { { 1, 0 }, { 2, 2 }, { 0, 0 } }, U[3][2] = { { 1, 4 }, { 5, 5 }, { 5, 0 } };
    bool uid_mode = false; ie_seq_set_t *s = NULL;
    if(k >= 4){ uid_mode = nd_pick(1); if(k < 8){ unsigned w = few == 1 ? 0 : (unsigned)nd_pick(2); s = uid_mode ? set2(U[w][0], U[w][1], 0, 0, false) : set2(S[w][0], S[w][1], 0, 0, false); } }
    if(few == 1) rq.after = EVENTS;
    else if(few && k != 0 && k != 8){
        static const unsigned char ev[] = { 0, 1, 7, EVENTS };
        rq.sync_now = nd_pick(1); unsigned v = ev[nd_pick(3)];
        if(rq.sync_now) rq.after = v; else rq.before = v;
    }else if(k != 0 && k != 8){ rq.sync_now = nd_pick(1); if(!rq.sync_now){ rq.refuse = nd_pick(1); rq.before = nd_pick(EVENTS); } else rq.after = nd_pick(EVENTS); }
    switch(k){
        case 0: cmd_noop(); break;
        case 1: cmd_expunge(); break;
        case 2: case 3: cmd_idle(rq.before); break;
        case 4: case 5: { bool silent = k == 5; int sign = few ? 1 : (int)nd_pick(2) - 1; cmd_store(s, uid_mode, sign, silent, sign ? FLAG : FLAG | DEL); break; }
        case 6: cmd_copy(s, uid_mode); break;
        case 7: cmd_fetch(s, uid_mode, (int)nd_pick(1) * 3); break;
        case 8: cmd_search(uid_mode, (int)nd_pick(1)); break;
    }
}

void h_seq(void){
    vfs_mkfile("/msg", "x\r\n\r\ny", 6);
    begin(3, false);
    srv[0].fl = FLAG; srv[1].fl = DEL | FLAG; srv[2].fl = SEEN;
    select_box();
    // the client knows all flags
    for(int i = 0; i < nc; i++){ c[i].known = true; c[i].fl = srv[i].fl; }
    for(int i = 0; i < K; i++) event(nd_pick(EVENTS));
    command(nd_pick(8));
    if(nc > 3) VH_REACH("new message");
    if(nc < 3) VH_REACH("expunged message");
    finish();
    vfs_end();
}
void h_two(void){
    vfs_mkfile("/msg", "x\r\n\r\ny", 6);
    begin((int)nd_pick(2), false);
    if(nsrv > 1) srv[1].fl = DEL;
    select_box();
    for(int i = 0; i < nc; i++){ c[i].known = true; c[i].fl = srv[i].fl; }
    static const unsigned char ev[] = { 0, 1, 4, 7, EVENTS }, first[] = { 0, 4, 7, 8 };
    few = 1;
    event(ev[nd_pick(4)]);
    command(first[nd_pick(3)]);
    few = 2;
    event(ev[nd_pick(4)]);
    command(nd_pick(8));
    if(nc == 0) VH_REACH("empty");
    finish();
    vfs_end();
}
// which messages a set of sequence numbers or UIDs names
void h_sets(void){
    vfs_mkfile("/msg", "x\r\n\r\ny", 6);
    int n0 = (int)nd_pick(3); begin(n0, false);
    for(int i = 0; i < nsrv; i++) srv[i].fl = i ? 0 : FLAG;
    select_box();
    for(int i = 0; i < nc; i++){ c[i].known = true; c[i].fl = srv[i].fl; }
    bool uid_mode = nd_pick(1), two = nd_pick(1);
    unsigned a = (unsigned)nd_pick(uid_mode ? 8 : 4), b = (unsigned)nd_pick(uid_mode ? 8 : 4), x = 0, y = 0;
    if(two){ static const unsigned char E[] = { 0, 1, 3, 7 }; x = E[nd_pick(2)]; y = E[nd_pick(3)]; if(uid_mode && y == 3) y = 5; }
    ie_seq_set_t *s = set2(a, b, x, y, two);
    rq.sync_now = true; rq.refuse = false; rq.before = rq.after = EVENTS;
    switch(nd_pick(3)){
        case 0: cmd_store(s, uid_mode, 1, false, SEEN); break;
        case 1: cmd_copy(s, uid_mode); break;
        case 2: cmd_fetch(s, uid_mode, 1); break;
        case 3: cmd_fetch(s, uid_mode, 3); break;
    }
    if(uid_mode && b > 7 && a > 7 && n0 == 3) VH_REACH("no such UID");
    finish();
    vfs_end();
}
// a mailbox opened by EXAMINE is never changed
void h_readonly(void){
    vfs_mkfile("/msg", "x\r\n\r\ny", 6);
    begin(2, true);
    srv[0].fl = DEL; srv[1].fl = DEL | FLAG;
    select_box();
    for(int i = 0; i < nc; i++){ c[i].known = true; c[i].fl = srv[i].fl; }
    event(nd_pick(EVENTS));
    rq.sync_now = true; rq.refuse = false; rq.before = rq.after = EVENTS;
    bool uid_mode = nd_pick(1); ie_seq_set_t *s;
    switch(nd_pick(4)){
        case 0: s = set2(1, 0, 0, 0, false); { int sign = (int)nd_pick(2) - 1; cmd_store(s, uid_mode, sign, nd_pick(1), FLAG); } break;
        case 1: cmd_expunge(); break;
        case 2: s = set2(1, 0, 0, 0, false); cmd_fetch(s, uid_mode, 3); break;
        case 3: s = set2(1, 0, 0, 0, false); cmd_copy(s, uid_mode); break;
        case 4: {
            bool ok = false; rq.n = 0;
            OK(dn_disconnect(&dn, nd_pick(1), &ok), "close");
            VH_CHECK(ok && rq.n == 0, "closing a read-only mailbox removes nothing");
            break;
        }
    }
    if(nc == 2) VH_REACH("done");
    finish();
    vfs_end();
}
// CLOSE removes the deleted messages, LOGOUT and the end of a connection do not
void h_close(void){
    begin((int)nd_pick(2), false);
    for(int i = 0; i < nsrv; i++) srv[i].fl = nd_pick(1) ? DEL : FLAG;
    select_box();
    event(nd_pick(EVENTS));
    int n = 0, j = 0; jsw_atrav_t tr;
    for(int i = 0; i < NM; i++) wanted[i] = false;
    for(jsw_anode_t *a = jsw_atfirst(&tr, &dn.views); a; a = jsw_atnext(&tr), j++) if(CONTAINER_OF(a, msg_view_t, node)->flags.deleted){ wanted[at(j)] = true; n++; }
    rq.sync_now = nd_pick(1); rq.refuse = false; rq.before = rq.after = EVENTS; rq.n = 0;
    bool expunge = nd_pick(1), ok = false;
    OK(dn_disconnect(&dn, expunge, &ok), "close");
    if(!expunge || !n) VH_CHECK(ok && rq.n == 0, "nothing to remove");
    else{
        VH_CHECK(!ok && rq.n == 1 && rq.type == UPDATE_REQ_EXPUNGE, "CLOSE removes deleted messages");
        same_request("CLOSE removes the deleted messages and no others");
        if(!rq.sync_now){ OK(dn_disconnect(&dn, expunge, &ok), "close"); VH_CHECK(!ok, "CLOSE waits"); rq.refuse = nd_pick(1); carry_out(); }
        derr_t e = dn_disconnect(&dn, expunge, &ok);
        VH_CHECK(ok == !rq.refuse && is_error(e) == rq.refuse, "CLOSE ends with its result");
        DROP_VAR(&e);
        VH_REACH("expunged");
    }
    VH_CHECK(link_list_isempty(&out), "CLOSE tells of no message");
    dn_free(&dn);
    vfs_end();
}
// what SELECT says of a mailbox
void h_select(void){
    int n0 = (int)nd_pick(3); begin(n0, nd_pick(1));
    int first = 0;
    for(int i = nsrv - 1; i >= 0; i--){ srv[i].fl = nd_pick(1) ? SEEN : 0; if(!srv[i].fl) first = i + 1; }
    if(nsrv == 3 && nd_pick(1)) srv[1].live = false, first = 0;
    for(int i = nsrv - 1, k = 0; i >= 0; i--) if(srv[i].live && !srv[i].fl){ first = 1; for(k = 0; k < i; k++) first += srv[k].live; }
    select_box();
    VH_CHECK(told_unseen == (unsigned)first, "SELECT tells the first unseen message");
    VH_CHECK(told_vld == 77, "and the UIDVALIDITY");
    if(first > 1) VH_REACH("later message");
    finish();
}
// a failing mail store is noticed
void h_fail(void){
    vfs_mkfile("/msg", "x\r\n\r\ny", 6);
    begin(2, false);
    srv[0].fl = DEL;
    select_box();
    rq.sync_now = true; rq.before = rq.after = EVENTS;
    unsigned k = nd_pick(5); req_fails = k < 5; open_fails = !req_fails;
    derr_t e = E_OK, e2 = E_OK; bool ok = false;
    ie_dstr_t *t = newtag(); ie_seq_set_t *s = set2(1, 0, 0, 0, false);
    if(k == 0){ ie_store_cmd_t *st = ie_store_cmd_new(&e2, false, s, NULL, 1, false, flags_of(FLAG)); e = dn_store(&dn, &t, st, &out, &ok); ie_store_cmd_free(st); }
    if(k == 1){ e = dn_expunge(&dn, &t, &out, &ok); ie_seq_set_free(s); }
    if(k == 2){ ie_copy_cmd_t *cp = ie_copy_cmd_new(&e2, false, s, ie_mailbox_new_inbox(&e2)); e = dn_copy(&dn, &t, cp, &out, &ok); ie_copy_cmd_free(cp); }
    if(k == 3 || k == 5){
        ie_fetch_attrs_t *a = ie_fetch_attrs_add_extra(&e2, ie_fetch_attrs_new(&e2), ie_fetch_extra_new(&e2, k == 5, NULL, NULL));
        ie_fetch_cmd_t *f = ie_fetch_cmd_new(&e2, false, s, a, NULL);
        for(int i = 0; i < NM && !ok && !is_error(e); i++) e = dn_fetch(&dn, &t, &f, &out, &ok);
        ie_fetch_cmd_free(f);
    }
    if(k == 4){ e = dn_disconnect(&dn, true, &ok); ie_seq_set_free(s); }
    VH_CHECK(is_error(e) && !ok, "a failing mail store is noticed");
    VH_CHECK(nopen == 0, "no message is left open");
    VH_REACH("failed");
    DROP_VAR(&e); ie_dstr_free(t);
    link_t *l; while((l = link_list_pop_first(&out))) imap_resp_free(CONTAINER_OF(l, imap_resp_t, link));
    dn_free(&dn);
    vfs_end();
}

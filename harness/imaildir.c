// the mailbox store: what was stored stays stored, with the same UID, and every
// connected client is told of every change exactly once
//@ property P20 P23 P26
//@ engine sx
//@ src dstr libdstr/fileops.c libdstr/refs.c libimaildir/imaildir.c libimaildir/log.c libimaildir/log_file.c libimaildir/msg.c libimaildir/name.c libimaildir/util.c libimap/expression.c libimap/extension.c
//@ gen imap
//@ libc vfs gethostname time
//@ stub _fmt_dstr_dbg dn_imaildir_update dn_imaildir_failed dn_free up_imaildir_failed up_imaildir_select up_imaildir_relay_cmd up_imaildir_have_local_file up_imaildir_hold_end up_free dirmgr_hold_free dirmgr_hold_get_imaildir dirmgr_hold_release_imaildir
//@ nop imf_hdrs_free mime_param_free mime_content_type_free
//@ bounds: P20: 2 (thorough 3) operations out of 16 kinds over 2 server messages, an appended and 2 local messages; a crash before any file system call of the next one, unsynced data of each file kept or lost; recovery, one more operation, restart
//@ bounds: P23: 3 (thorough 4) operations of the same kinds, restart, one more operation, one client taking updates at once, one late and one which connects at the end
//@ bounds: P26: STATUS after 2 operations, any server counts
//@ assume: file contents survive a crash as the synced part plus all or nothing of later writes; rename, create and unlink are atomic and keep their order
//@ entry h_live@2 prop=P23 defs=K=2 leak=1 jobs=4
//@ entry h_live prop=P23 defs=K=3 leak=1 jobs=6
//@ entry h_live@4 prop=P23 defs=K=4 leak=1 jobs=8 tier=thorough timeout=3000
//@ entry h_crash prop=P20 defs=K=2 leak=1 jobs=8 timeout=600
//@ entry h_crash@3 prop=P20 defs=K=3 leak=1 jobs=8 tier=thorough timeout=3000
//@ entry h_fault prop=P20 defs=K=1 leak=1 jobs=6
//@ entry h_fault@2 prop=P20 defs=K=2 leak=1 jobs=8 tier=thorough timeout=1500
//@ entry h_status prop=P26 defs=K=2 leak=1 jobs=4
#ifndef K
#define K 1
#endif
#define VFS_N 24
#define VFS_NF 4
#include "vh.h"
#include "libimaildir/libimaildir.h"
#include "vfs.h"

derr_type_t _fmt_dstr_dbg(const fmt_i *iface, writer_i *out){ (void)iface; (void)out; return E_NONE; }
int VW(gethostname)(char *p, size_t n){ (void)n; p[0] = 'h'; p[1] = 0; return 0; }
static time_t now = 1000;
time_t VW(time)(time_t *t){ now++; if(t) *t = now; return now; }

static imaildir_t m;
static bool failed;

// what the mailbox should hold
enum { NONE, UNFILLED, FILLED, NOT4ME, GONE };
enum { A, B, C, L1, L2, NKEY };    // server messages, an appended one, local ones
typedef struct { int st; int flags; int content; bool unpushed, quiet; } slot_t;   // quiet: no client ever knew of it
typedef struct { slot_t s[NKEY]; unsigned vup; uint64_t hi_up; int nlocal; } ref_t;
static ref_t ref, before;
// UIDs and modseqs as clients saw them
static unsigned uid[NKEY], uid_before[NKEY], max_uid, max_uid_before, vdn;
static uint64_t max_mod;
static const msg_key_t keys[NKEY] = { { .uid_up = 11 }, { .uid_up = 12 }, { .uid_up = 13 }, { .uid_local = 1 }, { .uid_local = 2 } };
static int slot_of(msg_key_t k){ for(int i = 0; i < NKEY; i++) if(keys[i].uid_up == k.uid_up && keys[i].uid_local == k.uid_local) return i; return -1; }
static int bits(msg_flags_t f){ return f.answered | f.flagged << 1 | f.seen << 2 | f.draft << 3 | f.deleted << 4; }
static msg_flags_t unbits(int b){ return (msg_flags_t){ .answered = b & 1, .flagged = b >> 1 & 1, .seen = b >> 2 & 1, .draft = b >> 3 & 1, .deleted = b >> 4 & 1 }; }
static imap_time_t date_of(int c){ return (imap_time_t){ .year = 2000 + c, .month = 2, .day = 3, .hour = 4, .min = 5, .sec = 6, .z_hour = 7, .z_min = 8 }; }

/* clients */
typedef struct { dn_t dn; bool lazy; bool in[NKEY]; unsigned u[NKEY]; int fl[NKEY]; int con[NKEY]; link_t held; unsigned syncs; } cl_t;
static cl_t cl[2];
static int ncl;
DEF_CONTAINER_OF(cl_t, dn, dn_t)
static unsigned ncontent(int c){ return (unsigned)c % 3 + 1; }
static void see(cl_t *c, const msg_view_t *v, bool isnew){
    int i = slot_of(v->key);
    VH_CHECK(i >= 0, "a client only hears of messages that exist");
    if(isnew) VH_CHECK(!c->in[i], "a message is announced as new once");
    else if(!c->in[i]){
        // a change which was on its way when the message was expunged
        VH_CHECK(c->u[i] == v->uid_dn, "only announced messages change");
        return;
    }
    if(!isnew) VH_CHECK(c->u[i] == v->uid_dn, "a message keeps its UID");
    c->in[i] = true; c->u[i] = v->uid_dn; c->fl[i] = bits(v->flags); c->con[i] = (int)v->internaldate.year - 2000;
    VH_CHECK(v->length == ncontent(c->con[i]), "with its length");
    VH_CHECK(v->uid_dn != 0, "an announced message has a UID");
    if(isnew) for(int j = 0; j < NKEY; j++) if(j != i && c->in[j]) VH_CHECK(c->u[j] != v->uid_dn, "UIDs are unique");
}
void dn_imaildir_update(dn_t *dn, update_t *up){
    cl_t *c = CONTAINER_OF(dn, cl_t, dn);
    switch(up->type){
        case UPDATE_NEW: see(c, up->arg.new, true); break;
        case UPDATE_META: see(c, up->arg.meta, false); break;
        case UPDATE_EXPUNGE: {
            int i = slot_of(up->arg.expunge->key);
            VH_CHECK(i >= 0 && c->in[i], "only announced messages are expunged, once");
            VH_CHECK(up->arg.expunge->uid_dn == c->u[i], "an expunge names the message's UID");
            c->in[i] = false;
            break;
        }
        case UPDATE_SYNC: c->syncs++; VH_CHECK(up->arg.sync == NULL, "local changes succeed"); break;
    }
    if(c->lazy) link_list_append(&c->held, &up->link);
    else update_free(&up);
}
static void gather(cl_t *c){
    link_t *l;
    while((l = link_list_pop_first(&c->held))){ update_t *u = CONTAINER_OF(l, update_t, link); update_free(&u); }
}
void dn_imaildir_failed(dn_t *dn){ (void)dn; }
void dn_free(dn_t *dn){ (void)dn; }
void up_imaildir_failed(up_t *up){ (void)up; }
void up_imaildir_select(up_t *up, const dstr_t *n, unsigned v, uint64_t h, bool x){ (void)up; (void)n; (void)v; (void)h; (void)x; VH_CHECK(0, "no connection"); }
void up_imaildir_relay_cmd(up_t *up, imap_cmd_t *c, imap_cmd_cb_t *cb){ (void)up; (void)c; (void)cb; VH_CHECK(0, "no connection"); }
void up_imaildir_have_local_file(up_t *up, unsigned u, bool r){ (void)up; (void)u; (void)r; }
void up_imaildir_hold_end(up_t *up){ (void)up; }
void up_free(up_t *up){ (void)up; }
static int holds;
void dirmgr_hold_free(dirmgr_hold_t *h){ if(h) holds--; }
derr_t dirmgr_hold_get_imaildir(dirmgr_hold_t *h, imaildir_t **out){ (void)h; *out = &m; return E_OK; }
void dirmgr_hold_release_imaildir(dirmgr_hold_t *h, imaildir_t **out){ (void)h; *out = NULL; }

static bool cb_allow(imaildir_cb_i *i, imaildir_t *x){ (void)i; (void)x; return true; }
static derr_t cb_hold(imaildir_cb_i *i, const dstr_t *n, dirmgr_hold_t **out){ (void)i; (void)n; static dirmgr_hold_t h; holds++; *out = &h; return E_OK; }
static void cb_failed(imaildir_cb_i *i, imaildir_t *x){ (void)i; (void)x; failed = true; }
static imaildir_cb_i cb = { .allow_download = cb_allow, .dirmgr_hold_new = cb_hold, .failed = cb_failed };
static bool want_not4me;
static derr_t hook(imaildir_hooks_i *h, const dstr_t *mb, const string_builder_t *path, const dstr_t *content, size_t *len, bool *not4me){
    derr_t e = E_OK; (void)h; (void)mb;
    *not4me = want_not4me; *len = content->len;
    if(!want_not4me) PROP(&e, dstr_write_path(path, content) );
    return e;
}
static imaildir_hooks_i hooks = { .process_msg = hook };
static const dstr_t boxname = DSTR_GLOBAL("box");

#define OK(call, why) do{ derr_t e_ = (call); VH_CHECK(!is_error(e_), why); DROP_VAR(&e_); }while(0)

static void attach(cl_t *c, bool lazy){
    *c = (cl_t){ .lazy = lazy };
    link_init(&c->held);
    imaildir_register_dn(&m, &c->dn);
    jsw_atree_t views; unsigned mx, vd;
    jsw_ainit(&views, jsw_cmp_uint, msg_view_jsw_get_uid_dn);
    OK(imaildir_dn_build_views(&m, &c->dn, &views, &mx, &vd), "a client can connect");
    size_t n = jsw_asize(&views), k = 0;
    jsw_anode_t *node;
    while((node = jsw_apop(&views))){
        msg_view_t *v = CONTAINER_OF(node, msg_view_t, node);
        see(c, v, true); k++;
        VH_CHECK(v->uid_dn <= mx, "UIDNEXT is above every UID");
        msg_view_free(&v);
    }
    VH_CHECK(k == n, "UIDs in a view are unique");
    if(vdn) VH_CHECK(vd == vdn, "UIDVALIDITY stays");
    if(vdn) VH_CHECK(mx >= max_uid, "UIDNEXT never goes back");
    vdn = vd;
}
static void detach(cl_t *c){
    gather(c);
    (void)imaildir_unregister_dn(&m, &c->dn);
}
static derr_t start(void){
    failed = false;
    return imaildir_init(&m, &cb, SBS("/m"), &boxname, &hooks);
}
static void stop(void){ imaildir_free(&m); }

static char texts[16][4];      // of any bytes
static void read_msg(int i){
    int fd = -1; char b[8];
    OK(imaildir_dn_open_msg(&m, keys[i], &fd), "a message can be opened");
    ssize_t n = VW(read)(fd, b, sizeof b);
    VH_CHECK(n == (ssize_t)ncontent(ref.s[i].content), "a message has its length");
    for(ssize_t j = 0; j < n; j++) VH_CHECK(b[j] == texts[ref.s[i].content][j], "a message has its content");
    imaildir_dn_close_msg(&m, keys[i], &fd);
}
// what a client sees is what was stored
static bool agrees(const cl_t *c, const ref_t *r){
    for(int i = 0; i < NKEY; i++){
        if(c->in[i] != (r->s[i].st == FILLED)) return false;
        if(c->in[i] && (c->fl[i] != r->s[i].flags || c->con[i] != r->s[i].content)) return false;
    }
    return true;
}
static bool store_agrees(const ref_t *r){
    if(imaildir_get_uidvld_up(&m) != r->vup) return false;
    // what is still to be downloaded
    seq_set_builder_t ssb; seq_set_builder_prep(&ssb);
    OK(imaildir_up_get_unfilled_msgs(&m, &ssb), "unfilled");
    derr_t e = E_OK;
    ie_seq_set_t *s = seq_set_builder_extract(&e, &ssb), *x = NULL;
    OK(imaildir_up_get_unpushed_expunges(&m, &x), "unpushed");
    bool ok = !is_error(e);
    for(int i = 0; i < 3; i++){
        bool in = false, out = false, gone = false;
        for(ie_seq_set_t *p = s; p; p = p->next) if(keys[i].uid_up >= p->n1 && keys[i].uid_up <= p->n2) in = true;
        for(ie_seq_set_t *p = x; p; p = p->next) if(keys[i].uid_up >= p->n1 && keys[i].uid_up <= p->n2) out = true;
        ok &= in == (r->s[i].st == UNFILLED);
        ok &= out == (r->s[i].st == GONE && r->s[i].unpushed);
        msg_t *msg = imaildir_up_lookup_msg(&m, keys[i].uid_up, &gone);
        // once the server dropped a message which no client knew, nobody need remember
        if(!r->s[i].quiet) ok &= gone == (r->s[i].st == GONE);
        if(r->s[i].st != GONE) ok &= !!msg == (r->s[i].st != NONE);
        if(msg && (r->s[i].st == UNFILLED || r->s[i].st == NOT4ME)) ok &= bits(msg->flags) == r->s[i].flags && (msg->state == MSG_NOT4ME) == (r->s[i].st == NOT4ME);
    }
    ie_seq_set_free(s); ie_seq_set_free(x);
    return ok;
}
static void note_uids(const cl_t *c){
    for(int i = 0; i < NKEY; i++) if(c->in[i]){
        if(uid[i]) VH_CHECK(uid[i] == c->u[i], "a message keeps its UID for ever");
        else VH_CHECK(c->u[i] > max_uid, "a new message has a higher UID than any before");
    }
    for(int i = 0; i < NKEY; i++) if(c->in[i]){ uid[i] = c->u[i]; if(uid[i] > max_uid) max_uid = uid[i]; }
}
static void dump(const cl_t *c, const ref_t *r){
#if VH_NATIVE
    if(!getenv("VH_DUMP")) return;
    printf("vup %u/%u\n", imaildir_get_uidvld_up(&m), r->vup);
    for(int i = 0; i < NKEY; i++){
        jsw_anode_t *a = jsw_afind(&m.msgs, &keys[i], NULL), *x = jsw_afind(&m.expunged, &keys[i], NULL);
        msg_t *g = a ? CONTAINER_OF(a, msg_t, node) : NULL;
        printf("%d: in %d u %u fl %d c %d; ref st %d fl %d c %d unp %d q %d; msg %d flags %d expunge %d\n", i, c->in[i], c->u[i], c->fl[i], c->con[i], r->s[i].st, r->s[i].flags, r->s[i].content, r->s[i].unpushed, r->s[i].quiet, g ? (int)g->state : -1, g ? bits(g->flags) : -1, !!x);
    }
    for(int i = 0; i < VFS_N; i++) if(vfs_ents[i].used && vfs_ents[i].ino) printf("%s: %.*s\n", vfs_ents[i].path, (int)vfs_ents[i].ino->len, vfs_ents[i].ino->data);
    fflush(stdout);
#endif
    (void)c; (void)r;
}
static void check(const char *why){
    cl_t c; attach(&c, false);
    bool ok = agrees(&c, &ref) && store_agrees(&ref);
    if(!ok) dump(&c, &ref);
    note_uids(&c);
    detach(&c);
    VH_CHECK(ok, why);
    for(int i = 0; i < NKEY; i++) if(ref.s[i].st == FILLED) read_msg(i);
    for(int i = 0; i < ncl; i++) VH_CHECK(agrees(&cl[i], &ref), "a connected client has been told of every change");
    // modification numbers are unique, and only grow
    uint64_t mods[NKEY]; int n = 0;
    for(int i = 0; i < NKEY; i++){
        jsw_anode_t *a = jsw_afind(&m.msgs, &keys[i], NULL);
        if(!a || ref.s[i].st != FILLED) continue;
        msg_t *msg = CONTAINER_OF(a, msg_t, node);
        for(int j = 0; j < n; j++) VH_CHECK(mods[j] != msg->mod.modseq, "modification numbers are unique");
        mods[n++] = msg->mod.modseq;
        VH_CHECK(jsw_afind(&m.mods, &msg->mod.modseq, NULL) == &msg->mod.node, "a message is found by its modification number");
    }
}

static int nextc = 1;    // content and date of the next message
enum { NEW_A, NEW_B, FETCH_A, FETCH_B, FLAGS_A, FLAGS_B, DEL_A, DEL_B, APPEND_L, APPEND_C, STORE_L, EXPUNGE_L, COPY_L, NOT4ME_A, HIMOD, LOSE_A, UIDVLD, NOP };
#define NOPS UIDVLD      // LOSE_A and UIDVLD need no connected client
static char *new_text(int c){
    for(unsigned j = 0; j < ncontent(c); j++) texts[c][j] = (char)nd_u8();
    return texts[c];
}
static derr_t do_fetch(int i){
    derr_t e = E_OK;
    bool gone; msg_t *msg = imaildir_up_lookup_msg(&m, keys[i].uid_up, &gone);
    if(!msg || gone || msg->state != MSG_UNFILLED) return e;
    int c = nextc++;
    char *text = new_text(c);
    ie_dstr_t content = { .dstr = { .data = text, .len = ncontent(c), .size = 4, .fixed_size = true } };
    ie_fetch_resp_extra_t extra = { .content = &content };
    ie_fetch_resp_t f = { .extras = &extra, .intdate = date_of(c) };
    if(want_not4me) ref.s[i].st = NOT4ME;
    else { ref.s[i].st = FILLED; ref.s[i].content = c; }
    return imaildir_up_handle_static_fetch_attr(&m, msg, &f);
}
static derr_t do_append(int i, unsigned up){
    int c = nextc++;
    char *text = new_text(c);
    // a file which the caller has written
    vent_t *old = vfs_find("/up");   // left by a crash
    if(old){ vfs_unref(old->ino); old->used = false; }
    vfs_mkfile("/up", text, ncontent(c));
    ref.s[i].st = FILLED; ref.s[i].content = c; ref.s[i].flags = c & 31;
    string_builder_t p = SBS("/up");
    unsigned u = 0;
    derr_t e = imaildir_add_local_file(&m, &p, up, ncontent(c), date_of(c), unbits(c & 31), NULL, &u);
    if(!is_error(e)) VH_CHECK(u > max_uid, "an appended message gets a new UID");
    return e;
}
static derr_t request(update_req_t *req, derr_t e){
    if(is_error(e)) return e;
    unsigned n = ncl ? cl[0].syncs : 0;
    e = imaildir_dn_request_update(&m, req);
    if(ncl && !is_error(e)) VH_CHECK(cl[0].syncs == n + 1, "a client's request is answered once");
    return e;
}
static derr_t op(unsigned kind){
    derr_t e = E_OK;
    before = ref; memcpy(uid_before, uid, sizeof uid); max_uid_before = max_uid;
    want_not4me = false;
    switch(kind){
        case NEW_A: case NEW_B: {
            int i = kind == NEW_A ? A : B; bool gone;
            if(imaildir_up_lookup_msg(&m, keys[i].uid_up, &gone) || gone) return e;
            msg_t *out;
            ref.s[i] = (slot_t){ .st = UNFILLED, .flags = 4 + i };
            return imaildir_up_new_msg(&m, keys[i].uid_up, unbits(4 + i), &out);
        }
        case NOT4ME_A: want_not4me = true; return do_fetch(A);
        case FETCH_A: return do_fetch(A);
        case FETCH_B: return do_fetch(B);
        case FLAGS_A: case FLAGS_B: {
            int i = kind == FLAGS_A ? A : B; bool gone;
            msg_t *msg = imaildir_up_lookup_msg(&m, keys[i].uid_up, &gone);
            if(!msg) return e;
            int f = kind == FLAGS_A ? nd_u8() & 3 : ref.s[i].flags ^ 24;
            if(!gone) ref.s[i].flags = f;
            return imaildir_up_update_flags(&m, msg, unbits(f));
        }
        case DEL_A: case DEL_B: {
            int i = kind == DEL_A ? A : B;
            if(ref.s[i].st != NONE) ref.s[i] = (slot_t){ .st = GONE, .quiet = ref.s[i].quiet || (ref.s[i].st != FILLED && ref.s[i].st != GONE) };
            return imaildir_up_delete_msg(&m, keys[i].uid_up);
        }
        case APPEND_L: {
            if(ref.nlocal == 2) return e;
            int i = L1 + ref.nlocal++;
            return do_append(i, 0);
        }
        case APPEND_C:
            if(ref.s[C].st != NONE) return e;
            return do_append(C, 13);
        case STORE_L: case EXPUNGE_L: case COPY_L: {
            if(!ncl || ref.s[L1].st != FILLED) return e;
            msg_key_list_t *k = msg_key_list_new(&e, keys[L1], NULL);
            if(kind == EXPUNGE_L){
                ref.s[L1] = (slot_t){ .st = GONE };
                return request(update_req_expunge_new(&e, k, &cl[0].dn), e);
            }
            if(kind == COPY_L){
                if(ref.nlocal == 2){ msg_key_list_free(k); return e; }
                ref.s[L1 + ref.nlocal++] = ref.s[L1];
                msg_copy_cmd_t *cp = msg_copy_cmd_new(&e, k, ie_mailbox_new_inbox(&e));
                return request(update_req_copy_new(&e, cp, &cl[0].dn), e);
            }
            ie_flags_t *fl = ie_flags_add_simple(&e, ie_flags_new(&e), IE_FLAG_FLAGGED);
            int sign = ref.s[L1].flags & 2 ? -1 : 1;
            ref.s[L1].flags ^= 2;
            msg_store_cmd_t *st = msg_store_cmd_new(&e, k, NULL, sign, fl);
            return request(update_req_store_new(&e, st, &cl[0].dn), e);
        }
        case HIMOD: ref.hi_up = 70 + (uint64_t)nextc; return imaildir_up_set_himodseq_up(&m, ref.hi_up);
        case UIDVLD: {
            if(ref.vup){ for(int i = 0; i < NKEY; i++) ref.s[i] = (slot_t){0}; ref.hi_up = 0; }
            ref.vup++;
            return imaildir_up_check_uidvld_up(&m, ref.vup);
        }
    }
    return e;
}
static void new_era(void){ memset(uid, 0, sizeof uid); vdn = 0; }
static void init(void){
    vfs_mkdir("/m"); vfs_mkdir("/m/cur"); vfs_mkdir("/m/new"); vfs_mkdir("/m/tmp");
    vfs_all_or_none = true;
    ref = (ref_t){0};
    OK(start(), "open");
    OK(op(UIDVLD), "first sync");
}
// a user removes a message file behind our back
static bool lose(int i){
    for(int j = 0; j < VFS_N; j++) if(vfs_ents[j].used && !vfs_ents[j].dir && strstr(vfs_ents[j].path, ",11,0,") && i == A){
        vfs_unref(vfs_ents[j].ino); vfs_ents[j].used = false;
        ref.s[i] = (slot_t){ .st = GONE, .unpushed = true };
        return true;
    }
    return false;
}
// a mailbox worth playing with
static void populate(unsigned how){
    static const unsigned char pre[4][5] = { { NOP, NOP, NOP, NOP, NOP }, { NEW_A, NEW_B, NOP, NOP, NOP }, { NEW_A, FETCH_A, NEW_B, APPEND_L, NOP }, { NEW_A, NEW_B, FETCH_B, FETCH_A, APPEND_C } };
    for(int i = 0; i < 5; i++) OK(op(pre[how][i]), "operations succeed on a working disk");
}

void h_live(void){
    init();
    populate(nd_pick(3));
    ncl = 2; attach(&cl[0], false); attach(&cl[1], true);
    for(int i = 0; i < K - 1; i++){ OK(op(nd_pick(HIMOD)), "operations succeed on a working disk"); note_uids(&cl[0]); }
    gather(&cl[1]);
    unsigned k = nd_pick(HIMOD);
    OK(op(k), "operations succeed on a working disk"); note_uids(&cl[0]);
    check("a new client sees what was stored");
    if(ref.s[A].st == GONE && ref.s[L2].st == FILLED) VH_REACH("copied and deleted");
    detach(&cl[0]); detach(&cl[1]); ncl = 0;
    check("when a client leaves nothing is lost");
    uint64_t hm = m.himodseq_dn;
    stop();
    VH_CHECK(vfs_open_n == 0, "closing a mailbox closes its files");
    bool lost = nd_pick(1) && ref.s[A].st == FILLED && lose(A);
    OK(start(), "reopen");
    check("a reopened mailbox shows what was stored");
    VH_CHECK(m.himodseq_dn >= hm, "modification numbers continue after a restart");
    if(lost) VH_REACH("file removed by the user");
    ncl = 1; attach(&cl[0], false);
    OK(op(k), "operations succeed after a restart"); note_uids(&cl[0]);
    check("a reopened mailbox works");
    detach(&cl[0]); ncl = 0;
    VH_CHECK(!failed && holds == 0, "nothing fails, no hold is left");
    stop();
    vfs_end();
}

static void crash_op(unsigned kind){
    uint64_t dummy = 0; (void)dummy;
    OK(op(kind), "operations succeed on a working disk");
}
// after a crash or a failure: the interrupted operation happened or not
static void settle(unsigned kind, bool done){
    OK(start(), "recovery");
    cl_t c; unsigned save = vdn;
    if(kind == UIDVLD) vdn = 0;
    memcpy(uid, uid_before, sizeof uid); max_uid = max_uid_before;
    attach(&c, false);
    bool is_new = agrees(&c, &ref) && store_agrees(&ref);
    bool is_old = agrees(&c, &before) && store_agrees(&before);
    if(kind == UIDVLD && !is_old && !is_new){
        // dropped, and the new UIDVALIDITY not known yet
        ref_t empty = { .vup = 0 };
        is_old = agrees(&c, &empty) && store_agrees(&empty);
        before = empty;
    }
    if(!is_new) dump(&c, &ref);
    if(kind == APPEND_C && !is_old && !is_new){
        // an uploaded message which is not here yet is downloaded
        before.s[C] = (slot_t){ .st = UNFILLED, .flags = ref.s[C].flags };
        is_old = agrees(&c, &before) && store_agrees(&before);
    }
    if(done) VH_CHECK(is_new, "a completed operation survives");
    VH_CHECK(is_new || is_old, "an interrupted operation has happened completely or not at all");
    if(!is_new){ ref = before; VH_REACH("did not happen"); }
    ref.nlocal = (int)m.hi_uid_local;   // an identifier which was never used may be used again
    if(kind == UIDVLD && vdn != save){ memset(uid, 0, sizeof uid); max_uid = 0; }
    if(kind == UIDVLD && vdn == save) VH_CHECK(is_old, "a new mailbox gets a new UIDVALIDITY");
    note_uids(&c);
    for(int i = 0; i < NKEY; i++) if(ref.s[i].st == FILLED) read_msg(i);
    detach(&c);
}

void h_crash(void){
    init();
    populate(nd_pick(3));
    check("a mailbox shows what was stored");
    ncl = nd_pick(1); if(ncl) attach(&cl[0], false);
    for(int i = 0; i < K - 1; i++) OK(op(nd_pick(HIMOD)), "operations succeed on a working disk");
    for(int i = 0; i < ncl; i++) note_uids(&cl[0]);
    unsigned kind = nd_pick(ncl ? HIMOD : UIDVLD);
    if(kind == LOSE_A) kind = UIDVLD;
    if(!ncl){ check("a mailbox shows what was stored"); }
    vfs_crash_at = vfs_ops + 1 + nd_pick(kind == UIDVLD ? 11 : 7);
    crash_op(kind);
    bool done = !vfs_crashed;
    if(done){ if(vfs_ops + 1 < vfs_crash_at) VH_ASSUME(0); vfs_snap(); VH_REACH("crash after the operation"); }
    if(ncl) detach(&cl[0]);
    ncl = 0;
    stop();
    vfs_restart(); vfs_crashed = false;
    settle(kind, done);
    // and life goes on
    OK(op(kind == FETCH_A ? FETCH_A : NEW_B), "op"); OK(op(FETCH_B), "op"); OK(op(APPEND_L), "op");
    check("a recovered mailbox works");
    stop();
    OK(start(), "reopen");
    check("a recovered mailbox keeps what was stored");
    stop();
    vfs_end();
}

void h_fault(void){
    init();
    populate(nd_pick(3));
    for(int i = 0; i < K; i++) OK(op(nd_pick(HIMOD)), "operations succeed on a working disk");
    check("a mailbox shows what was stored");
    unsigned kind = nd_pick(UIDVLD);
    if(kind == LOSE_A) kind = UIDVLD;
    vfs_fail_at = vfs_ops + 1 + nd_pick(kind == UIDVLD ? 11 : 7);
    vfs_fail_errno = nd_pick(1) ? ENOSPC : EIO;
    derr_t e = op(kind);
    if(vfs_fail_at > vfs_ops) VH_ASSUME(0);
    vfs_fail_at = 0;
    bool ok = !is_error(e); DROP_VAR(&e);
    if(!ok) VH_REACH("failed");
    stop();
    VH_CHECK(vfs_open_n == 0, "closing a failed mailbox closes its files");
    settle(kind, ok);
    OK(op(kind == FETCH_A ? FETCH_A : NEW_B), "op"); OK(op(FETCH_B), "op"); OK(op(APPEND_L), "op");
    check("a recovered mailbox works");
    stop();
    vfs_end();
}

void h_status(void){
    init();
    populate(nd_pick(3));
    for(int i = 0; i < K; i++) OK(op(nd_pick(HIMOD)), "operations succeed on a working disk");
    // the server knows of the messages it has
    unsigned extra = nd_u8(), extra_unseen = nd_u8(), msgs = extra, unseen = extra_unseen, want = msgs, want_unseen = unseen;
    VH_ASSUME(unseen <= msgs);
    for(int i = 0; i < NKEY; i++){
        slot_t *s = &ref.s[i];
        bool up = i < L1 && (s->st == UNFILLED || s->st == FILLED || s->st == NOT4ME);
        bool here = up ? s->st != NOT4ME : s->st == FILLED;
        msgs += up; unseen += up && !(s->flags & 4);
        want += here; want_unseen += here && !(s->flags & 4);
    }
    unsigned a = nd_pick(6);
    ie_status_attr_resp_t in = { .attrs = (ie_status_attr_t)(a == 6 ? 63 : 1u << a), .messages = msgs, .recent = nd_u8(), .uidnext = nd_u32(), .uidvld = 99, .unseen = unseen, .himodseq = 5 }, out;
    OK(imaildir_process_status_resp(&m, in, &out), "status");
    VH_CHECK(out.attrs == in.attrs, "STATUS answers what was asked");
    if(in.attrs & IE_STATUS_ATTR_MESSAGES) VH_CHECK(out.messages == want, "STATUS counts the messages a client will see");
    if(in.attrs & IE_STATUS_ATTR_UNSEEN) VH_CHECK(out.unseen == want_unseen, "STATUS counts the unseen messages a client will see");
    if(in.attrs & IE_STATUS_ATTR_RECENT) VH_CHECK(out.recent == 0, "no message is recent");
    if(in.attrs & IE_STATUS_ATTR_UIDNEXT) VH_CHECK(out.uidnext == m.hi_uid_dn + 1, "STATUS tells the next UID");
    if(in.attrs & IE_STATUS_ATTR_UIDVLD) VH_CHECK(out.uidvld == m.log->get_uidvld_dn(m.log), "STATUS tells the UIDVALIDITY clients see");
    if(want > 3) VH_REACH("many");
    stop();
    vfs_end();
}

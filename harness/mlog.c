// the mailbox log: what is written is what is read back, across restarts,
// crashes at any point and compaction
//@ property P22
//@ engine sx
//@ src dstr libdstr/fileops.c libimaildir/log.c libimaildir/log_file.c libimaildir/msg.c libimaildir/util.c
//@ gen imap
//@ libc vfs
//@ bounds: every sequence of 2 (thorough 3) log operations out of 9 kinds (UIDVALIDITY, both modseq marks, messages in each state and expunges in each state, over 2 keys), restart or crash at any write, sync, create or rename call with any prefix of the unsynced bytes kept, recovery, one more operation, restart; compaction of a 1000 line log, with a crash at any call; every file of up to 6 (thorough 8) arbitrary bytes
//@ assume: file contents survive a crash as the synced part plus any prefix of later writes; rename, create and unlink are atomic and keep their order
//@ entry h_replay defs=K=2
//@ entry h_replay@3 defs=K=3 tier=thorough jobs=4 timeout=1500
//@ entry h_crash defs=K=1
//@ entry h_crash@2 defs=K=2 jobs=4 tier=thorough timeout=1500
//@ entry h_compact defs=K=1 jobs=2
//@ entry h_compact_crash defs=K=1 jobs=6 timeout=600
//@ entry h_anyfile defs=N=6,K=1 jobs=2
//@ entry h_anyfile@8 defs=N=8,K=1 jobs=8 tier=thorough timeout=2000
#ifndef N
#define N 1
#endif
#define VFS_N 4
#define VFS_NF 4
#include "vh.h"
#include "libimaildir/libimaildir.h"
#include "libimaildir/log.h"
#include "vfs.h"

// what the log should say
typedef struct { int what; unsigned uid_dn; uint64_t modseq; int flags; int state; } rec_t;   // what: 0 nothing, 1 message, 2 expunge
typedef struct { unsigned vup, vdn; uint64_t hi_up, mark; rec_t r[2]; } ref_t;
static ref_t ref, before;
static uint64_t seq;      // modification sequence numbers only grow
static const msg_key_t keys[2] = { { .uid_up = 12 }, { .uid_local = 3 } };

typedef struct { jsw_atree_t msgs, expunged, mods; uint64_t hi; maildir_log_i *log; string_builder_t dir; } st_t;
static st_t s;

static derr_t start(void){
    jsw_ainit(&s.msgs, jsw_cmp_msg_key, msg_jsw_get_msg_key);
    jsw_ainit(&s.expunged, jsw_cmp_msg_key, expunge_jsw_get_msg_key);
    jsw_ainit(&s.mods, jsw_cmp_ulong, msg_mod_jsw_get_modseq);
    s.dir = SBS("/m"); s.hi = 0; s.log = NULL;
    return imaildir_log_open(&s.dir, &s.msgs, &s.expunged, &s.mods, &s.hi, &s.log);
}
static void stop(void){
    if(s.log) s.log->close(s.log);
    jsw_anode_t *n;
    while((n = jsw_apop(&s.mods))){}
    while((n = jsw_apop(&s.msgs))){ msg_t *m = CONTAINER_OF(n, msg_t, node); msg_free(&m); }
    while((n = jsw_apop(&s.expunged))){ msg_expunge_t *x = CONTAINER_OF(n, msg_expunge_t, node); msg_expunge_free(&x); }
}

static int flagbits(msg_flags_t f){ return f.answered | f.flagged << 1 | f.seen << 2 | f.draft << 3 | f.deleted << 4; }

static bool same(const ref_t *r){
    if(s.log->get_uidvld_up(s.log) != r->vup || s.log->get_uidvld_dn(s.log) != r->vdn) return false;
    // the next modification numbers continue above everything on record
    uint64_t hi = r->mark;
    for(int k = 0; k < 2; k++) if(r->r[k].modseq > hi) hi = r->r[k].modseq;
    if(s.log->get_himodseq_up(s.log) != r->hi_up || s.hi != hi) return false;
    size_t nm = 0, nx = 0, nmod = 0;
    for(int k = 0; k < 2; k++){
        const rec_t *c = &r->r[k];
        jsw_anode_t *m = jsw_afind(&s.msgs, &keys[k], NULL), *x = jsw_afind(&s.expunged, &keys[k], NULL);
        if((c->what == 1) != !!m || (c->what == 2) != !!x) return false;
        msg_mod_t *mod = NULL;
        if(m){
            msg_t *msg = CONTAINER_OF(m, msg_t, node); nm++; mod = &msg->mod;
            if(msg->uid_dn != c->uid_dn || msg->mod.modseq != c->modseq || (int)msg->state != c->state) return false;
            if(flagbits(msg->flags) != c->flags || mod->type != MOD_TYPE_MESSAGE) return false;
            imap_time_t t = msg->internaldate;
            if(t.year != 2020 || t.month != 12 || t.day != 25 || t.hour != 23 || t.min != 59 || t.sec != 1 || t.z_hour != -7 || t.z_min != 30) return false;
        }
        if(x){
            msg_expunge_t *e = CONTAINER_OF(x, msg_expunge_t, node); nx++; mod = &e->mod;
            if(e->uid_dn != c->uid_dn || e->mod.modseq != c->modseq || (int)e->state != c->state || mod->type != MOD_TYPE_EXPUNGE) return false;
        }
        if(mod && mod->modseq){
            nmod++;
            if(jsw_afind(&s.mods, &mod->modseq, NULL) != &mod->node) return false;
        }
    }
    return jsw_asize(&s.msgs) == nm && jsw_asize(&s.expunged) == nx && jsw_asize(&s.mods) == nmod;
}

// one operation; the log's own callers only ever raise modseqs
static derr_t op(unsigned kind){
    derr_t e = E_OK;
    int k = kind & 1;
    before = ref;
    switch(kind >> 1){
        case 0:
            if(k){ ref.vup = 9 + (unsigned)seq; ref.vdn = 4294967295; e = s.log->set_uidvlds(s.log, ref.vup, ref.vdn); }
            else { ref.hi_up = 77 + seq; e = s.log->set_himodseq_up(s.log, ref.hi_up); }
            break;
        case 1:
            ++seq; if(k) seq += 900;
            ref.mark = seq; e = s.log->set_explicit_modseq_dn(s.log, seq);
            break;
        case 2: case 3: case 4: {
            msg_state_e st = (kind >> 1) == 2 ? MSG_FILLED : (kind >> 1) == 3 ? MSG_UNFILLED : MSG_NOT4ME;
            msg_t m = { .key = keys[k], .state = st, .internaldate = { .year = 2020, .month = 12, .day = 25, .hour = 23, .min = 59, .sec = 1, .z_hour = -7, .z_min = 30 } };
            if(st == MSG_FILLED){ m.uid_dn = 40 + (unsigned)k; m.mod.modseq = ++seq; m.flags.seen = true; m.flags.answered = k; m.flags.draft = !k; m.flags.flagged = seq & 1; m.flags.deleted = seq & 1; }
            ref.r[k] = (rec_t){ 1, m.uid_dn, m.mod.modseq, flagbits(m.flags), (int)st };
            e = s.log->update_msg(s.log, &m);
            break;
        }
        default: {
            msg_expunge_t x = { .key = keys[k], .uid_dn = 40 + (unsigned)k, .state = (kind >> 1) == 5 ? MSG_EXPUNGE_UNPUSHED : MSG_EXPUNGE_PUSHED };
            x.mod.modseq = ++seq;
            ref.r[k] = (rec_t){ 2, x.uid_dn, x.mod.modseq, 0, (int)x.state };
            e = s.log->update_expunge(s.log, &x);
        }
    }
    return e;
}
#define NKIND 13
static void check_ok(derr_t e, const char *why){ VH_CHECK(!is_error(e), "log operations succeed on a working disk"); DROP_VAR(&e); (void)why; }

static void init(void){ vfs_mkdir("/m"); ref = (ref_t){ .mark = 1 }; before = ref; seq = 1; }

void h_replay(void){
    init();
    check_ok(start(), "open");
    VH_CHECK(same(&ref), "an empty log has no state");
    for(int i = 0; i < K; i++) check_ok(op(nd_pick(NKIND)), "op");
    stop();
    VH_CHECK(vfs_open_n == 0, "closing the log closes its file");
    check_ok(start(), "reopen");
    VH_CHECK(same(&ref), "a reopened log holds exactly the latest values written");
    if(ref.r[0].what == 2 && ref.mark > 900) VH_REACH("expunge after a mark");
    stop();
}

void h_crash(void){
    init();
    check_ok(start(), "open");
    for(int i = 0; i < K; i++) check_ok(op(nd_pick(NKIND)), "op");
    vfs_crash_at = vfs_ops + 1 + nd_pick(2);
    check_ok(op(nd_pick(NKIND)), "op");
    bool done = !vfs_crashed;     // the operation had returned: it must survive
    if(done){ vfs_snap(); VH_REACH("crash after the operation"); }
    stop();
    vfs_restart(); vfs_crashed = false;
    check_ok(start(), "recovery");
    bool is_new = same(&ref);
    if(done) VH_CHECK(is_new, "a completed operation survives a crash");
    VH_CHECK(is_new || same(&before), "after a crash the log holds the state before or after the interrupted operation");
    if(!is_new){ ref = before; VH_REACH("operation lost"); }
    // life goes on, unless the machine crashes again while recovering
    check_ok(op(4 + nd_pick(1)), "op");
    stop();
    check_ok(start(), "reopen");
    VH_CHECK(same(&ref), "a recovered log keeps working");
    stop();
}

// a log with a thousand lines, most of them stale
static char big[6000]; static size_t nbig;
static void mkbig(unsigned lines){
    for(unsigned i = 0; i < lines; i++){ memcpy(big + nbig, "h|55\n", 5); nbig += 5; }
    vfs_mkfile("/m/.cache", big, nbig);
    ref.hi_up = 55;
}

void h_compact(void){
    init(); mkbig(999 - K);
    check_ok(start(), "open");
    VH_CHECK(same(&ref), "a long log is read");
    for(int i = 0; i < K; i++) check_ok(op(nd_pick(NKIND)), "op");
    check_ok(op(nd_pick(NKIND)), "the operation that triggers compaction");
    VH_CHECK(vfs_find("/m/.cache")->ino->len < 1000, "a log of mostly stale lines is compacted");
    check_ok(op(4), "op");
    stop();
    VH_CHECK(vfs_open_n == 0, "closing the log closes its file");
    check_ok(start(), "reopen");
    VH_CHECK(same(&ref), "compaction keeps exactly the latest values");
    VH_REACH("compacted");
    stop();
}

void h_compact_crash(void){
    init(); mkbig(998 - K);
    check_ok(start(), "open");
    static const unsigned char pre[3] = { 2, 4, 12 }, trig[3] = { 0, 5, 13 };
    for(int i = 0; i < K; i++) check_ok(op(pre[nd_pick(2)]), "op");
    check_ok(op(5), "op");   // message in key 1
    vfs_coarse = true;
    vfs_crash_at = vfs_ops + 1 + nd_pick(29);
    check_ok(op(trig[nd_pick(2)]), "the operation that triggers compaction");
    VH_CHECK(vfs_find("/m/.cache")->ino->len < 1000, "a log of mostly stale lines is compacted");
    stop();
    bool done = !vfs_crashed;
    if(done) vfs_snap();
    vfs_restart(); vfs_crashed = false;
    if(vfs_find("/m/.cache.tmp")) VH_REACH("crashed while compacting");
    check_ok(start(), "recovery");
    bool is_new = same(&ref);
    if(done) VH_CHECK(is_new, "a completed operation survives a crash");
    VH_CHECK(is_new || same(&before), "a crash while compacting loses nothing");
    if(!is_new) ref = before;
    check_ok(op(4), "op");
    stop();
    check_ok(start(), "reopen");
    VH_CHECK(same(&ref), "a recovered log keeps working");
    VH_REACH("recovered");
    stop();
}

// any file: opening never misbehaves, and says so or is stable
void h_anyfile(void){
    init();
    char b[N]; size_t n = nd_pick(N);
    nd_bytes(b, N);
    vfs_mkfile("/m/.cache", b, n);
    derr_t e = start();
    if(is_error(e)){ DROP_VAR(&e); VH_REACH("refused"); stop(); VH_CHECK(vfs_open_n == 0, "a refused log is closed"); return; }
    unsigned vup = s.log->get_uidvld_up(s.log); uint64_t h = s.log->get_himodseq_up(s.log);
    stop();
    check_ok(start(), "reopen");
    VH_CHECK(s.log->get_uidvld_up(s.log) == vup && s.log->get_himodseq_up(s.log) == h, "an accepted log reads the same again");
    VH_REACH("accepted");
    stop();
}

// keeping a local mailbox in step with the mail server (the upwards connection)
//@ property P29 P34
//@ engine sx
//@ src dstr libimaildir/up.c libimaildir/msg.c libimaildir/util.c libimap/expression.c libimap/extension.c
//@ gen imap
//@ stub _fmt_dstr_dbg imap_cmd_assert_writable imaildir_up_get_unfilled_msgs imaildir_up_get_unpushed_expunges imaildir_up_check_uidvld_up imaildir_up_set_himodseq_up imaildir_up_lookup_msg imaildir_up_new_msg imaildir_up_update_flags imaildir_up_handle_static_fetch_attr imaildir_up_selected imaildir_up_synced imaildir_up_delete_msg imaildir_up_allow_download imf_free imf_hdrs_free mime_param_free mime_content_type_free
//@ bounds: P29: up to 4 messages on a server with QRESYNC, every state an earlier session can leave behind, symbolic flags and modification numbers; 2 (thorough 3) events of 10 kinds (changes by others, lost connection, new UIDVALIDITY, hold, reselect, local upload, relayed command, blocked IDLE, UNSELECT) before any response
//@ bounds: P34: the same histories
//@ assume: nobody else removes a message uploaded through this program before the session has been told of it; the server follows RFC 3501/2177/7162: commands in order, all pending changes told by the end of each command, told at any time during IDLE
//@ entry h_start prop=P29 leak=1 jobs=6
//@ entry h_seq@1 prop=P29 defs=K=1 leak=1 jobs=6
//@ entry h_seq@2 prop=P29 defs=K=2 leak=1 jobs=8 tier=thorough timeout=3000
//@ entry h_order@1 prop=P34 defs=K=1 leak=1 jobs=6
//@ entry h_order@2 prop=P34 defs=K=2,COARSE leak=1 jobs=6
//@ entry h_order@3 prop=P34 defs=K=3,COARSE leak=1 jobs=8 tier=thorough timeout=3000
#ifndef K
#define K 1
#endif
#include "vh.h"
#include "libimaildir/libimaildir.h"
#include "libimaildir/msg_internal.h"

derr_type_t _fmt_dstr_dbg(const fmt_i *iface, writer_i *out){ (void)iface; (void)out; return E_NONE; }
imap_cmd_t *imap_cmd_assert_writable(derr_t *e, imap_cmd_t *cmd, const extensions_t *exts){ (void)e; (void)exts; return cmd; }
void imf_free(imf_t *x){ (void)x; }
void imf_hdrs_free(imf_hdrs_t *x){ (void)x; }
void mime_param_free(mime_param_t *x){ (void)x; }
void mime_content_type_free(mime_content_type_t *x){ (void)x; }

#define OK(call, why) do{ derr_t e_ = (call); VH_CHECK(!is_error(e_), why); DROP_VAR(&e_); }while(0)
#define NM 4

/* the mailbox on the server */
static struct { int fl; uint64_t mod, cr, gonemod; bool gone; } sv[NM];   // UID is 1 + index
static int nsv;
static uint64_t hms, vhms;               // and as of what was told
static unsigned uidvld;
// what the present session was told
static struct { bool in, gone; int fl; uint64_t mod; } vw[NM];
static bool sv_selected, sv_examine;
static uint64_t step(void){ return hms += 1 + (uint64_t)(nd_u8() & 15); }
static void sv_new(int fl){ if(nsv == NM) return; int i = nsv++; sv[i].fl = fl; sv[i].gone = false; sv[i].gonemod = 0; sv[i].mod = sv[i].cr = step(); vw[i].in = false; }
static void sv_flag(int i, int fl){ if(i >= nsv || sv[i].gone) return; sv[i].fl = fl; sv[i].mod = step(); }
static void sv_gone(int i){ if(i >= nsv || sv[i].gone) return; sv[i].gone = true; sv[i].gonemod = step(); }

/* the local mailbox, as far as it is on disk */
static struct { bool known; int exp; msg_t m; } st[NM];                 // exp: 1 to be told to the server, 2 done
static unsigned st_uidvld; static uint64_t st_hi;
static bool hold, synced;
static int nsynced, nselected; static ie_status_t sel_status;
static imaildir_t m;                                                    // only its address is used
static int bits(msg_flags_t f){ return f.answered | f.flagged << 1 | f.seen << 2 | f.draft << 3 | f.deleted << 4; }
static msg_flags_t unbits(int b){ return (msg_flags_t){ .answered = b & 1, .flagged = b >> 1 & 1, .seen = b >> 2 & 1, .draft = b >> 3 & 1, .deleted = b >> 4 & 1 }; }
static void st_put(int i, msg_state_e state, int fl){ st[i].known = true; st[i].exp = 0; st[i].m.key = KEY_UP((unsigned)i + 1); st[i].m.state = state; st[i].m.flags = unbits(fl); }
derr_t imaildir_up_get_unfilled_msgs(imaildir_t *x, seq_set_builder_t *ssb){
    derr_t e = E_OK; (void)x;
    for(int i = 0; i < NM; i++) if(st[i].known && st[i].m.state == MSG_UNFILLED) PROP(&e, seq_set_builder_add_val(ssb, (unsigned)i + 1) );
    return e;
}
derr_t imaildir_up_get_unpushed_expunges(imaildir_t *x, ie_seq_set_t **out){
    derr_t e = E_OK; (void)x;
    seq_set_builder_t ssb; seq_set_builder_prep(&ssb);
    for(int i = 0; i < NM; i++) if(st[i].exp == 1) PROP(&e, seq_set_builder_add_val(&ssb, (unsigned)i + 1) );
    *out = seq_set_builder_extract(&e, &ssb);
    return e;
}
derr_t imaildir_up_check_uidvld_up(imaildir_t *x, unsigned v){
    (void)x;
    if(v == st_uidvld) return E_OK;
    if(st_uidvld){ for(int i = 0; i < NM; i++){ st[i].known = false; st[i].exp = 0; } st_hi = 0; }
    st_uidvld = v;
    return E_OK;
}
derr_t imaildir_up_set_himodseq_up(imaildir_t *x, uint64_t h){
    (void)x;
    VH_CHECK(h <= hms, "only what the server said is noted");
    VH_CHECK(st_uidvld == uidvld, "for the mailbox as it is");
    // a later session asks for changes after h only
    for(int i = 0; i < nsv; i++){
        if(sv[i].gone){ if(sv[i].gonemod <= h) VH_CHECK(!st[i].known, "no removal is skipped for good"); continue; }
        if(sv[i].cr <= h) VH_CHECK(st[i].known || st[i].exp, "no message is skipped for good");
        if(sv[i].mod <= h && st[i].known) VH_CHECK(bits(st[i].m.flags) == sv[i].fl, "no change of flags is skipped for good");
    }
    st_hi = h;
    return E_OK;
}
msg_t *imaildir_up_lookup_msg(imaildir_t *x, unsigned uid, bool *expunged){
    (void)x;
    int i = (int)uid - 1;
    VH_CHECK(i >= 0 && i < NM, "uid");
    if(st[i].known){ *expunged = false; return &st[i].m; }
    *expunged = st[i].exp != 0;
    return NULL;
}
derr_t imaildir_up_new_msg(imaildir_t *x, unsigned uid, msg_flags_t flags, msg_t **out){
    (void)x;
    int i = (int)uid - 1;
    VH_CHECK(!st[i].known && !st[i].exp, "a message is new once");
    st_put(i, MSG_UNFILLED, bits(flags));
    *out = &st[i].m;
    return E_OK;
}
derr_t imaildir_up_update_flags(imaildir_t *x, msg_t *g, msg_flags_t flags){ (void)x; g->flags = flags; return E_OK; }
static int nbody[NM];
derr_t imaildir_up_handle_static_fetch_attr(imaildir_t *x, msg_t *g, const ie_fetch_resp_t *f){
    (void)x;
    if(g->state != MSG_UNFILLED) return E_OK;
    VH_CHECK(f->extras && f->intdate.year, "complete");
    g->state = MSG_FILLED;
    return E_OK;
}
derr_t imaildir_up_selected(imaildir_t *x, ie_status_t status){ (void)x; nselected++; sel_status = status; return E_OK; }
derr_t imaildir_up_delete_msg(imaildir_t *x, unsigned uid){
    (void)x;
    int i = (int)uid - 1;
    if(i < 0 || i >= NM) return E_OK;
    if(st[i].known || st[i].exp){ st[i].known = false; st[i].exp = 2; }
    return E_OK;
}
bool imaildir_up_allow_download(imaildir_t *x){ (void)x; return !hold; }

/* the client under test */
static up_t up;
static bool up_live;
static int scheduled;
static void cb_schedule(up_cb_i *c){ (void)c; scheduled++; }
static up_cb_i cb = { .schedule = cb_schedule };
static extensions_t exts;
static link_t out;
DSTR_STATIC(boxname, "box");
static bool want_examine, resel;         // what the mail store asked for last, and whether it is pending
static bool at_select[NM];               // messages there when the mailbox was selected
static unsigned budget;
static bool boring;

/* commands on the way */
#define NQ 24
static imap_cmd_t *q[NQ]; static int qh, qt;
static bool idle_sent, idle_plus, done_sent, unsel_sent, sel_sent, sel_ok;
static int unanswered;                   // commands other than IDLE
static int nnoop_wait;                   // an upload must be noticed before anything is passed on
static int nrelay, relay_sent, relay_done;
static bool noop_out;
static bool blocked;
static void collect(void){
    link_t *l;
    while((l = link_list_pop_first(&out))){
        imap_cmd_t *c = CONTAINER_OF(l, imap_cmd_t, link);
        VH_CHECK(!unsel_sent, "nothing is sent after UNSELECT");
        if(c->type == IMAP_CMD_IDLE_DONE){
            VH_CHECK(idle_sent && idle_plus && !done_sent, "DONE ends an IDLE that has begun");
            done_sent = true;
        }else{
            VH_CHECK(!idle_sent || done_sent, "nothing but DONE is sent during IDLE");
            VH_CHECK(c->tag != NULL, "a command has a tag");
            for(int i = qh; i < qt; i++) if(q[i]->tag && c->tag) VH_CHECK(dstr_cmp2(q[i]->tag->dstr, c->tag->dstr) != 0, "tags differ");
            if(c->type != IMAP_CMD_UNSELECT && !sel_ok) VH_CHECK(!sel_sent && (c->type == IMAP_CMD_SELECT || c->type == IMAP_CMD_EXAMINE), "the mailbox is selected first");
            switch(c->type){
                case IMAP_CMD_SELECT: case IMAP_CMD_EXAMINE: sel_sent = true; break;
                case IMAP_CMD_UNSELECT: unsel_sent = true; break;
                case IMAP_CMD_IDLE: VH_CHECK(unanswered == 0 && !idle_sent && !blocked, "IDLE is sent when nothing else is going on"); idle_sent = true; idle_plus = done_sent = false; break;
                case IMAP_CMD_NOOP: noop_out = true; nnoop_wait = 0; break;
                case IMAP_CMD_FETCH: if(c->arg.fetch->attr->extras){
                    VH_CHECK(!hold, "no message is downloaded while an upload is going on");
                    for(const ie_seq_set_t *s = c->arg.fetch->seq_set; s; s = s->next){
                        VH_CHECK(s->n1 == s->n2 && s->n1 >= 1 && s->n1 <= NM, "single messages are downloaded");
                        if(s->n1 >= 1 && s->n1 <= NM) VH_CHECK(!(st[s->n1 - 1].known && st[s->n1 - 1].m.state == MSG_FILLED), "no message is downloaded twice");
                    }
                    VH_CHECK(c->arg.fetch->uid_mode && c->arg.fetch->attr->extras->peek, "downloads leave the message unseen");
                } break;
                case IMAP_CMD_COPY: // stands for a command passed on
                    VH_CHECK(!nnoop_wait && !noop_out, "a command is not passed on before an upload was noticed");
                    VH_CHECK(c->tag->dstr.data[0] == 'r' && c->tag->dstr.data[1] == '0' + relay_sent, "commands are passed on in order");
                    relay_sent++;
                    break;
                default: break;
            }
            if(c->type != IMAP_CMD_IDLE) unanswered++;
        }
        VH_CHECK(qt < NQ, "commands end");
        if(qt < NQ) q[qt++] = c; else imap_cmd_free(c);
    }
}
static void advance(void){ scheduled = 0; OK(up_advance_state(&up, &out), "advance"); collect(); }
static void woken(void){ if(scheduled) advance(); }

static void relay_free_cb(imap_cmd_cb_t *c){ imap_cmd_cb_free(c); free(c); }
static bool relay_no;
static derr_t relay_call(imap_cmd_cb_t *c, const ie_st_resp_t *s){
    VH_CHECK(c->tag->dstr.data[1] == '0' + relay_done, "answers go to the commands they belong to");
    VH_CHECK((s->status == IE_ST_OK) == !relay_no, "as they are");
    relay_done++;
    return E_OK;
}
static void relay(void){
    derr_t e = E_OK;
    char b[3] = { 'r', (char)('0' + nrelay++), 0 }; dstr_t d; DSTR_WRAP(d, b, 2, true);
    ie_dstr_t *t = ie_dstr_new2(&e, d);
    imap_cmd_cb_t *c = malloc(sizeof *c); VH_ASSUME(c != NULL);
    imap_cmd_cb_init(&e, c, t, relay_call, relay_free_cb);
    imap_cmd_t *cmd = imap_cmd_new(&e, t, IMAP_CMD_COPY, (imap_cmd_arg_t){ .copy = ie_copy_cmd_new(&e, true, ie_seq_set_new(&e, 1, 1), ie_mailbox_new_inbox(&e)) });
    OK(e, "relay");
    up_imaildir_relay_cmd(&up, cmd, c);
}
derr_t imaildir_up_synced(imaildir_t *x, up_t *u, bool examining){
    (void)x; (void)u;
    VH_CHECK(examining == want_examine, "ready in the mode asked for");
    nsynced++; synced = true; resel = false;
    if(nsynced == 1) for(int i = 0; i < NM; i++) if(at_select[i]) VH_CHECK(st[i].exp || (st[i].known && st[i].m.state == MSG_FILLED), "the mailbox is ready when its messages are here");
    return E_OK;
}

/* the session, from the server's side */
static void reset_queue(void){ for(int i = qh; i < qt; i++) imap_cmd_free(q[i]); qh = qt = 0; }
static void session(bool examine){
    link_init(&out);
    reset_queue();
    idle_sent = idle_plus = done_sent = unsel_sent = sel_sent = sel_ok = synced = resel = noop_out = blocked = hold = sv_selected = false;
    unanswered = nnoop_wait = nrelay = relay_sent = relay_done = nsynced = scheduled = 0;
    for(int i = 0; i < NM; i++) vw[i].in = vw[i].gone = at_select[i] = false;
    OK(up_init(&up, &m, &cb, &exts), "init");
    up_live = true;
    want_examine = examine;
    advance();
    up_imaildir_select(&up, &boxname, st_uidvld, st_hi, examine);
    VH_CHECK(scheduled, "woken to begin");
    woken();
}
static void drop(void){
    up_free(&up); up_live = false;
    link_t *l; while((l = link_list_pop_first(&out))) imap_cmd_free(CONTAINER_OF(l, imap_cmd_t, link));
    reset_queue();
}
static bool lost;        // the connection went away while the server was talking
static void point(void);
#ifdef COARSE
#define TPOINT()
#else
#define TPOINT() point()
#endif
#define TELL(call) do{ TPOINT(); if(lost) return; OK(call, "the server's answers are accepted"); if(up_live){ scheduled = 0; advance(); } }while(0)
static void tell_fetch(int i, bool flags, bool body){
    ie_fflags_t f = { .answered = vw[i].fl & 1, .flagged = vw[i].fl >> 1 & 1, .seen = vw[i].fl >> 2 & 1, .draft = vw[i].fl >> 3 & 1, .deleted = vw[i].fl >> 4 & 1 };
    ie_dstr_t c = { .dstr = DSTR_LIT("x") };
    ie_fetch_resp_extra_t x = { .content = &c };
    ie_fetch_resp_t r = { .seq_num = 1, .uid = (unsigned)i + 1, .flags = flags ? &f : NULL, .modseq = vw[i].mod };
    if(body){ r.extras = &x; r.intdate = (imap_time_t){ .year = 2000, .month = 1, .day = 1 }; }
    TELL(up_fetch_resp(&up, &r, &out));
}
static void tell_vanished(int i, bool earlier){ ie_seq_set_t s = { .n1 = (unsigned)i + 1, .n2 = (unsigned)i + 1 }; ie_vanished_resp_t r = { .earlier = earlier, .uids = &s }; TELL(up_vanished_resp(&up, &r)); }
static void tell_exists(void){ unsigned n = 0; for(int i = 0; i < nsv; i++) n += vw[i].in && !vw[i].gone; TELL(up_exists_resp(&up, n, &out)); }
static void tell_code(ie_st_code_type_t t, ie_st_code_arg_t a){ ie_st_code_t c = { t, a }; ie_st_resp_t r = { .status = IE_ST_OK, .code = &c }; TELL(up_st_resp(&up, &r, &out)); }
static bool exists_first, fetch_new;
// everything that happened since
static void sv_sync(void){
    struct { bool fresh, flag, gone; } d[NM] = {0};
    bool any = false;
    vhms = hms;
    for(int i = 0; i < nsv; i++){
        if(!vw[i].in && !sv[i].gone){ vw[i].in = true; vw[i].gone = false; vw[i].fl = sv[i].fl; vw[i].mod = sv[i].mod; d[i].fresh = any = true; }
        else if(vw[i].in && !vw[i].gone && sv[i].gone) d[i].gone = vw[i].gone = true;
        else if(vw[i].in && !vw[i].gone && vw[i].mod != sv[i].mod){ vw[i].fl = sv[i].fl; vw[i].mod = sv[i].mod; d[i].flag = true; }
    }
    if(exists_first && any) tell_exists();
    for(int i = 0; i < nsv && !lost; i++) if(d[i].gone) tell_vanished(i, false);
    for(int i = 0; i < nsv && !lost; i++) if(d[i].flag) tell_fetch(i, true, false);
    if(!lost && !exists_first && any) tell_exists();
    if(fetch_new) for(int i = 0; i < nsv && !lost; i++) if(d[i].fresh) tell_fetch(i, true, false);
}
static void answer(imap_cmd_t *c, ie_status_t s, bool himod){
    ie_st_code_t code = { .type = IE_ST_CODE_HIMODSEQ, .arg = { .himodseq = vhms } };
    ie_st_resp_t r = { .tag = c->tag, .status = s, .code = himod ? &code : NULL };
    unanswered -= c->type != IMAP_CMD_IDLE;
    if(c->type == IMAP_CMD_IDLE) idle_sent = idle_plus = done_sent = false;
    if(c->type == IMAP_CMD_NOOP) noop_out = false;
    if(c->type == IMAP_CMD_SELECT || c->type == IMAP_CMD_EXAMINE) sel_ok = true;
    TELL(up_st_resp(&up, &r, &out));
}
static bool vld_last, sel_refuse;
static void do_select(imap_cmd_t *c){
    ie_select_cmd_t *s = c->type == IMAP_CMD_SELECT ? c->arg.select : c->arg.examine;
    VH_CHECK(dstr_cmp2(s->m->dstr, boxname) == 0 && !s->m->inbox, "the mailbox asked for");
    if(sv_selected) tell_code(IE_ST_CODE_CLOSED, (ie_st_code_arg_t){0});
    if(lost) return;
    if(sel_refuse){ answer(c, IE_ST_NO, false); return; }
    sv_selected = true; sv_examine = c->type == IMAP_CMD_EXAMINE;
    bool q_ok = false; uint64_t since = 0;
    if(s->params){ VH_CHECK(s->params->type == IE_SELECT_PARAM_QRESYNC && s->params->arg.qresync.last_modseq >= 1 && s->params->arg.qresync.uidvld >= 1, "QRESYNC tells what is known"); q_ok = s->params->arg.qresync.uidvld == uidvld; since = s->params->arg.qresync.last_modseq; }
    vhms = hms;
    for(int i = 0; i < nsv; i++){ vw[i].in = true; vw[i].gone = sv[i].gone; vw[i].fl = sv[i].fl; vw[i].mod = sv[i].mod; at_select[i] = !sv[i].gone; }
    tell_exists();
    if(!lost && !vld_last) tell_code(IE_ST_CODE_UIDVLD, (ie_st_code_arg_t){ .uidvld = uidvld });
    if(!lost) tell_code(IE_ST_CODE_HIMODSEQ, (ie_st_code_arg_t){ .himodseq = vhms });
    if(!lost && vld_last) tell_code(IE_ST_CODE_UIDVLD, (ie_st_code_arg_t){ .uidvld = uidvld });
    if(q_ok){
        for(int i = 0; i < nsv && !lost; i++) if(vw[i].gone && sv[i].gonemod > since) tell_vanished(i, true);
        for(int i = 0; i < nsv && !lost; i++) if(!vw[i].gone && vw[i].mod > since) tell_fetch(i, true, false);
    }
    if(!lost) answer(c, IE_ST_OK, false);
}
static void do_fetch(imap_cmd_t *c){
    ie_fetch_cmd_t *f = c->arg.fetch;
    VH_CHECK(f->uid_mode && f->attr->uid && f->attr->flags && f->attr->modseq, "what is fetched can be told apart");
    uint64_t since = 0; bool van = false;
    for(ie_fetch_mods_t *d = f->mods; d; d = d->next) if(d->type == IE_FETCH_MOD_CHGSINCE) since = d->arg.chgsince; else van = true;
    VH_CHECK(!f->mods || since, "CHANGEDSINCE is at least 1");
    if(van) for(int i = 0; i < nsv && !lost; i++) if(vw[i].gone && sv[i].gonemod > since) tell_vanished(i, true);
    for(int i = 0; i < nsv && !lost; i++){
        bool on = false; unsigned u = (unsigned)i + 1;
        for(ie_seq_set_t *s = f->seq_set; s; s = s->next) if((s->n1 <= u && (u <= s->n2 || !s->n2))) on = true;
        if(!on || !vw[i].in || vw[i].gone) continue;
        if(f->mods && vw[i].mod <= since) continue;
        if(f->attr->extras && sv[i].gone) continue;
        tell_fetch(i, true, f->attr->extras != NULL);
    }
    if(!lost) sv_sync();
    if(!lost) answer(c, IE_ST_OK, false);
}
// only messages the user removed here are removed there
static bool removed_here(int i){ return i >= 0 && i < NM && st[i].exp != 0 && st_uidvld == uidvld; }
static void sv_run(void){
    if(lost || qh == qt){ if(!lost && sv_selected) return; return; }
    imap_cmd_t *c = q[qh];
    if(c->type == IMAP_CMD_IDLE){
        if(!idle_plus){ idle_plus = true; TELL(up_plus_resp(&up, &out)); return; }
        if(!done_sent){ sv_sync(); return; }
        // DONE is next in line
        qh++;
        VH_CHECK(qh < qt && q[qh]->type == IMAP_CMD_IDLE_DONE, "DONE follows IDLE");
        sv_sync();
        if(!lost) answer(c, IE_ST_OK, false);
        imap_cmd_free(c);
        if(qh < qt && !lost) imap_cmd_free(q[qh++]);
        return;
    }
    qh++;
    switch(c->type){
        case IMAP_CMD_SELECT: case IMAP_CMD_EXAMINE: do_select(c); break;
        case IMAP_CMD_FETCH: do_fetch(c); break;
        case IMAP_CMD_STORE:
            VH_CHECK(!sv_examine, "nothing is changed in a mailbox opened for reading");
            VH_CHECK(c->arg.store->uid_mode && c->arg.store->sign == 1 && c->arg.store->flags->deleted, "store");
            for(ie_seq_set_t *s = c->arg.store->seq_set; s; s = s->next) for(unsigned u = s->n1; u <= s->n2; u++){ VH_CHECK(removed_here((int)u - 1), "only messages removed here are removed on the server"); sv_flag((int)u - 1, sv[u - 1].fl | 16); }
            sv_sync(); if(!lost) answer(c, IE_ST_OK, false);
            break;
        case IMAP_CMD_EXPUNGE:
            VH_CHECK(!sv_examine && c->arg.uid_expunge, "expunge");
            for(ie_seq_set_t *s = c->arg.uid_expunge; s; s = s->next) for(unsigned u = s->n1; u <= s->n2; u++){ VH_CHECK(removed_here((int)u - 1), "only messages removed here are removed on the server"); if((int)u <= nsv && (sv[u - 1].fl & 16)) sv_gone((int)u - 1); }
            sv_sync(); if(!lost) answer(c, IE_ST_OK, true);
            break;
        case IMAP_CMD_UNSELECT: answer(c, IE_ST_OK, false); sv_selected = false; break;
        case IMAP_CMD_NOOP: sv_sync(); if(!lost) answer(c, IE_ST_OK, false); break;
        case IMAP_CMD_COPY: sv_sync(); relay_no = false; if(!lost) answer(c, IE_ST_OK, false); break;
        default: VH_CHECK(0, "an unexpected command"); break;
    }
    imap_cmd_free(c);
}
static bool unselecting, order_mode, uploaded[NM];
static void op(unsigned k){
    switch(k){
        case 0: sv_new(nd_u8() & 31); break;
        case 1: sv_flag(0, sv[0].fl ^ 2); break;
        case 2: sv_gone(1); break;
        case 3: if(vw[nsv - 1].in || !uploaded[nsv - 1]) sv_gone(nsv - 1); break;
        case 4: if(order_mode) return; drop(); lost = true; break;
        case 5: // somebody uploads through here
            if(nsv == NM) return;
            hold = true; sv_new(0); uploaded[nsv - 1] = true; st_put(nsv - 1, MSG_FILLED, 0); up_imaildir_have_local_file(&up, (unsigned)nsv, true); nnoop_wait = 1;
            hold = false; up_imaildir_hold_end(&up); VH_CHECK(scheduled, "woken after a hold"); woken();
            break;
        case 6: if(!synced || resel || unselecting) return; want_examine = !want_examine; resel = true; synced = false; up_imaildir_select(&up, &boxname, st_uidvld, st_hi, want_examine); VH_CHECK(scheduled, "woken to reselect"); woken(); break;
        case 7: if(!synced || resel || unselecting || nrelay > 8) return; relay(); VH_CHECK(scheduled, "woken for a command"); woken(); break;
        case 8: { if(unselecting) return; bool ok = false; OK(up_idle_block(&up, &out, &ok), "block"); collect(); if(ok){ blocked = true; VH_CHECK(!idle_sent || done_sent, "no IDLE while blocked"); OK(up_idle_unblock(&up, &out), "unblock"); blocked = false; collect(); } else { OK(up_idle_unblock(&up, &out), "unblock"); collect(); } break; }
        case 9: if(!order_mode) return; { bool ok; unselecting = true; OK(up_unselect(&up, &out, &ok), "unselect"); collect(); } break;
        case 10: hold = true; break;
    }
}
static unsigned ops_max;
static void point(void){
    if(!budget || lost) return;
    unsigned k = nd_pick(ops_max);
    if(k == 0) return;
    budget--;
    op(k - 1);
}
static void run(int n){
    for(int i = 0; i < n && !lost; i++){
        point();
        if(!lost) sv_run();
    }
    lost = false;
}
static bool pending(void){
    if(sv_selected) for(int i = 0; i < nsv; i++){
        if(!vw[i].in && !sv[i].gone) return true;
        if(vw[i].in && !vw[i].gone && (sv[i].gone || vw[i].mod != sv[i].mod)) return true;
    }
    return qh < qt && !(q[qh]->type == IMAP_CMD_IDLE && idle_plus && !done_sent);
}
static void finish(void){
    budget = 0;
    if(hold){ hold = false; up_imaildir_hold_end(&up); woken(); }
    for(int i = 0; i < 60 && pending(); i++) sv_run();
    VH_CHECK(!pending(), "it comes to rest");
    VH_CHECK(unsel_sent || idle_sent, "it waits for news");
    if(!unsel_sent){
        VH_CHECK(synced, "the mailbox is ready in the end");
        for(int i = 0; i < nsv; i++){
            if(sv[i].gone) VH_CHECK(!st[i].known && st[i].exp != 1, "removed messages are removed");
            else{ VH_CHECK(st[i].known && st[i].m.state == MSG_FILLED, "every message is there"); if(st[i].known) VH_CHECK(bits(st[i].m.flags) == sv[i].fl, "with its flags"); }
        }
        VH_CHECK(relay_sent == nrelay && relay_done == nrelay, "every command passed on was answered");
    }
    drop();
}
static void begin(void){ nsv = 0; hms = nd_u8(); uidvld = 7; budget = 0; lost = false; ops_max = 0; st_uidvld = 0; st_hi = 0; sv_examine = false; exists_first = fetch_new = vld_last = sel_refuse = false; hold = false; unselecting = order_mode = false; link_init(&out); qh = qt = 0; for(int i = 0; i < NM; i++){ st[i].known = uploaded[i] = false; st[i].exp = 0; } }

// whatever an earlier session left behind
void h_start(void){
    begin();
    int f0 = nd_u8() & 31; sv_new(f0);
    int f1 = nd_u8() & 31; sv_new(f1);
    unsigned kind = nd_pick(3);
    if(kind){
        st_uidvld = kind == 3 ? 6 : 7;
        st_hi = hms;
        for(int i = 0; i < 2; i++) switch(nd_pick(3)){
            case 0: st_put(i, MSG_FILLED, sv[i].fl); break;
            case 1: st_put(i, MSG_UNFILLED, sv[i].fl); break;
            case 2: st[i].exp = 1; break;
            case 3: st_put(i, MSG_FILLED, sv[i].fl); sv_flag(i, nd_u8() & 31); break;
        }
        switch(nd_pick(2)){
            case 0: break;
            case 1: sv_new(nd_u8() & 31); break;
            case 2: sv_gone(1); break;
        }
        // an earlier session ended before it could note where it was
        if(kind == 2) st_hi = 0;
        if(kind == 3) st_hi = nd_u8() + 1;
    }
    vld_last = nd_pick(1);
    session(nd_pick(1));
    finish();
    VH_REACH("start");
}
// a run of events
void h_seq(void){
    begin();
    sv_new(nd_u8() & 31); sv_new(nd_u8() & 31);
    if(nd_pick(1)){ st_uidvld = 7; st_put(0, MSG_FILLED, sv[0].fl); st_put(1, MSG_FILLED, sv[1].fl); st_hi = hms; }
    exists_first = nd_pick(1); fetch_new = nd_pick(1);
    budget = K; ops_max = 9;
    session(nd_pick(1));
    run(8);
    if(!up_live) session(false);
    finish();
    VH_REACH("seq");
}
// what is sent, and when
void h_order(void){
    begin();
    sv_new(4); sv_new(1);
    st_uidvld = 7; st_put(0, MSG_FILLED, 4); st_hi = sv[0].mod;
    order_mode = true;
    budget = K; ops_max = 11;
    session(nd_pick(1));
    run(7);
    finish();
    VH_REACH("order");
}

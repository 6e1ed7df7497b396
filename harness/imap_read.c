// IMAP commands and responses: whatever bytes arrive, in whatever pieces, the
// parser neither crashes nor leaks, and understands the same thing
//@ property P30
//@ engine sx
//@ src dstr libimap/expression.c libimap/extension.c libimap/read.c libimap/write.c gen/libimap/generated/imap_scan.c gen/libimap/generated/imap_parse.c
//@ gen imap
//@ nop imf_hdrs_free mime_param_free mime_content_type_free
//@ stub _fmt_dstr_dbg
//@ assume: quoting the offending input in an error message is checked by P10
//@ bounds: see entries: a fixed beginning of a command or response, then every text of N arbitrary bytes, then the end of the line and a second line; read whole, in two pieces cut anywhere in or around the arbitrary bytes, and byte by byte; and valid texts with any one byte replaced by any other
//@ entry h_mut@0 defs=PFX=0 leak=1
//@ entry h_mut@r_0 defs=PFX=0,RESP=1 leak=1
//@ entry h_mut@1 defs=PFX=1 leak=1
//@ entry h_mut@r_1 defs=PFX=1,RESP=1 leak=1
//@ entry h_mut@2 defs=PFX=2 leak=1
//@ entry h_mut@r_2 defs=PFX=2,RESP=1 leak=1
//@ entry h_mut@3 defs=PFX=3 leak=1
//@ entry h_mut@r_3 defs=PFX=3,RESP=1 leak=1
//@ entry h_mut@4 defs=PFX=4 leak=1
//@ entry h_mut@r_4 defs=PFX=4,RESP=1 leak=1
//@ entry h_mut@5 defs=PFX=5 leak=1
//@ entry h_mut@r_5 defs=PFX=5,RESP=1 leak=1
//@ entry h_mut@6 defs=PFX=6 leak=1
//@ entry h_mut@r_6 defs=PFX=6,RESP=1 leak=1
//@ entry h_read@any defs=N=2,PFX=0 leak=1
//@ entry h_read@tag defs=N=2,PFX=1 leak=1
//@ entry h_read@login defs=N=2,PFX=2 leak=1
//@ entry h_read@quoted defs=N=2,PFX=3 leak=1
//@ entry h_read@quoted13 defs=N=2,PFX=4 leak=1
//@ entry h_read@readonly defs=N=2,PFX=5 leak=1
//@ entry h_read@literal defs=N=2,PFX=6 leak=1
//@ entry h_read@fetch defs=N=2,PFX=7 leak=1
//@ entry h_read@attrs defs=N=2,PFX=8 leak=1
//@ entry h_read@body defs=N=2,PFX=9 leak=1
//@ entry h_read@store defs=N=2,PFX=10 leak=1
//@ entry h_read@search defs=N=2,PFX=11 leak=1
//@ entry h_read@append defs=N=2,PFX=12 leak=1
//@ entry h_read@select defs=N=2,PFX=13 leak=1
//@ entry h_read@uid defs=N=2,PFX=14 leak=1
//@ entry h_read@auth defs=N=2,PFX=15 leak=1
//@ entry h_read@idle defs=N=2,PFX=16 leak=1
//@ entry h_read@list defs=N=2,PFX=17 leak=1
//@ entry h_read@status defs=N=2,PFX=18 leak=1
//@ entry h_read@num defs=N=2,PFX=19 leak=1
//@ entry h_read@modseq defs=N=2,PFX=20 leak=1
//@ entry h_read@append2 defs=N=2,PFX=21 leak=1
//@ entry h_read@xkeyadd defs=N=2,PFX=22 leak=1
//@ entry h_read@xkeysync defs=N=2,PFX=23 leak=1
//@ entry h_read@r_any defs=N=3,PFX=0,RESP=1 leak=1
//@ entry h_read@r_star defs=N=3,PFX=1,RESP=1 leak=1
//@ entry h_read@r_list defs=N=3,PFX=2,RESP=1 leak=1
//@ entry h_read@r_listsep defs=N=3,PFX=3,RESP=1 leak=1
//@ entry h_read@r_fetch defs=N=3,PFX=4,RESP=1 leak=1
//@ entry h_read@r_code defs=N=2,PFX=5,RESP=1 leak=1
//@ entry h_read@r_text defs=N=3,PFX=6,RESP=1 leak=1
//@ entry h_read@r_pflags defs=N=2,PFX=7,RESP=1 leak=1
//@ entry h_read@r_status defs=N=3,PFX=8,RESP=1 leak=1
//@ entry h_read@r_search defs=N=3,PFX=9,RESP=1 leak=1
//@ entry h_read@r_fbody defs=N=3,PFX=10,RESP=1 leak=1
//@ entry h_read@r_fflags defs=N=2,PFX=11,RESP=1 leak=1
//@ entry h_read@r_vanished defs=N=3,PFX=12,RESP=1 leak=1
//@ entry h_read@r_flags defs=N=2,PFX=13,RESP=1 leak=1
//@ entry h_read@r_plus defs=N=3,PFX=14,RESP=1 leak=1
//@ entry h_read@r_rfc822 defs=N=3,PFX=15,RESP=1 leak=1
//@ entry h_read@r_num defs=N=3,PFX=17,RESP=1 leak=1
//@ entry h_read@any+ defs=N=3,PFX=0 tier=thorough timeout=1500 leak=1
//@ entry h_read@tag+ defs=N=3,PFX=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@login+ defs=N=3,PFX=2 tier=thorough timeout=1500 leak=1
//@ entry h_read@quoted+ defs=N=4,PFX=3 tier=thorough timeout=1500 leak=1
//@ entry h_read@quoted13+ defs=N=3,PFX=4 tier=thorough timeout=1500 leak=1
//@ entry h_read@readonly+ defs=N=3,PFX=5 tier=thorough timeout=1500 leak=1
//@ entry h_read@literal+ defs=N=4,PFX=6 tier=thorough timeout=1500 leak=1
//@ entry h_read@fetch+ defs=N=3,PFX=7 tier=thorough timeout=1500 leak=1
//@ entry h_read@attrs+ defs=N=3,PFX=8 tier=thorough timeout=1500 leak=1
//@ entry h_read@body+ defs=N=3,PFX=9 tier=thorough timeout=1500 leak=1
//@ entry h_read@store+ defs=N=3,PFX=10 tier=thorough timeout=1500 leak=1
//@ entry h_read@search+ defs=N=3,PFX=11 tier=thorough timeout=1500 leak=1
//@ entry h_read@append+ defs=N=4,PFX=12 tier=thorough timeout=1500 leak=1
//@ entry h_read@select+ defs=N=3,PFX=13 tier=thorough timeout=1500 leak=1
//@ entry h_read@uid+ defs=N=3,PFX=14 tier=thorough timeout=1500 leak=1
//@ entry h_read@auth+ defs=N=4,PFX=15 tier=thorough timeout=1500 leak=1
//@ entry h_read@idle+ defs=N=3,PFX=16 tier=thorough timeout=1500 leak=1
//@ entry h_read@list+ defs=N=3,PFX=17 tier=thorough timeout=1500 leak=1
//@ entry h_read@status+ defs=N=3,PFX=18 tier=thorough timeout=1500 leak=1
//@ entry h_read@num+ defs=N=3,PFX=19 tier=thorough timeout=1500 leak=1
//@ entry h_read@modseq+ defs=N=3,PFX=20 tier=thorough timeout=1500 leak=1
//@ entry h_read@append2+ defs=N=3,PFX=21 tier=thorough timeout=1500 leak=1
//@ entry h_read@xkeyadd+ defs=N=2,PFX=22 tier=thorough timeout=1500 leak=1
//@ entry h_read@xkeysync+ defs=N=2,PFX=23 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_any+ defs=N=4,PFX=0,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_star+ defs=N=4,PFX=1,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_list+ defs=N=4,PFX=2,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_listsep+ defs=N=4,PFX=3,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_fetch+ defs=N=4,PFX=4,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_code+ defs=N=3,PFX=5,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_text+ defs=N=4,PFX=6,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_pflags+ defs=N=3,PFX=7,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_status+ defs=N=4,PFX=8,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_search+ defs=N=4,PFX=9,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_fbody+ defs=N=4,PFX=10,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_fflags+ defs=N=3,PFX=11,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_vanished+ defs=N=4,PFX=12,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_flags+ defs=N=3,PFX=13,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_plus+ defs=N=4,PFX=14,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_rfc822+ defs=N=4,PFX=15,RESP=1 tier=thorough timeout=1500 leak=1
//@ entry h_read@r_num+ defs=N=4,PFX=17,RESP=1 tier=thorough timeout=1500 leak=1
#include "vh.h"
#include "libimap/libimap.h"

#ifndef PFX
#define PFX 0
#endif
#ifndef N
#define N 2
#endif
#ifndef RESP
#define RESP 0
#endif

derr_type_t _fmt_dstr_dbg(const fmt_i *iface, writer_i *out){ (void)iface; (void)out; return E_NONE; }

static const char *const pfx[] = {
    [0] = "",
    [1] = "a ",
    [2] = "a LOGIN ",
    [3] = "a LOGIN \"",
    [4] = "a LOGIN \"aaaaaaaaaaa",
    [5] = "a SELECT rea",
    [6] = "a LOGIN u {2}\r\n",
    [7] = "a FETCH ",
    [8] = "a FETCH 1 (",
    [9] = "a FETCH 1 BODY[",
    [10] = "a STORE 1 +FLAGS (",
    [11] = "a SEARCH ",
    [12] = "a APPEND x \"01-",
    [13] = "a SELECT x (",
    [14] = "a UID ",
    [15] = "a AUTHENTICATE PLAIN\r\n",
    [16] = "a IDLE\r\n",
    [17] = "a LIST ",
    [18] = "a STATUS x (",
    [19] = "a FETCH 1844674407370955161",
    [20] = "a SEARCH MODSEQ 1844674407370955161",
    [21] = "a APPEND x {1}\r\n",
    [22] = "a XKEYADD ",
    [23] = "a XKEYSYNC ",
};
static const char *const rpfx[] = {
    [0] = "",
    [1] = "* ",
    [2] = "* LIST () ",
    [3] = "* LIST () \"",
    [4] = "* 1 FETCH (",
    [5] = "* OK [",
    [6] = "* OK ",
    [7] = "a OK [PERMANENTFLAGS (",
    [8] = "* STATUS x (",
    [9] = "* SEARCH ",
    [10] = "* 1 FETCH (BODY[",
    [11] = "* 1 FETCH (UID 1 FLAGS (",
    [12] = "* VANISHED ",
    [13] = "* FLAGS (",
    [14] = "+ ",
    [15] = "* 1 FETCH (RFC822 {2}\r\n",
    [16] = "* ESEARCH ",
    [17] = "* 1 ",
};

static void ext_init(extensions_t *x){
    *x = (extensions_t){
        .uidplus = EXT_STATE_ON, .enable = EXT_STATE_ON, .condstore = EXT_STATE_ON,
        .qresync = EXT_STATE_ON, .unselect = EXT_STATE_ON, .idle = EXT_STATE_ON,
        .xkey = EXT_STATE_ON,
    };
}

// what was understood, in writing
typedef struct { int n, nerr; bool failed; dstr_t what; } sum_t;

static void sum_cmd(sum_t *s, imap_cmd_t *cmd){
    extensions_t x; ext_init(&x);
    char head[4] = { '#', (char)('A' + (int)cmd->type), ' ', 0 };
    DROP_CMD( dstr_append(&s->what, &(dstr_t){ .data = head, .len = 3, .size = 4 }) );
    s->n++;
    switch(cmd->type){
        case IMAP_CMD_ERROR: s->nerr++;  // fall through
        case IMAP_CMD_PLUS_REQ:
        case IMAP_CMD_IDLE_DONE:
            if(cmd->tag) DROP_CMD( dstr_append(&s->what, &cmd->tag->dstr) );
            // the wording of an error may quote whatever had arrived so far
            break;
        default: {
            DSTR_VAR(buf, 256);
            derr_t e = imap_cmd_print(cmd, &buf, &x);
            if(is_error(e)){ DROP_VAR(&e); DROP_CMD( dstr_append(&s->what, &DSTR_LIT("!")) ); }
            else DROP_CMD( dstr_append(&s->what, &buf) );
        }
    }
}

static void sum_resp(sum_t *s, imap_resp_t *resp){
    extensions_t x; ext_init(&x);
    char head[4] = { '#', (char)('A' + (int)resp->type), ' ', 0 };
    DROP_CMD( dstr_append(&s->what, &(dstr_t){ .data = head, .len = 3, .size = 4 }) );
    s->n++;
    DSTR_VAR(buf, 256);
    derr_t e = imap_resp_print(resp, &buf, &x);
    if(is_error(e)){ DROP_VAR(&e); DROP_CMD( dstr_append(&s->what, &DSTR_LIT("!")) ); }
    else DROP_CMD( dstr_append(&s->what, &buf) );
}

// feed text[a,b) to the reader
typedef struct { imap_cmd_reader_t c; imap_resp_reader_t r; extensions_t x; } rd_t;

static void rd_init(rd_t *rd){
    ext_init(&rd->x);
    derr_t e = RESP ? imap_resp_reader_init(&rd->r, &rd->x) : imap_cmd_reader_init(&rd->c, &rd->x);
    VH_CHECK(!is_error(e), "reader starts");
}
static void rd_free(rd_t *rd){
    if(RESP) imap_resp_reader_free(&rd->r); else imap_cmd_reader_free(&rd->c);
}
static void feed(rd_t *rd, const char *text, size_t a, size_t b, sum_t *s){
    if(s->failed || a == b) return;
    // the reader may wipe its input
    char *buf = malloc(b - a);
    VH_ASSUME(buf);
    memcpy(buf, text + a, b - a);
    dstr_t in = dstr_from_cstrn(buf, b - a, false);
    link_t out = {0}, *l;
    derr_t e = RESP ? imap_resp_read(&rd->r, in, &out) : imap_cmd_read(&rd->c, in, &out);
    while((l = link_list_pop_first(&out))){
        if(RESP){
            imap_resp_t *r = CONTAINER_OF(l, imap_resp_t, link);
            sum_resp(s, r); imap_resp_free(r);
        }else{
            imap_cmd_t *c = CONTAINER_OF(l, imap_cmd_t, link);
            sum_cmd(s, c); imap_cmd_free(c);
        }
    }
    if(is_error(e)){ s->failed = true; DROP_VAR(&e); }
    free(buf);
}

// every piece of text[0,len) that matters gets read whole and in pieces
static bool both(const char *text, size_t len, size_t lo, size_t hi){
    rd_t rd;
    sum_t whole = {0}, cut = {0};
    rd_init(&rd);
    feed(&rd, text, 0, len, &whole);
    rd_free(&rd);

    // the same in pieces
    size_t at = lo + nd_pick((unsigned)(hi - lo + 1));
    rd_init(&rd);
    if(at > hi){
        for(size_t i = 0; i < len; i++) feed(&rd, text, i, i + 1, &cut);
    }else{
        feed(&rd, text, 0, at, &cut);
        feed(&rd, text, at, len, &cut);
    }
    rd_free(&rd);
    // a failing read reports nothing of its own piece, so after a failure only
    // the failure is comparable
    VH_CHECK(whole.failed == cut.failed, "the same texts are refused however they are cut");
    if(!whole.failed){
        VH_CHECK(whole.n == cut.n, "the same number of commands however the text is cut");
        VH_CHECK(whole.what.len == cut.what.len, "the same commands however the text is cut (length)");
        for(size_t i = 0; i < whole.what.len && i < cut.what.len; i++)
            VH_CHECK(whole.what.data[i] == cut.what.data[i], "the same commands however the text is cut");
    }
    bool good = !whole.failed && !whole.nerr;
    dstr_free(&whole.what); dstr_free(&cut.what);
    return good;
}

// a valid text with one byte replaced by anything
static const char *const good[] = {
    [0] = "a LOGIN user \"pa\\\"ss\"\r\nb SELECT INBOX (QRESYNC (7 20 1:4 (1,2 4,9)))\r\n",
    [1] = "a APPEND Box (\\Seen kw) \"02-Mar-1999 10:20:30 -0130\" {3}\r\nabc\r\nb NOOP\r\n",
    [2] = "a UID FETCH 1:*,7 (UID FLAGS BODY.PEEK[1.2.HEADER.FIELDS.NOT (To \"x\")]<0.9>) (CHANGEDSINCE 12)\r\n",
    [3] = "a SEARCH CHARSET x OR NOT SEEN (SINCE 1-Feb-2003 UID 4) MODSEQ 9\r\n",
    [4] = "a UID STORE 1:2 (UNCHANGEDSINCE 5) -FLAGS.SILENT (\\Seen \\Ext kw)\r\nb LIST \"\" %*\r\n",
    [5] = "a STATUS \"a b\" (MESSAGES UNSEEN)\r\nb COPY 4 inBox\r\nc IDLE\r\nDONE\r\nd UID EXPUNGE 4:9\r\n",
    [6] = "a LOGIN {2}\r\nxy {0}\r\n\r\nb ENABLE CONDSTORE\r\n",
};
static const char *const rgood[] = {
    [0] = "* 3 FETCH (UID 5 FLAGS (\\Seen kw \\Recent) BODY[] {3}\r\nabc MODSEQ (7))\r\n* 3 EXPUNGE\r\n",
    [1] = "* 1 FETCH (INTERNALDATE \"12-Dec-2020 01:02:03 +0100\" RFC822.SIZE 9 RFC822 \"x\")\r\n",
    [2] = "* LIST (\\Noselect \\x) \"/\" Box\r\n* LSUB () NIL \"a\\\\b\"\r\n",
    [3] = "* OK [PERMANENTFLAGS (\\Seen \\*)] hi\r\na OK [READ-WRITE] ok\r\n",
    [4] = "* STATUS Box (MESSAGES 1 UIDNEXT 4)\r\n* SEARCH 1 4 (MODSEQ 9)\r\n* FLAGS (\\Seen)\r\n",
    [5] = "a OK [COPYUID 7 1:3 4,5,6] x\r\n* VANISHED (EARLIER) 1:4,9\r\n* ENABLED QRESYNC\r\n",
    [6] = "+ go\r\na BAD [APPENDUID 1 2] y\r\n* BYE\r\n* CAPABILITY IMAP4rev1 IDLE\r\n* XKEYSYNC DELETED a\r\n",
};
void h_mut(void){
    const char *p = RESP ? rgood[PFX] : good[PFX];
    char text[128];
    size_t len = strlen(p);
    memcpy(text, p, len);
    size_t i = nd_pick((unsigned)len - 1);
    text[i] = (char)nd_u8();
    if(both(text, len, i, i + 1)) VH_REACH("understood");
    VH_REACH("read");
}

void h_read(void){
    const char *p = RESP ? rpfx[PFX] : pfx[PFX];
    const char *sfx = RESP ? "\r\n* 1 EXISTS\r\n" : "\r\nb NOOP\r\n";
    char text[96];
    size_t np = strlen(p), len = np;
    memcpy(text, p, np);
    nd_bytes(text + len, N); len += N;
    memcpy(text + len, sfx, strlen(sfx)); len += strlen(sfx);

    both(text, len, np, np + N + 2);
    VH_REACH("read");
}

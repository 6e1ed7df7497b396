// IMAP commands and responses: what is written means exactly what was asked
// for, is the same however small the buffer, and a copy is the same thing
//@ property P31
//@ engine sx
//@ src dstr libimap/expression.c libimap/extension.c libimap/read.c libimap/write.c gen/libimap/generated/imap_scan.c gen/libimap/generated/imap_parse.c
//@ gen imap
//@ nop imf_hdrs_free mime_param_free mime_content_type_free
//@ stub _fmt_dstr_dbg
//@ assume: quoting the offending input in an error message is checked by P10
//@ bounds: canonical texts covering every command and response the grammar has, with any one letter or digit replaced by any other; strings of up to 3 arbitrary bytes in every place a string can be put; buffers of 3 to 16 bytes
//@ entry h_same@0 defs=T=0 leak=1
//@ entry h_same@8 defs=T=8 leak=1
//@ entry h_same@16 defs=T=16 leak=1
//@ entry h_same@24 defs=T=24 leak=1
//@ entry h_same@32 defs=T=32 leak=1
//@ entry h_same@40 defs=T=40 leak=1
//@ entry h_same@48 defs=T=48 leak=1
//@ entry h_same@56 defs=T=56 leak=1
//@ entry h_same@64 defs=T=64 leak=1
//@ entry h_same@72 defs=T=72 leak=1
//@ entry h_same@80 defs=T=80 leak=1
//@ entry h_same@88 defs=T=88 leak=1
//@ entry h_same@96 defs=T=96 leak=1
//@ entry h_same@r_0 defs=T=0,RESP=1 leak=1
//@ entry h_same@r_8 defs=T=8,RESP=1 leak=1
//@ entry h_same@r_16 defs=T=16,RESP=1 leak=1
//@ entry h_same@r_24 defs=T=24,RESP=1 leak=1
//@ entry h_same@r_32 defs=T=32,RESP=1 leak=1
//@ entry h_same@r_40 defs=T=40,RESP=1 leak=1
//@ entry h_same@r_48 defs=T=48,RESP=1 leak=1
//@ entry h_same@r_56 defs=T=56,RESP=1 leak=1
//@ entry h_str@login_user defs=P=0,N=2 leak=1
//@ entry h_str@login_user+ defs=P=0,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@login_pass defs=P=1,N=2 leak=1
//@ entry h_str@login_pass+ defs=P=1,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@tag defs=P=2,N=2 leak=1
//@ entry h_str@tag+ defs=P=2,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@select defs=P=3,N=2 leak=1
//@ entry h_str@select+ defs=P=3,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@select2 defs=P=4,N=2 leak=1
//@ entry h_str@select2+ defs=P=4,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@list_ref defs=P=5,N=2 leak=1
//@ entry h_str@list_ref+ defs=P=5,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@list_pat defs=P=6,N=2 leak=1
//@ entry h_str@list_pat+ defs=P=6,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@append defs=P=7,N=2 leak=1
//@ entry h_str@append+ defs=P=7,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@search defs=P=8,N=2 leak=1
//@ entry h_str@search+ defs=P=8,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@header defs=P=9,N=2 leak=1
//@ entry h_str@header+ defs=P=9,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@charset defs=P=10,N=2 leak=1
//@ entry h_str@charset+ defs=P=10,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@keyword defs=P=11,N=2 leak=1
//@ entry h_str@keyword+ defs=P=11,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@flag_kw defs=P=12,N=2 leak=1
//@ entry h_str@flag_kw+ defs=P=12,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@flag_ext defs=P=13,N=2 leak=1
//@ entry h_str@flag_ext+ defs=P=13,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@enable defs=P=14,N=2 leak=1
//@ entry h_str@enable+ defs=P=14,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@fetch_hdr defs=P=15,N=2 leak=1
//@ entry h_str@fetch_hdr+ defs=P=15,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@xkeyadd defs=P=16,N=2 leak=1
//@ entry h_str@xkeyadd+ defs=P=16,N=3 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_text defs=P=0,N=2,RESP=1 leak=1
//@ entry h_str@r_text+ defs=P=0,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_st_tag defs=P=1,N=2,RESP=1 leak=1
//@ entry h_str@r_st_tag+ defs=P=1,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_code_name defs=P=2,N=2,RESP=1 leak=1
//@ entry h_str@r_code_name+ defs=P=2,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_code_text defs=P=3,N=2,RESP=1 leak=1
//@ entry h_str@r_code_text+ defs=P=3,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_list_box defs=P=4,N=2,RESP=1 leak=1
//@ entry h_str@r_list_box+ defs=P=4,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_list_sep defs=P=5,N=2,RESP=1 leak=1
//@ entry h_str@r_list_sep+ defs=P=5,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_mflag_ext defs=P=6,N=2,RESP=1 leak=1
//@ entry h_str@r_mflag_ext+ defs=P=6,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_pflag_kw defs=P=7,N=2,RESP=1 leak=1
//@ entry h_str@r_pflag_kw+ defs=P=7,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_fflag_kw defs=P=8,N=2,RESP=1 leak=1
//@ entry h_str@r_fflag_kw+ defs=P=8,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_capa defs=P=9,N=2,RESP=1 leak=1
//@ entry h_str@r_capa+ defs=P=9,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_rfc822 defs=P=10,N=2,RESP=1 leak=1
//@ entry h_str@r_rfc822+ defs=P=10,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_body defs=P=11,N=2,RESP=1 leak=1
//@ entry h_str@r_body+ defs=P=11,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_status_box defs=P=12,N=2,RESP=1 leak=1
//@ entry h_str@r_status_box+ defs=P=12,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_xk_created defs=P=13,N=2,RESP=1 leak=1
//@ entry h_str@r_xk_created+ defs=P=13,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_xk_deleted defs=P=14,N=2,RESP=1 leak=1
//@ entry h_str@r_xk_deleted+ defs=P=14,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_str@r_plus defs=P=15,N=2,RESP=1 leak=1
//@ entry h_str@r_plus+ defs=P=15,N=3,RESP=1 leak=1 tier=thorough timeout=1500
//@ entry h_pieces leak=1
//@ entry h_pieces@r defs=RESP=1 leak=1
//@ entry h_envelope leak=1
//@ entry h_envelope_wrapped leak=1
#include "vh.h"
#include "libimap/libimap.h"

#ifndef T
#define T 0
#endif
#define PER 8
#ifndef N
#define N 2
#endif
#ifndef RESP
#define RESP 0
#endif

derr_type_t _fmt_dstr_dbg(const fmt_i *iface, writer_i *out){ (void)iface; (void)out; return E_NONE; }

static const char *const texts[] = {
    "a CAPABILITY", "a NOOP", "a LOGOUT", "a STARTTLS",
    "a LOGIN us \"p (d\"",
    "a LOGIN {3}\r\nu\nr p",
    "a SELECT Box",
    "a EXAMINE INBOX",
    "a SELECT x (CONDSTORE)",
    "a EXAMINE x (QRESYNC (7 20))",
    "a SELECT x (QRESYNC (7 20 1:4,8))",
    "a SELECT x (QRESYNC (7 20 1:4 (1,2 4,9)))",
    "a CREATE Box", "a DELETE Box", "a RENAME Old New",
    "a SUBSCRIBE Box", "a UNSUBSCRIBE Box",
    "a LIST \"\" \"a*\"", "a LIST Ref \"%\"", "a LSUB Ref \"b%c\"",
    "a STATUS Box (MESSAGES RECENT UIDNEXT UIDVALIDITY UNSEEN HIGHESTMODSEQ)",
    "a STATUS Box (MESSAGES)", "a STATUS Box (RECENT)", "a STATUS Box (UIDNEXT)",
    "a STATUS Box (UIDVALIDITY)", "a STATUS Box (UNSEEN)", "a STATUS Box (HIGHESTMODSEQ)",
    "a APPEND Box () {3}\r\nabc",
    "a APPEND Box (\\Answered \\Flagged \\Deleted \\Seen \\Draft kw \\Ext) {0}\r\n",
    "a APPEND Box (kw) \"12-Mar-1999 10:20:30 -0130\" {1}\r\nx",
    "a APPEND Box () \" 2-Nov-2019 01:02:03 +1159\" {1}\r\nx",
    "a APPEND Box () \"12-Nov-2019 01:02:03 -0021\" {1}\r\nx",
    "a CHECK", "a CLOSE", "a EXPUNGE", "a UID EXPUNGE 4:9,12",
    "a SEARCH ALL", "a UID SEARCH SEEN", "a SEARCH CHARSET utf UNSEEN",
    "a SEARCH ANSWERED DELETED FLAGGED NEW OLD RECENT SEEN DRAFT",
    "a SEARCH UNANSWERED UNDELETED UNFLAGGED UNSEEN UNDRAFT",
    "a SEARCH BCC xy", "a SEARCH BODY xy", "a SEARCH CC xy", "a SEARCH FROM xy",
    "a SEARCH KEYWORD xy", "a SEARCH SUBJECT xy", "a SEARCH TEXT xy", "a SEARCH TO xy",
    "a SEARCH UNKEYWORD xy", "a SEARCH HEADER ab xy",
    "a SEARCH BEFORE 3-Feb-2003", "a SEARCH ON 13-Jan-2003", "a SEARCH SINCE 1-Dec-2003",
    "a SEARCH SENTBEFORE 3-Oct-2003", "a SEARCH SENTON 13-May-2003", "a SEARCH SENTSINCE 1-Jul-2003",
    "a SEARCH LARGER 43", "a SEARCH SMALLER 12", "a SEARCH UID 4:6", "a SEARCH 1:3,*",
    "a SEARCH NOT SEEN", "a SEARCH OR SEEN DRAFT", "a SEARCH (SEEN NOT DRAFT) OLD",
    "a SEARCH OR NOT SEEN OR (OLD NEW) 3", "a SEARCH MODSEQ 92",
    "a SEARCH MODSEQ \"xy\" all 9", "a SEARCH MODSEQ \"x\" priv 9", "a SEARCH MODSEQ \"x\" shared 9",
    "a FETCH 1 (ENVELOPE FLAGS INTERNALDATE UID RFC822 RFC822.HEADER)",
    "a UID FETCH 1:*,7 (RFC822.SIZE RFC822.TEXT BODY BODYSTRUCTURE MODSEQ)",
    "a FETCH 2 (ENVELOPE)", "a FETCH 2 (FLAGS)", "a FETCH 2 (INTERNALDATE)", "a FETCH 2 (UID)",
    "a FETCH 2 (RFC822)", "a FETCH 2 (RFC822.HEADER)", "a FETCH 2 (RFC822.SIZE)",
    "a FETCH 2 (RFC822.TEXT)", "a FETCH 2 (BODY)", "a FETCH 2 (BODYSTRUCTURE)", "a FETCH 2 (MODSEQ)",
    "a FETCH 2 (BODY[] BODY.PEEK[] BODY[3.4])",
    "a FETCH 2 (BODY[TEXT]<1.22>)", "a FETCH 2 (BODY[HEADER])", "a FETCH 2 (BODY.PEEK[1.MIME])",
    "a FETCH 2 (BODY[1.2.HEADER.FIELDS (To Cc)])",
    "a FETCH 2 (BODY.PEEK[HEADER.FIELDS.NOT (To \"a b(\")]<0.9>)",
    "a FETCH 2 (UID) (CHANGEDSINCE 12)", "a UID FETCH 2 (UID) (CHANGEDSINCE 12 VANISHED)",
    "a STORE 1:2 FLAGS (\\Seen)", "a UID STORE 1 +FLAGS (kw)", "a STORE 1,5 -FLAGS.SILENT (\\Ext)",
    "a STORE *:4 (UNCHANGEDSINCE 15) +FLAGS.SILENT ()",
    "a COPY 14 Box", "a UID COPY 1:3 INBOX",
    "a ENABLE CONDSTORE QRESYNC", "a UNSELECT", "a IDLE",
    "a XKEYSYNC", "a XKEYSYNC ab cd", "a XKEYADD {3}\r\nxyz",
};
static const char *const rtexts[] = {
    "* OK hi there", "ab NO no", "* BAD b", "* PREAUTH p", "* BYE bye",
    "+ go on", "+ [ALERT] go",
    "* OK [ALERT] x", "* OK [PARSE] x", "a OK [READ-ONLY] x", "a OK [READ-WRITE] x", "a NO [TRYCREATE] x",
    "* OK [UIDNEXT 12] x", "* OK [UIDVALIDITY 34] x", "* OK [UNSEEN 56] x",
    "* OK [PERMANENTFLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft \\* kw \\Ext)] x",
    "* OK [CAPABILITY IMAP4rev1 IDLE] x", "* OK [xy some text] x", "* OK [xyz] x",
    "* NO [UIDNOTSTICKY] x", "a OK [APPENDUID 12 34] x", "a OK [COPYUID 7 1:3,5 4:6,9] x",
    "* OK [NOMODSEQ] x", "* OK [HIGHESTMODSEQ 123] x", "a OK [MODIFIED 1:3,5] x", "* OK [CLOSED] x",
    "* CAPABILITY IMAP4rev1 IDLE",
    "* LIST (\\NoInferiors \\Noselect \\Ext) \"/\" Box", "* LIST (\\Marked) \"\\\\\" \"a b\"",
    "* LSUB (\\Unmarked) \".\" INBOX", "* LSUB () \"\\\"\" x",
    "* STATUS Box (MESSAGES 12 RECENT 3 UIDNEXT 4 UIDVALIDITY 5 UNSEEN 6 HIGHESTMODSEQ 7)",
    "* STATUS Box (MESSAGES 12)", "* STATUS Box (RECENT 12)", "* STATUS Box (UIDNEXT 12)",
    "* STATUS Box (UIDVALIDITY 12)", "* STATUS Box (UNSEEN 12)", "* STATUS Box (HIGHESTMODSEQ 12)",
    "* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft kw \\Ext)",
    "* SEARCH", "* SEARCH 1 23", "* SEARCH 4 (MODSEQ 93)",
    "* 13 EXISTS", "* 13 EXPUNGE", "* 13 RECENT",
    "* 3 FETCH (FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft \\Recent kw \\Ext) UID 15)",
    "* 3 FETCH (UID 5 INTERNALDATE \"12-Dec-2020 01:02:03 +0100\")",
    "* 3 FETCH (RFC822 \"x y\")", "* 3 FETCH (RFC822 {3}\r\na\nb MODSEQ (71))",
    "* 3 FETCH (BODY[] {2}\r\n\r\n)", "* 3 FETCH (UID 4 BODY[] \"ab\")",
    "* ENABLED CONDSTORE QRESYNC",
    "* VANISHED 1:4,9", "* VANISHED (EARLIER) 41", "* XKEYSYNC OK",
    "* XKEYSYNC CREATED {3}\r\nxyz", "* XKEYSYNC DELETED abc",
};
#define NTEXTS (sizeof(texts)/sizeof(*texts))
#define NRTEXTS (sizeof(rtexts)/sizeof(*rtexts))

static extensions_t exts(void){
    return (extensions_t){
        .uidplus = EXT_STATE_ON, .enable = EXT_STATE_ON, .condstore = EXT_STATE_ON,
        .qresync = EXT_STATE_ON, .unselect = EXT_STATE_ON, .idle = EXT_STATE_ON,
        .xkey = EXT_STATE_ON,
    };
}

typedef struct { int n; bool failed; imap_cmd_t *c; imap_resp_t *r; } got_t;

// read text and keep the only thing in it
static got_t get(const char *text, size_t len){
    got_t g = {0};
    extensions_t x = exts();
    char *buf = malloc(len + 1);
    VH_ASSUME(buf);
    memcpy(buf, text, len);
    dstr_t in = dstr_from_cstrn(buf, len, false);
    link_t out = {0}, *l;
    derr_t e = E_OK;
    imap_cmd_reader_t cr; imap_resp_reader_t rr;
    if(RESP){
        IF_PROP(&e, imap_resp_reader_init(&rr, &x)){ VH_CHECK(0, "reader starts"); }
        e = imap_resp_read(&rr, in, &out);
    }else{
        IF_PROP(&e, imap_cmd_reader_init(&cr, &x)){ VH_CHECK(0, "reader starts"); }
        e = imap_cmd_read(&cr, in, &out);
    }
    if(is_error(e)){ g.failed = true; DROP_VAR(&e); }
    while((l = link_list_pop_first(&out))){
        if(RESP){
            imap_resp_t *r = CONTAINER_OF(l, imap_resp_t, link);
            if(g.n++) imap_resp_free(r); else g.r = r;
        }else{
            imap_cmd_t *c = CONTAINER_OF(l, imap_cmd_t, link);
            if(c->type == IMAP_CMD_PLUS_REQ){ imap_cmd_free(c); continue; }
            if(c->type == IMAP_CMD_ERROR) g.failed = true;
            if(g.n++) imap_cmd_free(c); else g.c = c;
        }
    }
    if(RESP) imap_resp_reader_free(&rr); else imap_cmd_reader_free(&cr);
    free(buf);
    return g;
}
static void drop(got_t *g){
    if(g->c) imap_cmd_free(g->c);
    if(g->r) imap_resp_free(g->r);
    *g = (got_t){0};
}
static derr_t print(got_t *g, dstr_t *out){
    extensions_t x = exts();
    return RESP ? imap_resp_print(g->r, out, &x) : imap_cmd_print(g->c, out, &x);
}
// commands are written with LITERAL+, which this reader does not know
static size_t no_plus(const dstr_t in, char *out){
    size_t n = 0;
    for(size_t i = 0; i < in.len; i++){
        char c = in.data[i];
        if(!RESP && c == '+' && i + 2 < in.len && in.data[i+1] == '}' && in.data[i+2] == '\r'){
            size_t k = i;
            while(k && in.data[k-1] >= '0' && in.data[k-1] <= '9') k--;
            if(k < i && k && in.data[k-1] == '{') continue;
        }
        out[n++] = c;
    }
    return n;
}
static char up(char c){ return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
static bool alnum(char c){ return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
// a character whose replacement is part of the same thing
static bool free_char(const char *p, size_t i){
    if(!alnum(p[i])) return false;
    size_t k = i;
    while(k > 0 && p[k-1] != ' ' && p[k-1] != '(') k--;
    if(p[k] == '{') return false;                   // the length of a literal
    if(p[k] == '\\') return p[k+1] == 'E';          // other flags get reordered
    return true;
}
static bool dated(const char *p){
    unsigned n = 0, d = 0;
    for(; *p; p++){ n += *p == ':'; d += *p == '-'; }
    return n == 2 || d == 2;
}

// any text accepted is written back as it was, up to the case of keywords
void h_same(void){
    size_t nt = RESP ? NRTEXTS : NTEXTS, last = T + PER < nt ? T + PER : nt;
    size_t t = T + nd_pick((unsigned)(last - T - 1));
    const char *p = RESP ? rtexts[t] : texts[t];
    char text[160], back[176];
    size_t len = strlen(p);
    memcpy(text, p, len);
    size_t nal = 0, at = 0;
    for(size_t i = 0; i < len; i++) nal += free_char(p, i);
    size_t k = nd_pick((unsigned)nal);
    if(k < nal){
        for(; ; at++) if(free_char(p, at) && k-- == 0) break;
        char c = (char)nd_u8();
        // the same kind of character
        if(p[at] <= '9') VH_ASSUME(c >= '1' && c <= '9');
        else VH_ASSUME((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'));
        text[at] = c;
    }
    memcpy(text + len, "\r\n", 2); len += 2;
    got_t g = get(text, len);
    bool orig = memcmp(text, p, len - 2) == 0;
    if(orig) VH_CHECK(!g.failed && g.n == 1, "the text is understood");
    if(!g.failed && g.n == 1){
        dstr_t out = {0};
        derr_t e = print(&g, &out);
        // but e.g. 25 o'clock may be refused
        if(!orig && dated(p) && p[at] <= '9' && is_error(e)){
            DROP_VAR(&e); dstr_free(&out); drop(&g);
            return;
        }
        VH_CHECK(!is_error(e), "what was read can be written");
        size_t n = no_plus(out, back);
        if(n == len){
            for(size_t i = 0; i < n; i++)
                VH_CHECK(up(back[i]) == up(text[i]), "what was read is written back");
        }else{
            // n:n is written as n
            VH_CHECK(p[at] <= '9' && n < len, "what was read is written back (length)");
        }
        if(!RESP){
            // a copy is the same
            derr_t e2 = E_OK;
            imap_cmd_t *cp = imap_cmd_copy(&e2, g.c);
            VH_CHECK(!is_error(e2) && cp, "a command can be copied");
            imap_cmd_free(g.c); g.c = cp;
            dstr_t out2 = {0};
            e2 = print(&g, &out2);
            VH_CHECK(!is_error(e2), "a copy can be written");
            VH_CHECK(out2.len == out.len, "a copy is the same thing");
            for(size_t i = 0; i < out.len && i < out2.len; i++)
                VH_CHECK(out.data[i] == out2.data[i], "a copy is the same thing");
            dstr_free(&out2);
        }
        dstr_free(&out);
    }
    drop(&g);
    VH_REACH("read");
}

#ifndef P
#define P 0
#endif
// a command or response with the string d in place P
#define STR(d) ie_dstr_new2(&e, (d))
static got_t build(const dstr_t d){
    derr_t e = E_OK;
    got_t g = { .n = 1 };
    imap_cmd_arg_t a = {0};
    imap_resp_arg_t r = {0};
    ie_dstr_t *x = NULL;
    if(!RESP){
        dstr_t tag = DSTR_LIT("a");
        imap_cmd_type_t t = IMAP_CMD_NOOP;
        switch(P){
            case 0: t = IMAP_CMD_LOGIN; a.login = ie_login_cmd_new(&e, STR(d), STR(DSTR_LIT("p"))); break;
            case 1: t = IMAP_CMD_LOGIN; a.login = ie_login_cmd_new(&e, STR(DSTR_LIT("u")), STR(d)); break;
            case 2: tag = d; break;
            case 3: t = IMAP_CMD_SELECT; a.select = ie_select_cmd_new(&e, ie_mailbox_new_noninbox(&e, STR(d)), NULL); break;
            case 4: t = IMAP_CMD_RENAME; a.rename = ie_rename_cmd_new(&e, ie_mailbox_new_noninbox(&e, STR(DSTR_LIT("o"))), ie_mailbox_new_noninbox(&e, STR(d))); break;
            case 5: t = IMAP_CMD_LIST; a.list = ie_list_cmd_new(&e, ie_mailbox_new_noninbox(&e, STR(d)), STR(DSTR_LIT("*"))); break;
            case 6: t = IMAP_CMD_LIST; a.list = ie_list_cmd_new(&e, ie_mailbox_new_noninbox(&e, STR(DSTR_LIT(""))), STR(d)); break;
            case 7: t = IMAP_CMD_APPEND; a.append = ie_append_cmd_new(&e, ie_mailbox_new_noninbox(&e, STR(DSTR_LIT("b"))), NULL, (imap_time_t){0}, STR(d)); break;
            case 8: t = IMAP_CMD_SEARCH; a.search = ie_search_cmd_new(&e, false, NULL, ie_search_dstr(&e, IE_SEARCH_BODY, STR(d))); break;
            case 9: t = IMAP_CMD_SEARCH; a.search = ie_search_cmd_new(&e, false, NULL, ie_search_header(&e, IE_SEARCH_HEADER, STR(DSTR_LIT("h")), STR(d))); break;
            case 10: t = IMAP_CMD_SEARCH; a.search = ie_search_cmd_new(&e, false, STR(d), ie_search_0(&e, IE_SEARCH_ALL)); break;
            case 11: t = IMAP_CMD_SEARCH; a.search = ie_search_cmd_new(&e, false, NULL, ie_search_dstr(&e, IE_SEARCH_KEYWORD, STR(d))); break;
            case 12: t = IMAP_CMD_STORE; a.store = ie_store_cmd_new(&e, false, ie_seq_set_new(&e, 1, 1), NULL, 1, false, ie_flags_add_kw(&e, ie_flags_new(&e), STR(d))); break;
            case 13: t = IMAP_CMD_STORE; a.store = ie_store_cmd_new(&e, false, ie_seq_set_new(&e, 1, 1), NULL, 1, false, ie_flags_add_ext(&e, ie_flags_new(&e), STR(d))); break;
            case 14: t = IMAP_CMD_ENABLE; a.enable = STR(d); break;
            case 15: t = IMAP_CMD_FETCH; a.fetch = ie_fetch_cmd_new(&e, false, ie_seq_set_new(&e, 1, 1), ie_fetch_attrs_add_extra(&e, ie_fetch_attrs_new(&e),
                        ie_fetch_extra_new(&e, false, ie_sect_new(&e, NULL, ie_sect_txt_new(&e, IE_SECT_HDR_FLDS, STR(d))), NULL)), NULL); break;
            case 16: t = IMAP_CMD_XKEYADD; a.xkeyadd = STR(d); break;
        }
        g.c = imap_cmd_new(&e, STR(tag), t, a);
    }else{
        imap_resp_type_t t = IMAP_RESP_STATUS_TYPE;
        dstr_t ok = DSTR_LIT("ok");
        ie_st_code_arg_t c = {0};
        switch(P){
            case 0: r.status_type = ie_st_resp_new(&e, NULL, IE_ST_OK, NULL, STR(d)); break;
            case 1: r.status_type = ie_st_resp_new(&e, STR(d), IE_ST_OK, NULL, STR(ok)); break;
            case 2: c.atom.name = STR(d); r.status_type = ie_st_resp_new(&e, NULL, IE_ST_OK, ie_st_code_new(&e, IE_ST_CODE_ATOM, c), STR(ok)); break;
            case 3: c.atom.name = STR(DSTR_LIT("xy")); c.atom.text = STR(d);
                    r.status_type = ie_st_resp_new(&e, NULL, IE_ST_OK, ie_st_code_new(&e, IE_ST_CODE_ATOM, c), STR(ok)); break;
            case 4: t = IMAP_RESP_LIST; r.list = ie_list_resp_new(&e, NULL, '/', ie_mailbox_new_noninbox(&e, STR(d))); break;
            case 5: t = IMAP_RESP_LIST; r.list = ie_list_resp_new(&e, NULL, d.data[0], ie_mailbox_new_noninbox(&e, STR(ok))); break;
            case 6: t = IMAP_RESP_LSUB; r.lsub = ie_list_resp_new(&e, ie_mflags_add_ext(&e, ie_mflags_new(&e), STR(d)), '/', ie_mailbox_new_noninbox(&e, STR(ok))); break;
            case 7: c.pflags = ie_pflags_add_kw(&e, ie_pflags_new(&e), STR(d)); r.status_type = ie_st_resp_new(&e, NULL, IE_ST_OK, ie_st_code_new(&e, IE_ST_CODE_PERMFLAGS, c), STR(ok)); break;
            case 8: t = IMAP_RESP_FETCH; r.fetch = ie_fetch_resp_flags(&e, ie_fetch_resp_seq_num(&e, ie_fetch_resp_new(&e), 1), ie_fflags_add_kw(&e, ie_fflags_new(&e), STR(d))); break;
            case 9: t = IMAP_RESP_CAPA; r.capa = STR(d); break;
            case 10: t = IMAP_RESP_FETCH; r.fetch = ie_fetch_resp_rfc822(&e, ie_fetch_resp_seq_num(&e, ie_fetch_resp_new(&e), 1), STR(d)); break;
            case 11: t = IMAP_RESP_FETCH; r.fetch = ie_fetch_resp_add_extra(&e, ie_fetch_resp_seq_num(&e, ie_fetch_resp_new(&e), 1), ie_fetch_resp_extra_new(&e, NULL, NULL, STR(d))); break;
            case 12: t = IMAP_RESP_STATUS; r.status = ie_status_resp_new(&e, ie_mailbox_new_noninbox(&e, STR(d)), ie_status_attr_resp_new_32(&e, IE_STATUS_ATTR_UNSEEN, 4)); break;
            case 13: t = IMAP_RESP_XKEYSYNC; r.xkeysync = ie_xkeysync_resp_new(&e, STR(d), NULL); break;
            case 14: t = IMAP_RESP_XKEYSYNC; r.xkeysync = ie_xkeysync_resp_new(&e, NULL, STR(d)); break;
            case 15: t = IMAP_RESP_PLUS; r.plus = ie_plus_resp_new(&e, NULL, STR(d)); break;
        }
        g.r = imap_resp_new(&e, t, r);
    }
    (void)x;
    VH_CHECK(!is_error(e), "a command can be built");
    return g;
}
static dstr_t box(ie_mailbox_t *m){ return *ie_mailbox_name(m); }
static dstr_t one(ie_dstr_t *d){ return d && !d->next ? d->dstr : (dstr_t){0}; }
// what is in that place
static dstr_t place(got_t *g){
    if(!RESP){
        imap_cmd_arg_t a = g->c->arg;
        switch(P){
            case 0: return a.login->user->dstr;
            case 1: return a.login->pass->dstr;
            case 2: return g->c->tag->dstr;
            case 3: return box(a.select->m);
            case 4: return box(a.rename->new);
            case 5: return box(a.list->m);
            case 6: return a.list->pattern->dstr;
            case 7: return a.append->content->dstr;
            case 8: return a.search->search_key->param.dstr->dstr;
            case 9: return a.search->search_key->param.header.value->dstr;
            case 10: return a.search->charset->dstr;
            case 11: return a.search->search_key->param.dstr->dstr;
            case 12: return one(a.store->flags->keywords);
            case 13: return one(a.store->flags->extensions);
            case 14: return one(a.enable);
            case 15: return one(a.fetch->attr->extras->sect->sect_txt->headers);
            case 16: return a.xkeyadd->dstr;
        }
    }else{
        imap_resp_arg_t r = g->r->arg;
        switch(P){
            case 0: return r.status_type->text->dstr;
            case 1: return r.status_type->tag->dstr;
            case 2: return r.status_type->code->arg.atom.name->dstr;
            case 3: return r.status_type->code->arg.atom.text->dstr;
            case 4: return box(r.list->m);
            case 5: return (dstr_t){ .data = &r.list->sep, .len = 1 };
            case 6: return one(r.lsub->mflags->extensions);
            case 7: return one(r.status_type->code->arg.pflags->keywords);
            case 8: return one(r.fetch->flags->keywords);
            case 9: return one(r.capa);
            case 10: return r.fetch->rfc822->dstr;
            case 11: return r.fetch->extras->content->dstr;
            case 12: return box(r.status->m);
            case 13: return r.xkeysync->created->dstr;
            case 14: return one(r.xkeysync->deleted);
            case 15: return r.plus->text->dstr;
        }
    }
    return (dstr_t){0};
}
static int kind(got_t *g){
    if(!RESP) return (int)g->c->type;
    if(g->r->type == IMAP_RESP_STATUS_TYPE){
        ie_st_code_t *c = g->r->arg.status_type->code;
        return 1000 + (c ? 1 + (int)c->type : 0);
    }
    return (int)g->r->type;
}

// any string at all in any place: either refused, or written such that it is
// read back as the same thing
void h_str(void){
    char data[N + 1];
    nd_bytes(data, N);
    size_t len = P == 5 && RESP ? 1 : nd_pick(N);
    // nobody asks for an empty atom or text, nor for a text which is a code
    if(RESP ? P < 4 || (P > 5 && P < 10) || P > 13 : P == 2 || (P > 10 && P < 15)) VH_ASSUME(len);
    if(RESP && (P == 0 || P == 15)) VH_ASSUME(data[0] != '[');
    dstr_t d = dstr_from_cstrn(data, len, false);
    got_t g = build(d);
    dstr_t out = {0};
    derr_t e = print(&g, &out);
    if(is_error(e)){
        DROP_VAR(&e);
        VH_REACH("refused or written");
    }else{
        char back[128];
        size_t n = no_plus(out, back);
        got_t h = get(back, n);
        VH_CHECK(!h.failed, "what was written can be read");
        VH_CHECK(h.n == 1, "what was written is one thing");
        if(!h.failed && h.n == 1){
            VH_CHECK(kind(&h) == kind(&g), "what was written is the same thing");
            if(kind(&h) == kind(&g)){
                dstr_t s = place(&h);
                VH_CHECK(s.len == len, "what was written is read back (length)");
                for(size_t i = 0; i < len && i < s.len; i++)
                    VH_CHECK(s.data[i] == data[i], "what was written is read back");
            }
        }
        drop(&h);
        VH_REACH("refused or written");
    }
    drop(&g);
    dstr_free(&out);
}

// the same bytes come out however small the buffers
void h_pieces(void){
    size_t t = nd_pick((unsigned)(RESP ? NRTEXTS : NTEXTS) - 1);
    const char *p = RESP ? rtexts[t] : texts[t];
    char text[160], all[200];
    size_t len = strlen(p), n = 0, skip = 0, want = 1;
    memcpy(text, p, len); memcpy(text + len, "\r\n", 2); len += 2;
    got_t g = get(text, len);
    if(g.failed || g.n != 1){ drop(&g); return; } // h_same
    extensions_t x = exts();
    dstr_t out = {0};
    derr_t e = print(&g, &out);
    if(is_error(e)){ DROP_VAR(&e); drop(&g); return; }
    static const unsigned char sizes[] = { 3, 4, 5, 7, 16 };
    size_t size = sizes[nd_pick(4)];
    char *buf = malloc(size); // exactly
    VH_ASSUME(buf);
    for(unsigned i = 0; want && i < 80; i++){
        dstr_t o = { .data = buf, .size = size, .fixed_size = true };
        size_t before = skip;
        e = RESP ? imap_resp_write(g.r, &o, &skip, &want, &x) : imap_cmd_write(g.c, &o, &skip, &want, &x);
        VH_CHECK(!is_error(e), "each piece can be written");
        VH_CHECK(skip > before, "each piece gets further");
        VH_CHECK(o.len <= size, "no more than what fits");
        for(size_t k = 0; k < o.len && n < sizeof(all); k++) all[n++] = buf[k];
    }
    VH_CHECK(!want, "it is written in the end");
    VH_CHECK(n == out.len, "the same bytes whatever the buffer (length)");
    for(size_t i = 0; i < n && i < out.len; i++)
        VH_CHECK(all[i] == out.data[i], "the same bytes whatever the buffer");
    free(buf);
    dstr_free(&out);
    drop(&g);
    VH_REACH("written");
}

// ---- ENVELOPE ----
typedef struct { const char *p; size_t n, i; bool bad; } tok_t;
static void ch(tok_t *t, char c){
    if(t->i < t->n && t->p[t->i] == c) t->i++;
    else t->bad = true;
}
static bool peek(tok_t *t, char c){ return t->i < t->n && t->p[t->i] == c; }
// one nstring, which must be data, or NIL if data is NULL
static void nstr(tok_t *t, const dstr_t *d){
    if(!d){ ch(t, 'N'); ch(t, 'I'); ch(t, 'L'); return; }
    if(peek(t, '"')){
        t->i++;
        for(size_t k = 0; k < d->len; k++){
            if(d->data[k] == '"' || d->data[k] == '\\') ch(t, '\\');
            // these can't be quoted
            if(d->data[k] == '\r' || d->data[k] == '\n' || !d->data[k]) t->bad = true;
            ch(t, d->data[k]);
        }
        ch(t, '"');
        return;
    }
    ch(t, '{');
    size_t len = 0;
    while(t->i < t->n && t->p[t->i] >= '0' && t->p[t->i] <= '9') len = len * 10 + (size_t)(t->p[t->i++] - '0');
    ch(t, '}'); ch(t, '\r'); ch(t, '\n');
    if(len != d->len) t->bad = true;
    for(size_t k = 0; k < d->len; k++) ch(t, d->data[k]);
}
static ie_dstr_t *maybe(derr_t *e, bool have, const dstr_t d){ return have ? ie_dstr_new2(e, d) : NULL; }

static void envelope(bool wrapped){
    char a[2], b[1];
    nd_bytes(a, 2); nd_bytes(b, 1);
    unsigned which = nd_pick(9); // the field with arbitrary contents
    unsigned have = nd_pick(3);
    dstr_t x = dstr_from_cstrn(a, 2, false), y = dstr_from_cstrn(b, 1, false);
    dstr_t fix = DSTR_LIT("f");
    dstr_t f[10];
    bool h[10];
    for(unsigned i = 0; i < 10; i++){ f[i] = i == which ? x : fix; h[i] = i == which || !have || (i + have) % 3; }
    derr_t e = E_OK;
    ie_addr_t *ad[6];
    for(unsigned i = 0; i < 6; i++){
        ad[i] = h[i] ? ie_addr_new(&e, maybe(&e, have != 1, f[i]), ie_dstr_new2(&e, y), ie_dstr_new2(&e, f[i])) : NULL;
        if(i == 3 && ad[i]) ad[i] = ie_addr_add(&e, ad[i], ie_addr_new(&e, NULL, ie_dstr_new2(&e, fix), ie_dstr_new2(&e, y)));
    }
    ie_envelope_t *env = ie_envelope_new(&e, maybe(&e, h[6], f[6]), maybe(&e, h[7], f[7]),
        ad[0], ad[1], ad[2], ad[3], ad[4], ad[5], maybe(&e, h[8], f[8]), maybe(&e, h[9], f[9]));
    ie_fetch_resp_t *fr = ie_fetch_resp_envelope(&e, ie_fetch_resp_seq_num(&e, ie_fetch_resp_new(&e), 1), env);
    imap_resp_t *r = imap_resp_new(&e, IMAP_RESP_FETCH, (imap_resp_arg_t){ .fetch = fr });
    VH_CHECK(!is_error(e), "an envelope can be built");
    dstr_t out = {0};
    extensions_t xt = exts();
    e = imap_resp_print(r, &out, &xt);
    VH_CHECK(!is_error(e), "an envelope can be written");
    tok_t t = { .p = out.data, .n = out.len };
    static const char head[] = "* 1 FETCH (ENVELOPE (";
    for(size_t i = 0; i + 1 < sizeof(head); i++) ch(&t, head[i]);
    bool own = true;
    nstr(&t, h[6] ? &f[6] : NULL); ch(&t, ' ');
    nstr(&t, h[7] ? &f[7] : NULL); ch(&t, ' ');
    for(unsigned i = 0; i < 6; i++){
        if(!h[i]){ nstr(&t, NULL); ch(&t, ' '); continue; }
        ch(&t, '(');
        for(unsigned k = 0; k < (i == 3 ? 2 : 1); k++){
            bool w = peek(&t, '(');
            if(w) t.i++; else own = false;
            if(k && !w) ch(&t, ' ');
            nstr(&t, k || have == 1 ? NULL : &f[i]); ch(&t, ' ');
            nstr(&t, NULL); ch(&t, ' ');
            nstr(&t, k ? &fix : &y); ch(&t, ' ');
            nstr(&t, k ? &y : &f[i]);
            if(w) ch(&t, ')');
        }
        ch(&t, ')'); ch(&t, ' ');
    }
    nstr(&t, h[8] ? &f[8] : NULL); ch(&t, ' ');
    nstr(&t, h[9] ? &f[9] : NULL);
    ch(&t, ')'); ch(&t, ')'); ch(&t, '\r'); ch(&t, '\n');
    if(!wrapped){
        VH_CHECK(!t.bad, "an envelope has its fields in order");
        VH_CHECK(t.i == out.len, "an envelope has nothing else");
    }else{
        VH_CHECK(own, "each address of an envelope is a list of its own");
    }
    imap_resp_free(r);
    dstr_free(&out);
    VH_REACH("written");
}
void h_envelope(void){ envelope(false); }
void h_envelope_wrapped(void){ envelope(true); }

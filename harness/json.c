// JSON: exactly the grammar of RFC 8259 (UTF-8 bytes not inspected inside strings)
//@ property P04
//@ engine sx
//@ nop _fmt_dstr_dbg
//@ src dstr libdstr/json.c
//@ bounds: acceptance and structure: every byte string of 0..5 bytes (thorough 6), and every 3-5 byte continuation of an open array, object, object with a member, nested array, number and word; string bodies: every body of up to 6 bytes; \u escapes: every single escape, pairs with lower-case letters in the first two places and decimal digits in the last two; encoding: every string of up to 2 bytes and every 3 byte string starting with E0, ED, EE or EF (thorough: every string of 3 or 4 bytes with a 3 or 4 byte lead); split into two chunks at 0, 1, 2 or the end; preallocated and fixed-size parser memory as well as heap text
//@ entry h_accept defs=N=5,PRE=0 jobs=2
//@ entry h_accept@arr defs=N=6,PRE=1 jobs=2
//@ entry h_accept@obj defs=N=8,PRE=2
//@ entry h_accept@obj2 defs=N=12,PRE=3
//@ entry h_accept@num defs=N=7,PRE=4
//@ entry h_accept@nest defs=N=8,PRE=5 jobs=2
//@ entry h_accept@word defs=N=6,PRE=6
//@ entry h_accept@deep defs=N=6,PRE=0 jobs=8 timeout=2500 tier=thorough
//@ entry h_strbody defs=N=6
//@ entry h_uescape defs=N=12 jobs=2
//@ entry h_uescape1 defs=N=6
//@ entry h_encode defs=N=2
//@ entry h_encode@3 defs=N=3,LEAD=0xe0,FEW=1 jobs=3
//@ entry h_encode@3all defs=N=3,LEAD=0xe0 jobs=8 tier=thorough
//@ entry h_encode@4 defs=N=4,LEAD=0xf0 jobs=8 timeout=2000 tier=thorough
//@ assume: parser node memory preallocated (12 nodes); text memory preallocated and fixed
#include "vh.h"
#include "libdstr/libdstr.h"

static bool ws(char c){ return c==' '||c=='\t'||c=='\n'||c=='\r'; }
static bool dig(char c){ return c>='0'&&c<='9'; }
static bool hexd(char c){ return dig(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
static unsigned hv(char c){ return dig(c)?(unsigned)(c-'0'):(c>='a')?(unsigned)(c-'a'+10):(unsigned)(c-'A'+10); }

// reference acceptor: one pass with an explicit stack.
typedef struct { bool ok; unsigned nodes; char roottype; } ref_t;

enum { VAL, VAL_OR_CLOSE, KEY, KEY_OR_CLOSE, COLON, NEXT, DONE, STR, ESC, UHEX, LIT,
       N_MINUS, N_ZERO, N_INT, N_DOT, N_FRAC, N_E, N_ES, N_EXP, BAD };

static ref_t ref_json(const char *s, size_t n){
    ref_t r = {0};
    char stack[N + 1]; unsigned depth = 0;
    int st = VAL; bool iskey = false; const char *lit = ""; unsigned lp = 0, uh = 0;
    for(size_t i = 0; i < N; i++){
        if(i >= n) break;
        char c = s[i];
        // a number ends at the first byte which cannot continue it
        if(st >= N_MINUS && st <= N_EXP){
            int nx = BAD;
            switch(st){
                case N_MINUS: nx = c=='0' ? N_ZERO : dig(c) ? N_INT : BAD; break;
                case N_ZERO: nx = c=='.' ? N_DOT : (c=='e'||c=='E') ? N_E : -1; break;
                case N_INT: nx = dig(c) ? N_INT : c=='.' ? N_DOT : (c=='e'||c=='E') ? N_E : -1; break;
                case N_DOT: nx = dig(c) ? N_FRAC : BAD; break;
                case N_FRAC: nx = dig(c) ? N_FRAC : (c=='e'||c=='E') ? N_E : -1; break;
                case N_E: nx = dig(c) ? N_EXP : (c=='+'||c=='-') ? N_ES : BAD; break;
                case N_ES: nx = dig(c) ? N_EXP : BAD; break;
                default: nx = dig(c) ? N_EXP : -1; break;
            }
            if(nx != -1){ st = nx; continue; }
            st = depth ? NEXT : DONE;
        }
        switch(st){
            case VAL: case VAL_OR_CLOSE:
                if(ws(c)) break;
                if(c == ']' && st == VAL_OR_CLOSE){ depth--; st = depth ? NEXT : DONE; break; }
                r.nodes++;
                if(r.nodes == 1) r.roottype = dig(c) ? '-' : c;
                if(c == '"'){ st = STR; iskey = false; }
                else if(c == '-') st = N_MINUS;
                else if(c == '0') st = N_ZERO;
                else if(dig(c)) st = N_INT;
                else if(c == '['){ stack[depth++] = '['; st = VAL_OR_CLOSE; }
                else if(c == '{'){ stack[depth++] = '{'; st = KEY_OR_CLOSE; }
                else if(c == 't'){ lit = "rue"; lp = 0; st = LIT; }
                else if(c == 'f'){ lit = "alse"; lp = 0; st = LIT; }
                else if(c == 'n'){ lit = "ull"; lp = 0; st = LIT; }
                else st = BAD;
                break;
            case KEY: case KEY_OR_CLOSE:
                if(ws(c)) break;
                if(c == '}' && st == KEY_OR_CLOSE){ depth--; st = depth ? NEXT : DONE; break; }
                if(c == '"'){ r.nodes++; st = STR; iskey = true; } else st = BAD;
                break;
            case COLON:
                if(ws(c)) break;
                st = c == ':' ? VAL : BAD; break;
            case NEXT:
                if(ws(c)) break;
                if(c == ',') st = stack[depth-1] == '[' ? VAL : KEY;
                else if(c == (stack[depth-1] == '[' ? ']' : '}')){ depth--; st = depth ? NEXT : DONE; }
                else st = BAD;
                break;
            case DONE: if(!ws(c)) st = BAD; break;
            case STR:
                if(c == '"') st = iskey ? COLON : depth ? NEXT : DONE;
                else if(c == '\\') st = ESC;
                else if((unsigned char)c < 32) st = BAD;
                break;
            case ESC:
                if(c == 'u'){ st = UHEX; uh = 0; }
                else if(c=='"'||c=='\\'||c=='/'||c=='b'||c=='f'||c=='n'||c=='r'||c=='t') st = STR;
                else st = BAD;
                break;
            case UHEX:
                if(!hexd(c)) st = BAD;
                else if(++uh == 4) st = STR;
                break;
            case LIT:
                if(c != lit[lp]) st = BAD;
                else if(!lit[++lp]) st = depth ? NEXT : DONE;
                break;
            default: st = BAD;
        }
        if(st == BAD) return r;
    }
    // a number may also end with the text, but only at the top
    if(depth == 0 && (st==N_ZERO||st==N_INT||st==N_FRAC||st==N_EXP)) st = DONE;
    r.ok = st == DONE;
    return r;
}

static char type_char(json_type_e t){
    switch(t){
        case JSON_STRING: return '"'; case JSON_NUMBER: return '-';
        case JSON_TRUE: return 't'; case JSON_FALSE: return 'f'; case JSON_NULL: return 'n';
        case JSON_OBJECT: return '{'; case JSON_ARRAY: return '[';
    }
    return '?';
}

#define NNODES 12
#define PREP \
    json_t json; json_node_t nodes[NNODES]; \
    DSTR_VAR(text, 64); \
    json_prep_preallocated(&json, &text, nodes, NNODES, true);

#ifndef PRE
#define PRE 0
#endif
static const char *const pres[] = { "", "[", "{\"\"", "{\"\":1,", "-1", "[[1,", "tru" };

void h_accept(void){
    char b[N]; nd_bytes(b, N);
    size_t pl = strlen(pres[PRE]);
    memcpy(b, pres[PRE], pl);
    size_t n = nd_pick(N); VH_ASSUME(n >= pl);
    size_t k = nd_pick(N); VH_ASSUME(k <= n && (k == n || k == 1 || k == 2));
    ref_t r = ref_json(b, n);
    PREP
    json_parser_t p = json_parser(&json);
    dstr_t c1 = dstr_from_cstrn(b, k, false), c2 = dstr_from_cstrn(b + k, n - k, false);
    derr_t e = json_parse_chunk(&p, c1);
    if(!is_error(e)) e = json_parse_chunk(&p, c2);
    if(!is_error(e)) e = json_parse_finish(&p);
    VH_CHECK(r.ok == !is_error(e), "exactly the JSON grammar is accepted");
    if(r.ok && !is_error(e)){
        VH_CHECK(!json.root.error && json.root.node == &nodes[0], "the root is available after a valid parse");
        VH_CHECK(type_char(nodes[0].type) == r.roottype, "the root has the type written");
        VH_CHECK(json.preallocated_nodes.len == r.nodes, "one node per value and key");
        VH_CHECK(nodes[0].parent == NULL && nodes[0].next == NULL, "the root has no siblings");
        if(r.nodes >= 1) VH_REACH("accepted text");
    }
    if(!r.ok) VH_REACH("rejected text");
    DROP_VAR(&e);
}

// the body of a string, escapes included, decodes to the bytes meant
void h_strbody(void){
    char b[N + 2]; nd_bytes(b, N);
    size_t n = nd_pick(N);
    char want[N]; size_t wn = 0; bool ok = true;
    bool esc = false;
    for(size_t i = 0; i < N; i++){
        if(i >= n) break;
        char c = b[i];
        if(esc){
            esc = false;
            char o = c=='"'?'"':c=='\\'?'\\':c=='/'?'/':c=='b'?'\b':c=='f'?'\f':c=='n'?'\n':c=='r'?'\r':c=='t'?'\t':0;
            if(!o) ok = false;   // \u is h_uescape's
            else want[wn++] = o;
        }else if(c == '\\') esc = true;
        else if(c == '"' || (unsigned char)c < 32) ok = false;
        else want[wn++] = c;
    }
    VH_ASSUME(ok && !esc);
    char full[N + 2]; full[0] = '"';
    for(size_t i = 0; i < N; i++) full[i+1] = b[i];
    full[n + 1] = '"';
    PREP
    derr_t e = json_parse(dstr_from_cstrn(full, n + 2, false), &json);
    VH_CHECK(!is_error(e), "a valid string parses");
    dstr_t got = json.root.node->text;
    VH_CHECK(got.len == wn, "the string has the length meant");
    for(size_t i = 0; i < N; i++)
        if(i < wn) VH_CHECK(got.data[i] == want[i], "the string has the bytes meant");
    if(wn + 2 == n) VH_REACH("two escapes");
    json_free(&json);
    VH_CHECK(text.len == 0, "freeing resets the preallocated text");
}

void h_uescape(void){
    char b[14] = "\"\\u    \\u    \"";
    unsigned v[2] = {0};
    for(int h = 0; h < 2; h++) for(int i = 0; i < 4; i++){
        char c = (char)nd_u8(); VH_ASSUME(hexd(c) && (c < 'A' || c > 'F'));
        b[3 + h*6 + i] = c;
        v[h] = v[h]*16 + hv(c);
    }
    PREP
    derr_t e = json_parse(dstr_from_cstrn(b, 14, false), &json);
    // what the two escapes mean
    bool hi0 = v[0] >= 0xD800 && v[0] < 0xDC00, lo0 = v[0] >= 0xDC00 && v[0] < 0xE000;
    bool hi1 = v[1] >= 0xD800 && v[1] < 0xDC00, lo1 = v[1] >= 0xDC00 && v[1] < 0xE000;
    bool ok = (hi0 && lo1) || (!hi0 && !lo0 && !hi1 && !lo1);
    VH_CHECK(ok == !is_error(e), "escapes are accepted unless a surrogate is unpaired");
    if(ok){
        unsigned cps[2] = { v[0], v[1] }; int ncp = 2;
        if(hi0){ cps[0] = 0x10000 + ((v[0] & 0x3ff) << 10) + (v[1] & 0x3ff); ncp = 1; }
        unsigned char want[8]; size_t wn = 0;
        for(int i = 0; i < ncp; i++){
            unsigned c = cps[i];
            if(c < 0x80) want[wn++] = (unsigned char)c;
            else if(c < 0x800){ want[wn++] = (unsigned char)(0xC0|c>>6); want[wn++] = (unsigned char)(0x80|(c&63)); }
            else if(c < 0x10000){ want[wn++] = (unsigned char)(0xE0|c>>12); want[wn++] = (unsigned char)(0x80|((c>>6)&63)); want[wn++] = (unsigned char)(0x80|(c&63)); }
            else { want[wn++] = (unsigned char)(0xF0|c>>18); want[wn++] = (unsigned char)(0x80|((c>>12)&63)); want[wn++] = (unsigned char)(0x80|((c>>6)&63)); want[wn++] = (unsigned char)(0x80|(c&63)); }
        }
        dstr_t got = json.root.node->text;
        VH_CHECK(got.len == wn, "escapes decode to the right length");
        for(size_t i = 0; i < 8; i++)
            if(i < wn) VH_CHECK((unsigned char)got.data[i] == want[i], "escapes decode to the right utf8");
        if(ncp == 1) VH_REACH("surrogate pair");
        if(ncp == 2) VH_REACH("two code points");
    }
    DROP_VAR(&e);
}

// one escape, any digits in any case
void h_uescape1(void){
    char b[9] = "\"\\u    \"";
    unsigned v = 0;
    for(int i = 0; i < 4; i++){
        char c = (char)nd_u8(); VH_ASSUME(hexd(c));
        b[3 + i] = c; v = v*16 + hv(c);
    }
    PREP
    derr_t e = json_parse(dstr_from_cstrn(b, 8, false), &json);
    VH_CHECK(is_error(e) == (v >= 0xD800 && v < 0xE000), "one escape is accepted unless it is a surrogate");
    if(!is_error(e)){
        dstr_t got = json.root.node->text;
        unsigned char *g = (unsigned char*)got.data;
        VH_CHECK(got.len == (v < 0x80 ? 1 : v < 0x800 ? 2 : 3), "escapes decode to the right length");
        unsigned back = v < 0x80 ? g[0] : v < 0x800 ? (g[0] & 0x1fu) << 6 | (g[1] & 0x3fu) : (g[0] & 0xfu) << 12 | (g[1] & 0x3fu) << 6 | (g[2] & 0x3fu);
        VH_CHECK(back == v, "escapes decode to the right utf8");
        VH_REACH("decoded");
    }else VH_REACH("surrogate");
    DROP_VAR(&e);
}

// encode(s) is a string literal which parses back to s
void h_encode(void){
    char b[N]; nd_bytes(b, N);
#ifdef LEAD
    VH_ASSUME((unsigned char)b[0] >= LEAD);
#ifdef FEW
    static const char leads[4] = { '\xe0', '\xed', '\xee', '\xef' };
    b[0] = leads[nd_pick(3)];
    size_t n = N;
#else
    size_t n = nd_pick(N);
#endif
#else
    size_t n = nd_pick(N);
#endif
    DSTR_VAR(lit, 6*N + 8);
    lit.data[lit.len++] = '"';
    derr_t e = json_encode(dstr_from_cstrn(b, n, false), WD(&lit));
    if(is_error(e)){
        VH_CHECK(e.type == E_PARAM, "only malformed utf8 fails to encode");
        bool ascii = true;
        for(size_t i = 0; i < N; i++) if(i < n && (unsigned char)b[i] > 127) ascii = false;
        VH_CHECK(!ascii, "ascii text always encodes");
        DROP_VAR(&e);
        VH_REACH("malformed utf8");
        return;
    }
    for(size_t i = 1; i < 6*N + 1; i++)
        if(i < lit.len) VH_CHECK((unsigned char)lit.data[i] >= 32 && (unsigned char)lit.data[i] < 127, "encoded text is printable ascii");
    lit.data[lit.len++] = '"';
    PREP
    e = json_parse(lit, &json);
    VH_CHECK(!is_error(e), "encoded text is a valid string");
    dstr_t got = json.root.node->text;
    VH_CHECK(got.len == n, "encode then parse is the identity");
    for(size_t i = 0; i < N; i++)
        if(i < n) VH_CHECK(got.data[i] == b[i], "encode then parse is the identity");
#ifdef LEAD
    if(n == N) VH_REACH("long character");
#else
    if(n == N && b[0] == '"' && b[1] == 1) VH_REACH("escapes");
#endif
}

// byte strings: contents are exact and writes stay inside the buffer
//@ property P05
//@ src dstr
//@ def -Drealloc=vh_realloc -Dmalloc=vh_malloc
//@ bounds: strings of 0..8 bytes over all byte values (patterns to 3, recode text to 7 split anywhere); buffers of every size and fill level up to 8, on the heap and fixed; every allocation may fail in the mallocfail entries
//@ entry h_append unwind=9 copy=8 mallocfail=1 leak=1
//@ entry h_grow unwind=9 copy=8 mallocfail=1 leak=1
//@ entry h_append_char unwind=9 copy=8 mallocfail=1 leak=1
//@ entry h_copy unwind=9 copy=8 mallocfail=1 leak=1
//@ entry h_cmp unwind=8
//@ entry h_icmp unwind=8
//@ entry h_search unwind=8
//@ entry h_strip unwind=8
//@ entry h_find unwind=8
//@ entry h_split unwind=9 copy=4
//@ entry h_split2 unwind=9
//@ entry h_recode@3 defs=CUT=3 unwind=9 copy=8 checks=0
//@ entry h_recode@4 defs=CUT=4 unwind=9 copy=8 checks=0
//@ entry h_recode@5 defs=CUT=5 unwind=9 copy=8 checks=0
//@ entry h_leftshift unwind=9
//@ entry h_list unwind=9 copy=8
//@ entry h_listmem unwind=6 checks=0
#include "vh.h"
#include "libdstr/libdstr.h"
#define VH_ALLOC_MAX 8
#include "vh_alloc.h"
#define M 8
#ifndef CUT
#define CUT 3
#endif

static dstr_t fixed(char *b, size_t size, size_t len){
    return (dstr_t){ .data = b, .size = size, .len = len, .fixed_size = true };
}

// an arbitrary dstr: unallocated, heap of some size, or fixed; contents
// mirrored in old[0:len]
static dstr_t any_dstr(char *buf, char *old){
    dstr_t d = {0};
    unsigned kind = nd_upto(2);
    if(kind == 0) return d;
    size_t size = 1 + nd_upto(3); size_t len = nd_upto(4); VH_ASSUME(len <= size);
    if(kind == 1){
        d.data = vh_malloc(size); VH_ASSUME(d.data);
    }else{
        d.data = buf; d.fixed_size = true;
    }
    d.size = size; d.len = len;
    for(size_t i = 0; i < 4; i++) if(i < len){ old[i] = (char)nd_u8(); d.data[i] = old[i]; }
    return d;
}

void h_append(void){
    char buf[M], old[M];
    for(size_t i = 0; i < M; i++) buf[i] = 0x55;
    dstr_t d = any_dstr(buf, old), was = d;
    char tb[4]; nd_bytes(tb, 4); size_t n = nd_size(4);
    dstr_t t = fixed(tb, 4, n);
    bool noisy = nd_bool();
    derr_type_t et;
    if(noisy){ derr_t e = dstr_append(&d, &t); et = e.type; }
    else et = dstr_append_quiet(&d, &t);
    if(et == E_NONE){
        VH_CHECK(d.len == was.len + n, "appending adds exactly the new text");
        VH_CHECK(d.len <= d.size, "length stays within the buffer");
        for(size_t i = 0; i < 4; i++) if(i < was.len) VH_CHECK(d.data[i] == old[i], "appending keeps the old text");
        for(size_t i = 0; i < 4; i++) if(i < n) VH_CHECK(d.data[was.len + i] == tb[i], "appending copies the new text");
        if(d.data != was.data && was.len) VH_REACH("moved");
    }else{
        VH_CHECK(d.len == was.len && d.data == was.data && d.size == was.size, "a failed append changes nothing");
        for(size_t i = 0; i < 4; i++) if(i < was.len) VH_CHECK(d.data[i] == old[i], "a failed append keeps the old text");
        VH_CHECK((et == E_FIXEDSIZE) == was.fixed_size, "error kind tells fixed-size from out-of-memory");
        if(et == E_FIXEDSIZE) VH_REACH("fixed size"); else VH_REACH("no memory");
    }
    if(was.fixed_size){
        VH_CHECK((et == E_NONE) == (was.len + n <= was.size), "a fixed-size append fails exactly when it would not fit");
        for(size_t i = 0; i < M; i++) if(i >= was.size) VH_CHECK(buf[i] == 0x55, "nothing is written beyond the buffer");
    }else dstr_free(&d);
}

void h_grow(void){
    char buf[M], old[M];
    dstr_t d = any_dstr(buf, old), was = d;
    size_t want = nd_size(M);
    unsigned which = nd_upto(3);
    derr_type_t et = E_NONE;
    if(which == 0) et = dstr_grow_quiet(&d, want);
    else if(which == 1) et = dstr_grow0_quiet(&d, want);
    else if(which == 2){ derr_t e = dstr_grow(&d, want); et = e.type; }
    else{ derr_t e = dstr_grow0(&d, want); et = e.type; }
    VH_CHECK(d.len == was.len, "growing keeps the length");
    for(size_t i = 0; i < 4; i++) if(i < was.len) VH_CHECK(d.data[i] == old[i], "growing keeps the text");
    if(et == E_NONE){
        VH_CHECK(d.size >= want, "growing gives the space asked for");
        if(!d.fixed_size && d.size) { d.data[d.size - 1] = 'x'; } // must be writable
        if(which == 1 && want > was.size && was.size) VH_REACH("grew");
    }else{
        VH_CHECK(d.size == was.size && d.data == was.data, "a failed grow changes nothing");
        VH_REACH("failed");
    }
    if(!d.fixed_size) dstr_free(&d);
}

void h_append_char(void){
    char buf[M], old[M];
    for(size_t i = 0; i < M; i++) buf[i] = 0x55;
    dstr_t d = any_dstr(buf, old), was = d;
    char c = (char)nd_u8(); size_t n = nd_size(4);
    unsigned which = nd_upto(2);
    derr_type_t et = E_NONE; size_t grown = 0;
    if(which == 0){ et = dstr_append_char(&d, c); grown = 1; }
    else if(which == 1){ et = dstr_append_char_n(&d, c, n); grown = n; }
    else{ et = dstr_null_terminate_quiet(&d); }
    for(size_t i = 0; i < 4; i++) if(i < was.len) VH_CHECK(d.data[i] == old[i], "the old text stays");
    if(et == E_NONE){
        VH_CHECK(d.len == was.len + grown && d.len <= d.size, "length after appending");
        for(size_t i = 0; i < 4; i++) if(i < grown) VH_CHECK(d.data[was.len + i] == c, "appended characters");
        if(which == 2) VH_CHECK(d.len < d.size && d.data[d.len] == 0, "null termination leaves the length alone");
        if(which == 2) VH_REACH("terminated");
    }else{
        VH_CHECK(d.len == was.len, "a failed append keeps the length");
        VH_REACH("failed");
    }
    if(d.fixed_size){
        for(size_t i = 0; i < M; i++) if(i >= was.size) VH_CHECK(buf[i] == 0x55, "nothing is written beyond the buffer");
    }else dstr_free(&d);
}

void h_copy(void){
    char buf[M], old[M];
    dstr_t d = any_dstr(buf, old), was = d;
    char tb[5]; nd_bytes(tb, 4); tb[4] = 0; size_t n = nd_size(4);
    unsigned which = nd_upto(3);
    derr_t e = E_OK;
    if(which == 0) e = dstr_copy2(fixed(tb, 4, n), &d);
    else if(which == 1) e = dstr_copystrn(tb, n, &d);
    else if(which == 2){
        for(size_t i = 0; i < 4; i++) VH_ASSUME((tb[i] != 0) == (i < n) || i > n);
        e = dstr_copystr(tb, &d);
    }else{
        char *s = NULL;
        e = dstr_dupstr(fixed(tb, 4, n), &s);
        if(!e.type){
            for(size_t i = 0; i < 4; i++) if(i < n) VH_CHECK(s[i] == tb[i], "duplicated text");
            VH_CHECK(s[n] == 0, "duplicated string is terminated");
            free(s);
        }
        if(!d.fixed_size) dstr_free(&d);
        return;
    }
    if(!e.type){
        VH_CHECK(d.len == n && d.len <= d.size, "copied length");
        for(size_t i = 0; i < 4; i++) if(i < n) VH_CHECK(d.data[i] == tb[i], "copied text");
        if(n > was.size) VH_REACH("grew");
    }else{
        VH_CHECK(d.len == was.len && d.size == was.size, "a failed copy changes nothing");
        VH_REACH("failed");
    }
    if(!d.fixed_size) dstr_free(&d);
}

static int sgn(int x){ return x < 0 ? -1 : x > 0; }
static char up(char c){ return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }

static void cmp(bool fold){
    char a[4], b[4], c[4]; nd_bytes(a, 4); nd_bytes(b, 4); nd_bytes(c, 4);
    size_t na = nd_size(4), nb = nd_size(4), nc = nd_size(4);
    dstr_t A = fixed(a, 4, na), B = fixed(b, 4, nb), C = fixed(c, 4, nc);
    bool same = na == nb, pre = nb <= na, suf = nb <= na;
    for(size_t i = 0; i < 4; i++){
        if(i < na && i < nb && (fold ? up(a[i]) != up(b[i]) : a[i] != b[i])) same = pre = false;
    }
    for(size_t i = 0; i < 4; i++){
        if(i < nb && nb <= na){
            char x = a[na - nb + i], y = b[i];
            if(fold ? up(x) != up(y) : x != y) suf = false;
        }
    }
    int ab = fold ? dstr_icmp2(A, B) : dstr_cmp2(A, B);
    int ba = fold ? dstr_icmp2(B, A) : dstr_cmp2(B, A);
    int bc = fold ? dstr_icmp2(B, C) : dstr_cmp2(B, C);
    int ac = fold ? dstr_icmp2(A, C) : dstr_cmp2(A, C);
    VH_CHECK((ab == 0) == same, "strings compare equal exactly when they are");
    VH_CHECK(sgn(ab) == -sgn(ba), "comparison is antisymmetric");
    if(ab <= 0 && bc <= 0) VH_CHECK(ac <= 0, "comparison is transitive");
    VH_CHECK((fold ? dstr_ieq(A, B) : dstr_eq(A, B)) == same, "equality test");
    VH_CHECK((fold ? dstr_ibeginswith2(A, B) : dstr_beginswith2(A, B)) == pre, "prefix test");
    VH_CHECK((fold ? dstr_iendswith2(A, B) : dstr_endswith2(A, B)) == suf, "suffix test");
    if(!fold){
        VH_CHECK((dstr_cmp(&A, &B) == 0) == same, "pointer form agrees");
        VH_CHECK(dstr_beginswith(&A, &B) == pre && dstr_endswith(&A, &B) == suf, "pointer forms agree");
        // list membership uses the same relation
        dstr_t items[2] = { B, C };
        LIST(dstr_t) l; LIST_WRAP(l, items, 2);
        size_t idx = 77; bool in = in_list(&A, &l, &idx);
        VH_CHECK(in == (same || ac == 0), "list membership");
        if(in) VH_CHECK(idx == (same ? 0u : 1u), "list index of first match");
    }
    if(same && na == 3) VH_REACH("equal");
    if(pre && nb == 2 && na == 4) VH_REACH("proper prefix");
}
void h_cmp(void){ cmp(false); }
void h_icmp(void){ cmp(true); }

void h_search(void){
    char t[6], p[3]; nd_bytes(t, 6); nd_bytes(p, 3);
    size_t n = nd_size(6), m = nd_upto(3);
    dstr_t T = fixed(t, 6, n), P = fixed(p, 3, m);
    size_t count = 0, icount = 0; size_t next = 0, inext = 0;
    for(size_t i = 0; i <= 6; i++){
        if(i + m > n) break;
        bool eq = true, ieq = true;
        for(size_t j = 0; j < 3; j++) if(j < m){
            if(t[i+j] != p[j]) eq = false;
            if(up(t[i+j]) != up(p[j])) ieq = false;
        }
        if(eq && i >= next){ count++; next = i + m; }
        if(ieq && i >= inext){ icount++; inext = i + m; }
    }
    VH_CHECK(dstr_count2(T, P) == count, "occurrence count");
    VH_CHECK(dstr_icount2(T, P) == icount, "case-insensitive count");
    VH_CHECK(dstr_contains(T, P) == (count > 0), "containment");
    VH_CHECK(dstr_icontains(T, P) == (icount > 0), "case-insensitive containment");
    size_t a = nd_size(7), b = nd_size(7);
    dstr_t S = dstr_sub2(T, a, b);
    VH_CHECK(S.len <= n && S.data >= t && S.data + S.len <= t + n, "a substring stays inside the text");
    if(a <= b && b <= n) VH_CHECK(S.data == t + a && S.len == b - a, "substring bounds");
    if(a <= n && b > n) VH_CHECK(S.data == t + a && S.len == n - a, "substring end is clamped");
    dstr_t S1 = dstr_sub(&T, a, b);
    if(b) VH_CHECK(S1.data == S.data && S1.len == S.len, "both substring forms agree");
    if(count == 2 && m == 3) VH_REACH("two matches");
    if(icount > count) VH_REACH("case differs");
    dstr_lower(&T);
    for(size_t i = 0; i < 6; i++) if(i < n) VH_CHECK(!(t[i] >= 'A' && t[i] <= 'Z'), "lowercase");
    dstr_upper(&T);
    for(size_t i = 0; i < 6; i++) if(i < n) VH_CHECK(!(t[i] >= 'a' && t[i] <= 'z'), "uppercase");
}

void h_strip(void){
    char t[5]; nd_bytes(t, 5);
    size_t n = nd_size(5);
    dstr_t T = fixed(t, 5, n);
    size_t l = 0, r = n;
    for(size_t i = 0; i < 5; i++) if(l == i && i < n && (t[i] == ' ' || t[i] == '\n')) l++;
    for(size_t i = 5; i > 0; i--) if(r == i && (t[i-1] == ' ' || t[i-1] == '\n')) r--;
    dstr_t L = dstr_lstrip_chars(T, ' ', '\n'), R = dstr_rstrip_chars(T, ' ', '\n'), S = dstr_strip_chars(T, ' ', '\n');
    VH_CHECK(L.data == t + l && L.len == n - l, "left strip");
    VH_CHECK(R.data == t && R.len == r, "right strip");
    VH_CHECK(S.len == (l <= r ? r - l : 0), "strip length");
    if(l < r) VH_CHECK(S.data == t + l, "strip start");
    if(l == 2 && r == 4) VH_REACH("both ends");
}

void h_find(void){
    char t[5], p[3], q[2]; nd_bytes(t, 5); nd_bytes(p, 3); nd_bytes(q, 2);
    size_t n = nd_size(5), m = 1 + nd_upto(2), k = 1 + nd_upto(1);
    dstr_t T = fixed(t, 5, n);
    dstr_t pats[2] = { fixed(p, 3, m), fixed(q, 2, k) };
    LIST(dstr_t) l; LIST_WRAP(l, pats, 2);
    size_t pos = 5, which = 0, partial = 0;
    for(size_t i = 0; i < 5; i++){
        for(size_t w = 0; w < 2; w++){
            size_t len = w ? k : m; const char *s = w ? q : p;
            size_t j = 0;
            for(size_t x = 0; x < 3; x++) if(j == x && x < len && i + x < n && t[i+x] == s[x]) j++;
            if(i < n && j == len && pos == 5){ pos = i; which = w; }
            else if(i < n && i + j == n && j < len && j > partial) partial = j;
        }
    }
    size_t gw = 9, gp = 9;
    char *got = dstr_find(&T, &l, &gw, &gp);
    if(pos < 5){
        VH_CHECK(got == t + pos && gw == which && gp == 0, "first match, first pattern");
        if(pos == 2 && which == 1) VH_REACH("second pattern");
    }else{
        VH_CHECK(got == NULL && gp == partial, "no match, longest partial match at the end");
        if(partial == 2) VH_REACH("partial");
    }
}

// split: the pieces, joined by the separator, are the text
void h_split(void){
    char t[4], p[2]; nd_bytes(t, 4); nd_bytes(p, 2);
    size_t n = nd_size(4), m = 1 + nd_upto(1);
    dstr_t T = fixed(t, 4, n), P = fixed(p, 2, m);
    dstr_t out[3]; LIST(dstr_t) l = { out, sizeof(out), 0, true };
    bool soft = nd_bool();
    size_t seps = 0, next = 0;
    for(size_t i = 0; i < 4; i++){
        if(i + m > n || i < next) continue;
        if(t[i] == p[0] && (m == 1 || t[i+1] == p[1])){ seps++; next = i + m; }
    }
    derr_t e = soft ? dstr_split_soft(&T, &P, &l) : dstr_split(&T, &P, &l);
    if(soft || seps < 3) VH_CHECK(!e.type, "splitting succeeds when the words fit");
    else{ VH_CHECK(e.type == E_FIXEDSIZE, "too many words is an error"); VH_REACH("too many"); return; }
    VH_CHECK(l.len == (seps < 3 ? seps + 1 : 3), "number of words");
    size_t at = 0;
    for(size_t i = 0; i < 3; i++) if(i < l.len){
        if(out[i].len) VH_CHECK(out[i].data == t + at, "words are consecutive parts of the text");
        at += out[i].len;
        if(i + 1 < l.len){
            VH_CHECK(at + m <= n && t[at] == p[0] && (m == 1 || t[at+1] == p[1]), "words are separated by the separator");
            at += m;
        }
    }
    VH_CHECK(at == n, "words cover the text");
    if(soft && seps == 3) VH_REACH("remainder kept");
    if(seps == 2 && m == 1) VH_REACH("three words");
}

void h_split2(void){
    char t[4], p[2]; nd_bytes(t, 4); nd_bytes(p, 2);
    size_t n = nd_size(4), m = 1 + nd_upto(1);
    dstr_t T = fixed(t, 4, n), P = fixed(p, 2, m);
    dstr_t out[3] = {{0}};
    dstr_t *a = &out[0], *b = &out[1], *c = &out[2];
    bool soft = nd_bool();
    size_t seps = 0, next = 0;
    for(size_t i = 0; i < 4; i++){
        if(i + m > n || i < next) continue;
        if(t[i] == p[0] && (m == 1 || t[i+1] == p[1])){ seps++; next = i + m; }
    }
    size_t len = 9;
    derr_t e = E_OK;
    if(soft) dstr_split2_soft(T, P, &len, a, b, c);
    else e = dstr_split2(T, P, &len, a, b, c);
    if(soft || seps < 3) VH_CHECK(!e.type, "splitting succeeds when the words fit");
    else{ VH_CHECK(e.type == E_FIXEDSIZE, "too many words is an error"); VH_REACH("too many"); return; }
    VH_CHECK(len == (seps < 3 ? seps + 1 : 3), "number of words");
    size_t at = 0;
    for(size_t i = 0; i < 3; i++) if(i < len){
        if(out[i].len) VH_CHECK(out[i].data == t + at, "words are consecutive parts of the text");
        at += out[i].len;
        if(i + 1 < len){
            VH_CHECK(at + m <= n && t[at] == p[0] && (m == 1 || t[at+1] == p[1]), "words are separated by the separator");
            at += m;
        }
    }
    VH_CHECK(at == n, "words cover the text");
    if(soft && seps == 3) VH_REACH("remainder kept");
}

// stream recoding (POP3/dot-stuffing style patterns) is chunk independent
#define RN 6
void h_recode(void){
    DSTR_STATIC(s1, "ab"); DSTR_STATIC(s2, "ca"); DSTR_STATIC(r1, "X"); DSTR_STATIC(r2, "YZ");
    dstr_t sv[2] = { s1, s2 }, rv[2] = { r1, r2 };
    LIST(dstr_t) sl; LIST_WRAP(sl, sv, 2); LIST(dstr_t) rl; LIST_WRAP(rl, rv, 2);
    char t[RN]; nd_bytes(t, RN);
    // expected
    char want[RN]; size_t wn = 0;
    for(size_t i = 0; i < RN; i++){
        if(i + 1 < RN && t[i] == 'a' && t[i+1] == 'b'){ want[wn++] = 'X'; i++; }
        else if(i + 1 < RN && t[i] == 'c' && t[i+1] == 'a'){ want[wn++] = 'Y'; want[wn++] = 'Z'; i++; }
        else want[wn++] = t[i];
    }
    char ob[RN + 2]; dstr_t out = fixed(ob, RN + 2, 0);
    char buf[RN]; dstr_t in = fixed(buf, RN, 0);
    for(size_t i = 0; i < CUT; i++) buf[in.len++] = t[i];
    derr_t e = dstr_recode_stream(&in, &out, &sl, &rl, false, 0, NULL);
    VH_CHECK(!e.type && in.len < 2, "at most a partial match is held back");
    for(size_t i = CUT; i < RN; i++){ VH_CHECK(in.len < RN, "room"); buf[in.len++] = t[i]; }
    e = dstr_recode_stream(&in, &out, &sl, &rl, true, 0, NULL);
    VH_CHECK(!e.type && in.len == 0, "everything is consumed at the end");
    VH_CHECK(out.len == wn, "recoded length");
    for(size_t i = 0; i < RN; i++) if(i < wn) VH_CHECK(ob[i] == want[i], "recoded text does not depend on the chunks");
    if(t[CUT-1] == 'a' && t[CUT] == 'b') VH_REACH("pattern across the chunk boundary");
}

void h_leftshift(void){
    char t[M]; char old[M]; nd_bytes(t, M); memcpy(old, t, M);
    size_t n = nd_size(M), k = (size_t)nd_u64();
    dstr_t T = fixed(t, M, n);
    dstr_leftshift(&T, k);
    size_t s = k < n ? k : n;
    VH_CHECK(T.len == n - s, "left shift removes that many bytes");
    for(size_t i = 0; i < M; i++) if(i < T.len) VH_CHECK(t[i] == old[i + s], "left shift keeps the rest in order");
    if(s == 3 && n == M) VH_REACH("overlapping");
    if(s == 5 && n == M) VH_REACH("disjoint");
    dstr_t E = dstr_empty_space(T);
    VH_CHECK(E.data == t + T.len && E.size == M - T.len && E.len == 0, "empty space is the rest of the buffer");
}

void h_list(void){
    LIST(bool) l = {0};
    derr_t e = LIST_NEW(bool, &l, 1);
    if(e.type){ VH_CHECK(e.type == E_NOMEM, "list allocation error"); return; }
    bool v[4]; size_t n = 0;
    for(size_t i = 0; i < 4; i++){
        v[i] = nd_bool();
        e = LIST_APPEND(bool, &l, v[i]);
        if(e.type) break;
        n++;
    }
    VH_CHECK(l.len == n && l.len <= l.size, "list length");
    size_t d = nd_size(4);
    if(n) { VH_ASSUME(d < n); LIST_DELETE(bool, &l, d); VH_CHECK(l.len == n - 1, "delete removes one"); }
    for(size_t i = 0; i < 4; i++) if(i < l.len) VH_CHECK(l.data[i] == v[i < d ? i : i + 1], "list keeps order");
    VH_REACH("grew");  
    LIST_FREE(bool, &l);
}

void h_listmem(void){
    dstr_t store[2]; LIST(dstr_t) l = { store, sizeof(store), 0, true };
    dstr_t mem = {0};
    char t[2][2]; size_t n[2];
    for(size_t i = 0; i < 2; i++){
        nd_bytes(t[i], 2); n[i] = i + 1;
        derr_t e = list_append_with_mem(&l, &mem, fixed(t[i], 2, n[i]), true);
        VH_CHECK(!e.type, "appends");
    }
    VH_CHECK(l.len == 2, "two entries");
    for(size_t i = 0; i < 2; i++){
        VH_CHECK(store[i].len == n[i], "entry length");
        for(size_t j = 0; j < 2; j++) if(j < n[i]) VH_CHECK(store[i].data[j] == t[i][j], "entries survive reallocation");
        VH_CHECK(store[i].data[n[i]] == 0, "entries are terminated");
    }
    VH_REACH("reallocated");
    dstr_free(&mem);
}

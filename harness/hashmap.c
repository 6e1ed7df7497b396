// dictionary: behaves as a map from keys to elements
//@ property P09
//@ engine sx
//@ src dstr
//@ bounds: every sequence of 2 operations (thorough 3) with keys that are any number below 8 or one of four two-byte strings (two pairs sharing a bucket), ; growth past 32 elements with a symbolic later insert, lookup and delete
//@ entry h_ops jobs=3 defs=OPS=2
//@ entry h_ops@deep jobs=8 defs=OPS=3 tier=thorough timeout=1500
//@ entry h_iter unwind=5 checks=0 hunwind=6 unwindset=hashmap_init.1:33,next_nonempty_bucket.0:34
//@ entry h_grow unwind=66 checks=0
//@ entry h_unique unwind=34 checks=0
#include "vh.h"
#include "libdstr/libdstr.h"
#ifndef OPS
#define OPS 3
#endif
#define K OPS
typedef struct { bool str; unsigned u; char s[2]; } mkey_t;
static hash_elem_t el[K]; static mkey_t mk[K]; static bool in[K];
static dstr_t ks[OPS + 2];

static bool same(mkey_t a, mkey_t b){
    if(a.str != b.str) return false;
    return a.str ? a.s[0] == b.s[0] && a.s[1] == b.s[1] : a.u == b.u;
}
static int find(mkey_t k){
    for(int i = 0; i < K; i++) if(in[i] && same(mk[i], k)) return i;
    return -1;
}
static char kb[OPS + 2][2];
static mkey_t any_key(int o){
    mkey_t k; k.str = nd_pick(1); k.u = nd_upto(7); k.s[0] = (char)(97 + nd_upto(1)); k.s[1] = (char)('A' + 32 * nd_upto(1));
    kb[o][0] = k.s[0]; kb[o][1] = k.s[1];
    ks[o] = (dstr_t){ kb[o], 2, 2, true };
    return k;
}

void h_ops(void){
    hashmap_t h; derr_t e = hashmap_init(&h);
    VH_CHECK(!e.type, "init");
    size_t n = 0;
    for(int o = 0; o < OPS; o++){
        unsigned op = nd_pick(3); unsigned i = op == 3 ? nd_pick(K - 1) : (unsigned)o;
        mkey_t k = any_key(o);
        int at = find(k);
        if(op == 0){
            VH_ASSUME(!in[i]);
            hash_elem_t *old = k.str ? hashmap_sets(&h, &ks[o], &el[i]) : hashmap_setu(&h, k.u, &el[i]);
            VH_CHECK(old == (at < 0 ? NULL : &el[at]), "setting a key returns the element it replaces");
            if(at >= 0){ in[at] = false; n--; VH_REACH("replaced"); }
            in[i] = true; mk[i] = k; n++;
        }else if(op == 1){
            hash_elem_t *g = k.str ? hashmap_gets(&h, &ks[o]) : hashmap_getu(&h, k.u);
            VH_CHECK(g == (at < 0 ? NULL : &el[at]), "getting a key returns what was set");
            if(at >= 0 && !k.str) VH_REACH("found");
        }else if(op == 2){
            hash_elem_t *g = k.str ? hashmap_dels(&h, &ks[o]) : hashmap_delu(&h, k.u);
            VH_CHECK(g == (at < 0 ? NULL : &el[at]), "deleting a key returns its element");
            if(at >= 0){ in[at] = false; n--; VH_REACH("deleted"); }
        }else{
            hash_elem_remove(&el[i]);
            if(in[i]){ in[i] = false; n--; VH_REACH("removed"); }
        }
        VH_CHECK(h.num_elems == n, "element count");
    }
    mkey_t k = any_key(OPS);
    int at = find(k);
    hash_elem_t *g = k.str ? hashmap_gets(&h, &ks[OPS]) : hashmap_getu(&h, k.u);
    VH_CHECK(g == (at < 0 ? NULL : &el[at]), "the map holds exactly what was set and not deleted");
    hashmap_free(&h);
}

void h_iter(void){
    hashmap_t h; derr_t e = hashmap_init(&h);
    VH_CHECK(!e.type, "init");
    for(int i = 0; i < 2; i++){
        unsigned u = nd_u32(); mk[i].u = u; in[i] = true;
        for(int j = 0; j < i; j++) VH_ASSUME(mk[j].u != u);
        hashmap_setu(&h, u, &el[i]);
    }
    bool rm = nd_bool(), pop = nd_bool();
    size_t seen[2] = {0};
    hashmap_trav_t t;
    hash_elem_t *x = pop ? hashmap_pop_iter(&t, &h) : hashmap_iter(&t, &h);
    for(int i = 0; i < 2; i++){
        VH_CHECK(x == &el[0] || x == &el[1], "iteration yields elements of the map");
        seen[x == &el[1]]++;
        if(rm && !pop) hash_elem_remove(x);
        x = pop ? hashmap_pop_next(&t) : hashmap_next(&t);
    }
    VH_CHECK(!x && seen[0] == 1 && seen[1] == 1, "iteration yields every element once");
    VH_CHECK(h.num_elems == (rm || pop ? 0 : 2), "removal while iterating");
    if(rm && !pop && ((el[0].hash ^ el[1].hash) & h.mask) == 0) VH_REACH("same bucket");
    hashmap_free(&h);
}

static hash_elem_t big[34];
void h_grow(void){
    hashmap_t h; derr_t e = hashmap_init(&h);
    VH_CHECK(!e.type, "init");
    for(unsigned i = 0; i < 32; i++){
        hash_elem_t *old = hashmap_setu(&h, i * 7, &big[i]);
        VH_CHECK(!old, "distinct keys");
    }
    VH_CHECK(h.num_elems == 32 && h.num_buckets >= 64, "the table grew");
    unsigned k = nd_upto(240);
    hash_elem_t *g = hashmap_getu(&h, k);
    bool hit = k % 7 == 0 && k / 7 < 32;
    VH_CHECK(g == (hit ? &big[k / 7] : NULL), "growth keeps every element");
    g = hashmap_delu(&h, k);
    VH_CHECK(g == (hit ? &big[k / 7] : NULL) && h.num_elems == 32u - hit, "deletion after growth");
    VH_CHECK(hashmap_getu(&h, k) == NULL, "deleted");
    if(hit) VH_REACH("hit"); else VH_REACH("miss");
    hashmap_free(&h);
}

void h_unique(void){
    hashmap_t h; derr_t e = hashmap_init(&h);
    unsigned a = nd_u8(), b = nd_u8();
    e = hashmap_setu_unique(&h, a, &el[0]);
    VH_CHECK(!e.type, "first insert");
    e = hashmap_setu_unique(&h, b, &el[1]);
    VH_CHECK((e.type == E_PARAM) == (a == b) && (a == b || !e.type), "a duplicate key is refused");
    VH_CHECK(hashmap_getu(&h, a) == &el[0], "the first element stays");
    VH_CHECK(hashmap_getu(&h, b) == (a == b ? &el[0] : &el[1]), "the second element is there unless refused");
    VH_CHECK(h.num_elems == (a == b ? 1 : 2), "count");
    if(a == b) VH_REACH("duplicate");
    hashmap_free(&h);
}

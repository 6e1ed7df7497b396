// ordered index: sorted, indexable, balanced after any inserts and erases
//@ property P07
//@ src dstr
//@ engine sx
//@ bounds: every insertion order of 4 (thorough 5) distinct keys followed by any erase; trees of 7-12 nodes built in the listed orders followed by any two erases or any pattern of pop-while-iterating; all positions and keys looked up afterwards
//@ entry h_build defs=N=4 unwind=5 hunwind=13 checks=0
//@ entry h_build@5 defs=N=5 unwind=6 hunwind=13 checks=0 tier=thorough timeout=1500
//@ entry h_walk defs=N=3 unwind=5 hunwind=13 checks=0
//@ entry h_erase@asc defs=N=9,ORDER=0 unwind=7 hunwind=13 checks=0
//@ entry h_erase@desc defs=N=9,ORDER=1 unwind=7 hunwind=13 checks=0
//@ entry h_erase@mix defs=N=10,ORDER=2 unwind=7 hunwind=13 checks=0
//@ entry h_erase@mix2 defs=N=12,ORDER=3 unwind=7 hunwind=13 checks=0
//@ entry h_erase2@asc defs=N=8,ORDER=0 unwind=7 hunwind=13 checks=0
//@ entry h_erase2@mix defs=N=7,ORDER=2 unwind=7 hunwind=13 checks=0
//@ entry h_pop@asc defs=N=6,ORDER=0 unwind=7 hunwind=13 checks=0
//@ entry h_pop@mix defs=N=6,ORDER=2 unwind=7 hunwind=13 checks=0
//@ entry h_memsafe defs=N=3 unwind=5 hunwind=13
#include "vh.h"
#include "libdstr/libdstr.h"
#ifndef N
#define N 4
#endif
#ifndef ORDER
#define ORDER 0
#endif

typedef struct { jsw_anode_t node; unsigned int key; bool in; } item_t;
DEF_CONTAINER_OF(item_t, node, jsw_anode_t)
static item_t items[N];
static const void *get(const jsw_anode_t *n){ return &CONTAINER_OF(n, item_t, node)->key; }

// rank of key among the items in the tree, and how many there are
static size_t rank(unsigned key){
    size_t r = 0;
    for(size_t i = 0; i < N; i++) if(items[i].in && items[i].key < key) r++;
    return r;
}
static size_t count(void){
    size_t r = 0;
    for(size_t i = 0; i < N; i++) if(items[i].in) r++;
    return r;
}

// everything a user can look up
static void lookups(jsw_atree_t *t){
    size_t n = count();
    VH_CHECK(jsw_asize(t) == n, "size counts the items in the tree");
    for(size_t i = 0; i < N; i++){
        size_t r = rank(items[i].key), idx = 99;
        jsw_anode_t *f = jsw_afind(t, &items[i].key, &idx);
        VH_CHECK(f == (items[i].in ? &items[i].node : NULL), "find returns exactly the items that are in the tree");
        VH_CHECK(idx == r, "find reports the position of the key");
        if(items[i].in) VH_CHECK(jsw_aindex(t, r) == &items[i].node, "indexing follows sorted order");
    }
    VH_CHECK(jsw_aindex(t, n) == NULL, "indexing past the end finds nothing");
}

static void shape(jsw_atree_t *t, jsw_anode_t *x){
    if(x == &t->nil) return;
    VH_CHECK(x->link[0]->level == x->level - 1, "left child is one level down");
    VH_CHECK(x->link[1]->level == x->level || x->link[1]->level == x->level - 1, "right child is at most one level down");
    VH_CHECK(x->link[1] == &t->nil || x->link[1]->link[1]->level < x->level, "no double right links");
    VH_CHECK(x->count == x->link[0]->count + x->link[1]->count + 1, "subtree counts add up");
}
static void balanced(jsw_atree_t *t){
    for(size_t i = 0; i < N; i++) if(items[i].in) shape(t, &items[i].node);
}

void h_build(void){
    jsw_atree_t t; jsw_ainit(&t, jsw_cmp_uint, get);
    for(size_t i = 0; i < N; i++){
        items[i].key = nd_u8();
        for(size_t j = 0; j < i; j++) VH_ASSUME(items[j].key != items[i].key);
    }
    for(size_t i = 0; i < N; i++){ jsw_ainsert(&t, &items[i].node); items[i].in = true; }
    balanced(&t);
    lookups(&t);
    unsigned k = nd_u8(), hit = N;
    for(size_t i = 0; i < N; i++) if(items[i].key == k) hit = i;
    jsw_anode_t *d = jsw_aerase(&t, &k);
    VH_CHECK(d == (hit < N ? &items[hit].node : NULL), "erase returns exactly the item with that key");
    if(hit < N) items[hit].in = false;
    balanced(&t);
    lookups(&t);
    if(hit == 1) VH_REACH("erased"); if(hit == N) VH_REACH("absent key");
}

// in-order traversal both ways, from either end and from any node
void h_walk(void){
    jsw_atree_t t; jsw_ainit(&t, jsw_cmp_uint, get);
    for(size_t i = 0; i < N; i++){
        items[i].key = nd_u8();
        for(size_t j = 0; j < i; j++) VH_ASSUME(items[j].key != items[i].key);
        jsw_ainsert(&t, &items[i].node); items[i].in = true;
    }
    jsw_atrav_t tr;
    jsw_anode_t *x = jsw_atfirst(&tr, &t);
    for(size_t i = 0; i < N; i++){
        VH_CHECK(x == jsw_aindex(&t, i), "forward traversal visits items in sorted order");
        x = jsw_atnext(&tr);
    }
    VH_CHECK(!x, "forward traversal ends");
    x = jsw_atlast(&tr, &t);
    for(size_t i = 0; i < N; i++){
        VH_CHECK(x == jsw_aindex(&t, N - 1 - i), "backward traversal visits items in reverse order");
        x = jsw_atprev(&tr);
    }
    VH_CHECK(!x, "backward traversal ends");
    x = jsw_atnode(&tr, &t, &items[0].node);
    VH_CHECK(x == &items[0].node, "traversal can start anywhere");
    size_t r = rank(items[0].key);
    x = jsw_atnext(&tr);
    VH_CHECK(x == (r + 1 < N ? jsw_aindex(&t, r + 1) : NULL), "traversal from a node continues with its successor");
    if(r == 1) VH_REACH("middle");
}

// orders of insertion; keys are even so that odd keys are absent
static const unsigned char orders[4][12] = {
    {0,1,2,3,4,5,6,7,8,9,10,11},
    {11,10,9,8,7,6,5,4,3,2,1,0},
    {5,2,8,1,9,0,3,7,6,4,10,11},
    {6,11,0,3,9,1,7,4,10,2,5,8},
};
static void build(jsw_atree_t *t){
    jsw_ainit(t, jsw_cmp_uint, get);
    for(size_t i = 0; i < 12; i++){
        unsigned char o = orders[ORDER][i];
        if(o >= N) continue;
        items[o].key = 2u * o; items[o].in = true;
        jsw_ainsert(t, &items[o].node);
    }
}
static void erase(jsw_atree_t *t){
    unsigned k = nd_upto(2*N);
    bool hit = k % 2 == 0 && k/2 < N && items[k/2].in;
    jsw_anode_t *d = jsw_aerase(t, &k);
    VH_CHECK(d == (hit ? &items[k/2].node : NULL), "erase returns exactly the item with that key");
    for(size_t i = 0; i < N; i++) if(hit && i == k/2) items[i].in = false;
}
void h_erase(void){
    jsw_atree_t t; build(&t);
    erase(&t);
    balanced(&t);
    lookups(&t);
    VH_REACH("done");
}
void h_erase2(void){
    jsw_atree_t t; build(&t);
    erase(&t); erase(&t);
    balanced(&t);
    VH_CHECK(jsw_asize(&t) == count(), "size counts the items in the tree");
    // one arbitrary lookup
    unsigned k = nd_upto(2*N);
    size_t idx = 99;
    jsw_anode_t *f = jsw_afind(&t, &k, &idx);
    bool hit = k % 2 == 0 && k/2 < N && items[k/2].in;
    VH_CHECK(f == (hit ? &items[k/2].node : NULL), "find after two erases");
    VH_CHECK(idx == rank(k), "position after two erases");
    if(hit) VH_CHECK(jsw_aindex(&t, idx) == f, "indexing after two erases");
    if(count() == N - 2) VH_REACH("two erased");
}
// removing while iterating visits every item exactly once, in order
void h_pop(void){
    jsw_atree_t t; build(&t);
    jsw_atrav_t tr;
    jsw_anode_t *x = jsw_atfirst(&tr, &t);
    size_t kept = 0;
    for(size_t i = 0; i < N; i++){
        VH_CHECK(x == &items[i].node, "iteration visits every item in order");
        // at most two are removed
        bool rm = nd_bool();
        if(rm){ x = jsw_pop_atnext(&tr); items[i].in = false; }
        else { x = jsw_atnext(&tr); kept++; }
    }
    VH_CHECK(!x && jsw_asize(&t) == kept, "removed exactly what was popped");
    if(kept == 2) VH_REACH("some removed");
}

void h_memsafe(void){
    jsw_atree_t t; jsw_ainit(&t, jsw_cmp_uint, get);
    for(size_t i = 0; i < N; i++){ items[i].key = nd_u8(); jsw_ainsert(&t, &items[i].node); }
    for(size_t i = 0; i < N; i++){
        jsw_anode_t *x = jsw_apop(&t);
        VH_CHECK(x, "pop empties the tree");
        VH_CHECK(jsw_asize(&t) == N - 1 - i, "pop removes one");
    }
    VH_CHECK(!jsw_apop(&t), "empty tree");
    VH_REACH("emptied");
}

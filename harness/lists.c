// priority queue and linked lists
//@ property P08
//@ engine sx
//@ src dstr
//@ bounds: heap: 5 items (thorough 6) with arbitrary keys (duplicates included) put in any order, any one removed, then popped dry, for both orders; lists: every sequence of 4 operations (thorough 6) on two lists and three links
//@ entry h_heap@4 defs=N=4 unwind=8 checks=0
//@ entry h_heap@5 defs=N=5 unwind=9 checks=0 tier=thorough timeout=1500
//@ entry h_heap_mem defs=N=3 unwind=6
//@ entry h_link defs=OPS=3 unwind=8
//@ entry h_link@deep defs=OPS=5 unwind=8 checks=0 tier=thorough timeout=1500
//@ entry h_popn unwind=6
#include "vh.h"
#include "libdstr/libdstr.h"
#ifndef N
#define N 4
#endif
#ifndef OPS
#define OPS 3
#endif

typedef struct { hnode_t hnode; unsigned key; } hitem_t;
DEF_CONTAINER_OF(hitem_t, hnode, hnode_t)
static hitem_t hs[N];
static const void *hget(const hnode_t *n){ return &CONTAINER_OF(n, hitem_t, hnode)->key; }

static void heap(void){
    heap_t h; bool want_max = nd_bool();
    heap_prep(&h, jsw_cmp_uint, hget, want_max);
    VH_CHECK(heap_peek(&h) == NULL, "new heap is empty");
    bool in[N];
    for(size_t i = 0; i < N; i++){
        hs[i].key = nd_u8();
        heap_put(&h, &hs[i].hnode); in[i] = true;
    }
    // remove any one, twice (removal is idempotent)
    size_t rm = nd_size(N);
    for(size_t i = 0; i < N; i++) if(i == rm){ hnode_remove(&hs[i].hnode); hnode_remove(&hs[i].hnode); in[i] = false; }
    size_t n = rm < N ? N - 1 : N;
    for(size_t k = 0; k < N; k++){
        if(k >= n) break;
        hnode_t *top = heap_peek(&h);
        VH_CHECK(heap_pop(&h) == top && top, "pop returns the top");
        size_t got = N;
        for(size_t i = 0; i < N; i++) if(top == &hs[i].hnode) got = i;
        VH_CHECK(got < N && in[got], "every item comes out once");
        for(size_t i = 0; i < N; i++) if(in[i])
            VH_CHECK(want_max ? hs[got].key >= hs[i].key : hs[got].key <= hs[i].key, "the best item comes out first");
        in[got] = false;
    }
    VH_CHECK(heap_pop(&h) == NULL && heap_peek(&h) == NULL, "heap is empty at the end");
    if(rm == 1) VH_REACH("removed one");
    if(want_max && n == N) VH_REACH("max heap");
}
void h_heap(void){ heap(); }
void h_heap_mem(void){ heap(); }

#define K 3
static link_t L[2], x[K];
static int model[2][K]; static size_t mlen[2]; // model lists
static bool used(int k){
    for(int l = 0; l < 2; l++) for(size_t i = 0; i < K; i++) if(i < mlen[l] && model[l][i] == k) return true;
    return false;
}
static void m_remove(int k){
    for(int l = 0; l < 2; l++){
        size_t o = 0;
        for(size_t i = 0; i < K; i++) if(i < mlen[l] && model[l][i] != k) model[l][o++] = model[l][i];
        mlen[l] = o;
    }
}
static void check_lists(void){
    for(int l = 0; l < 2; l++){
        VH_CHECK(link_list_isempty(&L[l]) == (mlen[l] == 0), "emptiness");
        VH_CHECK(link_list_count(&L[l]) == mlen[l], "list length");
        if(!L[l].next){ VH_CHECK(mlen[l] == 0, "zeroized list is empty"); continue; }
        link_t *p = L[l].next, *q = L[l].prev;
        for(size_t i = 0; i < K; i++) if(i < mlen[l]){
            VH_CHECK(p == &x[model[l][i]], "list order forwards");
            VH_CHECK(q == &x[model[l][mlen[l] - 1 - i]], "list order backwards");
            p = p->next; q = q->prev;
        }
        VH_CHECK(p == &L[l] && q == &L[l], "lists are circular");
    }
}
void h_link(void){
    if(nd_bool()){ link_init(&L[0]); link_init(&L[1]); }
    for(int o = 0; o < OPS; o++){
        unsigned op = nd_upto(6); int l = nd_bool(), k = (int)nd_upto(K - 1);
        link_t *got; int want;
        switch(op){
            case 0:
                VH_ASSUME(!used(k));
                link_list_append(&L[l], &x[k]); model[l][mlen[l]++] = k; break;
            case 1:
                VH_ASSUME(!used(k));
                link_list_prepend(&L[l], &x[k]);
                for(size_t i = K - 1; i > 0; i--) model[l][i] = model[l][i-1];
                model[l][0] = k; mlen[l]++; break;
            case 2:
                got = link_list_pop_first(&L[l]);
                want = mlen[l] ? model[l][0] : -1;
                VH_CHECK(got == (want < 0 ? NULL : &x[want]), "pop first");
                if(want >= 0) m_remove(want);
                break;
            case 3:
                got = link_list_pop_last(&L[l]);
                want = mlen[l] ? model[l][mlen[l]-1] : -1;
                VH_CHECK(got == (want < 0 ? NULL : &x[want]), "pop last");
                if(want >= 0) m_remove(want);
                break;
            case 4:
                link_remove(&x[k]); m_remove(k); break;
            case 5:
                link_list_append_list(&L[l], &L[!l]);
                for(size_t i = 0; i < K; i++) if(i < mlen[!l]) model[l][mlen[l]++] = model[!l][i];
                mlen[!l] = 0; break;
            case 6:
                link_list_prepend_list(&L[l], &L[!l]);
                { int t[K]; size_t n = 0;
                  for(size_t i = 0; i < K; i++) if(i < mlen[!l]) t[n++] = model[!l][i];
                  for(size_t i = 0; i < K; i++) if(i < mlen[l]) t[n++] = model[l][i];
                  for(size_t i = 0; i < K; i++) if(i < n) model[l][i] = t[i];
                  mlen[l] = n; mlen[!l] = 0; }
                break;
        }
        check_lists();
    }
    if(mlen[0] + mlen[1] == 3) VH_REACH("three links");
}

// popping from several lists at once is all-or-nothing
void h_popn(void){
    size_t n0 = nd_size(2);
    bool n1 = nd_bool(), same = nd_bool(), last = nd_bool();
    for(int i = 0; i < 2; i++) if((size_t)i < n0){ link_list_append(&L[0], &x[i]); model[0][mlen[0]++] = i; }
    if(n1){ link_list_append(&L[1], &x[2]); model[1][mlen[1]++] = 2; }
    link_t *a = &x[0], *b = &x[0];
    int second = same ? 0 : 1;
    bool ok = last ? link_list_pop_last_n(LINK_IO(&L[0], &a), LINK_IO(&L[second], &b))
                   : link_list_pop_first_n(LINK_IO(&L[0], &a), LINK_IO(&L[second], &b));
    bool want = same ? n0 == 2 : (n0 >= 1 && n1);
    VH_CHECK(ok == want, "multi-pop succeeds exactly when every list has an element");
    if(ok){
        int ka = last ? model[0][mlen[0]-1] : model[0][0];
        VH_CHECK(a == &x[ka], "first popped link"); m_remove(ka);
        int kb = last ? model[second][mlen[second]-1] : model[second][0];
        VH_CHECK(b == &x[kb], "second popped link"); m_remove(kb);
        if(same) VH_REACH("same list twice");
    }else{
        VH_CHECK(!a && !b, "a failed multi-pop returns nothing");
        if(n0 == 2 && !same) VH_REACH("put back");
    }
    check_lists();
}

// memory that held a secret is wiped before it is given back
//@ property P06
//@ src dstr libimap/expression.c
//@ gen imap
//@ def -Dfree=vh_free -Drealloc=vh_realloc -Dmalloc=vh_malloc -DVH_ALLOC_POW2
//@ bounds: secret strings of 0..4 bytes in buffers of 2 or 4 bytes grown to every size up to 12, appended in up to 2 pieces; the wipe covers every allocated byte
//@ entry h_grow0 unwind=13 copy=8
//@ entry h_grow0@2 defs=SZ=2 unwind=13 copy=8
//@ entry h_append0 defs=SZ=2 unwind=13 copy=8 objbits=9
//@ entry h_free0 unwind=13 copy=8
//@ entry h_ie_append0 unwind=13 copy=8
#include "vh.h"
#include "libdstr/libdstr.h"
#include "libimap/libimap.h"
#define VH_OWN_REALLOC
#include "vh_alloc.h"
#ifndef SZ
#define SZ 4
#endif

// the block that currently holds the secret
static char *blk; static size_t blksize; static size_t wiped;
void vh_free(void *p){
    if(p && p == blk){
        for(size_t i = 0; i < 12; i++) if(i < blksize)
            VH_CHECK(blk[i] == 0, "memory that held a secret is wiped before it is freed");
        wiped++;
        blk = NULL;
    }
    free(p);
}
void *vh_realloc(void *p, size_t n){
    // realloc may move the block and free the old one unwiped
    VH_CHECK(!p || p != blk, "memory that held a secret is never handed to realloc");
    void *q = vh_malloc(n); VH_ASSUME(q);
    return q;
}

static void watch(dstr_t d){ blk = d.data; blksize = d.size; }

static dstr_t secret(void){
    dstr_t d = {0};
    size_t size = SZ, len = nd_upto(4); VH_ASSUME(len <= size);
    d.data = vh_malloc(size); VH_ASSUME(d.data);
    d.size = size; d.len = len;
    for(size_t i = 0; i < 4; i++) if(i < size) d.data[i] = (char)(nd_u8() | 1);
    watch(d);
    return d;
}

void h_grow0(void){
    dstr_t d = secret(); size_t had = d.size;
    size_t want = nd_size(12);
    bool noisy = nd_bool();
    derr_type_t et;
    if(noisy){ derr_t e = dstr_grow0(&d, want); et = e.type; }
    else et = dstr_grow0_quiet(&d, want);
    VH_CHECK(!et, "grows");
    if(want > had){ VH_CHECK(wiped == 1, "the outgrown block is released"); VH_REACH("outgrown"); }
}

void h_append0(void){
    dstr_t d = secret();
    char t[4]; nd_bytes(t, 4);
    for(size_t k = 0; k < 2; k++){
        dstr_t x = { t, 4, nd_size(4), true };
        size_t was = wiped;
        derr_type_t et;
        if(nd_bool()){ derr_t e = dstr_append0(&d, &x); et = e.type; }
        else et = dstr_append0_quiet(&d, &x);
        VH_CHECK(!et, "appends");
        if(wiped > was) watch(d);
    }
    if(wiped == 2) VH_REACH("outgrown twice");
}

void h_free0(void){
    dstr_t d = secret();
    dstr_free0(&d);
    VH_CHECK(wiped == 1 && d.data == NULL && d.len == 0 && d.size == 0, "freed and reset");
    VH_REACH("freed");
    dstr_free0(&d); // safe to repeat
    dstr_t f = secret();
    dstr_zeroize(&f);
    for(size_t i = 0; i < 4; i++) if(i < f.size) VH_CHECK(f.data[i] == 0, "zeroize wipes the whole buffer");
}

void h_ie_append0(void){
    char t[4]; nd_bytes(t, 4);
    for(size_t i = 0; i < 4; i++) VH_ASSUME(t[i] != 0);
    ie_dstr_t *d = NULL; derr_t e = E_OK;
    for(size_t k = 0; k < 2; k++){
        dstr_t x = { t, 4, 1 + nd_upto(3), true };
        size_t was = wiped;
        d = ie_dstr_append0(&e, d, &x, KEEP_RAW);
        VH_CHECK(!e.type && d, "appends");
        if(wiped > was || !blk) watch(d->dstr);
    }
    ie_dstr_free0(d);
    if(wiped == 2) VH_REACH("outgrown and freed");
}

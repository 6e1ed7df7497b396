/* native replay runtime: pops the values of a solver counterexample */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <inttypes.h>
#include <string.h>

static uint64_t *vals; static size_t nvals, pos;
static const char *want;   // stop at this reach label

uint64_t vh_pop(void){
    if(pos >= nvals) return 0;
    return vals[pos++];
}
void vh_check_failed(const char *msg){
    fprintf(stderr, "VH_CHECK_FAILED: %s\n", msg); fflush(stderr); _Exit(70);
}
void vh_assume_failed(const char *file, int line){
    fprintf(stderr, "VH_ASSUME_FAILED: %s:%d\n", file, line); fflush(stderr); _Exit(77);
}
void vh_reach(const char *name){
    fprintf(stderr, "VH_REACH: %s\n", name); fflush(stderr);
}
void VH_ENTRY(void);
int main(int argc, char **argv){
    if(argc < 2) return 2;
    FILE *f = fopen(argv[1], "r");
    if(!f) return 2;
    size_t cap = 0; uint64_t v;
    while(fscanf(f, "%" SCNu64, &v) == 1){
        if(nvals == cap){ cap = cap ? cap*2 : 64; vals = realloc(vals, cap*sizeof(*vals)); }
        vals[nvals++] = v;
    }
    fclose(f);
    (void)want;
    VH_ENTRY();
    fprintf(stderr, "VH_DONE\n");
    return 0;
}

// bit-vector expressions: hash-consed DAG with light simplification,
// evaluation under a model, and translation to Z3
#pragma once
#include <stdint.h>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <string>
#include <z3.h>
typedef uint64_t u64;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR,
    XOR, SHL, LSHR, ASHR, ZEXT, SEXT, EXTRACT, CONCAT, EQ, ULT, ULE, SLT, SLE,
    ITE, SEL };

typedef std::vector<int> Vars;
struct Node {
    Op op; uint8_t w; uint32_t id;
    Node *a, *b, *c; u64 v;
    const Vars *vars;
    Z3_ast z; uint32_t stamp; u64 val;
};

extern Z3_context Z;
extern std::vector<Node*> allvars;
extern std::vector<std::vector<u64>> tables;
extern u64 n_nodes;

static inline u64 mask(unsigned w){ return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(u64 v, unsigned w){
    return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w);
}
u64 fold(Op op, unsigned w, u64 a, u64 b, unsigned aw);

Node *mkconst(u64 v, unsigned w);
Node *mkvar(unsigned w);
Node *mk(Op op, unsigned w, Node *a, Node *b = nullptr, Node *c = nullptr, u64 v = 0);
Node *mkextract(Node *a, unsigned lo, unsigned w);
Node *mkconcat(Node *hi, Node *lo);
Node *mkite(Node *c, Node *a, Node *b);
Node *mknot(Node *c); // i1
Node *mksel(const std::vector<u64> &t, Node *idx, unsigned w);
unsigned ktz(Node *n); // known trailing zero bits
typedef std::vector<u64> Model;
u64 eval(Node *n, const Model &m);
void newepoch();
Z3_ast toz3(Node *n);
static inline bool isconst(Node *n){ return n->op == CONST; }

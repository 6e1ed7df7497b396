#include "expr.h"
#include <stdio.h>
#include <stdlib.h>
#include <map>
Z3_context Z;
std::vector<Node*> allvars;
std::vector<std::vector<u64>> tables;
static std::map<std::vector<u64>, u64> tabidx;
u64 n_nodes;

struct Hash { size_t operator()(const Node *n) const {
    u64 h = n->op * 0x9e3779b97f4a7c15ull + n->w;
    h = (h ^ (u64)(uintptr_t)n->a) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ (u64)(uintptr_t)n->b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ (u64)(uintptr_t)n->c) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ n->v) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 32;
    return h; } };
struct Eq { bool operator()(const Node *x, const Node *y) const {
    return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };
#include <unordered_set>
static std::unordered_set<Node*, Hash, Eq> uniq;
static std::map<Vars, const Vars*> varsets;
static const Vars *novars = new Vars();

static const Vars *intern(const Vars &v){
    auto it = varsets.find(v);
    if(it != varsets.end()) return it->second;
    const Vars *p = new Vars(v); varsets[v] = p; return p;
}
static const Vars *join(const Vars *a, const Vars *b){
    if(a == b || b->empty()) return a;
    if(a->empty()) return b;
    Vars r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    if(r.size() == a->size()) return a;
    if(r.size() == b->size()) return b;
    return intern(r);
}
static Node *raw(Op op, unsigned w, Node *a, Node *b, Node *c, u64 v){
    Node t{op, (uint8_t)w, 0, a, b, c, v, nullptr, nullptr, 0, 0};
    auto it = uniq.find(&t);
    if(it != uniq.end()) return *it;
    Node *n = new Node(t); n->id = (uint32_t)n_nodes++;
    n->vars = novars;
    if(a) n->vars = a->vars;
    if(b) n->vars = join(n->vars, b->vars);
    if(c) n->vars = join(n->vars, c->vars);
    uniq.insert(n);
    return n;
}
Node *mkconst(u64 v, unsigned w){ return raw(CONST, w, 0, 0, 0, v & mask(w)); }
Node *mkvar(unsigned w){
    Node *n = raw(VAR, w, 0, 0, 0, allvars.size());
    Vars v; v.push_back((int)allvars.size()); n->vars = intern(v);
    allvars.push_back(n); return n;
}
u64 fold(Op op, unsigned w, u64 a, u64 b, unsigned aw){
    switch(op){
        case ADD: return (a + b) & mask(w);
        case SUB: return (a - b) & mask(w);
        case MUL: return (a * b) & mask(w);
        case UDIV: return b ? a / b : mask(w);
        case UREM: return b ? a % b : a;
        case SDIV: { int64_t x = sx(a, w), y = sx(b, w);
            if(!y) return (x < 0 ? 1 : mask(w)); if(y == -1) return (0 - a) & mask(w); return (u64)(x / y) & mask(w); }
        case SREM: { int64_t x = sx(a, w), y = sx(b, w);
            if(!y) return a; if(y == -1) return 0; return (u64)(x % y) & mask(w); }
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case SHL: return b >= w ? 0 : (a << b) & mask(w);
        case LSHR: return b >= w ? 0 : a >> b;
        case ASHR: { int64_t x = sx(a, w); return (u64)(b >= w ? (x < 0 ? -1 : 0) : x >> b) & mask(w); }
        case ZEXT: return a;
        case SEXT: return (u64)sx(a, aw) & mask(w);
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sx(a, aw) < sx(b, aw);
        case SLE: return sx(a, aw) <= sx(b, aw);
        default: abort();
    }
}
Node *mkextract(Node *a, unsigned lo, unsigned w){
    if(lo == 0 && w == a->w) return a;
    switch(a->op){
        case CONST: return mkconst(a->v >> lo, w);
        case EXTRACT: return mkextract(a->a, lo + (unsigned)a->v, w);
        case CONCAT: {
            unsigned lw = a->b->w;
            if(lo + w <= lw) return mkextract(a->b, lo, w);
            if(lo >= lw) return mkextract(a->a, lo - lw, w);
            return mkconcat(mkextract(a->a, 0, lo + w - lw), mkextract(a->b, lo, lw - lo));
        }
        case ZEXT: {
            unsigned lw = a->a->w;
            if(lo + w <= lw) return mkextract(a->a, lo, w);
            if(lo >= lw) return mkconst(0, w);
            return mk(ZEXT, w, mkextract(a->a, lo, lw - lo));
        }
        case SEXT: {
            unsigned lw = a->a->w;
            if(lo + w <= lw) return mkextract(a->a, lo, w);
            if(lo == 0) return mk(SEXT, w, a->a);
            break;
        }
        case AND: case OR: case XOR:
            if(isconst(a->b)) return mk(a->op, w, mkextract(a->a, lo, w), mkextract(a->b, lo, w));
            break;
        case ADD: case SUB: case MUL:
            if(lo == 0 && (isconst(a->b) || a->a->op == ZEXT || a->b->op == ZEXT))
                return mk(a->op, w, mkextract(a->a, 0, w), mkextract(a->b, 0, w));
            break;
        case ITE:
            if(isconst(a->b) || isconst(a->c))
                return mkite(a->a, mkextract(a->b, lo, w), mkextract(a->c, lo, w));
            break;
        case SEL: if(lo == 0){
            std::vector<u64> t = tables[a->v]; for(auto &x : t) x &= mask(w);
            return mksel(t, a->a, w); }
            break;
        default: break;
    }
    return raw(EXTRACT, w, a, 0, 0, lo);
}
Node *mkconcat(Node *hi, Node *lo){
    unsigned w = hi->w + lo->w;
    if(isconst(hi) && isconst(lo)) return mkconst(hi->v << lo->w | lo->v, w);
    if(isconst(hi) && hi->v == 0) return mk(ZEXT, w, lo);
    if(hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w)
        return mkextract(hi->a, (unsigned)lo->v, w);
    // hi bits of a zext with its own low part
    if(lo->op == EXTRACT && hi->op == CONCAT && hi->b->op == EXTRACT && hi->b->a == lo->a && hi->b->v == lo->v + lo->w)
        return mkconcat(hi->a, mkextract(lo->a, (unsigned)lo->v, hi->b->w + lo->w));
    return raw(CONCAT, w, hi, lo, 0, 0);
}
Node *mknot(Node *c){
    return mk(XOR, 1, c, mkconst(1, 1));
}
Node *mkite(Node *c, Node *a, Node *b){
    if(isconst(c)) return c->v ? a : b;
    if(a == b) return a;
    if(c->op == XOR && isconst(c->b)) return mkite(c->a, b, a);
    if(a->w == 1){
        if(isconst(a)) return a->v ? mk(OR, 1, c, b) : mk(AND, 1, mknot(c), b);
        if(isconst(b)) return b->v ? mk(OR, 1, mknot(c), a) : mk(AND, 1, c, a);
    }
    return raw(ITE, a->w, c, a, b, 0);
}
Node *mksel(const std::vector<u64> &t, Node *idx, unsigned w){
    bool same = true;
    for(auto x : t) if(x != t[0]) same = false;
    if(same) return mkconst(t[0], w);
    auto it = tabidx.find(t);
    u64 i;
    if(it == tabidx.end()){ i = tables.size(); tables.push_back(t); tabidx[t] = i; }
    else i = it->second;
    return raw(SEL, w, idx, 0, 0, i);
}
unsigned ktz(Node *n){
    switch(n->op){
        case CONST: return n->v ? (unsigned)__builtin_ctzll(n->v) : 64;
        case ADD: case SUB: case OR: case XOR: return std::min(ktz(n->a), ktz(n->b));
        case AND: return std::max(ktz(n->a), ktz(n->b));
        case MUL: return std::min(64u, ktz(n->a) + ktz(n->b));
        case SHL: return isconst(n->b) ? std::min(64u, ktz(n->a) + (unsigned)std::min<u64>(n->b->v, 64)) : ktz(n->a);
        case ZEXT: case SEXT: { unsigned k = ktz(n->a); return k; }
        case ITE: return std::min(ktz(n->b), ktz(n->c));
        case CONCAT: { unsigned k = ktz(n->b); return k >= n->b->w ? n->b->w : k; }
        default: return 0;
    }
}
static bool comm(Op o){ return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

Node *mk(Op op, unsigned w, Node *a, Node *b, Node *c, u64 v){
    if(op == EXTRACT) return mkextract(a, (unsigned)v, w);
    if(op == CONCAT) return mkconcat(a, b);
    if(op == ITE) return mkite(a, b, c);
    if(op == ZEXT || op == SEXT){
        if(a->w == w) return a;
        if(isconst(a)) return mkconst(fold(op, w, a->v, 0, a->w), w);
        if(a->op == ZEXT) return mk(ZEXT, w, a->a);
        if(op == SEXT && a->op == SEXT) return mk(SEXT, w, a->a);
        if(a->op == ITE && isconst(a->b) && isconst(a->c))
            return mkite(a->a, mk(op, w, a->b), mk(op, w, a->c));
        if(a->op == SEL && op == ZEXT) return mksel(tables[a->v], a->a, w);
        return raw(op, w, a, 0, 0, 0);
    }
    if(isconst(a) && isconst(b)) return mkconst(fold(op, w, a->v, b->v, a->w), w);
    if(comm(op) && isconst(a)) std::swap(a, b);
    if(comm(op) && !isconst(b) && a->id > b->id) std::swap(a, b);
    u64 ones = mask(a->w);
    switch(op){
        case SUB:
            if(a == b) return mkconst(0, w);
            if(isconst(b)) return mk(ADD, w, a, mkconst(0 - b->v, w));
            // (x + c) - x
            if(a->op == ADD && a->a == b) return a->b;
            if(a->op == ADD && a->b == b) return a->a;
            break;
        case ADD:
            if(isconst(b)){
                if(!b->v) return a;
                if(a->op == ADD && isconst(a->b)) return mk(ADD, w, a->a, mkconst(a->b->v + b->v, w));
                if(a->op == SUB && isconst(a->a)) return mk(SUB, w, mkconst(a->a->v + b->v, w), a->b);
                if(a->op == ITE && isconst(a->b) && isconst(a->c))
                    return mkite(a->a, mk(op, w, a->b, b), mk(op, w, a->c, b));
            }
            break;
        case MUL:
            if(isconst(b)){
                if(!b->v) return b;
                if(b->v == 1) return a;
                if(!(b->v & (b->v - 1))) return mk(SHL, w, a, mkconst(__builtin_ctzll(b->v), w));
            }
            break;
        case AND:
            if(a == b) return a;
            if(isconst(b)){
                if(!b->v) return b;
                if(b->v == ones) return a;
                // low mask of a zext
                if(a->op == ZEXT && (b->v & mask(a->a->w)) == mask(a->a->w)) return a;
                if(a->op == AND && isconst(a->b)) return mk(AND, w, a->a, mkconst(a->b->v & b->v, w));
                if((b->v & (b->v + 1)) == 0 && w > 1){
                    unsigned k = (unsigned)__builtin_popcountll(b->v);
                    return mk(ZEXT, w, mkextract(a, 0, k));
                }
                if(a->op == ZEXT) return mk(ZEXT, w, mk(AND, a->a->w, a->a, mkconst(b->v, a->a->w)));
            }
            if(w == 1 && ((a->op == XOR && isconst(a->b) && a->a == b) || (b->op == XOR && isconst(b->b) && b->a == a))) return mkconst(0, 1);
            break;
        case OR:
            if(a == b) return a;
            if(isconst(b)){ if(!b->v) return a; if(b->v == ones) return b; }
            if(w == 1 && ((a->op == XOR && isconst(a->b) && a->a == b) || (b->op == XOR && isconst(b->b) && b->a == a))) return mkconst(1, 1);
            // reassembly of bytes: zext(lo) | (zext(hi) << k)
            for(int i = 0; i < 2; i++){
                Node *x = i ? b : a, *y = i ? a : b;
                if(y->op == SHL && isconst(y->b) && x->op == ZEXT){
                    unsigned k = (unsigned)y->b->v;
                    if(x->a->w <= k && k < w){
                        Node *lo = mk(ZEXT, k, x->a);
                        return mkconcat(mkextract(y->a, 0, w - k), lo);
                    }
                }
            }
            break;
        case XOR:
            if(a == b) return mkconst(0, w);
            if(isconst(b)){
                if(!b->v) return a;
                if(a->op == XOR && isconst(a->b)) return mk(XOR, w, a->a, mkconst(a->b->v ^ b->v, w));
                if(w == 1){ // push negation into comparisons
                    if(a->op == ULT) return mk(ULE, 1, a->b, a->a);
                    if(a->op == ULE) return mk(ULT, 1, a->b, a->a);
                    if(a->op == SLT) return mk(SLE, 1, a->b, a->a);
                    if(a->op == SLE) return mk(SLT, 1, a->b, a->a);
                }
            }
            break;
        case SHL: case LSHR: case ASHR:
            if(isconst(b)){
                if(!b->v) return a;
                if(b->v >= w && op != ASHR) return mkconst(0, w);
                if(op == LSHR){ return mk(ZEXT, w, mkextract(a, (unsigned)b->v, w - (unsigned)b->v)); }
                if(op == ASHR && b->v < w) return mk(SEXT, w, mkextract(a, (unsigned)b->v, w - (unsigned)b->v));
                if(op == SHL && a->op == SHL && isconst(a->b)) return mk(SHL, w, a->a, mkconst(std::min<u64>(a->b->v + b->v, 255 & mask(w)), w));
            }
            break;
        case UDIV: if(isconst(b) && b->v && !(b->v & (b->v - 1))) return mk(LSHR, w, a, mkconst(__builtin_ctzll(b->v), w)); break;
        case UREM: if(isconst(b) && b->v && !(b->v & (b->v - 1))) return mk(AND, w, a, mkconst(b->v - 1, w)); break;
        case EQ:
            if(a == b) return mkconst(1, 1);
            if(isconst(b)){
                if(a->w == 1) return b->v ? a : mknot(a);
                switch(a->op){
                    case ZEXT:
                        if(b->v > mask(a->a->w)) return mkconst(0, 1);
                        return mk(EQ, 1, a->a, mkconst(b->v, a->a->w));
                    case SEXT: {
                        u64 lo = b->v & mask(a->a->w);
                        if(((u64)sx(lo, a->a->w) & mask(a->w)) != b->v) return mkconst(0, 1);
                        return mk(EQ, 1, a->a, mkconst(lo, a->a->w));
                    }
                    case ADD: if(isconst(a->b)) return mk(EQ, 1, a->a, mkconst(b->v - a->b->v, a->w)); break;
                    case XOR: if(isconst(a->b)) return mk(EQ, 1, a->a, mkconst(b->v ^ a->b->v, a->w)); break;
                    case SUB: if(isconst(a->a)) return mk(EQ, 1, a->b, mkconst(a->a->v - b->v, a->w)); 
                              if(b->v == 0) return mk(EQ, 1, a->a, a->b); break;
                    case CONCAT:
                        return mk(AND, 1, mk(EQ, 1, a->a, mkconst(b->v >> a->b->w, a->a->w)),
                                mk(EQ, 1, a->b, mkconst(b->v, a->b->w)));
                    case ITE:
                        if(isconst(a->b) || isconst(a->c))
                            return mkite(a->a, mk(EQ, 1, a->b, b), mk(EQ, 1, a->c, b));
                        break;
                    case SEL: {
                        std::vector<u64> t = tables[a->v]; bool any = false;
                        for(auto &x : t){ x = x == b->v; any |= x; }
                        if(!any) return mkconst(0, 1);
                        return mksel(t, a->a, 1);
                    }
                    default: break;
                }
            }
            if(a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(EQ, 1, a->a, b->a);
            break;
        case ULT:
            if(a == b) return mkconst(0, 1);
            if(isconst(b)){
                if(b->v == 0) return mkconst(0, 1);
                if(b->v == 1) return mk(EQ, 1, a, mkconst(0, a->w));
                if(a->op == ZEXT){ if(b->v > mask(a->a->w)) return mkconst(1, 1); return mk(ULT, 1, a->a, mkconst(b->v, a->a->w)); }
            }
            if(isconst(a)){
                if(a->v == ones) return mkconst(0, 1);
                if(b->op == ZEXT){ if(a->v >= mask(b->a->w)) return mkconst(0, 1); return mk(ULT, 1, mkconst(a->v, b->a->w), b->a); }
                if(a->v == 0) return mknot(mk(EQ, 1, b, a));
            }
            break;
        case ULE:
            if(a == b) return mkconst(1, 1);
            if(isconst(a)){
                if(a->v == 0) return mkconst(1, 1);
                if(b->op == ZEXT){ if(a->v > mask(b->a->w)) return mkconst(0, 1); return mk(ULE, 1, mkconst(a->v, b->a->w), b->a); }
            }
            if(isconst(b)){
                if(b->v == ones) return mkconst(1, 1);
                if(a->op == ZEXT){ if(b->v >= mask(a->a->w)) return mkconst(1, 1); return mk(ULE, 1, a->a, mkconst(b->v, a->a->w)); }
            }
            break;
        case SLT: case SLE:
            if(a == b) return mkconst(op == SLE, 1);
            // non-negative zexts compare unsigned
            { bool za = a->op == ZEXT || (isconst(a) && sx(a->v, a->w) >= 0);
              bool zb = b->op == ZEXT || (isconst(b) && sx(b->v, b->w) >= 0);
              if(za && zb) return mk(op == SLT ? ULT : ULE, 1, a, b);
              if(a->op == ZEXT && isconst(b)) return mkconst(0, 1); // b negative
              if(b->op == ZEXT && isconst(a)) return mkconst(1, 1);
              if(a->op == SEXT && isconst(b)){
                  u64 lo = b->v & mask(a->a->w);
                  if(((u64)sx(lo, a->a->w) & mask(a->w)) == b->v) return mk(op, 1, a->a, mkconst(lo, a->a->w));
                  return mkconst(sx(b->v, b->w) > 0, 1);
              }
              if(b->op == SEXT && isconst(a)){
                  u64 lo = a->v & mask(b->a->w);
                  if(((u64)sx(lo, b->a->w) & mask(b->w)) == a->v) return mk(op, 1, mkconst(lo, b->a->w), b->a);
                  return mkconst(sx(a->v, a->w) < 0, 1);
              }
            }
            break;
        default: break;
    }
    return raw(op, w, a, b, c, v);
}

static uint32_t epoch = 1;
void newepoch(){ epoch++; }
u64 eval(Node *n, const Model &m){
    if(n->op == CONST) return n->v;
    if(n->op == VAR) return n->v < m.size() ? m[n->v] & mask(n->w) : 0;
    if(n->stamp == epoch) return n->val;
    u64 r;
    switch(n->op){
        case ITE: r = eval(n->a, m) ? eval(n->b, m) : eval(n->c, m); break;
        case EXTRACT: r = (eval(n->a, m) >> n->v) & mask(n->w); break;
        case CONCAT: r = eval(n->a, m) << n->b->w | eval(n->b, m); break;
        case ZEXT: case SEXT: r = fold(n->op, n->w, eval(n->a, m), 0, n->a->w); break;
        case SEL: { u64 i = eval(n->a, m); auto &t = tables[n->v]; r = i < t.size() ? t[i] : 0; break; }
        default: r = fold(n->op, n->w, eval(n->a, m), eval(n->b, m), n->a->w);
    }
    n->stamp = epoch; n->val = r;
    return r;
}

static inline Z3_ast K(Z3_ast a){ Z3_inc_ref(Z, a); return a; } // intermediates are kept
#define K_mk_and(...) K(Z3_mk_and(__VA_ARGS__))
#define K_mk_bvadd(...) K(Z3_mk_bvadd(__VA_ARGS__))
#define K_mk_bvand(...) K(Z3_mk_bvand(__VA_ARGS__))
#define K_mk_bvashr(...) K(Z3_mk_bvashr(__VA_ARGS__))
#define K_mk_bvlshr(...) K(Z3_mk_bvlshr(__VA_ARGS__))
#define K_mk_bvmul(...) K(Z3_mk_bvmul(__VA_ARGS__))
#define K_mk_bvor(...) K(Z3_mk_bvor(__VA_ARGS__))
#define K_mk_bvsdiv(...) K(Z3_mk_bvsdiv(__VA_ARGS__))
#define K_mk_bvshl(...) K(Z3_mk_bvshl(__VA_ARGS__))
#define K_mk_bvsle(...) K(Z3_mk_bvsle(__VA_ARGS__))
#define K_mk_bvslt(...) K(Z3_mk_bvslt(__VA_ARGS__))
#define K_mk_bvsrem(...) K(Z3_mk_bvsrem(__VA_ARGS__))
#define K_mk_bvsub(...) K(Z3_mk_bvsub(__VA_ARGS__))
#define K_mk_bvudiv(...) K(Z3_mk_bvudiv(__VA_ARGS__))
#define K_mk_bvule(...) K(Z3_mk_bvule(__VA_ARGS__))
#define K_mk_bvult(...) K(Z3_mk_bvult(__VA_ARGS__))
#define K_mk_bvurem(...) K(Z3_mk_bvurem(__VA_ARGS__))
#define K_mk_bvxor(...) K(Z3_mk_bvxor(__VA_ARGS__))
#define K_mk_concat(...) K(Z3_mk_concat(__VA_ARGS__))
#define K_mk_const(...) K(Z3_mk_const(__VA_ARGS__))
#define K_mk_eq(...) K(Z3_mk_eq(__VA_ARGS__))
#define K_mk_extract(...) K(Z3_mk_extract(__VA_ARGS__))
#define K_mk_false(...) K(Z3_mk_false(__VA_ARGS__))
#define K_mk_ite(...) K(Z3_mk_ite(__VA_ARGS__))
#define K_mk_not(...) K(Z3_mk_not(__VA_ARGS__))
#define K_mk_or(...) K(Z3_mk_or(__VA_ARGS__))
#define K_mk_sign_ext(...) K(Z3_mk_sign_ext(__VA_ARGS__))
#define K_mk_true(...) K(Z3_mk_true(__VA_ARGS__))
#define K_mk_unsigned_int64(...) K(Z3_mk_unsigned_int64(__VA_ARGS__))
#define K_mk_xor(...) K(Z3_mk_xor(__VA_ARGS__))
#define K_mk_zero_ext(...) K(Z3_mk_zero_ext(__VA_ARGS__))
static Z3_sort bv(unsigned w){
    static Z3_sort s[65];
    if(!s[w]){ s[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s[w])); }
    return s[w];
}
// width-1 nodes are 1-bit vectors in the DAG and Booleans in Z3
static Z3_ast b2v(Z3_ast b){
    return K_mk_ite(Z, b, K_mk_unsigned_int64(Z, 1, bv(1)), K_mk_unsigned_int64(Z, 0, bv(1)));
}
static Z3_ast vec(Node *n){ return n->w == 1 ? b2v(toz3(n)) : toz3(n); }
static Z3_ast v2b(Z3_ast v){ return K_mk_eq(Z, v, K_mk_unsigned_int64(Z, 1, bv(1))); }

static Z3_ast tab(const std::vector<u64> &t, size_t lo, unsigned bit, Node *idx, Z3_ast zi, unsigned w){
    // values [lo, lo + 2^bit)
    size_t hi = std::min(t.size(), lo + ((size_t)1 << bit));
    if(lo >= t.size()) return nullptr;
    bool same = true;
    for(size_t i = lo; i < hi; i++) if(t[i] != t[lo]) same = false;
    if(same) return w == 1 ? (t[lo] ? K_mk_true(Z) : K_mk_false(Z)) : K_mk_unsigned_int64(Z, t[lo], bv(w));
    Z3_ast l = tab(t, lo, bit - 1, idx, zi, w), h = tab(t, lo + ((size_t)1 << (bit - 1)), bit - 1, idx, zi, w);
    if(!h) return l;
    return K_mk_ite(Z, v2b(K_mk_extract(Z, bit - 1, bit - 1, zi)), h, l);
}
Z3_ast toz3(Node *n){
    if(n->z) return n->z;
    Z3_ast r = nullptr;
    bool B = n->w == 1;
    switch(n->op){
        case CONST: r = B ? (n->v ? K_mk_true(Z) : K_mk_false(Z)) : K_mk_unsigned_int64(Z, n->v, bv(n->w)); break;
        case VAR: {
            Z3_symbol s = Z3_mk_int_symbol(Z, (int)n->v);
            r = K_mk_const(Z, s, B ? Z3_mk_bool_sort(Z) : bv(n->w)); break;
        }
        case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM:
        case SHL: case LSHR: case ASHR: {
            Z3_ast a = vec(n->a), b = vec(n->b);
            switch(n->op){
                case ADD: r = K_mk_bvadd(Z, a, b); break;
                case SUB: r = K_mk_bvsub(Z, a, b); break;
                case MUL: r = K_mk_bvmul(Z, a, b); break;
                case UDIV: r = K_mk_bvudiv(Z, a, b); break;
                case SDIV: r = K_mk_bvsdiv(Z, a, b); break;
                case UREM: r = K_mk_bvurem(Z, a, b); break;
                case SREM: r = K_mk_bvsrem(Z, a, b); break;
                case SHL: r = K_mk_bvshl(Z, a, b); break;
                case LSHR: r = K_mk_bvlshr(Z, a, b); break;
                default: r = K_mk_bvashr(Z, a, b); break;
            }
            if(B) r = v2b(r);
            break;
        }
        case AND: case OR: case XOR: {
            Z3_ast a = toz3(n->a), b = toz3(n->b);
            Z3_ast ab[2] = {a, b};
            if(B) r = n->op == AND ? K_mk_and(Z, 2, ab) : n->op == OR ? K_mk_or(Z, 2, ab) :
                    (isconst(n->b) && n->b->v) ? K_mk_not(Z, a) : K_mk_xor(Z, a, b);
            else r = n->op == AND ? K_mk_bvand(Z, a, b) : n->op == OR ? K_mk_bvor(Z, a, b) : K_mk_bvxor(Z, a, b);
            break;
        }
        case ZEXT: r = K_mk_zero_ext(Z, n->w - n->a->w, vec(n->a)); break;
        case SEXT: r = K_mk_sign_ext(Z, n->w - n->a->w, vec(n->a)); break;
        case EXTRACT: r = K_mk_extract(Z, (unsigned)n->v + n->w - 1, (unsigned)n->v, vec(n->a)); if(B) r = v2b(r); break;
        case CONCAT: r = K_mk_concat(Z, vec(n->a), vec(n->b)); break;
        case EQ: r = K_mk_eq(Z, toz3(n->a), toz3(n->b)); break;
        case ULT: r = K_mk_bvult(Z, vec(n->a), vec(n->b)); break;
        case ULE: r = K_mk_bvule(Z, vec(n->a), vec(n->b)); break;
        case SLT: r = K_mk_bvslt(Z, vec(n->a), vec(n->b)); break;
        case SLE: r = K_mk_bvsle(Z, vec(n->a), vec(n->b)); break;
        case ITE: r = K_mk_ite(Z, toz3(n->a), toz3(n->b), toz3(n->c)); break;
        case SEL: {
            auto &t = tables[n->v];
            unsigned bits = 0; while(((size_t)1 << bits) < t.size()) bits++;
            Node *i = n->a;
            if(bits > i->w) bits = i->w;
            r = tab(t, 0, bits, i, vec(i), n->w); break;
        }
    }
    Z3_inc_ref(Z, r);
    n->z = r;
    return r;
}

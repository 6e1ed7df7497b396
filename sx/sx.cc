// sx: path-by-path symbolic execution of LLVM IR with an SMT solver (Z3).
//
// usage: sx prog.bc ENTRY [--steps N] [--timeout S] [--jobs N] [--leak]
// Every symbolic branch asks the solver which sides are feasible; every
// assertion, memory access, division and abort is an obligation decided by the
// solver under the path condition.  Output (one record per line, tab separated)
//   REACH label values...      FAIL kind message where values...
//   NOBODY function            FUNC file function          SUMMARY key=value...
#include "expr.h"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/Analysis.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/wait.h>
#include <memory>
#include <map>
#include <set>
#include <deque>

static LLVMModuleRef M; static LLVMTargetDataRef TD;
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec*1e-9; }
static double t_start, t_limit = 280;
static u64 max_steps = 20000000; static bool opt_leak; static int opt_jobs = 1; static bool verbose;
// statistics
static u64 st_queries, st_hits, st_paths, st_insts, st_forks, st_obl, st_incomplete, st_unsup, st_pruned;
static double st_solver;
static std::set<std::string> seen_funcs, nobody, reached, reasons;
static std::map<std::string,int> failed;

// ---------------------------------------------------------------- values
struct Val { Node *n; u64 c; };
static inline Val V(u64 c){ return Val{nullptr, c}; }
static inline Val VN(Node *n){ if(isconst(n)) return Val{nullptr, n->v}; return Val{n, 0}; }
static inline Node *N(Val v, unsigned w){ return v.n ? v.n : mkconst(v.c, w); }
struct Unsupported { std::string why; };
static void unsup(const std::string &s){ throw Unsupported{s}; }

// ---------------------------------------------------------------- memory
static Node UNINIT_; static Node *const UNINIT = &UNINIT_;
struct Data { std::vector<uint8_t> c; std::vector<Node*> s; };
enum { K_CONST, K_GLOBAL, K_STACK, K_HEAP };
struct Obj { uint8_t kind; bool alive; u64 size; std::shared_ptr<Data> d; };
typedef std::vector<Obj> Chunk; // 64 objects
static const u64 FUNCID = 0x40000000;

// ---------------------------------------------------------------- decoded code
struct Opnd { int slot; u64 c; }; // slot<0: constant
struct GepIdx { Opnd o; unsigned w; int64_t scale; };
struct Leaf { u64 off; uint8_t w; uint8_t bytes; bool ptr; };
struct Edge { int target; std::vector<std::pair<int,Opnd>> copies; std::vector<uint8_t> cw; };
struct Inst {
    LLVMOpcode op; uint8_t w = 0, w2 = 0; int dst = -1; bool flag = false; uint8_t isptr = 0;
    unsigned pred = 0; std::vector<Opnd> o; std::vector<GepIdx> gi; int64_t off = 0;
    std::vector<Leaf> leaves; std::vector<Edge> edges; std::vector<u64> cases;
    int line = 0; u64 sz = 0; std::vector<std::pair<int,u64>> byval; std::vector<uint8_t> ow;
    struct Func *callee = nullptr; int nat = 0; unsigned nret = 0; int iop = 0; std::string name;
};
struct Func {
    LLVMValueRef v; std::string name, file; bool seen = false, decoded = false, body = false; int nslots = 0;
    std::vector<std::vector<Inst>> blocks; std::vector<int> params; bool vararg = false; u64 addr; int nparams=0;
    std::vector<std::pair<int,int>> pslots; // slot, nleaves
};
static std::vector<Func*> funcs; static std::map<LLVMValueRef, Func*> fmap; static std::map<std::string, Func*> fname;
static std::map<LLVMValueRef, u64> gaddr;

struct Fr { Func *f; int bb = 0, pc = 0, prev = 0; std::vector<Val> r; std::vector<uint32_t> allocas; u64 va = 0; };
struct State {
    std::vector<std::shared_ptr<Fr>> st;
    std::vector<std::shared_ptr<Chunk>> mem; u64 nobj = 0;
    std::vector<Node*> cs; Model model; std::vector<std::pair<Node*,int>> nd; u64 steps = 0;
    std::set<int> fixed;
};
static State *S; static std::deque<State*> work;

static Obj &oref(State *s, u64 id){ // for writing
    auto &c = s->mem[id >> 6];
    if(c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    return (*c)[id & 63];
}
static const Obj &oget(u64 id){ return (*S->mem[id >> 6])[id & 63]; }
static u64 alloc(State *s, u64 size, int kind){
    u64 id = s->nobj++;
    if((id >> 6) >= s->mem.size()) s->mem.push_back(std::make_shared<Chunk>(64));
    Obj &o = oref(s, id);
    o.kind = (uint8_t)kind; o.alive = true; o.size = size; o.d = nullptr;
    if(kind != K_STACK && kind != K_HEAP){ o.d = std::make_shared<Data>(); o.d->c.assign(size, 0); } // others on first use
    return id << 32;
}
static Data &wdata(u64 id){
    Obj &o = oref(S, id);
    if(!o.d){ o.d = std::make_shared<Data>(); o.d->c.assign(o.size, 0); o.d->s.assign(o.size, UNINIT); }
    else if(o.d.use_count() > 1) o.d = std::make_shared<Data>(*o.d);
    return *o.d;
}

// ---------------------------------------------------------------- solver
static Z3_solver sol; static u64 sol_n;
static void newsolver(){
    if(sol) Z3_solver_dec_ref(Z, sol);
    sol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, sol);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 60000);
    Z3_solver_set_params(Z, sol, p); Z3_params_dec_ref(Z, p);
}
struct Killed {};
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { u64 h = 1469598103934665603ull; for(auto x : v){ h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<int, std::vector<std::pair<int,u64>>>, VecHash> qcache;

// is path && cond satisfiable?  fills model
static u64 st_domain;
static bool sat(Node *cond, Model &out, bool branching = true){
    if(isconst(cond)) { if(cond->v) out = S->model; return cond->v; }
    // constraints sharing variables with cond
    std::vector<char> in(allvars.size(), 0); std::vector<int> todo(cond->vars->begin(), cond->vars->end());
    for(int v : todo) in[(size_t)v] = 1;
    std::vector<Node*> slice; std::vector<char> used(S->cs.size(), 0);
    bool more = true;
    while(more){
        more = false;
        for(size_t i = 0; i < S->cs.size(); i++) if(!used[i]){
            bool hit = false;
            for(int v : *S->cs[i]->vars) if(in[(size_t)v]){ hit = true; break; }
            if(hit){
                used[i] = 1; slice.push_back(S->cs[i]); more = true;
                for(int v : *S->cs[i]->vars) in[(size_t)v] = 1;
            }
        }
    }
    std::vector<uint32_t> key; for(auto n : slice) key.push_back(n->id);
    std::sort(key.begin(), key.end()); key.push_back(cond->id);
    auto it = qcache.find(key);
    if(it != qcache.end()){
        st_hits++;
        if(it->second.first){ out = S->model; out.resize(allvars.size()); for(auto &p : it->second.second) out[(size_t)p.first] = p.second; }
        return it->second.first;
    }
    if(branching && cond->vars->size() == 1){
        // path conditions over a single small variable are decided over its
        // whole domain; obligations always go to the solver
        bool one = allvars[(size_t)(*cond->vars)[0]]->w <= 8;
        for(auto n : slice) if(n->vars->size() != 1) one = false;
        if(one){
            size_t v = (size_t)(*cond->vars)[0]; u64 top = 1ull << allvars[v]->w; st_domain++;
            Model m = S->model; m.resize(allvars.size());
            for(u64 x = 0; x < top; x++){
                m[v] = x; newepoch(); bool ok = eval(cond, m);
                for(size_t i = 0; ok && i < slice.size(); i++) ok = eval(slice[i], m);
                if(ok){ qcache[key] = {1, {{(int)v, x}}}; out = m; return true; }
            }
            qcache[key] = {0, {}};
            return false;
        }
    }
    double t = now();
    if(t - t_start > t_limit){ st_incomplete++; reasons.insert("time limit"); throw Killed(); }
    if(sol_n++ % 2000 == 0) newsolver();
    Z3_solver_push(Z, sol);
    for(auto n : slice) Z3_solver_assert(Z, sol, toz3(n));
    Z3_solver_assert(Z, sol, toz3(cond));
    Z3_lbool r = Z3_solver_check(Z, sol);
    st_queries++;
    std::vector<std::pair<int,u64>> vals;
    if(r == Z3_L_TRUE){
        Z3_model m = Z3_solver_get_model(Z, sol); Z3_model_inc_ref(Z, m);
        out = S->model; out.resize(allvars.size());
        std::set<int> vs(cond->vars->begin(), cond->vars->end());
        for(auto n : slice) vs.insert(n->vars->begin(), n->vars->end());
        for(int v : vs){
            Z3_ast a; u64 x = 0;
            if(Z3_model_eval(Z, m, toz3(allvars[(size_t)v]), true, &a)){
                Z3_inc_ref(Z, a);
                if(Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(Z, a, (uint64_t*)&x);
                else x = Z3_get_bool_value(Z, a) == Z3_L_TRUE;
                Z3_dec_ref(Z, a);
            }
            out[(size_t)v] = x; vals.push_back({v, x});
        }
        Z3_model_dec_ref(Z, m);
    }
    Z3_solver_pop(Z, sol, 1);
    st_solver += now() - t;
    if(r == Z3_L_UNDEF){ st_incomplete++; reasons.insert("solver gave up"); throw Killed(); }
    qcache[key] = {r == Z3_L_TRUE, vals};
    return r == Z3_L_TRUE;
}
static void addc(State *s, Node *c){
    if(isconst(c)) return;
    if(c->op == AND && c->w == 1){ addc(s, c->a); addc(s, c->b); return; }
    if(c->op == EQ && c->a->op == VAR && isconst(c->b)) s->fixed.insert((int)c->a->v);
    if(c->op == VAR && c->w == 1) s->fixed.insert((int)c->v);
    if(c->op == XOR && c->w == 1 && c->a->op == VAR && isconst(c->b)) s->fixed.insert((int)c->a->v);
    for(auto n : s->cs) if(n == c) return;
    s->cs.push_back(c);
}
static State *clone(){ // shares frames and memory
    State *n = new State(*S); st_forks++; return n;
}
// decide a condition on the current path; the other side, when feasible,
// becomes a new state that re-executes the current instruction
static bool branch(Node *c){
    if(isconst(c)) return c->v;
    newepoch();
    bool v = eval(c, S->model);
    bool allfixed = true;
    for(int x : *c->vars) if(!S->fixed.count(x)){ allfixed = false; break; }
    if(allfixed) return v;
    Node *neg = mknot(c), *taken = v ? c : neg, *other = v ? neg : c;
    for(auto n : S->cs) if(n == taken) return v;
    Model m;
    if(!sat(other, m)) return v;
    State *o = clone();
    o->model = m; addc(o, other);
    work.push_back(o);
    addc(S, taken);
    return v;
}
// concrete value of an expression on this path (forks over the others)
static u64 concretize(Val x, unsigned w){
    if(!x.n) return x.c;
    newepoch();
    u64 v = eval(x.n, S->model);
    if(branch(mk(EQ, 1, x.n, mkconst(v, w)))) return v;
    abort();
}

// ---------------------------------------------------------------- reporting
static FILE *out;
static std::string where(){
    for(size_t i = S->st.size(); i-- > 0;){
        Fr &f = *S->st[i];
        if(f.bb < (int)f.f->blocks.size() && f.pc < (int)f.f->blocks[(size_t)f.bb].size()){
            int line = f.f->blocks[(size_t)f.bb][(size_t)f.pc].line;
            char b[32]; snprintf(b, sizeof b, ":%d", line);
            std::string w = f.f->name + b;
            if(i > 0) w += " < " + S->st[i-1]->f->name;
            return w;
        }
    }
    return "?";
}
static void pvals(const Model &m){
    newepoch();
    for(auto &p : S->nd) fprintf(out, "\t%llu", (unsigned long long)eval(p.first, m));
    fprintf(out, "\n"); fflush(out);
}
static void fail(const char *kind, const std::string &msg, const Model &m){
    std::string w = where(), key = std::string(kind) + msg + w;
    if(failed[key]++ >= 2) return;
    fprintf(out, "FAIL\t%s\t%s\t%s", kind, msg.c_str(), w.c_str());
    pvals(m);
}
// obligation: c holds on this path
static void check(Node *c, const char *kind, const std::string &msg){
    st_obl++;
    if(isconst(c)){ if(c->v) return; fail(kind, msg, S->model); throw Killed(); }
    Node *neg = mknot(c);
    for(auto n : S->cs) if(n == c) return;
    Model m;
    newepoch();
    if(!eval(c, S->model)){
        fail(kind, msg, S->model);
        if(!sat(c, m, false)) throw Killed();
        S->model = m; addc(S, c); return;
    }
    if(sat(neg, m, false)){ fail(kind, msg, m); addc(S, c); }
}
static void assume(Node *c){
    if(isconst(c)){ if(!c->v){ st_pruned++; throw Killed(); } return; }
    newepoch();
    if(!eval(c, S->model)){
        Model m;
        if(!sat(c, m)){ st_pruned++; throw Killed(); }
        S->model = m;
    }
    addc(S, c);
}
static void die(const char *kind, const std::string &msg){
    st_obl++;
    fail(kind, msg, S->model); throw Killed();
}

// ---------------------------------------------------------------- addresses
// which object does this address range lie in?  forks when there are several
static void resolve(Val &a, u64 n, u64 &id, const char *what){
    if(!a.n){
        id = a.c >> 32; u64 off = a.c & 0xffffffff;
        st_obl++;
        if(id == 0 || id >= S->nobj){
            die("memory", std::string(a.c < 4096 ? "null pointer " : "invalid pointer ") + what);
        }
        const Obj &o = oget(id);
        if(!o.alive) die("memory", std::string("use after free: ") + what);
        if(off + n > o.size) die("memory", std::string("out of bounds ") + what);
        return;
    }
    for(;;){
        newepoch();
        u64 v = eval(a.n, S->model);
        id = v >> 32;
        u64 size = 0; bool ok = id && id < S->nobj && oget(id).alive;
        if(ok) size = oget(id).size;
        if(!ok || (v & 0xffffffff) + n > size){
            st_obl++;
            // this model already escapes every live object: but report precisely
            fail("memory", std::string("out of bounds ") + what, S->model);
            throw Killed();
        }
        // off <= size - n relative to this object
        Node *in = mk(ULE, 1, mk(SUB, 64, a.n, mkconst(id << 32, 64)), mkconst(size - n, 64));
        st_obl++;
        if(isconst(in)) return;
        Node *neg = mknot(in); Model m; bool known = false;
        for(auto c : S->cs) if(c == in) known = true;
        if(known) return;
        if(sat(neg, m)){
            State *o = clone(); o->model = m; addc(o, neg); work.push_back(o);
            addc(S, in);
        }
        return;
    }
}
static Node *byteat(u64 id, u64 off){
    if(!oget(id).d) wdata(id);
    const Obj &o = oget(id);
    if(!o.d->s.empty() && o.d->s[off]){
        if(o.d->s[off] == UNINIT){
            Node *v = mkvar(8);
            if(S->model.size() < allvars.size()) S->model.resize(allvars.size(), 0);
            wdata(id).s[off] = v;
            return v;
        }
        return o.d->s[off];
    }
    return mkconst(o.d->c[off], 8);
}
static Val load1(u64 id, u64 off, unsigned bytes, unsigned w){
    if(!oget(id).d) wdata(id);
    const Data &d = *oget(id).d;
    bool conc = true;
    if(!d.s.empty()) for(unsigned i = 0; i < bytes; i++) if(d.s[off + i]){ conc = false; break; }
    if(conc){
        u64 v = 0; memcpy(&v, &d.c[off], bytes); return V(v & mask(w));
    }
    // in order from the top byte down
    Node *r = byteat(id, off + bytes - 1);
    for(unsigned i = bytes - 1; i-- > 0;) r = mkconcat(r, byteat(id, off + i));
    return VN(mkextract(r, 0, w));
}
static void store1(u64 id, u64 off, Val v, unsigned bytes, unsigned w){
    Data &d = wdata(id);
    if(!v.n){
        u64 c = v.c & mask(w);
        memcpy(&d.c[off], &c, bytes);
        if(!d.s.empty()) for(unsigned i = 0; i < bytes; i++) d.s[off + i] = nullptr;
        return;
    }
    if(d.s.empty()) d.s.assign(d.c.size(), nullptr);
    Node *n = mk(ZEXT, bytes * 8, v.n);
    for(unsigned i = 0; i < bytes; i++){
        Node *b = mkextract(n, i * 8, 8);
        if(isconst(b)){ d.c[off + i] = (uint8_t)b->v; d.s[off + i] = nullptr; }
        else d.s[off + i] = b;
    }
}
// load with a symbolic offset inside one object
static Val loadsym(Node *a, u64 id, unsigned bytes, unsigned w, bool ptr){
    const Obj &o = oget(id);
    if(ptr || o.size > 4096) { u64 v = concretize(Val{a, 0}, 64); return load1(id, v & 0xffffffff, bytes, w); }
    Node *off = mk(SUB, 64, a, mkconst(id << 32, 64));
    unsigned tz = 0, lg = (unsigned)__builtin_ctz(bytes);
    u64 res = 0; Node *x = off;
    if(bytes > 1){
        if(off->op == ADD && isconst(off->b)){ res = off->b->v; x = off->a; }
        tz = ktz(x);
        if(tz < lg){ u64 v = concretize(Val{a, 0}, 64); return load1(id, v & 0xffffffff, bytes, w); }
        res &= bytes - 1;
    }
    u64 cnt = (o.size - res) / bytes;
    std::vector<u64> t; bool conc = true; std::vector<Val> vs;
    for(u64 i = 0; i < cnt; i++){ Val v = load1(id, res + i * bytes, bytes, w); vs.push_back(v); if(v.n) conc = false; t.push_back(v.c); }
    if(vs.empty()) die("memory", "out of bounds read");
    Node *idx = mk(LSHR, 64, mk(SUB, 64, off, mkconst(res, 64)), mkconst(lg, 64));
    if(conc){
        if(idx->op == ZEXT){
            unsigned iw = idx->a->w;
            if(iw < 64 && t.size() > (1ull << std::min(iw, 40u))) t.resize((size_t)1 << iw);
            return VN(mksel(t, idx->a, w));
        }
        return VN(mksel(t, idx, w));
    }
    if(cnt > 300){ u64 v = concretize(Val{a, 0}, 64); return load1(id, v & 0xffffffff, bytes, w); }
    Node *r = N(vs[0], w);
    for(u64 i = 1; i < cnt; i++) r = mkite(mk(EQ, 1, idx, mkconst(i, 64)), N(vs[i], w), r);
    return VN(r);
}
static Val load(Val a, unsigned bytes, unsigned w, bool ptr){
    u64 id; resolve(a, bytes, id, "read");
    if(!a.n) return load1(id, a.c & 0xffffffff, bytes, w);
    return loadsym(a.n, id, bytes, w, ptr);
}
static void store(Val a, Val v, unsigned bytes, unsigned w){
    u64 id; resolve(a, bytes, id, "write");
    if(oget(id).kind == K_CONST) die("memory", "write to constant");
    if(a.n) a = V(concretize(a, 64));
    store1(id, a.c & 0xffffffff, v, bytes, w);
}
static void copymem(u64 d, u64 s, u64 n){
    if(!n) return;
    u64 di, si; Val dv = V(d), sv = V(s);
    resolve(sv, n, si, "read"); resolve(dv, n, di, "write");
    if(oget(di).kind == K_CONST) die("memory", "write to constant");
    if(!oget(si).d) wdata(si);
    std::shared_ptr<Data> src = oget(si).d; // keeps the source as it was
    u64 so = s & 0xffffffff, dof = d & 0xffffffff;
    std::vector<uint8_t> c(src->c.begin() + (long)so, src->c.begin() + (long)(so + n));
    std::vector<Node*> sy; if(!src->s.empty()) sy.assign(src->s.begin() + (long)so, src->s.begin() + (long)(so + n));
    src.reset();
    Data &dd = wdata(di);
    memcpy(&dd.c[dof], c.data(), n);
    if(!sy.empty()){
        if(dd.s.empty()) dd.s.assign(dd.c.size(), nullptr);
        for(u64 i = 0; i < n; i++) dd.s[dof + i] = sy[i];
    }else if(!dd.s.empty()) for(u64 i = 0; i < n; i++) dd.s[dof + i] = nullptr;
}
static void freeobj(u64 id){
    Obj &o = oref(S, id); o.alive = false; o.d = nullptr;
}
static std::string cstr(Val a){
    std::string r; if(a.n) return "?";
    for(u64 p = a.c;; p++){ Val c = load(V(p), 1, 8, false); if(c.n || !c.c) break; r += (char)c.c; if(r.size() > 300) break; }
    return r;
}

#include "decode.h"
#include "step.h"

// ---------------------------------------------------------------- main loop
static void runstate(){
    for(;;){
        try { step(); }
        catch(Killed&){ delete S; S = nullptr; return; }
        catch(Unsupported &u){
            st_unsup++; reasons.insert("unsupported: " + u.why + " at " + where());
            delete S; S = nullptr; return;
        }
        if(S->st.empty()){ // entry returned
            st_paths++;
            if(opt_leak){
                st_obl++;
                for(u64 i = 1; i < S->nobj; i++) if(oget(i).alive && oget(i).kind == K_HEAP){ fail("leak", "memory leaked at exit", S->model); break; }
            }
            delete S; S = nullptr; return;
        }
    }
}
static void explore(size_t upto){
    while(!work.empty() && (!upto || work.size() < upto)){
        if(upto){ S = work.front(); work.pop_front(); }
        else { S = work.back(); work.pop_back(); }
        if(now() - t_start > t_limit){ st_incomplete += 1 + work.size(); reasons.insert("time limit"); delete S; break; }
        runstate();
    }
}
static void summary(){
    for(auto &f : seen_funcs) fprintf(out, "FUNC\t%s\n", f.c_str());
    for(auto &f : wanted) fprintf(out, "WANT\t%s\n", f.c_str());
    for(auto &f : nobody) fprintf(out, "NOBODY\t%s\n", f.c_str());
    for(auto &r : reasons) fprintf(out, "REASON\t%s\n", r.c_str());
    fprintf(out, "SUMMARY\tpaths=%llu\tpruned=%llu\tinsts=%llu\tforks=%llu\tqueries=%llu\tcached=%llu\tobligations=%llu\tincomplete=%llu\tunsupported=%llu\tsolver_s=%.3f\tdomain=%llu\tnodes=%llu\n",
        (unsigned long long)st_paths, (unsigned long long)st_pruned, (unsigned long long)st_insts, (unsigned long long)st_forks, (unsigned long long)st_queries,
        (unsigned long long)st_hits, (unsigned long long)st_obl, (unsigned long long)st_incomplete, (unsigned long long)st_unsup, st_solver, (unsigned long long)st_domain, (unsigned long long)n_nodes);
    fflush(out);
}
static int real_main(int argc, char **argv){
    t_start = now(); out = stdout;
    const char *entry = argv[2];
    for(int i = 3; i < argc; i++){
        std::string a = argv[i];
        if(a == "--steps") max_steps = strtoull(argv[++i], 0, 10);
        else if(a == "--timeout") t_limit = atof(argv[++i]);
        else if(a == "--jobs") opt_jobs = atoi(argv[++i]);
        else if(a == "--leak") opt_leak = true;
        else if(a == "--stub") stubs.insert(argv[++i]);
        else if(a == "--nop") nops.insert(argv[++i]);
        else if(a == "--harness") harness = argv[++i];
        else if(a == "-v") verbose = true;
        else { fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
    }
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg);
    LLVMMemoryBufferRef buf; char *msg;
    if(LLVMCreateMemoryBufferWithContentsOfFile(argv[1], &buf, &msg)){ fprintf(stderr, "%s\n", msg); return 2; }
    LLVMContextRef C = LLVMContextCreate();
    if(LLVMParseIRInContext(C, buf, &M, &msg)){ fprintf(stderr, "%s\n", msg); return 2; }
    TD = LLVMGetModuleDataLayout(M);
    S = new State(); alloc(S, 0, K_CONST); // id 0 is null
    setup();
    auto it = fname.find(entry);
    if(it == fname.end() || !it->second->body){ fprintf(stderr, "no entry %s\n", entry); return 2; }
    push(it->second);
    work.push_back(S);
    if(opt_jobs > 1){
        explore((size_t)opt_jobs * 8);
        if(!work.empty()){
            std::vector<pid_t> ps; std::vector<FILE*> fs;
            for(int j = 0; j < opt_jobs; j++){
                FILE *f = tmpfile(); fs.push_back(f); fflush(out);
                pid_t p = fork();
                if(p == 0){
                    std::deque<State*> mine;
                    for(size_t k = (size_t)j; k < work.size(); k += (size_t)opt_jobs) mine.push_back(work[k]);
                    work = mine; out = f;
                    st_paths = st_pruned = st_insts = st_forks = st_queries = st_hits = st_obl = st_incomplete = st_unsup = 0; st_solver = 0;
                    explore(0); summary(); fflush(f); _exit(0);
                }
                ps.push_back(p);
            }
            for(size_t j = 0; j < ps.size(); j++){
                int st; waitpid(ps[j], &st, 0);
                if(!WIFEXITED(st) || WEXITSTATUS(st)){ st_incomplete++; reasons.insert("worker died"); }
                rewind(fs[j]); char b[65536]; size_t n;
                while((n = fread(b, 1, sizeof b, fs[j])) > 0) fwrite(b, 1, n, out);
            }
        }
    }else explore(0);
    summary();
    fflush(out); _exit(0);
}
struct A { int c; char **v; };
static void *thr(void *p){ A *a = (A*)p; exit(real_main(a->c, a->v)); }
int main(int argc, char **argv){
    if(argc < 3) return 2;
    A a{argc, argv}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)512 << 20);
    pthread_t t; pthread_create(&t, &at, thr, &a); pthread_join(t, nullptr);
}

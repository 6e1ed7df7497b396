// one instruction
static void push(Func *f){
    if(!f->decoded) decode(f);
    if(S->st.size() > 3000) die("stack", "recursion too deep");
    auto fr = std::make_shared<Fr>(); fr->f = f; fr->r.assign((size_t)f->nslots, Val{nullptr, 0});
    S->st.push_back(fr);
    if(!f->seen){ f->seen = true; if(!f->file.empty()) seen_funcs.insert(f->file + "\t" + f->name); }
}
static Fr &top(){
    auto &p = S->st.back();
    if(p.use_count() > 1) p = std::make_shared<Fr>(*p);
    return *p;
}
static inline Val get(Fr &f, const Opnd &o){ return o.slot < 0 ? V(o.c) : f.r[(size_t)o.slot]; }
static void jump(Fr &f, const Edge &e){
    size_t n = e.copies.size();
    if(n == 1){ f.r[(size_t)e.copies[0].first] = get(f, e.copies[0].second); }
    else if(n){
        Val tmp[64]; std::vector<Val> big; Val *t = tmp; if(n > 64){ big.resize(n); t = big.data(); }
        for(size_t i = 0; i < n; i++) t[i] = get(f, e.copies[i].second);
        for(size_t i = 0; i < n; i++) f.r[(size_t)e.copies[i].first] = t[i];
    }
    f.bb = e.target; f.pc = 0;
}
static Node *nz(Val v, unsigned w){ // v != 0
    return w == 1 ? N(v, 1) : mknot(mk(EQ, 1, N(v, w), mkconst(0, w)));
}
static Val bin(Op op, unsigned w, Val a, Val b){
    if(!a.n && !b.n) return V(fold(op, w, a.c, b.c, w));
    return VN(mk(op, w, N(a, w), N(b, w)));
}
static Val cmpv(Op op, unsigned w, Val a, Val b){
    if(!a.n && !b.n) return V(fold(op, 1, a.c, b.c, w));
    return VN(mk(op, 1, N(a, w), N(b, w)));
}
static void doreturn(std::vector<Val> &rv){
    for(auto a : top().allocas) freeobj(a);
    S->st.pop_back();
    if(S->st.empty()) return;
    Fr &c = top(); const Inst &I = c.f->blocks[(size_t)c.bb][(size_t)c.pc];
    for(unsigned i = 0; i < I.nret && i < rv.size(); i++) c.r[(size_t)I.dst + i] = rv[i];
    c.pc++;
}
static void callnative(Fr &f, const Inst &I, std::vector<Val> &a){
    auto R = [&](Val v){ if(I.dst >= 0) top().r[(size_t)I.dst] = v; };
    auto R2 = [&](Val v, Val o){ Fr &g = top(); g.r[(size_t)I.dst] = v; g.r[(size_t)I.dst + 1] = o; };
    unsigned w = I.ow.empty() ? 0 : I.ow[0];
    switch(I.nat){
        case NAT_ND: {
            unsigned bits = (unsigned)a[0].c; Node *v = mkvar(bits); S->model.resize(allvars.size(), 0);
            S->nd.push_back({v, (int)bits}); R(VN(mk(ZEXT, 64, v))); break;
        }
        case NAT_ASSUME: assume(nz(a[0], w)); break;
        case NAT_CHECK: check(nz(a[0], w), "check", cstr(a[1])); break;
        case NAT_REACH: { std::string s = cstr(a[0]); if(!reached.count(s)){ reached.insert(s); fprintf(out, "REACH\t%s", s.c_str()); pvals(S->model); } break; }
        case NAT_PICK: R(V(concretize(a[0], w))); break;
        case NAT_ISALIVE: { u64 id = a[0].c >> 32; R(V(id && id < S->nobj && oget(id).alive)); break; }
        case NAT_PATHEND: st_paths++; throw Killed();
        case NAT_MALLOC: { u64 n = concretize(a[0], 64); if(n > (64u << 20)) { R(V(0)); break; } R(V(alloc(S, n, K_HEAP))); break; }
        case NAT_CALLOC: {
            u64 n = concretize(a[0], 64) * concretize(a[1], 64); u64 p = alloc(S, n, K_HEAP); wdata(p >> 32).s.clear(); R(V(p)); break;
        }
        case NAT_REALLOC: {
            u64 p = concretize(a[0], 64), n = concretize(a[1], 64);
            if(n > (64u << 20)) { R(V(0)); break; }
            if(!p){ R(V(alloc(S, n, K_HEAP))); break; }
            u64 id = p >> 32;
            if((p & 0xffffffff) || id >= S->nobj || !oget(id).alive || oget(id).kind != K_HEAP) die("memory", "realloc of invalid pointer");
            u64 q = alloc(S, n, K_HEAP); copymem(q, p, std::min(n, oget(id).size)); freeobj(id); R(V(q)); break;
        }
        case NAT_FREE: {
            u64 p = concretize(a[0], 64); if(!p) break; u64 id = p >> 32;
            st_obl++;
            if((p & 0xffffffff) || id >= S->nobj || oget(id).kind != K_HEAP) die("memory", "free of invalid pointer");
            if(!oget(id).alive) die("memory", "double free");
            freeobj(id); break;
        }
        case NAT_ABORT: die("abort", "process aborts"); break;
        case NAT_EXIT: die("abort", "process exits"); break;
        case NAT_TRAP: die("ub", "undefined behaviour"); break;
        case NAT_MEMCPY: {
            u64 n = concretize(a[2], 64); if(n){ u64 d = concretize(a[0], 64), s = concretize(a[1], 64); copymem(d, s, n); } R(a[0]); break;
        }
        case NAT_MEMSET: {
            u64 n = concretize(a[2], 64);
            if(n){
                u64 d = concretize(a[0], 64), id; Val dv = V(d); resolve(dv, n, id, "write");
                if(oget(id).kind == K_CONST) die("memory", "write to constant");
                Data &dd = wdata(id); u64 o = d & 0xffffffff;
                Node *c = a[1].n ? mkextract(a[1].n, 0, 8) : nullptr;
                if(c && isconst(c)){ a[1] = V(c->v); c = nullptr; }
                if(!c){ memset(&dd.c[o], (int)(a[1].c & 255), n); if(!dd.s.empty()) for(u64 i = 0; i < n; i++) dd.s[o + i] = nullptr; }
                else { if(dd.s.empty()) dd.s.assign(dd.c.size(), nullptr); for(u64 i = 0; i < n; i++) dd.s[o + i] = c; }
            }
            R(a[0]); break;
        }
        case NAT_ADDO: { Val r = bin(ADD, w, a[0], a[1]); R2(r, cmpv(ULT, w, r, a[0])); break; }
        case NAT_SUBO: { Val r = bin(SUB, w, a[0], a[1]); R2(r, cmpv(ULT, w, a[0], a[1])); break; }
        case NAT_MULO: {
            if(!a[0].n && !a[1].n){ unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; R2(V((u64)p & mask(w)), V((p >> w) != 0)); break; }
            Val r = bin(MUL, w, a[0], a[1]);
            if(a[0].n && a[1].n){ // overflow: b != 0 && (a*b)/b != a
                Node *b = N(a[1], w);
                Node *o = mk(AND, 1, nz(a[1], w), mknot(mk(EQ, 1, mk(UDIV, w, N(r, w), b), N(a[0], w))));
                R2(r, VN(o)); break;
            }
            Val x = a[0].n ? a[0] : a[1]; u64 k = a[0].n ? a[1].c : a[0].c;
            R2(r, k ? cmpv(ULT, w, V(mask(w) / k), x) : V(0)); break;
        }
        case NAT_SADDO: case NAT_SSUBO: case NAT_SMULO: {
            if(w > 32){
                if(a[0].n || a[1].n){
                    if(I.nat == NAT_SMULO) unsup("symbolic smul overflow");
                    Node *x = N(a[0], w), *y = N(a[1], w), *r = mk(I.nat == NAT_SADDO ? ADD : SUB, w, x, y);
                    Node *yy = I.nat == NAT_SADDO ? y : mk(XOR, w, y, mkconst(mask(w), w));
                    Node *ov = mk(AND, w, mk(XOR, w, x, r), mk(XOR, w, yy, r));
                    R2(VN(r), VN(mk(SLT, 1, ov, mkconst(0, w)))); break;
                }
                __int128 x = sx(a[0].c, w), y = sx(a[1].c, w), r = I.nat == NAT_SADDO ? x + y : I.nat == NAT_SSUBO ? x - y : x * y;
                R2(V((u64)r & mask(w)), V(r != (__int128)sx((u64)r & mask(w), w))); break;
            }
            Op op = I.nat == NAT_SADDO ? ADD : I.nat == NAT_SSUBO ? SUB : MUL;
            Node *x = mk(SEXT, 64, N(a[0], w)), *y = mk(SEXT, 64, N(a[1], w)), *r = mk(op, 64, x, y);
            Node *lo = mkextract(r, 0, w);
            R2(VN(lo), VN(mknot(mk(EQ, 1, mk(SEXT, 64, lo), r)))); break;
        }
        case NAT_UMAX: R(VN(mkite(mk(ULT, 1, N(a[0], w), N(a[1], w)), N(a[1], w), N(a[0], w)))); break;
        case NAT_UMIN: R(VN(mkite(mk(ULT, 1, N(a[0], w), N(a[1], w)), N(a[0], w), N(a[1], w)))); break;
        case NAT_SMAX: R(VN(mkite(mk(SLT, 1, N(a[0], w), N(a[1], w)), N(a[1], w), N(a[0], w)))); break;
        case NAT_SMIN: R(VN(mkite(mk(SLT, 1, N(a[0], w), N(a[1], w)), N(a[0], w), N(a[1], w)))); break;
        case NAT_ABS: R(VN(mkite(mk(SLT, 1, N(a[0], w), mkconst(0, w)), mk(SUB, w, mkconst(0, w), N(a[0], w)), N(a[0], w)))); break;
        case NAT_BSWAP: { Node *n = N(a[0], w), *r = mkextract(n, 0, 8); for(unsigned i = 8; i < w; i += 8) r = mkconcat(r, mkextract(n, i, 8)); R(VN(r)); break; }
        case NAT_CTPOP: { if(!a[0].n){ R(V((u64)__builtin_popcountll(a[0].c))); break; }
            Node *r = mkconst(0, w); for(unsigned i = 0; i < w; i++) r = mk(ADD, w, r, mk(ZEXT, w, mkextract(a[0].n, i, 1))); R(VN(r)); break; }
        case NAT_CTLZ: { if(a[0].n) a[0] = V(concretize(a[0], w)); u64 c = a[0].c; R(V(c ? (u64)__builtin_clzll(c) - (64 - w) : w)); break; }
        case NAT_CTTZ: { if(a[0].n) a[0] = V(concretize(a[0], w)); u64 c = a[0].c; R(V(c ? (u64)__builtin_ctzll(c) : w)); break; }
        case NAT_FSHL: case NAT_FSHR: {
            u64 k = concretize(a[2], w) % w; if(I.nat == NAT_FSHR) k = (w - k) % w;
            bool full = I.nat == NAT_FSHR && k == 0;
            if(full) R(a[1]); else if(!k) R(a[0]);
            else R(bin(OR, w, bin(SHL, w, a[0], V(k)), bin(LSHR, w, a[1], V(w - k)))); break;
        }
        case NAT_USUBSAT: R(VN(mkite(mk(ULT, 1, N(a[0], w), N(a[1], w)), mkconst(0, w), mk(SUB, w, N(a[0], w), N(a[1], w))))); break;
        case NAT_UADDSAT: { Node *s = mk(ADD, w, N(a[0], w), N(a[1], w)); R(VN(mkite(mk(ULT, 1, s, N(a[0], w)), mkconst(mask(w), w), s))); break; }
        case NAT_VASTART: {
            u64 p = concretize(a[0], 64), id; Val pv = V(p); resolve(pv, 24, id, "write"); u64 o = p & 0xffffffff;
            store1(id, o, V(48), 4, 32); store1(id, o + 4, V(304), 4, 32); store1(id, o + 8, V(f.va), 8, 64); store1(id, o + 16, V(0), 8, 64); break;
        }
        case NAT_VACOPY: copymem(concretize(a[0], 64), concretize(a[1], 64), 24); break;
        case NAT_ZERO: for(unsigned i = 0; i < I.nret; i++) top().r[(size_t)I.dst + i] = V(0); break;
        case NAT_RET0: case NAT_STACKSAVE: R(V(0)); break;
        case NAT_OBJSIZE: R(V(mask(I.w))); break;
        case NAT_EXPECT: R(a[0]); break;
        default: unsup("native " + I.name);
    }
    top().pc++;
}
static double asd(u64 c, unsigned w){ if(w == 32){ float f; memcpy(&f, &c, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fromd(double d, unsigned w){ u64 r = 0; if(w == 32){ float f = (float)d; memcpy(&r, &f, 4); } else memcpy(&r, &d, 8); return r; }

static void step(){
    Fr &f = top(); const Inst &I = f.f->blocks[(size_t)f.bb][(size_t)f.pc];
    st_insts++;
    if(verbose){ fprintf(stderr, "%s bb%d/%d op%d:", f.f->name.c_str(), f.bb, f.pc, I.op); for(auto &o : I.o){ Val v = get(f, o); if(v.n) fprintf(stderr, " sym(op%d,w%d)", v.n->op, v.n->w); else fprintf(stderr, " %llx", (unsigned long long)v.c); } fprintf(stderr, "\n"); }
    if(++S->steps > max_steps){ st_incomplete++; reasons.insert("step limit at " + where()); throw Killed(); }
    if((st_insts & 0xfff) == 0 && now() - t_start > t_limit){ st_incomplete++; reasons.insert("time limit"); throw Killed(); }
    switch(I.op){
        case (LLVMOpcode)0: unsup(I.name); break;
        case LLVMRet: { static std::vector<Val> rv; rv.clear(); for(auto &o : I.o) rv.push_back(get(f, o)); doreturn(rv); return; }
        case LLVMBr: {
            if(I.o.empty()){ jump(f, I.edges[0]); return; }
            Val c = get(f, I.o[0]);
            bool b = c.n ? branch(c.n) : c.c & 1;
            jump(top(), I.edges[b ? 0 : 1]); return;
        }
        case LLVMSwitch: {
            Val c = get(f, I.o[0]); size_t t = 0;
            if(!c.n){ for(size_t i = 0; i < I.cases.size(); i++) if(I.cases[i] == c.c){ t = I.leaves[i].off; break; } }
            else {
                newepoch(); u64 v = eval(c.n, S->model);
                for(size_t i = 0; i < I.cases.size(); i++) if(I.cases[i] == v){ t = I.leaves[i].off; break; }
                // condition for taking this edge
                Node *d = mkconst(0, 1);
                for(size_t i = 0; i < I.cases.size(); i++) if(t == 0 || I.leaves[i].off == t) d = mk(OR, 1, d, mk(EQ, 1, c.n, mkconst(I.cases[i], I.w)));
                if(t == 0) d = mknot(d);
                if(!branch(d)) abort();
            }
            jump(top(), I.edges[t]); return;
        }
        case LLVMAlloca: {
            u64 n = concretize(get(f, I.o[0]), I.w2); Fr &g = top(); u64 a = alloc(S, n * I.sz, K_STACK); g.allocas.push_back((uint32_t)(a >> 32)); g.r[(size_t)I.dst] = V(a); g.pc++; return;
        }
        case LLVMLoad: {
            Val a = get(f, I.o[0]);
            if(I.leaves.size() > 1 && a.n) a = V(concretize(a, 64));
            for(size_t i = 0; i < I.leaves.size(); i++){ const Leaf &l = I.leaves[i]; Val v = load(a.n ? a : V(a.c + l.off), l.bytes, l.w, l.ptr); top().r[(size_t)I.dst + i] = v; }
            top().pc++; return;
        }
        case LLVMStore: {
            Val a = get(f, I.o[0]);
            if(I.leaves.size() > 1 && a.n) a = V(concretize(a, 64));
            for(size_t i = 0; i < I.leaves.size(); i++){ const Leaf &l = I.leaves[i]; store(a.n ? a : V(a.c + l.off), get(top(), I.o[1 + i]), l.bytes, l.w); }
            top().pc++; return;
        }
        case LLVMGetElementPtr: {
            Val b = get(f, I.o[0]);
            u64 off = (u64)I.off; Node *n = b.n;
            for(auto &g : I.gi){
                Val x = get(f, g.o);
                if(!x.n) off += (u64)sx(x.c, g.w) * (u64)g.scale;
                else { Node *t = mk(MUL, 64, mk(SEXT, 64, x.n), mkconst((u64)g.scale, 64)); n = n ? mk(ADD, 64, n, t) : t; }
            }
            if(!n) f.r[(size_t)I.dst] = V(b.c + off);
            else f.r[(size_t)I.dst] = VN(mk(ADD, 64, n, mkconst(b.n ? off : b.c + off, 64)));
            f.pc++; return;
        }
        case LLVMExtractValue: case LLVMInsertValue:
        case LLVMFreeze: {
            Val t[256]; size_t n = I.o.size(); if(n > 256) unsup("aggregate");
            for(size_t i = 0; i < n; i++) t[i] = get(f, I.o[i]);
            for(size_t i = 0; i < n; i++) f.r[(size_t)I.dst + i] = t[i];
            f.pc++; return;
        }
        case LLVMCall: {
            Func *c = I.callee; size_t k = 0;
            static std::vector<Val> a; a.clear();
            if(I.nat == NAT_ZERO){ for(unsigned i = 0; i < I.nret; i++) top().r[(size_t)I.dst + i] = V(0); top().pc++; return; }
            if(I.flag){
                u64 p = concretize(get(f, I.o[0]), 64); k = 1;
                u64 id = p >> 32; st_obl++;
                if((p & 0xffffffff) || id < FUNCID || id - FUNCID >= funcs.size()) die("memory", p < 4096 ? "call of null pointer" : "call of invalid pointer");
                c = redirect(funcs[id - FUNCID]);
                if(nops.count(c->name)){ for(unsigned i = 0; i < I.nret; i++) top().r[(size_t)I.dst + i] = V(0); top().pc++; return; }
            }
            Fr &g = top();
            for(size_t i = k; i < I.o.size(); i++) a.push_back(get(g, I.o[i]));
            if(!c->body){
                if(I.flag){
                    Inst J = I; J.name = c->name; J.nat = native(c->name); J.o.clear();
                    if(!J.nat){ nobody.insert(c->name); unsup("no body: " + c->name); }
                    callnative(g, J, a); return;
                }
                if(!I.nat){ nobody.insert(c->name); unsup("no body: " + c->name); }
                callnative(g, I, a); return;
            }
            std::vector<uint32_t> copies;
            for(auto &bv : I.byval){
                size_t ix = (size_t)bv.first - k; u64 src = concretize(a[ix], 64); u64 d = alloc(S, bv.second, K_STACK);
                copymem(d, src, bv.second); a[ix] = V(d); copies.push_back((uint32_t)(d >> 32));
            }
            push(c); Fr &h = top(); h.allocas = copies;
            size_t p = 0;
            for(auto &ps : c->pslots) for(int i = 0; i < ps.second; i++){
                Val v = p < a.size() ? a[p] : V(0);
                // prototypes that disagree in width (unprototyped calls) are cut
                h.r[(size_t)ps.first + (size_t)i] = v; p++;
            }
            if(c->vararg){
                size_t extra = a.size() > p ? a.size() - p : 0; u64 va = alloc(S, 8 * extra + 8, K_STACK); h.allocas.push_back((uint32_t)(va >> 32)); h.va = va;
                for(size_t i = 0; i < extra; i++){ unsigned w = I.ow[p + i]; store1(va >> 32, 8 * i, VN(mk(ZEXT, 64, N(a[p + i], w))), 8, 64); }
            }
            return;
        }
        case LLVMICmp: {
            Val a = get(f, I.o[0]), b = get(f, I.o[1]), r; unsigned w = I.w2; bool neg = false; Op op; bool swap = false;
            switch((LLVMIntPredicate)I.pred){
                case LLVMIntEQ: op = EQ; break; case LLVMIntNE: op = EQ; neg = true; break;
                case LLVMIntUGT: op = ULT; swap = true; break; case LLVMIntUGE: op = ULE; swap = true; break;
                case LLVMIntULT: op = ULT; break; case LLVMIntULE: op = ULE; break;
                case LLVMIntSGT: op = SLT; swap = true; break; case LLVMIntSGE: op = SLE; swap = true; break;
                case LLVMIntSLT: op = SLT; break; default: op = SLE; break;
            }
            if(swap) std::swap(a, b);
            r = cmpv(op, w, a, b);
            if(neg) r = r.n ? VN(mknot(r.n)) : V(!r.c);
            f.r[(size_t)I.dst] = r; f.pc++; return;
        }
        case LLVMSelect: {
            Val c = get(f, I.o[0]); size_t n = I.leaves.size();
            bool anyptr = n > 1; for(auto &l : I.leaves) if(l.ptr) anyptr = true;
            if(c.n && anyptr) c = V(branch(c.n));
            Fr &g = top();
            Val t[64]; if(n > 64) unsup("select");
            for(size_t i = 0; i < n; i++){
                Val x = get(g, I.o[1 + i]), y = get(g, I.o[1 + n + i]);
                if(!c.n) t[i] = (c.c & 1) ? x : y;
                else t[i] = VN(mkite(c.n, N(x, I.leaves[i].w), N(y, I.leaves[i].w)));
            }
            for(size_t i = 0; i < n; i++) g.r[(size_t)I.dst + i] = t[i];
            g.pc++; return;
        }
        case LLVMTrunc: { Val a = get(f, I.o[0]); f.r[(size_t)I.dst] = a.n ? VN(mkextract(a.n, 0, I.w)) : V(a.c & mask(I.w)); f.pc++; return; }
        case LLVMZExt: { Val a = get(f, I.o[0]); f.r[(size_t)I.dst] = a.n ? VN(mk(ZEXT, I.w, a.n)) : a; f.pc++; return; }
        case LLVMSExt: { Val a = get(f, I.o[0]); f.r[(size_t)I.dst] = a.n ? VN(mk(SEXT, I.w, a.n)) : V((u64)sx(a.c, I.w2) & mask(I.w)); f.pc++; return; }
        case LLVMPtrToInt: { Val a = get(f, I.o[0]); f.r[(size_t)I.dst] = a.n ? VN(mkextract(a.n, 0, I.w)) : V(a.c & mask(I.w)); f.pc++; return; }
        case LLVMIntToPtr: { Val a = get(f, I.o[0]); f.r[(size_t)I.dst] = a.n ? VN(mk(ZEXT, 64, a.n)) : a; f.pc++; return; }
        case LLVMBitCast: f.r[(size_t)I.dst] = get(f, I.o[0]); f.pc++; return;
        case LLVMAdd: f.r[(size_t)I.dst] = bin(ADD, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMSub: f.r[(size_t)I.dst] = bin(SUB, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMMul: f.r[(size_t)I.dst] = bin(MUL, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMAnd: f.r[(size_t)I.dst] = bin(AND, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMOr: f.r[(size_t)I.dst] = bin(OR, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMXor: f.r[(size_t)I.dst] = bin(XOR, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMShl: f.r[(size_t)I.dst] = bin(SHL, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMLShr: f.r[(size_t)I.dst] = bin(LSHR, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMAShr: f.r[(size_t)I.dst] = bin(ASHR, I.w, get(f, I.o[0]), get(f, I.o[1])); f.pc++; return;
        case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: {
            Val a = get(f, I.o[0]), b = get(f, I.o[1]);
            if(b.n || !b.c) check(nz(b, I.w), "ub", "division by zero");
            Op op = I.op == LLVMUDiv ? UDIV : I.op == LLVMSDiv ? SDIV : I.op == LLVMURem ? UREM : SREM;
            Fr &g = top(); g.r[(size_t)I.dst] = bin(op, I.w, a, b); g.pc++; return;
        }
        case LLVMUnreachable: die("ub", "unreachable code reached"); return;
        case LLVMFence: f.pc++; return;
        case LLVMAtomicRMW: {
            Val a = get(f, I.o[0]), b = get(f, I.o[1]); const Leaf &l = I.leaves[0]; Val old = load(a, l.bytes, l.w, false), nv;
            switch((LLVMAtomicRMWBinOp)I.pred){
                case LLVMAtomicRMWBinOpXchg: nv = b; break; case LLVMAtomicRMWBinOpAdd: nv = bin(ADD, l.w, old, b); break;
                case LLVMAtomicRMWBinOpSub: nv = bin(SUB, l.w, old, b); break; case LLVMAtomicRMWBinOpAnd: nv = bin(AND, l.w, old, b); break;
                case LLVMAtomicRMWBinOpOr: nv = bin(OR, l.w, old, b); break; default: unsup("atomicrmw"); nv = old;
            }
            store(a, nv, l.bytes, l.w); top().r[(size_t)I.dst] = old; top().pc++; return;
        }
        case LLVMFNeg: case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: {
            Val a = get(f, I.o[0]); if(a.n) unsup("symbolic float"); u64 r;
            switch(I.op){
                case LLVMFNeg: r = fromd(-asd(a.c, I.w), I.w); break;
                case LLVMFPToUI: r = (u64)asd(a.c, I.w2) & mask(I.w); break;
                case LLVMFPToSI: r = (u64)(int64_t)asd(a.c, I.w2) & mask(I.w); break;
                case LLVMUIToFP: r = fromd((double)a.c, I.w); break;
                case LLVMSIToFP: r = fromd((double)sx(a.c, I.w2), I.w); break;
                default: r = fromd(asd(a.c, I.w2), I.w);
            }
            f.r[(size_t)I.dst] = V(r); f.pc++; return;
        }
        case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: {
            Val a = get(f, I.o[0]), b = get(f, I.o[1]); if(a.n || b.n) unsup("symbolic float");
            double x = asd(a.c, I.w), y = asd(b.c, I.w);
            f.r[(size_t)I.dst] = V(fromd(I.op == LLVMFAdd ? x + y : I.op == LLVMFSub ? x - y : I.op == LLVMFMul ? x * y : x / y, I.w)); f.pc++; return;
        }
        case LLVMFCmp: {
            Val a = get(f, I.o[0]), b = get(f, I.o[1]); if(a.n || b.n) unsup("symbolic float");
            double x = asd(a.c, I.w2), y = asd(b.c, I.w2); bool un = x != x || y != y, r;
            switch((LLVMRealPredicate)I.pred){
                case LLVMRealOEQ: r = x == y; break; case LLVMRealOGT: r = x > y; break; case LLVMRealOGE: r = x >= y; break;
                case LLVMRealOLT: r = x < y; break; case LLVMRealOLE: r = x <= y; break; case LLVMRealONE: r = !un && x != y; break;
                case LLVMRealORD: r = !un; break; case LLVMRealUNO: r = un; break; case LLVMRealUEQ: r = un || x == y; break;
                case LLVMRealUGT: r = un || x > y; break; case LLVMRealUGE: r = un || x >= y; break; case LLVMRealULT: r = un || x < y; break;
                case LLVMRealULE: r = un || x <= y; break; case LLVMRealUNE: r = un || x != y; break; default: r = I.pred != 0;
            }
            f.r[(size_t)I.dst] = V(r); f.pc++; return;
        }
        default: unsup("opcode");
    }
}

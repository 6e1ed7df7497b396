// LLVM IR -> compact instructions
static void leavesof(LLVMTypeRef t, u64 off, std::vector<Leaf> &out){
    switch(LLVMGetTypeKind(t)){
        case LLVMIntegerTypeKind: {
            unsigned w = LLVMGetIntTypeWidth(t);
            if(w <= 64){ out.push_back(Leaf{off, (uint8_t)w, (uint8_t)LLVMStoreSizeOfType(TD, t), false}); return; }
            if(w % 64) unsup("integer width");
            for(unsigned i = 0; i < w / 64; i++) out.push_back(Leaf{off + i * 8, 64, 8, false});
            return;
        }
        case LLVMPointerTypeKind: out.push_back(Leaf{off, 64, 8, true}); return;
        case LLVMFloatTypeKind: out.push_back(Leaf{off, 32, 4, false}); return;
        case LLVMDoubleTypeKind: out.push_back(Leaf{off, 64, 8, false}); return;
        case LLVMVoidTypeKind: case LLVMLabelTypeKind: case LLVMMetadataTypeKind: return;
        case LLVMStructTypeKind:
            for(unsigned i = 0; i < LLVMCountStructElementTypes(t); i++)
                leavesof(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), out);
            return;
        case LLVMArrayTypeKind: {
            LLVMTypeRef e = LLVMGetElementType(t); u64 sz = LLVMABISizeOfType(TD, e);
            for(u64 i = 0; i < LLVMGetArrayLength2(t); i++) leavesof(e, off + i * sz, out);
            return;
        }
        default: { char *s = LLVMPrintTypeToString(t); std::string x = std::string("type ") + s; LLVMDisposeMessage(s); unsup(x); }
    }
}
static unsigned width(LLVMTypeRef t){
    switch(LLVMGetTypeKind(t)){
        case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
        case LLVMPointerTypeKind: return 64;
        case LLVMFloatTypeKind: return 32;
        case LLVMDoubleTypeKind: return 64;
        default: return 0;
    }
}
static u64 constval(LLVMValueRef v){
    if(LLVMIsAConstantInt(v)){
        if(LLVMGetIntTypeWidth(LLVMTypeOf(v)) > 64) unsup("wide constant");
        return LLVMConstIntGetZExtValue(v);
    }
    if(LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsAConstantPointerNull(v) || LLVMIsNull(v)) return 0;
    if(LLVMIsAFunction(v)) return fmap.at(v)->addr;
    if(LLVMIsAGlobalAlias(v)) return constval(LLVMAliasGetAliasee(v));
    if(LLVMIsAGlobalVariable(v)) return gaddr.at(v);
    if(LLVMIsAConstantFP(v)){
        LLVMBool lose; double d = LLVMConstRealGetDouble(v, &lose); u64 r = 0;
        if(LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMFloatTypeKind){ float f = (float)d; memcpy(&r, &f, 4); }
        else memcpy(&r, &d, 8);
        return r;
    }
    if(LLVMIsAConstantExpr(v)){
        unsigned w = width(LLVMTypeOf(v));
        LLVMValueRef a = LLVMGetOperand(v, 0);
        switch(LLVMGetConstOpcode(v)){
            case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMTrunc: case LLVMZExt:
                return constval(a) & mask(w);
            case LLVMAdd: return (constval(a) + constval(LLVMGetOperand(v, 1))) & mask(w);
            case LLVMSub: return (constval(a) - constval(LLVMGetOperand(v, 1))) & mask(w);
            case LLVMGetElementPtr: {
                u64 r = constval(a); LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
                for(int i = 1; i < LLVMGetNumOperands(v); i++){
                    LLVMValueRef x = LLVMGetOperand(v, (unsigned)i);
                    int64_t k = LLVMConstIntGetSExtValue(x);
                    if(i == 1) r += (u64)(k * (int64_t)LLVMABISizeOfType(TD, t));
                    else if(LLVMGetTypeKind(t) == LLVMStructTypeKind){
                        r += LLVMOffsetOfElement(TD, t, (unsigned)k); t = LLVMStructGetTypeAtIndex(t, (unsigned)k);
                    }else{ t = LLVMGetElementType(t); r += (u64)(k * (int64_t)LLVMABISizeOfType(TD, t)); }
                }
                return r;
            }
            default: unsup("constant expression");
        }
    }
    char *s = LLVMPrintValueToString(v); std::string m = std::string("constant ") + s; LLVMDisposeMessage(s);
    unsup(m); return 0;
}
static void initbytes(Data &d, u64 off, LLVMValueRef v){
    LLVMTypeRef t = LLVMTypeOf(v);
    if(LLVMIsNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) return;
    if(LLVMIsAConstantDataArray(v) && LLVMIsConstantString(v)){
        size_t n; const char *s = LLVMGetAsString(v, &n); memcpy(&d.c[off], s, n); return;
    }
    switch(LLVMGetTypeKind(t)){
        case LLVMArrayTypeKind: {
            u64 sz = LLVMABISizeOfType(TD, LLVMGetElementType(t));
            for(u64 i = 0; i < LLVMGetArrayLength2(t); i++) initbytes(d, off + i * sz, LLVMGetAggregateElement(v, (unsigned)i));
            return;
        }
        case LLVMStructTypeKind:
            for(unsigned i = 0; i < LLVMCountStructElementTypes(t); i++)
                initbytes(d, off + LLVMOffsetOfElement(TD, t, i), LLVMGetAggregateElement(v, i));
            return;
        default: { u64 c = constval(v); memcpy(&d.c[off], &c, LLVMStoreSizeOfType(TD, t)); }
    }
}

enum { NAT_NONE, NAT_ND, NAT_ASSUME, NAT_CHECK, NAT_REACH, NAT_PICK, NAT_MALLOC, NAT_CALLOC, NAT_REALLOC, NAT_FREE,
    NAT_ABORT, NAT_EXIT, NAT_MEMCPY, NAT_MEMSET, NAT_NOP, NAT_ADDO, NAT_SUBO, NAT_MULO, NAT_SADDO, NAT_SSUBO, NAT_SMULO,
    NAT_UMAX, NAT_UMIN, NAT_SMAX, NAT_SMIN, NAT_ABS, NAT_BSWAP, NAT_CTPOP, NAT_CTLZ, NAT_CTTZ, NAT_FSHL, NAT_FSHR,
    NAT_USUBSAT, NAT_UADDSAT, NAT_VASTART, NAT_VACOPY, NAT_RET0, NAT_OBJSIZE, NAT_EXPECT, NAT_STACKSAVE, NAT_TRAP, NAT_ISALIVE, NAT_PATHEND, NAT_ZERO };
static bool starts(const std::string &s, const char *p){ return s.compare(0, strlen(p), p) == 0; }
static int native(const std::string &n){
    static const std::map<std::string,int> m = {
        {"__sx_nd", NAT_ND}, {"__sx_assume", NAT_ASSUME}, {"__sx_check", NAT_CHECK}, {"__sx_reach", NAT_REACH}, {"__sx_pick", NAT_PICK},
        {"malloc", NAT_MALLOC}, {"calloc", NAT_CALLOC}, {"realloc", NAT_REALLOC}, {"free", NAT_FREE}, {"abort", NAT_ABORT},
        {"exit", NAT_EXIT}, {"_exit", NAT_EXIT}, {"_Exit", NAT_EXIT}, {"__assert_fail", NAT_ABORT},
        {"memcpy", NAT_MEMCPY}, {"memmove", NAT_MEMCPY}, {"memset", NAT_MEMSET}, {"__sx_end", NAT_PATHEND},
        {"__sx_alive", NAT_ISALIVE}};
    auto it = m.find(n); if(it != m.end()) return it->second;
    if(!starts(n, "llvm.")) return NAT_NONE;
    static const std::vector<std::pair<const char*,int>> p = {
        {"llvm.memcpy", NAT_MEMCPY}, {"llvm.memmove", NAT_MEMCPY}, {"llvm.memset", NAT_MEMSET}, {"llvm.lifetime", NAT_NOP}, {"llvm.dbg", NAT_NOP},
        {"llvm.assume", NAT_NOP}, {"llvm.experimental.noalias", NAT_NOP}, {"llvm.uadd.with", NAT_ADDO}, {"llvm.usub.with", NAT_SUBO}, {"llvm.umul.with", NAT_MULO},
        {"llvm.sadd.with", NAT_SADDO}, {"llvm.ssub.with", NAT_SSUBO}, {"llvm.smul.with", NAT_SMULO}, {"llvm.umax", NAT_UMAX}, {"llvm.umin", NAT_UMIN},
        {"llvm.smax", NAT_SMAX}, {"llvm.smin", NAT_SMIN}, {"llvm.abs", NAT_ABS}, {"llvm.bswap", NAT_BSWAP}, {"llvm.ctpop", NAT_CTPOP},
        {"llvm.ctlz", NAT_CTLZ}, {"llvm.cttz", NAT_CTTZ}, {"llvm.fshl", NAT_FSHL}, {"llvm.fshr", NAT_FSHR}, {"llvm.usub.sat", NAT_USUBSAT}, {"llvm.uadd.sat", NAT_UADDSAT},
        {"llvm.va_start", NAT_VASTART}, {"llvm.va_copy", NAT_VACOPY}, {"llvm.va_end", NAT_NOP}, {"llvm.objectsize", NAT_OBJSIZE}, {"llvm.expect", NAT_EXPECT},
        {"llvm.stacksave", NAT_STACKSAVE}, {"llvm.stackrestore", NAT_NOP}, {"llvm.trap", NAT_TRAP}, {"llvm.ubsantrap", NAT_TRAP}, {"llvm.is.constant", NAT_RET0}, {"llvm.donothing", NAT_NOP}, {"llvm.prefetch", NAT_NOP}};
    for(auto &x : p) if(starts(n, x.first)) return x.second;
    return NAT_NONE;
}

static std::set<std::string> stubs, nops; static std::map<std::string, Func*> stubfn; static std::string harness;
static std::string basename_of(const std::string &n){
    size_t d = n.rfind('.');
    if(d == std::string::npos || d + 1 == n.size()) return n;
    for(size_t i = d + 1; i < n.size(); i++) if(n[i] < '0' || n[i] > '9') return n;
    return n.substr(0, d);
}
static Func *redirect(Func *f){
    if(stubs.empty()) return f;
    auto it = stubfn.find(basename_of(f->name));
    return it == stubfn.end() ? f : it->second;
}
static void setup(){
    u64 k = 0;
    for(LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)){
        Func *x = new Func(); x->v = f; size_t n; x->name = LLVMGetValueName2(f, &n);
        x->addr = (FUNCID + k++) << 32; x->body = !LLVMIsDeclaration(f);
        LLVMMetadataRef sp = LLVMGetSubprogram(f);
        if(sp){ LLVMMetadataRef fl = LLVMDIScopeGetFile(sp); unsigned l; if(fl){ const char *s = LLVMDIFileGetFilename(fl, &l); x->file.assign(s, l); } }
        funcs.push_back(x); fmap[f] = x; fname[x->name] = x;
        bool inh = !x->file.empty() && harness.size() >= x->file.size() && harness.compare(harness.size() - x->file.size(), std::string::npos, x->file) == 0;
        if(x->body && inh && stubs.count(basename_of(x->name))) stubfn[basename_of(x->name)] = x;
    }
    for(auto &s : stubs) if(!stubfn.count(s)){ fprintf(stderr, "stub %s is not defined in the harness\n", s.c_str()); _exit(2); }
    for(LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)){
        u64 sz = LLVMABISizeOfType(TD, LLVMGlobalGetValueType(g));
        gaddr[g] = alloc(S, sz, LLVMIsGlobalConstant(g) ? K_CONST : K_GLOBAL);
    }
    for(LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)){
        LLVMValueRef in = LLVMGetInitializer(g);
        if(!in) continue;
        size_t n; const char *nm = LLVMGetValueName2(g, &n);
        if(starts(nm, "llvm.")) continue;
        initbytes(*oref(S, gaddr[g] >> 32).d, 0, in);
    }
}

struct Dec {
    Func *F; std::map<LLVMValueRef,int> slot; std::map<LLVMBasicBlockRef,int> bbi;
    int newslots(LLVMTypeRef t, unsigned *n = nullptr){
        std::vector<Leaf> l; leavesof(t, 0, l);
        int s = F->nslots; F->nslots += (int)std::max<size_t>(l.size(), 1); if(n) *n = (unsigned)l.size(); return s;
    }
    void opnds(LLVMValueRef v, std::vector<Opnd> &o){
        std::vector<Leaf> l; leavesof(LLVMTypeOf(v), 0, l);
        auto it = slot.find(v);
        if(it != slot.end()){ for(size_t i = 0; i < l.size(); i++) o.push_back(Opnd{it->second + (int)i, 0}); return; }
        if(l.size() == 1 && LLVMGetTypeKind(LLVMTypeOf(v)) != LLVMStructTypeKind && LLVMGetTypeKind(LLVMTypeOf(v)) != LLVMArrayTypeKind){ o.push_back(Opnd{-1, constval(v)}); return; }
        // constant aggregate (or wide integer)
        LLVMTypeRef t = LLVMTypeOf(v);
        if(LLVMIsNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)){ for(size_t i = 0; i < l.size(); i++) o.push_back(Opnd{-1, 0}); return; }
        if(LLVMGetTypeKind(t) == LLVMStructTypeKind){ for(unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) opnds(LLVMGetAggregateElement(v, i), o); return; }
        if(LLVMGetTypeKind(t) == LLVMArrayTypeKind){ for(unsigned i = 0; i < LLVMGetArrayLength2(t); i++) opnds(LLVMGetAggregateElement(v, i), o); return; }
        unsup("wide constant operand");
    }
    Opnd op1(LLVMValueRef v){ std::vector<Opnd> o; opnds(v, o); if(o.size() != 1) unsup("operand"); return o[0]; }
    unsigned leafindex(LLVMTypeRef t, const unsigned *idx, unsigned n, LLVMTypeRef *sub){
        unsigned r = 0;
        for(unsigned k = 0; k < n; k++){
            if(LLVMGetTypeKind(t) == LLVMStructTypeKind){
                for(unsigned i = 0; i < idx[k]; i++){ std::vector<Leaf> l; leavesof(LLVMStructGetTypeAtIndex(t, i), 0, l); r += (unsigned)l.size(); }
                t = LLVMStructGetTypeAtIndex(t, idx[k]);
            }else{
                std::vector<Leaf> l; leavesof(LLVMGetElementType(t), 0, l); r += idx[k] * (unsigned)l.size();
                t = LLVMGetElementType(t);
            }
        }
        *sub = t; return r;
    }
    Edge edge(LLVMBasicBlockRef from, LLVMBasicBlockRef to){
        Edge e; e.target = bbi[to];
        for(LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMIsAPHINode(i); i = LLVMGetNextInstruction(i)){
            for(unsigned k = 0; k < LLVMCountIncoming(i); k++) if(LLVMGetIncomingBlock(i, k) == from){
                std::vector<Opnd> o; opnds(LLVMGetIncomingValue(i, k), o);
                int d = slot[i];
                for(size_t j = 0; j < o.size(); j++) e.copies.push_back({d + (int)j, o[j]});
                break;
            }
        }
        return e;
    }
    Inst one(LLVMValueRef v, LLVMBasicBlockRef bb){
        Inst I; I.op = LLVMGetInstructionOpcode(v); I.line = (int)LLVMGetDebugLocLine(v);
        LLVMTypeRef t = LLVMTypeOf(v); I.w = (uint8_t)std::min(255u, width(t));
        auto it = slot.find(v); if(it != slot.end()) I.dst = it->second;
        int nop = LLVMGetNumOperands(v);
        auto O = [&](unsigned i){ return LLVMGetOperand(v, i); };
        switch(I.op){
            case LLVMRet: if(nop) opnds(O(0), I.o); break;
            case LLVMBr:
                if(LLVMIsConditional(v)){
                    I.o.push_back(op1(LLVMGetCondition(v)));
                    I.edges.push_back(edge(bb, LLVMGetSuccessor(v, 0))); I.edges.push_back(edge(bb, LLVMGetSuccessor(v, 1)));
                }else I.edges.push_back(edge(bb, LLVMGetSuccessor(v, 0)));
                break;
            case LLVMSwitch: {
                I.w = (uint8_t)width(LLVMTypeOf(O(0)));
                I.o.push_back(op1(O(0)));
                // group cases by target
                std::map<LLVMBasicBlockRef, int> seen;
                LLVMBasicBlockRef def = LLVMGetSwitchDefaultDest(v);
                I.edges.push_back(edge(bb, def)); seen[def] = 0;
                for(unsigned i = 1; i < LLVMGetNumSuccessors(v); i++){
                    LLVMBasicBlockRef s = LLVMGetSuccessor(v, i);
                    if(!seen.count(s)){ seen[s] = (int)I.edges.size(); I.edges.push_back(edge(bb, s)); }
                    if(seen[s] == 0){ continue; }
                    I.cases.push_back(LLVMConstIntGetZExtValue(O(2 * i))); I.leaves.push_back(Leaf{(u64)seen[s], 0, 0, false});
                }
                break;
            }
            case LLVMPHI: break;
            case LLVMAlloca: {
                I.sz = LLVMABISizeOfType(TD, LLVMGetAllocatedType(v)); I.o.push_back(op1(O(0))); I.w2 = (uint8_t)width(LLVMTypeOf(O(0))); break;
            }
            case LLVMLoad: leavesof(t, 0, I.leaves); I.o.push_back(op1(O(0))); break;
            case LLVMStore: leavesof(LLVMTypeOf(O(0)), 0, I.leaves); I.o.push_back(op1(O(1))); opnds(O(0), I.o); break;
            case LLVMGetElementPtr: {
                I.o.push_back(op1(O(0))); LLVMTypeRef et = LLVMGetGEPSourceElementType(v);
                if(LLVMGetTypeKind(t) != LLVMPointerTypeKind) unsup("vector gep");
                for(int i = 1; i < nop; i++){
                    LLVMValueRef x = O((unsigned)i); int64_t sc = 0; bool st = false;
                    if(i == 1) sc = (int64_t)LLVMABISizeOfType(TD, et);
                    else if(LLVMGetTypeKind(et) == LLVMStructTypeKind){
                        unsigned k = (unsigned)LLVMConstIntGetZExtValue(x); I.off += (int64_t)LLVMOffsetOfElement(TD, et, k); et = LLVMStructGetTypeAtIndex(et, k); st = true;
                    }else{ et = LLVMGetElementType(et); sc = (int64_t)LLVMABISizeOfType(TD, et); }
                    if(st) continue;
                    if(LLVMIsAConstantInt(x)) I.off += LLVMConstIntGetSExtValue(x) * sc;
                    else I.gi.push_back(GepIdx{op1(x), width(LLVMTypeOf(x)), sc});
                }
                break;
            }
            case LLVMCall: {
                LLVMValueRef c = LLVMGetCalledValue(v); unsigned n = LLVMGetNumArgOperands(v);
                if(LLVMIsAInlineAsm(c)){ if(LLVMGetTypeKind(t) != LLVMVoidTypeKind) unsup("inline asm"); I.nat = NAT_NOP; break; }
                while(LLVMIsAGlobalAlias(c)) c = LLVMAliasGetAliasee(c);
                unsigned bk = LLVMGetEnumAttributeKindForName("byval", 5);
                std::vector<Leaf> l; leavesof(t, 0, l); I.nret = (unsigned)l.size();
                if(LLVMIsAFunction(c)){
                    Func *f = fmap[c]; f = redirect(f); I.name = f->name;
                    if(nops.count(f->name)){ I.nat = NAT_ZERO; I.cases.push_back(n); break; }
                    if(!f->body){ I.nat = native(f->name); I.callee = f; }
                    else { I.callee = f; int nn = native(f->name); if(nn && !starts(f->name, "__sx")) {} }
                }else I.o.push_back(op1(c));
                I.flag = !LLVMIsAFunction(c);
                I.cases.push_back(n);
                LLVMTypeRef ft = LLVMGetCalledFunctionType(v); unsigned fixed = LLVMCountParamTypes(ft);
                if(I.nat == NAT_NOP) break;
                for(unsigned i = 0; i < n; i++){
                    if(LLVMGetTypeKind(LLVMTypeOf(O(i))) == LLVMMetadataTypeKind){ continue; }
                    std::vector<Opnd> o; opnds(O(i), o);
                    LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(v, i + 1, bk);
                    if(at) I.byval.push_back({(int)(I.o.size()), LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at))});
                    std::vector<Leaf> pl; leavesof(LLVMTypeOf(O(i)), 0, pl);
                    for(size_t k = 0; k < o.size(); k++){ I.o.push_back(o[k]); I.ow.push_back(pl[k].w); if(i < fixed) I.leaves.push_back(pl[k]); }
                }
                if(I.nret) I.w = I.nret == 1 ? (uint8_t)l[0].w : 0;
                break;
            }
            case LLVMExtractValue: {
                LLVMTypeRef sub; std::vector<Opnd> o; opnds(O(0), o);
                unsigned k = leafindex(LLVMTypeOf(O(0)), LLVMGetIndices(v), LLVMGetNumIndices(v), &sub);
                std::vector<Leaf> l; leavesof(sub, 0, l);
                for(size_t i = 0; i < l.size(); i++) I.o.push_back(o[k + i]);
                break;
            }
            case LLVMInsertValue: {
                LLVMTypeRef sub; opnds(O(0), I.o);
                unsigned k = leafindex(LLVMTypeOf(O(0)), LLVMGetIndices(v), LLVMGetNumIndices(v), &sub);
                std::vector<Opnd> o; opnds(O(1), o);
                for(size_t i = 0; i < o.size(); i++) I.o[k + i] = o[i];
                break;
            }
            case LLVMICmp: I.pred = LLVMGetICmpPredicate(v); I.w2 = (uint8_t)width(LLVMTypeOf(O(0))); I.o.push_back(op1(O(0))); I.o.push_back(op1(O(1))); break;
            case LLVMFCmp: I.pred = LLVMGetFCmpPredicate(v); I.w2 = (uint8_t)width(LLVMTypeOf(O(0))); I.o.push_back(op1(O(0))); I.o.push_back(op1(O(1))); break;
            case LLVMSelect: {
                I.o.push_back(op1(O(0))); opnds(O(1), I.o); opnds(O(2), I.o); leavesof(t, 0, I.leaves); break;
            }
            case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMFreeze:
            case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: case LLVMFNeg:
                opnds(O(0), I.o); I.w2 = (uint8_t)std::min(255u, width(LLVMTypeOf(O(0))));
                if(I.op == LLVMTrunc && I.w2 == 128){ I.o.resize(1); I.w2 = 64; }
                if(I.o.size() != 1 && I.op != LLVMFreeze) unsup("wide cast");
                break;
            case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMAnd: case LLVMOr: case LLVMXor:
            case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv:
                I.o.push_back(op1(O(0))); I.o.push_back(op1(O(1))); break;
            case LLVMUnreachable: case LLVMFence: break;
            case LLVMAtomicRMW: I.pred = LLVMGetAtomicRMWBinOp(v); leavesof(t, 0, I.leaves); I.o.push_back(op1(O(0))); I.o.push_back(op1(O(1))); break;
            default: { char *s = LLVMPrintValueToString(v); std::string m = s; LLVMDisposeMessage(s); unsup("instruction " + m); }
        }
        return I;
    }
};
static std::set<std::string> wanted;
static void decode(Func *F){
    Dec D; D.F = F; F->decoded = true; F->vararg = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(F->v));
    for(unsigned i = 0; i < LLVMCountParams(F->v); i++){
        LLVMValueRef p = LLVMGetParam(F->v, i); unsigned n; int s = D.newslots(LLVMTypeOf(p), &n); D.slot[p] = s; F->pslots.push_back({s, (int)n});
    }
    int b = 0;
    for(LLVMBasicBlockRef bb = LLVMGetFirstBasicBlock(F->v); bb; bb = LLVMGetNextBasicBlock(bb)){
        D.bbi[bb] = b++;
        for(LLVMValueRef i = LLVMGetFirstInstruction(bb); i; i = LLVMGetNextInstruction(i))
            if(LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMVoidTypeKind) {
                try { D.slot[i] = D.newslots(LLVMTypeOf(i)); } catch(Unsupported&){ D.slot[i] = F->nslots++; }
            }
    }
    for(LLVMBasicBlockRef bb = LLVMGetFirstBasicBlock(F->v); bb; bb = LLVMGetNextBasicBlock(bb)){
        std::vector<Inst> v;
        for(LLVMValueRef i = LLVMGetFirstInstruction(bb); i; i = LLVMGetNextInstruction(i)){
            if(LLVMIsAPHINode(i)) continue;
            try { Inst I = D.one(i, bb); if(I.op == LLVMCall && I.nat == NAT_NOP) continue;
                if(I.op == LLVMCall && I.nat == NAT_REACH && I.o[0].slot < 0){ wanted.insert(cstr(V(I.o[0].c))); }
                v.push_back(I); }
            catch(Unsupported &u){ Inst I; I.op = (LLVMOpcode)0; I.name = u.why; I.line = (int)LLVMGetDebugLocLine(i); v.push_back(I); }
        }
        F->blocks.push_back(v);
    }
}

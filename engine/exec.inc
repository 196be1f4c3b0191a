// instruction execution (included by symx.cpp)
static bool doBuiltin(State& s, Frame* f, DI& d, CallX* x, int bi);

static Val binop(Op op, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c, r; u64 m = w == 64 ? ~0ULL : ((1ULL << w) - 1);
        switch (op) {
            case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break;
            case SHL: r = y >= w ? 0 : x << y; break; case LSHR: r = y >= w ? 0 : x >> y; break;
            default: { u128 rr; if (!ExprPool::fold(op, x, y, w, rr)) rr = 0; r = (u64)rr; }
        }
        return C(r & m);
    }
    return mkval(P.bin(op, expr(a, w), expr(b, w)));
}
static E icmpE(unsigned pred, E a, E b) {
    switch (pred) {
        case CmpInst::ICMP_EQ: return P.bin(EQ, a, b); case CmpInst::ICMP_NE: return P.not_(P.bin(EQ, a, b));
        case CmpInst::ICMP_UGT: return P.bin(ULT, b, a); case CmpInst::ICMP_UGE: return P.bin(ULE, b, a); case CmpInst::ICMP_ULT: return P.bin(ULT, a, b); case CmpInst::ICMP_ULE: return P.bin(ULE, a, b);
        case CmpInst::ICMP_SGT: return P.bin(SLT, b, a); case CmpInst::ICMP_SGE: return P.bin(SLE, b, a); case CmpInst::ICMP_SLT: return P.bin(SLT, a, b); case CmpInst::ICMP_SLE: return P.bin(SLE, a, b);
    }
    fatal("icmp");
}
static inline s64 sx(u64 v, unsigned w) { return w == 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }
static bool icmpC(unsigned pred, u64 x, u64 y, unsigned w) {
    switch (pred) {
        case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
        case CmpInst::ICMP_SGT: return sx(x, w) > sx(y, w); case CmpInst::ICMP_SGE: return sx(x, w) >= sx(y, w); case CmpInst::ICMP_SLT: return sx(x, w) < sx(y, w); case CmpInst::ICMP_SLE: return sx(x, w) <= sx(y, w);
    }
    fatal("icmp");
}
static inline void wb(Frame* f, int32_t i, const Val& v) { if (i >= 0) f->r[i] = v; }

static bool doCall(State& s, Frame* f, DI& d) { // false: state died or instruction must not advance
    CallX* x = (CallX*)d.x; FnD* callee = x->direct;
    if (!callee && x->bi < 0) {
        Val t = get(f, x->calleeOpd); if (t.e) { if (!conc(s, t, 64)) return false; f = s.top(); wb(f, x->calleeOpd, t); }
        u64 id = (t.c - FNBASE) / 16; if (t.c < FNBASE || id >= fnlist.size() || (t.c - FNBASE) % 16) { memerr(s, "call", t.c, 1); return false; }
        FnD* fd = fnlist[id]; if (fd->bi >= 0) { if (!doBuiltin(s, f, d, x, fd->bi)) return false; f = s.top(); if (d.op == D_INVOKE) takeEdge(f, x->norm); else f->ip++; return true; }
        callee = fd;
    }
    if (!callee) { if (x->bi == B_UNKNOWN) { error(s, "unsupported external function " + demangle(x->name) + " [" + x->name + "]"); return false; }
        if (!doBuiltin(s, f, d, x, x->bi)) return false; if (s.dead) return false; f = s.top(); if (d.op == D_INVOKE) takeEdge(f, x->norm); else f->ip++; return true; }
    if (s.fr.size() > 4000) { violation(s, "limit", "call depth exceeds 4000 frames", s.model); return false; }
    // byval copies need concrete pointers
    pushFrame(s, callee); Frame* g = s.fr.back(); f = s.fr[s.fr.size() - 2];
    if (callee->argslot.size() < x->args.size() && !callee->F->isVarArg()) { error(s, "arg mismatch calling " + callee->name); return false; }
    for (size_t i = 0; i < callee->argslot.size(); ++i) {
        if (x->byval[i]) { uint32_t n = x->byval[i] - 1; Val p = get(f, x->args[i][0]); if (p.e) { error(s, "symbolic byval pointer"); return false; } u64 a = stackAlloc(s, n); if (!copyMem(s, a, p.c, n)) return false; g->r[callee->argslot[i]] = C(a); continue; }
        for (unsigned k = 0; k < callee->argn[i]; ++k) g->r[callee->argslot[i] + k] = get(f, x->args[i][k]);
    }
    return true;
}

static void runState(State* sp) {
    State& s = *sp; u64 budget = 2000000;
    Frame* f = s.top();
    while (true) {
        if (budget-- == 0) { if (sh->stop || now() > deadline) { st.abandoned++; s.dead = true; } return; }
        DI& d = f->bb->is[f->ip];
        if (++s.ninst > opt.maxinst) { st.limit++; violation(s, "hang", "instruction limit exceeded on one path (non-termination candidate)", s.model); return; }
        switch (d.op) {
            case D_BIN: {
                Val a = get(f, d.a), b = get(f, d.b);
                if (d.sub >= UDIV && d.sub <= SREM) {
                    if (b.e) { E z = P.eq(b.e, P.cst(0, d.w)); bool cur; if (!branchOn(s, z, cur)) return; f = s.top(); if (cur) { violation(s, "arith", "division by zero", s.model); return; } }
                    else if (!b.c) { violation(s, "arith", "division by zero", s.model); return; }
                }
                f->r[d.dst] = binop((Op)d.sub, a, b, d.w); f->ip++; break; }
            case D_ICMP: {
                Val a = get(f, d.a), b = get(f, d.b);
                if (!a.e && !b.e) f->r[d.dst] = C(icmpC(d.sub, a.c, b.c, d.w)); else f->r[d.dst] = mkval(icmpE(d.sub, expr(a, d.w), expr(b, d.w)));
                f->ip++; break; }
            case D_SELECT: {
                Val c = get(f, d.a);
                if (!c.e) f->r[d.dst] = get(f, c.c ? d.b : d.c);
                else { Val a = get(f, d.b), b = get(f, d.c); f->r[d.dst] = mkval(P.ite(c.e, expr(a, d.w), expr(b, d.w))); }
                f->ip++; break; }
            case D_CAST: {
                Val a = get(f, d.a); Val r;
                switch (d.sub) {
                    case Instruction::ZExt: r = a.e ? mkval(P.zext(a.e, d.w)) : (d.w > 64 ? Val{a.c, P.cst(a.c, d.w)} : a); break;
                    case Instruction::SExt: r = a.e ? mkval(P.sext(a.e, d.w)) : (d.w > 64 ? mkval(P.sext(P.cst(a.c, d.w2), d.w)) : C((u64)sx(a.c, d.w2) & (d.w == 64 ? ~0ULL : (1ULL << d.w) - 1))); break;
                    case Instruction::Trunc: r = a.e ? mkval(P.extract(a.e, 0, d.w)) : C(d.w == 64 ? a.c : a.c & ((1ULL << d.w) - 1)); break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.e) r = mkval(d.w == a.e->w ? a.e : d.w < a.e->w ? P.extract(a.e, 0, d.w) : P.zext(a.e, d.w)); else r = C(d.w >= 64 ? a.c : a.c & ((1ULL << d.w) - 1)); break;
                    default: {
                        if (a.e) { if (!conc(s, a, d.w2)) return; f = s.top(); wb(f, d.a, a); }
                        bool df = d.imm & 1, sf = d.imm & 2;
                        switch (d.sub) {
                            case Instruction::FPToUI: r = C((u64)asD(a, sf) & (u64)maskw(d.w)); break; case Instruction::FPToSI: r = C((u64)(s64)asD(a, sf) & (u64)maskw(d.w)); break;
                            case Instruction::UIToFP: r = fromD((double)a.c, df); break; case Instruction::SIToFP: r = fromD((double)sx(a.c, d.w2), df); break;
                            case Instruction::FPTrunc: case Instruction::FPExt: r = fromD(asD(a, sf), df); break;
                            default: error(s, "cast"); return;
                        } } }
                f->r[d.dst] = r; f->ip++; break; }
            case D_COPY: f->r[d.dst] = get(f, d.a); f->ip++; break;
            case D_GEP: {
                Val a = get(f, d.a);
                if (!d.x) { if (!a.e) a.c += d.imm; else a = binop(ADD, a, C(d.imm), 64); f->r[d.dst] = a; f->ip++; break; }
                bool sym = a.e != nullptr; u64 acc = a.c + d.imm;
                for (auto& g : *(std::vector<GepIdx>*)d.x) { Val i = get(f, g.opd); if (i.e) { sym = true; break; } acc += (u64)sx(i.c, g.w) * g.scale; }
                if (!sym) { f->r[d.dst] = C(acc); f->ip++; break; }
                Val r = binop(ADD, a, C(d.imm), 64);
                for (auto& g : *(std::vector<GepIdx>*)d.x) { Val i = get(f, g.opd); E e = expr(i, g.w); if (g.w < 64) e = P.sext(e, 64); r = binop(ADD, r, binop(MUL, mkval(e), C(g.scale), 64), 64); }
                f->r[d.dst] = r; f->ip++; break; }
            case D_LOAD: {
                Val p = get(f, d.a); if (p.e) { if (!conc(s, p, 64)) return; f = s.top(); wb(f, d.a, p); }
                Val r; if (!readMem(s, p.c, (d.w + 7) / 8, d.w, r)) return;
                f->r[d.dst] = r; f->ip++; break; }
            case D_LOADAGG: {
                Val p = get(f, d.a); if (p.e) { if (!conc(s, p, 64)) return; f = s.top(); wb(f, d.a, p); }
                unsigned k = 0; for (auto& l : *(std::vector<LeafT>*)d.x) { Val r; if (!readMem(s, p.c + l.off, l.bytes, l.w, r)) return; f->r[d.dst + k++] = r; }
                f->ip++; break; }
            case D_STORE: {
                Val p = get(f, d.a); if (p.e) { if (!conc(s, p, 64)) return; f = s.top(); wb(f, d.a, p); }
                if (!writeMem(s, p.c, (d.w + 7) / 8, d.w, get(f, d.b))) return;
                f->ip++; break; }
            case D_STOREAGG: {
                Val p = get(f, d.a); if (p.e) { if (!conc(s, p, 64)) return; f = s.top(); wb(f, d.a, p); }
                unsigned k = 0; auto& ops = *(std::vector<int32_t>*)d.imm; for (auto& l : *(std::vector<LeafT>*)d.x) if (!writeMem(s, p.c + l.off, l.bytes, l.w, get(f, ops[k++]))) return;
                f->ip++; break; }
            case D_ALLOCA: {
                Val n = get(f, d.a); if (n.e) { if (!conc(s, n, 64)) return; f = s.top(); wb(f, d.a, n); }
                u64 a = stackAlloc(s, n.c * d.imm); f->r[d.dst] = C(a); f->ip++; break; }
            case D_BR: takeEdge(f, (Edge*)d.x); break;
            case D_CBR: {
                Val c = get(f, d.a); bool t;
                if (!c.e) t = c.c; else { size_t before = work.size(); if (!branchOn(s, c.e, t)) return; f = s.top(); wb(f, d.a, C(t)); (void)before; }
                takeEdge(f, t ? (Edge*)d.x : (Edge*)d.imm); break; }
            case D_SWITCH: {
                Val c = get(f, d.a); SwitchX* x = (SwitchX*)d.x; Edge* to = x->def;
                if (!c.e) { for (auto& k : x->cases) if (k.first == c.c) { to = k.second; break; } }
                else { for (auto& k : x->cases) { bool t; if (!branchOn(s, P.eq(c.e, P.cst(k.first, d.w)), t)) return; f = s.top(); if (t) { to = k.second; break; } } }
                takeEdge(f, to); break; }
            case D_CALL: case D_INVOKE: {
                if (!doCall(s, f, d)) { if (s.dead) return; f = s.top(); break; }
                f = s.top(); break; }
            case D_RET: {
                auto& ops = *(std::vector<int32_t>*)d.x; Val rv[16]; size_t n = ops.size(); if (n > 16) { error(s, "ret too wide"); return; }
                for (size_t i = 0; i < n; ++i) rv[i] = get(f, ops[i]);
                bool cr = f->ctorRet; popFrame(s);
                if (s.fr.empty()) { st.completed++; if (st.samples.size() < 6) st.samples.push_back(inputsStr(s, s.model)); s.dead = true; return; }
                f = s.top(); if (cr) break;
                DI& cd = f->bb->is[f->ip]; for (size_t i = 0; i < n && i < cd.n; ++i) f->r[cd.dst + i] = rv[i];
                if (cd.op == D_INVOKE) takeEdge(f, ((CallX*)cd.x)->norm); else f->ip++;
                break; }
            case D_UNREACHABLE: violation(s, "unreachable", "reached unreachable code (undefined behaviour)", s.model); return;
            case D_LPAD: {
                auto* lp = cast<LandingPadInst>(d.I); int sel = 0;
                for (unsigned i = 0; i < lp->getNumClauses(); ++i) if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = typeIdFor(0); break; } u64 t = constInt(c); if (tiMatches(s.cur.tinfo, t)) { sel = typeIdFor(t); break; } }
                f->r[d.dst] = C(s.cur.obj); f->r[d.dst + 1] = C((u64)sel); f->ip++; break; }
            case D_RESUME: unwind(s); if (s.dead) return; f = s.top(); break;
            case D_ATOMICRMW: {
                Val p = get(f, d.a); if (p.e) { if (!conc(s, p, 64)) return; f = s.top(); wb(f, d.a, p); }
                Val o, v = get(f, d.b), r; if (!readMem(s, p.c, (d.w + 7) / 8, d.w, o)) return;
                switch (d.sub) { case AtomicRMWInst::Add: r = binop(ADD, o, v, d.w); break; case AtomicRMWInst::Sub: r = binop(SUB, o, v, d.w); break; case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Or: r = binop(OR, o, v, d.w); break; case AtomicRMWInst::And: r = binop(AND, o, v, d.w); break; default: error(s, "atomicrmw"); return; }
                if (!writeMem(s, p.c, (d.w + 7) / 8, d.w, r)) return; f->r[d.dst] = o; f->ip++; break; }
            case D_CMPXCHG: {
                Val p = get(f, d.a); if (p.e) { if (!conc(s, p, 64)) return; f = s.top(); wb(f, d.a, p); }
                Val o, e = get(f, d.b), v = get(f, d.c); if (!readMem(s, p.c, (d.w + 7) / 8, d.w, o)) return;
                bool t; E c = P.eq(expr(o, d.w), expr(e, d.w)); if (!branchOn(s, c, t)) return; f = s.top();
                if (t && !writeMem(s, p.c, (d.w + 7) / 8, d.w, v)) return; f->r[d.dst] = o; f->r[d.dst + 1] = C(t); f->ip++; break; }
            case D_FBIN: {
                Val a = get(f, d.a), b = get(f, d.b); if (a.e) { if (!conc(s, a, d.w)) return; f = s.top(); wb(f, d.a, a); } if (b.e) { if (!conc(s, b, d.w)) return; f = s.top(); wb(f, d.b, b); }
                bool isf = d.I->getType()->isFloatTy(); double x = asD(a, isf), y = asD(b, isf), r;
                switch (d.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; default: error(s, "fbin"); return; }
                f->r[d.dst] = fromD(r, isf); f->ip++; break; }
            case D_FNEG: { Val a = get(f, d.a); if (a.e) { if (!conc(s, a, d.w)) return; f = s.top(); wb(f, d.a, a); } bool isf = d.I->getType()->isFloatTy(); f->r[d.dst] = fromD(-asD(a, isf), isf); f->ip++; break; }
            case D_FCMP: {
                Val a = get(f, d.a), b = get(f, d.b); if (a.e) { if (!conc(s, a, d.w)) return; f = s.top(); wb(f, d.a, a); } if (b.e) { if (!conc(s, b, d.w)) return; f = s.top(); wb(f, d.b, b); }
                bool isf = d.I->getOperand(0)->getType()->isFloatTy(); double x = asD(a, isf), y = asD(b, isf); bool un = std::isnan(x) || std::isnan(y), r;
                switch (d.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
                    case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
                f->r[d.dst] = C(r); f->ip++; break; }
            case D_NOP: f->ip++; break;
            default: { std::string m; raw_string_ostream os(m); if (d.I) d.I->print(os); error(s, "unsupported instruction " + m); return; }
        }
    }
}

// false: state died / control transferred (no advance)
static bool doBuiltin(State& s, Frame* f, DI& d, CallX* x, int bi) {
    auto arg = [&](unsigned i) { return get(f, x->args[i][0]); };
    auto argc = [&](unsigned i, Val& v) { v = get(f, x->args[i][0]); if (v.e) { if (!conc(s, v, x->argw[i])) return false; f = s.top(); wb(f, x->args[i][0], v); } return true; };
    auto ret = [&](const Val& v) { if (d.dst >= 0) f->r[d.dst] = v; };
    unsigned w = x->retw;
    switch (bi) {
        case B_NOP0: return true;
        case B_RET0: ret(C(0)); return true;
        case B_RET1: ret(C(1)); return true;
        case B_SYM: { // u64 sym_var(const char* name, u64 lo, u64 hi)
            Val n, lo, hi; if (!argc(0, n) || !argc(1, lo) || !argc(2, hi)) return false;
            if (lo.c > hi.c) { s.dead = true; st.killedAssume++; return false; }
            std::string nm = readStr(s, n.c); bool full = lo.c == 0 && hi.c == ~0ULL; unsigned bw = full ? 64 : std::max(1, 64 - __builtin_clzll(hi.c | 1));
            if (lo.c == hi.c) { uint32_t id = newInput(s, nm, bw, true, lo.c, hi.c, true); (void)id; ret(C(lo.c)); return true; }
            uint32_t id = newInput(s, nm, bw, !full, lo.c, hi.c, true); ret(mkval(P.zext(P.mk(VAR, bw, 0, 0, 0, id), 64))); return true; }
        case B_ASSUME: { Val c = arg(0); if (!c.e) { if (!c.c) { st.killedAssume++; s.dead = true; return false; } return true; }
            E e = P.not_(P.eq(c.e, P.cst(0, c.e->w)));
            if (ExprPool::isc(e)) { if (!e->k) { st.killedAssume++; s.dead = true; return false; } return true; }
            if (isKnown(s, e)) return true;
            if (P.eval(e, s.model)) { addConstraint(s, e); return true; }
            Asg a; int r = query(s, e, a); if (r == 0) { st.killedAssume++; s.dead = true; return false; } if (r < 0) { st.abandoned++; s.dead = true; return false; }
            for (auto& p : a) s.model[p.first] = p.second; addConstraint(s, e); return true; }
        case B_ASSERT: { Val c = arg(0), t; if (!argc(1, t)) return false; std::string tag = readStr(s, t.c); st.asserts++; st.asserttags[tag]++;
            if (!c.e) { st.assertconst++; if (!c.c) { violation(s, "assert", tag, s.model); return false; } return true; }
            E e = P.not_(P.eq(c.e, P.cst(0, c.e->w))); if (ExprPool::isc(e)) { st.assertconst++; if (!e->k) { violation(s, "assert", tag, s.model); return false; } return true; }
            if (!P.eval(e, s.model)) { violation(s, "assert", tag, s.model); return false; }
            Asg a; st.assertq++; int r = query(s, P.not_(e), a); if (r == 1) { std::vector<u64> m = s.model; for (auto& p : a) m[p.first] = p.second; violation(s, "assert", tag, m); return false; }
            if (r < 0) { st.abandoned++; s.dead = true; return false; }
            return true; }
        case B_PIN: { Val c = arg(0); if (!c.e) { ret(c); return true; }
            u64 k = (u64)P.eval(c.e, s.model); E e = P.eq(c.e, P.cst(k, c.e->w)); bool cur; Asg a; if (ExprPool::isc(e)) { ret(C(k)); return true; } int r = decide(s, e, cur, a); if (r == 1) ret(C(k)); else ret(c); return true; }
        case B_CONC: { Val v; if (!argc(0, v)) return false; ret(v); return true; }
        case B_PINNED: { Val c = arg(0); ret(C(!c.e)); return true; }
        case B_REACH: { Val t; if (!argc(0, t)) return false; st.reach[readStr(s, t.c)]++; return true; }
        case B_NOTE: { Val t, v; if (!argc(0, t)) return false; v = arg(1); s.notes.push_back({readStr(s, t.c), std::to_string(v.e ? (u64)P.eval(v.e, s.model) : v.c)}); return true; }
        case B_MALLOC: { Val n; if (!argc(0, n)) return false; if (n.c > (64u << 20)) { violation(s, "alloc", "allocation of " + std::to_string(n.c) + " bytes", s.model); return false; } ret(C(heapAlloc(s, n.c, false))); return true; }
        case B_CALLOC: { Val n, m; if (!argc(0, n) || !argc(1, m)) return false; if (n.c * m.c > (64u << 20)) { violation(s, "alloc", "huge allocation", s.model); return false; } ret(C(heapAlloc(s, n.c * m.c, true))); return true; }
        case B_REALLOC: { Val p, n; if (!argc(0, p) || !argc(1, n)) return false; u64 a = heapAlloc(s, n.c, false); if (p.c) { u64 off; bool k; Obj* o = lookup(s, p.c, off, false, k); if (!o || off) { memerr(s, "realloc", p.c, 1); return false; } if (!copyMem(s, a, p.c, std::min<u64>(n.c, o->size))) return false; s.heap.del((p.c - HEAPBASE) >> SH); } ret(C(a)); return true; }
        case B_FREE: { Val p; if (!argc(0, p)) return false; if (!p.c) return true; u64 off = 0; bool k; Obj* o = lookup(s, p.c, off, false, k);
            if (!o || off || k || o->kind != KHEAP) { char b[100]; snprintf(b, 100, "invalid or double free of 0x%llx", (unsigned long long)p.c); violation(s, "memory", b, s.model); return false; }
            s.heap.del((p.c - HEAPBASE) >> SH); return true; }
        case B_MEMCPY: { Val a, b, n; if (!argc(0, a) || !argc(1, b) || !argc(2, n)) return false; if (!copyMem(s, a.c, b.c, n.c)) return false; ret(a); return true; }
        case B_MEMSET: { Val a, n; if (!argc(0, a) || !argc(2, n)) return false; Val v = arg(1); if (v.e) { v = mkval(P.extract(v.e, 0, 8)); }
            if (n.c) { u64 off = 0; bool k; Obj* o = lookup(s, a.c, off, true, k); if (!o || off + n.c > o->size) { memerr(s, "write", a.c, n.c); return false; }
                if (!v.e) { memset(o->b + off, (int)v.c, n.c); if (o->nonconc) memset(o->s + off, 0, n.c); } else for (u64 i = 0; i < n.c; ++i) if (!writeMem(s, a.c + i, 1, 8, v)) return false; }
            ret(a); return true; }
        case B_MEMCMP: case B_MEMCMP0: { Val a, b, n; if (!argc(0, a) || !argc(1, b) || !argc(2, n)) return false; E r = P.cst(0, 32); bool allc = true; int cr = 0;
            std::vector<Val> va(n.c), vb(n.c);
            for (u64 i = 0; i < n.c; ++i) { if (!readMem(s, a.c + i, 1, 8, va[i]) || !readMem(s, b.c + i, 1, 8, vb[i])) return false; if (va[i].e || vb[i].e) allc = false; else if (allc && !cr && va[i].c != vb[i].c) cr = va[i].c < vb[i].c ? -1 : 1; }
            f = s.top();
            if (allc || cr) { ret(C((uint32_t)cr)); return true; }
            for (u64 i = n.c; i-- > 0;) { E p = expr(va[i], 8), q = expr(vb[i], 8); r = P.ite(P.eq(p, q), r, bi == B_MEMCMP0 ? P.cst(1, 32) : P.ite(P.bin(ULT, p, q), P.cst(0xffffffffu, 32), P.cst(1, 32))); }
            ret(mkval(r)); return true; }
        case B_ASSERTFAIL: { Val m, fl; std::string msg = "assertion failed"; m = arg(0); std::string a1 = m.e ? "" : readStr(s, m.c);
            if (x->args.size() >= 4) { if (x->name == "__assert_fail") { Val ff = arg(1), ln = arg(2); msg = "assert(" + a1 + ") at " + readStr(s, ff.c) + ":" + std::to_string(ln.c); } else { Val ln = arg(1), fn = arg(2), cn = arg(3); msg = "libstdc++ assertion " + readStr(s, cn.c) + " in " + readStr(s, fn.c); (void)ln; } }
            violation(s, "program-assert", msg, s.model); return false; }
        case B_ABORT: case B_TRAP: case B_PUREVIRT: case B_EXIT: violation(s, "abort", "call to " + x->name, s.model); return false;
        case B_CXA_ALLOC: { Val n; if (!argc(0, n)) return false; ret(C(heapAlloc(s, n.c, true))); return true; }
        case B_CXA_FREE: { Val p; if (!argc(0, p)) return false; return true; }
        case B_CXA_THROW: { Val p, t; if (!argc(0, p) || !argc(1, t)) return false; s.cur.obj = p.c; s.cur.tinfo = t.c; unwind(s); return false; }
        case B_CXA_BEGIN: { Val p; if (!argc(0, p)) return false; s.caught.push_back(s.cur); ret(p); return true; }
        case B_CXA_END: { if (!s.caught.empty()) s.caught.pop_back(); return true; }
        case B_CXA_RETHROW: { if (s.caught.empty()) { violation(s, "abort", "rethrow without exception", s.model); return false; } s.cur = s.caught.back(); unwind(s); return false; }
        case B_TYPEID: { Val t; if (!argc(0, t)) return false; ret(C((u64)typeIdFor(t.c))); return true; }
        case B_GUARD_ACQ: { Val p; if (!argc(0, p)) return false; Val v; if (!readMem(s, p.c, 1, 8, v)) return false; if (!v.e && v.c == 0) { if (!writeMem(s, p.c, 1, 8, C(1))) return false; f = s.top(); ret(C(1)); } else ret(C(0)); return true; }
        case B_EXPECT: case B_LAUNDER: ret(arg(0)); return true;
        case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: { Val a = arg(0), b = arg(1); E ea = expr(a, w), eb = expr(b, w); E c = P.bin(bi == B_UMAX || bi == B_UMIN ? ULT : SLT, ea, eb); bool mx = bi == B_UMAX || bi == B_SMAX; ret(mkval(mx ? P.ite(c, eb, ea) : P.ite(c, ea, eb))); return true; }
        case B_ABS: { E a = expr(arg(0), w); ret(mkval(P.ite(P.bin(SLT, a, P.cst(0, w)), P.bin(SUB, P.cst(0, w), a), a))); return true; }
        case B_CTPOP: { Val v = arg(0); if (!v.e) { ret(C(__builtin_popcountll(v.c))); return true; } E r = P.cst(0, w); for (unsigned i = 0; i < w; ++i) r = P.bin(ADD, r, P.zext(P.extract(v.e, i, 1), w)); ret(mkval(r)); return true; }
        case B_CTLZ: { Val v; if (!argc(0, v)) return false; ret(C(v.c ? (u64)__builtin_clzll(v.c) - (64 - w) : w)); return true; }
        case B_CTTZ: { Val v; if (!argc(0, v)) return false; ret(C(v.c ? (u64)__builtin_ctzll(v.c) : w)); return true; }
        case B_BSWAP: { E a = expr(arg(0), w); E r = nullptr; for (unsigned i = 0; i < w / 8; ++i) { E b = P.extract(a, i * 8, 8); r = r ? P.concat(r, b) : b; } ret(mkval(r)); return true; }
        case B_ADDO_U: case B_ADDO_S: case B_SUBO_U: case B_SUBO_S: case B_MULO_U: case B_MULO_S: {
            E a = expr(arg(0), w), b = expr(arg(1), w); Op o = bi <= B_ADDO_S ? ADD : bi <= B_SUBO_S ? SUB : MUL; bool sg = bi == B_ADDO_S || bi == B_SUBO_S || bi == B_MULO_S; E r = P.bin(o, a, b); unsigned w2 = o == MUL ? std::min(128u, 2 * w) : w + 1;
            E A = sg ? P.sext(a, w2) : P.zext(a, w2), B = sg ? P.sext(b, w2) : P.zext(b, w2), R = P.bin(o, A, B); E R2 = sg ? P.sext(r, w2) : P.zext(r, w2); E ov = P.not_(P.eq(R, R2));
            f->r[d.dst] = mkval(r); f->r[d.dst + 1] = mkval(ov); return true; }
        case B_USUBSAT: { E a = expr(arg(0), w), b = expr(arg(1), w); ret(mkval(P.ite(P.bin(ULT, a, b), P.cst(0, w), P.bin(SUB, a, b)))); return true; }
        case B_UADDSAT: { E a = expr(arg(0), w), b = expr(arg(1), w); E r = P.bin(ADD, a, b); ret(mkval(P.ite(P.bin(ULT, r, a), P.cst(maskw(w), w), r))); return true; }
        case B_FSHL: case B_FSHR: { Val n; if (!argc(2, n)) return false; unsigned k = n.c % w; E a = expr(arg(0), w), b = expr(arg(1), w); E r; if (bi == B_FSHL) r = k ? P.bin(OR, P.bin(SHL, a, P.cst(k, w)), P.bin(LSHR, b, P.cst(w - k, w))) : a; else r = k ? P.bin(OR, P.bin(SHL, a, P.cst(w - k, w)), P.bin(LSHR, b, P.cst(k, w))) : b; ret(mkval(r)); return true; }
        case B_OBJSIZE: ret(C(~0ULL)); return true;
        case B_ISCONST: ret(C(0)); return true;
        case B_ERRNO: ret(C(errnoAddr)); return true;
        case B_FABS: { Val a; if (!argc(0, a)) return false; bool isf = d.I->getType()->isFloatTy(); ret(fromD(fabs(asD(a, isf)), isf)); return true; }
        case B_POW: { Val a, b; if (!argc(0, a) || !argc(1, b)) return false; bool isf = d.I->getType()->isFloatTy(); ret(fromD(pow(asD(a, isf), asD(b, isf)), isf)); return true; }
        case B_FMULADD: case B_FMA: { Val a, b, c; if (!argc(0, a) || !argc(1, b) || !argc(2, c)) return false; bool isf = d.I->getType()->isFloatTy(); ret(fromD(asD(a, isf) * asD(b, isf) + asD(c, isf), isf)); return true; }
        case B_FMATH1: { Val a; if (!argc(0, a)) return false; bool isf = d.I->getType()->isFloatTy(); double v = asD(a, isf), r; const std::string& n = x->name; if (n.find("ceil") != std::string::npos) r = ceil(v); else if (n.find("floor") != std::string::npos) r = floor(v); else if (n.find("sqrt") != std::string::npos) r = sqrt(v); else if (n.find("log2") != std::string::npos) r = log2(v); else if (n.find("log") != std::string::npos) r = log(v); else r = exp(v); ret(fromD(r, isf)); return true; }
        default: error(s, "unsupported builtin " + x->name); return false;
    }
}

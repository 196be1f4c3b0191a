// Linear-integer translation of bit-vector constraints.  Every term carries an interval that proves the integer
// reading equal to the bit-vector reading; anything else is left to the bit-vector solver.
typedef __int128 s128;
struct Lin { bool ok = false; std::vector<std::pair<uint32_t, s64>> t; s64 k = 0; s64 lo = 0, hi = 0; }; // atoms: variable id, or ITE expression id | 0x80000000
struct LBool { bool ok = false; int kind = 0; /*0 le(lin<=0) 1 true 2 false 3 and 4 or 5 eq(lin==0) 6 ne*/ Lin l; std::vector<uint32_t> ch; Z3_ast z = nullptr; uint32_t cid = 0; };
static std::unordered_map<uint32_t, Lin> linMemo; static std::unordered_map<uint64_t, uint32_t> boolMemo; static std::vector<LBool> lbools(1);
static std::unordered_map<std::vector<u64>, uint32_t, VecHash> canonIds; static uint32_t nextCanon = 1;
static std::unordered_map<uint32_t, Z3_ast> atomZ; static std::unordered_map<uint32_t, E> iteAtoms;
static Z3_solver LS = nullptr; static Z3_sort IntS;
static const s64 LIM = (s64)1 << 61;
static uint32_t lbool(E e, bool neg);
static bool fits(s128 v) { return v > -(s128)LIM && v < (s128)LIM; }
static void linAdd(Lin& r, const Lin& b, s64 m) {
    std::vector<std::pair<uint32_t, s64>> o; size_t i = 0, j = 0;
    while (i < r.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < r.t.size() && r.t[i].first < b.t[j].first)) o.push_back(r.t[i++]);
        else if (i == r.t.size() || b.t[j].first < r.t[i].first) { o.push_back({b.t[j].first, b.t[j].second * m}); ++j; }
        else { s64 c = r.t[i].second + b.t[j].second * m; if (c) o.push_back({r.t[i].first, c}); ++i; ++j; }
    }
    r.t.swap(o); s128 k = (s128)r.k + (s128)b.k * m; if (!fits(k)) { r.ok = false; return; } r.k = (s64)k;
}
static std::unordered_map<uint32_t, std::pair<s64, s64>> atomRange;
static void linRange(Lin& r) { s128 lo = r.k, hi = r.k; for (auto& p : r.t) { auto& a = atomRange[p.first]; s128 x = (s128)a.first * p.second, y = (s128)a.second * p.second; if (x > y) std::swap(x, y); lo += x; hi += y; if (p.second > (1 << 20) || p.second < -(1 << 20)) r.ok = false; } if (!fits(lo) || !fits(hi)) { r.ok = false; return; } r.lo = (s64)lo; r.hi = (s64)hi; }
static bool unsignedOk(const Lin& l, unsigned w) { return l.lo >= 0 && (w >= 62 || l.hi < ((s64)1 << w)); }
static bool signedOk(const Lin& l, unsigned w) { return w >= 63 || (l.lo >= -((s64)1 << (w - 1)) && l.hi < ((s64)1 << (w - 1))); }
// shift by a multiple of 2^w so that the interval fits the requested reading
static bool normU(Lin& l, unsigned w) { if (unsignedOk(l, w)) return true; if (w < 60) { s64 m = (s64)1 << w; s64 q = l.lo >= 0 ? l.lo / m : -((-l.lo + m - 1) / m); l.k -= q * m; l.lo -= q * m; l.hi -= q * m; } return unsignedOk(l, w); }
static bool normS(Lin& l, unsigned w) { if (signedOk(l, w)) return true; if (w < 60) { s64 m = (s64)1 << w, h = m >> 1; s64 x = l.lo + h; s64 q = x >= 0 ? x / m : -((-x + m - 1) / m); l.k -= q * m; l.lo -= q * m; l.hi -= q * m; } return signedOk(l, w); }
static Lin linOf(E e) {
    auto it = linMemo.find(e->id); if (it != linMemo.end()) return it->second;
    Lin r; unsigned w = e->w;
    switch (e->op) {
        case CONST: if (w <= 64) { s128 v = (s128)sextw(e->k, w); if (fits(v)) { r.ok = true; r.k = (s64)v; } } break;
        case VAR: { uint32_t id = (uint32_t)e->k; auto& vi = P.vars[id]; if (w <= 64) { u64 lo = vi.ranged ? vi.lo : 0, hi = vi.ranged ? vi.hi : (u64)maskw(w); if (hi < (u64)LIM) { r.ok = true; atomRange[id] = {(s64)lo, (s64)hi}; r.t.push_back({id, 1}); } } break; }
        case ADD: case SUB: { Lin a = linOf(e->a), b = linOf(e->b); if (a.ok && b.ok) { r = a; linAdd(r, b, e->op == ADD ? 1 : -1); } break; }
        case MUL: { Lin a = linOf(e->a), b = linOf(e->b); if (a.ok && b.ok && (a.t.empty() || b.t.empty())) { if (!a.t.empty()) std::swap(a, b); if (a.k > -1024 && a.k < 1024) { r.ok = true; if (a.k) linAdd(r, b, a.k); } } break; }
        case SHL: if (ExprPool::isc(e->b) && e->b->k < 10) { Lin a = linOf(e->a); if (a.ok) { r.ok = true; linAdd(r, a, (s64)1 << (unsigned)e->b->k); } } break;
        case ZEXT: { Lin a = linOf(e->a); if (a.ok && normU(a, e->a->w)) r = a; break; }
        case SEXT: { Lin a = linOf(e->a); if (a.ok && normS(a, e->a->w)) r = a; break; }
        case CONCAT: if (ExprPool::isc(e->a, 0)) { Lin a = linOf(e->b); if (a.ok && normU(a, e->b->w)) r = a; } else if (e->b->w <= 10) { Lin a = linOf(e->a), b = linOf(e->b); if (a.ok && b.ok && normU(b, e->b->w)) { r = b; linAdd(r, a, (s64)1 << e->b->w); } } break;
        case EXTRACT: if (e->k == 0) { Lin a = linOf(e->a); if (a.ok) r = a; } break;
        case ITE: if (w > 1) { Lin a = linOf(e->b), b = linOf(e->c); if (a.ok && b.ok && normS(a, w) && normS(b, w) && lbool(e->a, false)) { uint32_t id = e->id | 0x80000000u; r.ok = true; atomRange[id] = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; iteAtoms[id] = e; r.t.push_back({id, 1}); } } break;
        default: break;
    }
    if (r.ok) linRange(r);
    linMemo[e->id] = r; return r;
}
static int cmpByRange(Op op, E x, E y) {
    unsigned w = x->w; Lin a = linOf(x); if (!a.ok) return -1; Lin b = linOf(y); if (!b.ok) return -1;
    bool sg = op == SLT || op == SLE;
    if (op == EQ) { Lin a2 = a, b2 = b; if (normU(a, w) && normU(b, w)) ; else { if (!(normS(a2, w) && normS(b2, w))) return -1; a = a2; b = b2; } }
    else if (sg ? !(normS(a, w) && normS(b, w)) : !(normU(a, w) && normU(b, w))) return -1;
    linAdd(a, b, -1); if (!a.ok) return -1; linRange(a); if (!a.ok) return -1;
    if (op == EQ) return (a.lo > 0 || a.hi < 0) ? 0 : (a.lo == 0 && a.hi == 0) ? 1 : -1;
    if (op == ULT || op == SLT) return a.hi < 0 ? 1 : a.lo >= 0 ? 0 : -1;
    return a.hi <= 0 ? 1 : a.lo > 0 ? 0 : -1;
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast inum(s64 v) { return T(Z3_mk_int64(Z, v, IntS)); }
static Z3_ast linZ(const Lin& l);
static Z3_ast atomAst(uint32_t id) {
    auto it = atomZ.find(id); if (it != atomZ.end()) return it->second;
    Z3_ast a;
    if (id & 0x80000000u) { E e = iteAtoms[id]; Lin t = linOf(e->b), f = linOf(e->c); normS(t, e->w); normS(f, e->w); a = Z3_mk_ite(Z, lbools[lbool(e->a, false)].z, linZ(t), linZ(f)); }
    else { std::string n = "i" + std::to_string(id); a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), IntS); }
    atomZ[id] = keep(a); return a;
}
static Z3_ast linZ(const Lin& l) {
    std::vector<Z3_ast> xs; for (auto& p : l.t) { Z3_ast a = atomAst(p.first); if (p.second != 1) { Z3_ast m[2] = {inum(p.second), a}; a = T(Z3_mk_mul(Z, 2, m)); } xs.push_back(a); }
    if (l.k || xs.empty()) xs.push_back(inum(l.k));
    return xs.size() == 1 ? xs[0] : T(Z3_mk_add(Z, xs.size(), xs.data()));
}
static uint32_t mkLB(int kind, const Lin& l, std::vector<uint32_t> ch) {
    LBool b; b.ok = true; b.kind = kind; b.l = l; b.ch = ch; std::vector<u64> key; key.push_back(kind);
    if (kind == 0) { if (l.hi <= 0) kind = 1; else if (l.lo > 0) kind = 2; }
    if (kind == 5 && (l.lo > 0 || l.hi < 0)) kind = 2; if (kind == 6 && (l.lo > 0 || l.hi < 0)) kind = 1;
    if (kind == 1 || kind == 2) { b.kind = kind; key.assign(1, kind); b.l = Lin(); b.ch.clear(); ch.clear(); }
    if (kind == 5 || kind == 6) { if (!b.l.t.empty() && b.l.t[0].second < 0) { for (auto& p : b.l.t) p.second = -p.second; b.l.k = -b.l.k; } }
    for (auto& p : b.l.t) { key.push_back(p.first); key.push_back((u64)p.second); } if (kind != 1 && kind != 2) key.push_back((u64)b.l.k);
    for (uint32_t c : ch) key.push_back(lbools[c].cid);
    auto it = canonIds.find(key); if (it != canonIds.end()) return it->second;
    switch (kind) {
        case 0: b.z = Z3_mk_le(Z, linZ(b.l), inum(0)); break;
        case 1: b.z = Z3_mk_true(Z); break; case 2: b.z = Z3_mk_false(Z); break;
        case 3: case 4: { std::vector<Z3_ast> xs; for (uint32_t c : ch) xs.push_back(lbools[c].z); b.z = kind == 3 ? Z3_mk_and(Z, xs.size(), xs.data()) : Z3_mk_or(Z, xs.size(), xs.data()); break; }
        case 5: b.z = Z3_mk_eq(Z, linZ(b.l), inum(0)); break;
        case 6: { Z3_ast q = T(Z3_mk_eq(Z, linZ(b.l), inum(0))); b.z = Z3_mk_not(Z, q); break; }
    }
    keep(b.z); b.cid = nextCanon++; uint32_t id = lbools.size(); lbools.push_back(b); canonIds[key] = id; return id;
}
static uint32_t lbool(E e, bool neg) { // 0: not convertible
    uint64_t mk = ((uint64_t)e->id << 1) | neg; auto it = boolMemo.find(mk); if (it != boolMemo.end()) return it->second;
    uint32_t r = 0;
    switch (e->op) {
        case CONST: r = mkLB(((e->k != 0) != neg) ? 1 : 2, Lin(), {}); break;
        case VAR: { Lin a = linOf(e); if (!a.ok) break; a.k -= neg ? 0 : 1; linRange(a); r = mkLB(5, a, {}); break; }
        case XOR: if (e->w == 1 && ExprPool::isc(e->b, 1)) r = lbool(e->a, !neg); break;
        case ITE: if (e->w == 1) { uint32_t c = lbool(e->a, false), nc = lbool(e->a, true), p = lbool(e->b, neg), q = lbool(e->c, neg); if (c && nc && p && q) { uint32_t u = mkLB(3, Lin(), {c, p}), v = mkLB(3, Lin(), {nc, q}); r = mkLB(4, Lin(), {u, v}); } } break;
        case AND: case OR: if (e->w == 1) { uint32_t a = lbool(e->a, neg), b = lbool(e->b, neg); if (a && b) r = mkLB(((e->op == AND) != neg) ? 3 : 4, Lin(), {a, b}); } break;
        case ULT: case ULE: case SLT: case SLE: {
            unsigned w = e->a->w; bool sg = e->op == SLT || e->op == SLE; Lin a = linOf(e->a), b = linOf(e->b); if (!a.ok || !b.ok) break;
            if (sg ? !(normS(a, w) && normS(b, w)) : !(normU(a, w) && normU(b, w))) break;
            bool strict = e->op == ULT || e->op == SLT; if (neg) { std::swap(a, b); strict = !strict; }
            linAdd(a, b, -1); if (strict) a.k += 1; if (!a.ok) break; linRange(a); if (!a.ok) break; r = mkLB(0, a, {}); break; }
        case EQ: {
            unsigned w = e->a->w;
            Lin a = linOf(e->a), b = linOf(e->b); if (w > 1 && (!a.ok || !b.ok)) break;
            if (w == 1) { uint32_t p = lbool(e->a, false), q = lbool(e->b, false), np = lbool(e->a, true), nq = lbool(e->b, true); if (p && q && np && nq) { uint32_t u = mkLB(3, Lin(), {p, neg ? nq : q}), v = mkLB(3, Lin(), {np, neg ? q : nq}); r = mkLB(4, Lin(), {u, v}); } break; }
            Lin a2 = a, b2 = b; if (!(normU(a, w) && normU(b, w))) { a = a2; b = b2; if (!(normS(a, w) && normS(b, w))) break; }
            linAdd(a, b, -1); if (!a.ok) break; linRange(a); if (!a.ok) break; r = mkLB(neg ? 6 : 5, a, {}); break; }
        default: break;
    }
    boolMemo[mk] = r; return r;
}
// solve: conjunction of constraints (expressions sl plus cond), pinned variables fixed.  returns -2 when not expressible
static int liaQuery(State& s, const std::vector<E>& sl, E cond, const std::vector<uint32_t>& vs, const std::vector<uint32_t>& pin, Asg& asg) {
    uint32_t cc = lbool(cond, false); if (!cc) return -2;
    std::vector<uint32_t> cs; for (E e : sl) { uint32_t c = lbool(e, false); if (!c) return -2; cs.push_back(c); }
    for (uint32_t v : vs) { auto& vi = P.vars[v]; if (!(vi.ranged ? vi.hi < (u64)LIM : vi.w <= 60)) return -2; }
    if (lbools[cc].kind == 2) return 0;
    std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<u64> key; key.push_back(7); for (uint32_t c : cs) { if (lbools[c].kind == 1) continue; if (c == cc) continue; key.push_back(c); } key.push_back(~0ULL); key.push_back(cc);
    std::vector<uint32_t> p2 = pin; std::sort(p2.begin(), p2.end()); for (uint32_t v : p2) { key.push_back(v); key.push_back(s.model[v]); }
    auto it = qcache.find(key);
    if (it != qcache.end()) { // cancelled variables of the query that filled the cache are not variables of this one
        st.cachehits++; asg.clear(); for (auto& a : it->second.asg) if (std::find(vs.begin(), vs.end(), a.first) != vs.end()) asg.push_back(a); return it->second.res; }
    double t0 = now();
    if (!LS) { LS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, LS); setLimit(LS, (unsigned)opt.rlimit); }
    Z3_solver_push(Z, LS);
    for (uint32_t v : vs) { auto& vi = P.vars[v]; u64 lo = vi.ranged ? vi.lo : 0, hi = vi.ranged ? vi.hi : (u64)maskw(vi.w); Z3_ast a = atomAst(v); Z3_solver_assert(Z, LS, T(Z3_mk_ge(Z, a, inum((s64)lo)))); Z3_solver_assert(Z, LS, T(Z3_mk_le(Z, a, inum((s64)hi)))); }
    for (uint32_t v : p2) Z3_solver_assert(Z, LS, T(Z3_mk_eq(Z, atomAst(v), inum((s64)s.model[v]))));
    for (uint32_t c : cs) Z3_solver_assert(Z, LS, lbools[c].z);
    Z3_solver_assert(Z, LS, lbools[cc].z);
    Z3_lbool r = Z3_solver_check(Z, LS); int res = -2; asg.clear();
    if (r == Z3_L_FALSE) { res = 0; st.qunsat++; }
    else if (r == Z3_L_TRUE) {
        res = 1; st.qsat++; Z3_model m = Z3_solver_get_model(Z, LS); Z3_model_inc_ref(Z, m);
        for (uint32_t v : vs) { Z3_ast o; if (!Z3_model_eval(Z, m, atomAst(v), true, &o)) fatal("model"); T(o); int64_t u = 0; if (!Z3_get_numeral_int64(Z, o, &u)) fatal("numeral"); asg.push_back({v, (u64)u}); }
        Z3_model_dec_ref(Z, m);
    }
    Z3_solver_pop(Z, LS, 1); dropTmp();
    double dt = now() - t0; st.ztime += dt; st.queries++; st.lia++; if (dt > st.zmax) st.zmax = dt;
    if (res >= 0) { if (qcache.size() > 2000000) qcache.clear(); qcache.emplace(std::move(key), CacheEnt{res, asg}); }
    return res;
}

// Instances compiled by a factory: exactly the described system, whichever states occur in rules; instances survive moves.
#include "lb.h"
#define LT Lb
#include "solverh.h"
#include "pdaaal/PDAFactory.h"
#ifndef KM
#define KM 2      // leaf kinds: 0 one label, 1 all but one label, 2 any label
#endif
#ifndef DFS
#define DFS 1
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef WGT
#define WGT 0
#endif
#if WGT
using W = weight<uint32_t>; static constexpr auto TT = Trace_Type::Shortest;
#else
using W = weight<void>; static constexpr auto TT = Trace_Type::Any;
#endif
static constexpr L_t WC{99};
static std::vector<RuleS> rs; static size_t inim, accm; // subsets of the control states
struct Leaf { int kind; uint32_t a; bool has(uint32_t x) const { return kind == 2 || ((x == a) != (kind == 1)); } };
struct Lang { std::vector<Leaf> ls; };
static Lang lang(const char* n, size_t lo, size_t hi) { Lang l; size_t k = lo == hi ? lo : SC(n, lo, hi); for (size_t i = 0; i < k; ++i) l.ls.push_back({KM ? (int)SC("kind", 0, KM) : 0, (uint32_t)dec(n, i, "a", 0, NL - 1)}); return l; }
static NFA<L_t> nfa(const Lang& l) {
    NFA<L_t> r(true);
    for (auto& f : l.ls) { NFA<L_t> x = f.kind == 2 ? NFA<L_t>(std::unordered_set<L_t>{}, true) : NFA<L_t>(std::unordered_set<L_t>{L_t{f.a + LB}}, f.kind == 1); r.concat(std::move(x)); }
    r.compile(); return r;
}
static std::unordered_set<L_t> all() { std::unordered_set<L_t> s; for (uint32_t i = 0; i < NL; ++i) s.insert(L_t{LB + i}); return s; }
static std::vector<size_t> sub(size_t m) { std::vector<size_t> v; for (size_t i = 0; i < NS; ++i) if (m >> i & 1) v.push_back(i); return v; }
using rule_t_ = typename PDA<L_t, W, fut::type::hash>::rule_t;
static rule_t_ mk(const RuleS& r) { rule_t_ u; u._from = r.from; u._pre = r.wild ? WC : L_t{r.pre + LB}; u._to = r.to; u._op = r.op; u._op_label = L_t{r.ol + LB};
#if WGT
    u._weight = (uint32_t)r.w;
#endif
    return u; }
#if DFS
struct Fac : DFS_PDAFactory<L_t, W> {
    std::vector<size_t> ini = sub(inim); Fac() : DFS_PDAFactory<L_t, W>(all(), WC) {}
    const std::vector<size_t>& initial() override { return ini; }
    bool accepting(size_t s) override { return accm >> s & 1; }
    std::vector<rule_t> rules(size_t s) override { std::vector<rule_t> v; for (auto& r : rs) if (BR(r.from == s)) v.push_back(mk(r)); return v; }
};
#else
struct Fac : PDAFactory<L_t, W> {
    std::vector<size_t> ini = sub(inim), acc = sub(accm); Fac() : PDAFactory<L_t, W>(all()) {}
    void build_pda() override { for (auto& r : rs) if (r.wild) add_wildcard_rule(mk(r)); else add_rule(mk(r)); }
    const std::vector<size_t>& initial() override { return ini; }
    const std::vector<size_t>& accepting() override { return acc; }
};
#endif
extern "C" void sym_main() {
    inim = SC("initial", 1, (1 << NS) - 1); accm = SC("accepting", 1, (1 << NS) - 1);
    Lang I = lang("i", ILO, IHI), F = lang("f", FLO, FHI); symRules(rs); for (auto& r : rs) r.wild = BR(r.wild);
    auto ni = nfa(I), nf = nfa(F); Fac f; auto inst = f.compile(ni, nf);
    auto solve = [](auto& i) { if constexpr (MODE == 0) return Solver::post_star_accepts<TT>(*i); else if constexpr (MODE == 1) return Solver::pre_star_accepts<TT>(*i); else return Solver::dual_search_accepts<TT>(*i); };
    auto moved = std::move(inst); // a moved instance is as good as the original
    bool got = solve(moved);
    pinRules(rs); for (auto* l : {&I, &F}) for (auto& f : l->ls) f.a = (uint32_t)sym_pin(f.a);
    NaivePost o(NS, NL, rs);
    std::vector<size_t> ch; for (size_t i = 0; i < I.ls.size(); ++i) ch.push_back(o.node(i + 1 == I.ls.size()));
    for (size_t s = 0; s < NS; ++s) if (inim >> s & 1) { if (I.ls.empty()) o.acc[s] = 1; else for (uint32_t l = 0; l < NL; ++l) if (BR(I.ls[0].has(l))) o.add(s, l, ch[0]); }
    for (size_t i = 1; i < I.ls.size(); ++i) for (uint32_t l = 0; l < NL; ++l) if (BR(I.ls[i].has(l))) o.add(ch[i - 1], l, ch[i]);
    o.run();
    bool want = false; std::vector<std::pair<size_t, size_t>> seen; auto push = [&](size_t x, size_t y) { for (auto& p : seen) if (p.first == x && p.second == y) return; seen.push_back({x, y}); };
    for (size_t s = 0; s < NS; ++s) if (accm >> s & 1) push(s, 0);
    for (size_t k = 0; k < seen.size() && !want; ++k) {
        auto [x, y] = seen[k]; if (o.acc[x] && y == F.ls.size()) { want = true; break; }
        for (size_t i = 0; i < o.es.size(); ++i) if (o.es[i].f == x) { auto e = o.es[i]; if (e.l == NaivePost::EPS) push(e.t, y); else if (y < F.ls.size() && BR(F.ls[y].has(e.l))) push(e.t, y + 1); }
    }
    sym_reach(want ? "reachable" : "unreachable");
    REQ(got == want, "the compiled instance answers reachability in the described system");
    auto res = [&] { if constexpr (MODE == 2) return Solver::get_trace_dual_search<TT>(*moved); else return Solver::get_trace<TT>(*moved); }();
#if WGT
    auto& tr = res.first;
    if (want) {
        auto words = [](const Lang& l) { std::vector<std::vector<uint32_t>> ws{{}}; for (auto& f : l.ls) { std::vector<std::vector<uint32_t>> n; for (auto& w : ws) for (uint32_t x = 0; x < NL; ++x) if (BR(f.has(x))) { n.push_back(w); n.back().push_back(x); } ws.swap(n); } return ws; };
        auto wi = words(I), wf = words(F); bool any = false; int64_t best = 0;
        for (size_t t = 0; t < NS; ++t) if (accm >> t & 1) for (auto& wt : wf) { NaiveMin m(NS, NL, rs, t, wt); m.run(); for (size_t s = 0; s < NS; ++s) if (inim >> s & 1) for (auto& ws : wi) { int64_t w; if (m.best(s, ws, w) && (!any || BR(w < best))) { any = true; best = w; } } }
        REQ(any && (int64_t)res.second == best, "the weight is the minimum over all runs of the described system");
    }
#else
    auto& tr = res;
#endif
    REQ(tr.empty() == !want, "a trace exists exactly when the answer is yes");
    auto unl = [](const std::vector<L_t>& s) { std::vector<uint32_t> r; for (auto x : s) r.push_back(x.v - LB); return r; };
    auto in = [&](const Lang& l, const std::vector<uint32_t>& s) { if (s.size() != l.ls.size()) return false; for (size_t i = 0; i < s.size(); ++i) if (!BR(l.ls[i].has(s[i]))) return false; return true; };
    if (want) {
        REQ((inim >> tr.front()._pdastate & 1) && in(I, unl(tr.front()._stack)), "the trace starts in an initial configuration");
        REQ((accm >> tr.back()._pdastate & 1) && in(F, unl(tr.back()._stack)), "the trace ends in an accepting configuration");
        for (size_t i = 0; i + 1 < tr.size(); ++i) REQ(stepOk(rs, tr[i]._pdastate, unl(tr[i]._stack), tr[i + 1]._pdastate, unl(tr[i + 1]._stack)), "consecutive configurations are one rule apart");
    }
}

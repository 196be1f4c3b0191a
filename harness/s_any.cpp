// Reachability between two regular sets of configurations through the Solver front end (unweighted).
#include "solverh.h"
#include "auth.h"
#ifndef MODE
#define MODE 0   // 0 post*, 1 pre*, 2 dual*, 3 post* without early termination, 4 pre* without early termination
#endif
#ifndef CHK
#define CHK 1    // 1 answer, 2 configuration trace, 4 rule trace and automaton paths
#endif
#ifndef NX1
#define NX1 NX
#endif
#ifndef NE1
#define NE1 NE
#endif
using W = weight<void>;
using stack_t_ = std::vector<uint32_t>;
static stack_t_ unl(const std::vector<L_t>& s) { stack_t_ r; for (auto x : s) r.push_back(x - LB); return r; }
// the sequence of automaton states must be an accepting run of the given automaton on the stack
static bool pathOk(const AutS& a, const std::vector<size_t>& path, const stack_t_& s) {
    if (path.size() != s.size() + 1 || path.front() >= a.ns) return false;
    for (size_t i = 0; i < s.size(); ++i) { bool f = false; for (auto& e : a.es) if (e.f == path[i] && e.t == path[i + 1] && BR(e.l == s[i])) { f = true; break; } if (!f) return false; }
    return path.back() < a.acc.size() && a.acc[path.back()];
}
#ifdef CONF   // single configurations with stacks of S0LO..S0HI and S1LO..S1HI symbols
static AutS symConf(const char* n, size_t lo, size_t hi) {
    AutS a; a.ns = NS; size_t p = dec(n, 0, "p", 0, NS - 1); auto s = symStack(n, lo, hi); a.nx = s.size(); a.acc.resize(NS + s.size());
    if (s.empty()) { p = sym_concretize(p); a.acc[p] = 1; return a; }
    size_t c = p; for (size_t i = 0; i < s.size(); ++i) { a.es.push_back({c, NS + i, s[i]}); c = NS + i; } a.acc[c] = 1;
    return a;
}
#endif
extern "C" void sym_main() {
#ifdef CONF
    AutS A = symConf("i", S0LO, S0HI), B = symConf("f", S1LO, S1HI);
#else
    AutS A = symAut("i"), B = symAut("f", NS, NX1, NE1);
#endif
    std::vector<RuleS> rs; symRules(rs);
    pda_t_<W> pda; mkPda<W>(pda, rs);
    auto ini = A.build<pda_t_<W>, aut_t_<W>>(pda), fin = B.build<pda_t_<W>, aut_t_<W>>(pda);
    PAutomatonProduct instance(pda, std::move(ini), std::move(fin));
    bool got;
    if constexpr (MODE == 0) got = Solver::post_star_accepts<Trace_Type::Any>(instance);
    else if constexpr (MODE == 1) got = Solver::pre_star_accepts<Trace_Type::Any>(instance);
    else if constexpr (MODE == 2) got = Solver::dual_search_accepts<Trace_Type::Any>(instance);
    else if constexpr (MODE == 3) got = Solver::post_star_accepts_no_ET(instance);
    else got = Solver::pre_star_accepts_no_ET(instance);
    for (AutS* a : {&A, &B}) for (auto& e : a->es) { e.f = sym_concretize(e.f); e.t = sym_concretize(e.t); e.l = (uint32_t)sym_pin(e.l); }
    pinRules(rs);
    if (CHK & 1) {
        NaivePost o(NS, NL, rs); for (size_t i = 0; i < A.nx; ++i) o.node(A.acc[NS + i]); for (size_t i = 0; i < NS; ++i) o.acc[i] = A.acc[i];
        for (auto& e : A.es) o.add(e.f, e.l, e.t);
        o.run();
        // intersection with B: breadth first over pairs
        bool want = false; std::vector<std::pair<size_t, size_t>> seen; for (size_t i = 0; i < NS; ++i) seen.push_back({i, i});
        auto push = [&](size_t x, size_t y) { for (auto& p : seen) if (p.first == x && p.second == y) return; seen.push_back({x, y}); };
        for (size_t k = 0; k < seen.size() && !want; ++k) {
            auto [x, y] = seen[k]; if (o.acc[x] && B.acc[y]) { want = true; break; }
            for (size_t i = 0; i < o.es.size(); ++i) if (o.es[i].f == x) {
                if (o.es[i].l == NaivePost::EPS) { push(o.es[i].t, y); continue; }
                for (auto& e : B.es) if (e.f == y && BR(e.l == o.es[i].l)) push(o.es[i].t, e.t);
            }
        }
        if (want) sym_reach("reachable"); else sym_reach("unreachable");
        REQ(got == want, "the answer is exactly reachability of the target set");
    }
    if (CHK & 2) {
        auto tr = [&] { if constexpr (MODE == 2) return Solver::get_trace_dual_search<Trace_Type::Any>(instance); else return Solver::get_trace<Trace_Type::Any>(instance); }();
        if (!got) REQ(tr.empty(), "no trace when the answer is no");
        else {
            REQ(!tr.empty(), "a trace exists when the answer is yes");
            sym_reach("trace"); if (tr.size() > 2) sym_reach("long trace");
            EL a = toEL(A), b = toEL(B);
            REQ(tr.front()._pdastate < NS && a.accepts(tr.front()._pdastate, unl(tr.front()._stack)), "the trace starts in an initial configuration");
            REQ(tr.back()._pdastate < NS && b.accepts(tr.back()._pdastate, unl(tr.back()._stack)), "the trace ends in a target configuration");
            for (size_t i = 0; i + 1 < tr.size(); ++i) REQ(tr[i]._pdastate < NS && stepOk(rs, tr[i]._pdastate, unl(tr[i]._stack), tr[i + 1]._pdastate, unl(tr[i + 1]._stack)), "consecutive configurations are one rule apart");
        }
    }
    if (CHK & 4) {
        auto [p0, rules, s0, s1, path0, path1] = Solver::get_rule_trace_and_paths<Trace_Type::Any, MODE == 2>(instance);
        if (!got) REQ(p0 == std::numeric_limits<size_t>::max() && rules.empty(), "no rule trace when the answer is no");
        else {
            sym_reach("rule trace"); if (rules.empty()) sym_reach("empty rule trace"); if (rules.size() > 1) sym_reach("long rule trace");
            REQ(p0 < NS && path0.size() && path0[0] == p0, "the rule trace names its initial state");
            REQ(pathOk(A, path0, s0), "the initial path accepts the initial stack");
            REQ(pathOk(B, path1, s1), "the final path accepts the final stack");
            REQ(ruleTraceOk<W>(rules, rs, p0, s0, path1[0], s1), "replaying the rules leads from the initial to the final configuration");
            for (auto& r : rules) { pda_t_<W>::rule_t u(pda, r); bool lab = r._op == PUSH || r._op == SWAP; REQ(u._from == r._from && u._to == r._to && u._op == r._op && BR(u._pre == pda.get_symbol(r._pre)) && BR(u._op_label == (lab ? pda.get_symbol(r._op_label) : L_t{})), "a rule of the trace in terms of the labels of the system"); }
        }
    }
}

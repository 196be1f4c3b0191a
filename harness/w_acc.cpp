// Weighted saturation without a product: minimal weight of accepted configurations and traces of accepted configurations.
#include "solverh.h"
#ifndef SL0
#define SL0 1
#endif
#ifndef SL1
#define SL1 2
#endif
#ifndef SLMIN
#define SLMIN 1
#endif
#ifndef MODE
#define MODE 0   // 0 post*, 1 pre*
#endif
#ifndef WT
#define WT uint32_t
#endif
using W = weight<WT>;
extern "C" void sym_main() {
    std::vector<RuleS> rs; symRules(rs);
    pda_t_<W> pda; mkPda<W>(pda, rs);
    size_t p0 = S64("p0", 0, NS - 1), p1 = SC("p1", 0, NS - 1);
    auto s0 = symStack("a", SLMIN, SL0), s1 = symStack("b", 1, SL1);
    internal::PAutomaton<W> aut(pda, p0, s0);
    if constexpr (MODE == 0) Solver::post_star<Trace_Type::Shortest>(aut); else Solver::pre_star<Trace_Type::Shortest, W>(aut);
    auto [path, w] = aut.template accept_path<Trace_Type::Shortest>(p1, s1);
    bool acc = aut.accepts(p1, s1);
    p0 = sym_concretize(p0); conc(s0); conc(s1); pinRules(rs);
    int64_t best = 0; bool want;
    if constexpr (MODE == 0) { NaiveMin o(NS, NL, rs, p1, s1); o.run(); want = o.best(p0, s0, best); }
    else { NaiveMin o(NS, NL, rs, p0, s0); o.run(); want = o.best(p1, s1, best); }
    if (want) sym_reach("accepted"); else sym_reach("rejected");
    REQ(acc == want, "acceptance is exactly reachability");
    REQ(!path.empty() == want, "an accepting path exists exactly for reachable configurations");
    if (want) {
        REQ((int64_t)w == best, "the weight is the minimum over all runs");
        REQ(path.size() == s1.size() + 1 && path[0] == p1 && aut.states()[path.back()]->_accepting, "the path runs from the control state to acceptance");
        auto [tr, w2] = Solver::get_trace<Trace_Type::Shortest>(pda, aut, p1, s1);
        REQ((int64_t)w2 == best, "the trace weight is the minimum");
        if (MODE == 0) REQ(traceOk(tr, rs, p0, s0, p1, s1), "the trace is a real run"); else REQ(traceOk(tr, rs, p1, s1, p0, s0), "the trace is a real run");
        int64_t sum = 0; for (size_t i = 0; i + 1 < tr.size(); ++i) { int64_t x = 0; auto unl = [](const std::vector<L_t>& s) { std::vector<uint32_t> r; for (auto x : s) r.push_back(x - LB); return r; }; stepOk(rs, tr[i]._pdastate, unl(tr[i]._stack), tr[i + 1]._pdastate, unl(tr[i + 1]._stack), &x); sum += x; }
        REQ(sum == best, "the trace attains the weight");
    }
}

#include "solverh.h"
#ifndef SL0
#define SL0 1
#endif
#ifndef SL1
#define SL1 2
#endif
#ifndef SLMIN
#define SLMIN 1
#endif
#ifndef MODE
#define MODE 0   // 0 post*, 1 pre*, 2 dual*
#endif
#ifndef WT
#define WT uint32_t
#endif
#ifndef P0HI
#define P0HI (NS - 1)
#endif
#ifndef SL0MIN
#define SL0MIN SLMIN
#endif
using W = weight<WT>;
template <typename T> int64_t traceSum(const T& trace, const std::vector<RuleS>& rs) {
    auto unl = [](const std::vector<L_t>& s) { std::vector<uint32_t> r; for (auto x : s) r.push_back(x - LB); return r; };
    int64_t sum = 0;
    for (size_t i = 0; i + 1 < trace.size(); ++i) { int64_t w = 0; stepOk(rs, trace[i]._pdastate, unl(trace[i]._stack), trace[i + 1]._pdastate, unl(trace[i + 1]._stack), &w); sum += w; }
    return sum;
}
extern "C" void sym_main() {
    std::vector<RuleS> rs; symRules(rs);
    pda_t_<W> pda; mkPda<W>(pda, rs);
    size_t p0 = S64("p0", 0, P0HI), p1 = S64("p1", 0, NS - 1);
    auto s0 = symStack("a", SL0MIN, SL0), s1 = symStack("b", SLMIN, SL1);
    auto ini = mkConfig<aut_t_<W>>(pda, p0, s0), fin = mkConfig<aut_t_<W>>(pda, p1, s1);
    PAutomatonProduct instance(pda, std::move(ini), std::move(fin));
    bool got;
    if (MODE == 0) got = Solver::post_star_accepts<Trace_Type::Shortest>(instance);
    else if (MODE == 1) got = Solver::pre_star_accepts<Trace_Type::Shortest>(instance);
    else got = Solver::dual_search_accepts<Trace_Type::Shortest>(instance);
    conc(s0); conc(s1); p0 = sym_concretize(p0); p1 = sym_concretize(p1); pinRules(rs);
    NaiveMin o(NS, NL, rs, p1, s1); o.run();
    int64_t best = 0; bool want = o.best(p0, s0, best);
    if (want) sym_reach("reachable"); else sym_reach("unreachable");
    REQ(got == want, "the answer is exactly reachability");
    if (got) {
        if constexpr (MODE == 2) {
            auto [tr, w] = Solver::get_trace_dual_search<Trace_Type::Shortest>(instance);
            REQ(traceOk(tr, rs, p0, s0, p1, s1), "the reported trace is a real run");
            REQ((int64_t)w == best, "the reported weight is the minimum over all runs");
            REQ(traceSum(tr, rs) == best, "the reported trace has the reported weight");
        } else {
            auto [tr, w] = Solver::get_trace<Trace_Type::Shortest>(instance);
            REQ(traceOk(tr, rs, p0, s0, p1, s1), "the reported trace is a real run");
            REQ((int64_t)w == best, "the reported weight is the minimum over all runs");
            REQ(traceSum(tr, rs) == best, "the reported trace has the reported weight");
        }
    }
}

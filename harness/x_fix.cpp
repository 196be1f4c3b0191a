// Longest / shortest traces by fixed point, including unbounded ones: weight, answer and trace through the solver.
#include "solverh.h"
#ifndef SL0
#define SL0 1
#endif
#ifndef SL1
#define SL1 2
#endif
#ifndef SLMIN
#define SLMIN 1
#endif
#ifndef MODE
#define MODE 0   // 0 post*, 1 pre*, 2 interleaved
#endif
#ifndef LONGEST
#define LONGEST 1
#endif
#ifndef WT
#define WT int32_t
#endif
using W = weight<WT>;
static constexpr auto TT = LONGEST ? Trace_Type::Longest : Trace_Type::ShortestFixedPoint;
using SW = internal::solver_weight<W, TT>;
static bool better(int64_t a, int64_t b) { return LONGEST ? BR(a > b) : BR(a < b); }
#include "optim.h"
extern "C" void sym_main() {
    std::vector<RuleS> rs; symRules(rs);
    pda_t_<W> pda; mkPda<W>(pda, rs);
    size_t p0 = S64("p0", 0, NS - 1), p1 = S64("p1", 0, NS - 1);
    auto s0 = symStack("a", SLMIN, SL0), s1 = symStack("b", SLMIN, SL1);
    using aut = aut_t_<W, TraceInfoType::Pair>;
    auto ini = mkConfig<aut>(pda, p0, s0), fin = mkConfig<aut>(pda, p1, s1);
    PAutomatonProduct instance(pda, std::move(ini), std::move(fin));
    bool got; std::pair<std::vector<typename pda_t_<W>::tracestate_t>, WT> res;
    if constexpr (MODE == 0) { got = Solver::post_star_fixed_point_accepts<TT>(instance); res = Solver::get_trace<TT>(instance); }
    else if constexpr (MODE == 1) { got = Solver::pre_star_fixed_point_accepts<TT>(instance); res = Solver::get_trace<TT>(instance); }
    else { auto copy = instance.copy(); auto [g, pre] = Solver::interleaving_fixed_point_accepts<TT>(instance, copy); got = g; res = pre ? Solver::get_trace<TT>(copy) : Solver::get_trace<TT>(instance); }
    conc(s0); conc(s1); p0 = sym_concretize(p0); p1 = sym_concretize(p1); pinRules(rs);
    Opt o(NS, NL, rs, p1, s1); o.run();
    int64_t best = 0; bool inf = false; bool want = o.best(p0, s0, best, inf);
    sym_reach(!want ? "unreachable" : inf ? "unbounded" : "bounded");
    REQ(got == want, "the answer is exactly reachability");
    if (!want) { REQ(res.second == SW::max(), "the weight of no trace"); return; }
    REQ((res.second == SW::bottom() && (std::is_signed_v<WT> || LONGEST)) == inf, "the weight is infinite exactly when it is unbounded");
    if (inf) return;
    REQ((int64_t)res.second == best, "the weight is the optimum over all runs");
    auto& tr = res.first;
    REQ(traceOk(tr, rs, p0, s0, p1, s1), "the reported trace is a real run");
    auto unl = [](const std::vector<L_t>& s) { std::vector<uint32_t> r; for (auto x : s) r.push_back(x - LB); return r; };
    int64_t sum = 0;
    for (size_t i = 0; i + 1 < tr.size(); ++i) {
        bool any = false; int64_t w = 0;
        for (auto& r : rs) { size_t s = tr[i]._pdastate; auto k = unl(tr[i]._stack); if (!applyRule(r, s, k)) continue; if (!BR(s == tr[i + 1]._pdastate)) continue; auto b = unl(tr[i + 1]._stack); bool eq = k.size() == b.size(); for (size_t x = 0; x < k.size() && eq; ++x) eq = BR(k[x] == b[x]); if (!eq) continue; if (!any || better(r.w, w)) w = r.w; any = true; }
        sum += w;
    }
    REQ(sum == best, "the reported trace has the reported weight");
}

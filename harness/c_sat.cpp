#include "auth.h"
#ifndef ALG
#define ALG 0   // 0 post*, 1 pre*
#endif
#ifndef SLQ
#define SLQ 3
#endif
using W = weight<void>;
// textbook pre*: (p, g) -> (p', w) and p' -w->* q adds p -g-> q.  Fields are inspected lazily, so what does not matter stays symbolic.
static void naivePre(std::vector<EdgeS>& es, const std::vector<RuleS>& rs, size_t nl) {
    auto add = [&](size_t f, uint32_t l, size_t t) { for (auto& e : es) if (e.f == f && e.t == t && BR(e.l == l)) return false; es.push_back({f, t, l}); return true; };
    bool ch = true;
    while (ch) { ch = false;
        for (auto& r : rs) {
            size_t from = sym_concretize(r.from), to = sym_concretize(r.to); op_t op = (op_t)sym_concretize(r.op); bool wild = BR(r.wild);
            if (op == POP) { if (!wild) ch |= add(from, r.pre, to); else for (uint32_t g = 0; g < nl; ++g) ch |= add(from, g, to); continue; }
            for (size_t i = 0; i < es.size(); ++i) { EdgeS e = es[i]; if (e.f != to) continue;
                if (op == NOOP) { if (wild || BR(r.pre == e.l)) ch |= add(from, e.l, e.t); continue; }
                if (!BR(r.ol == e.l)) continue;
                if (op == SWAP) { if (!wild) ch |= add(from, r.pre, e.t); else for (uint32_t g = 0; g < nl; ++g) ch |= add(from, g, e.t); continue; }
                for (size_t j = 0; j < es.size(); ++j) { EdgeS h = es[j]; if (h.f == e.t && (wild || BR(h.l == r.pre))) ch |= add(from, h.l, h.t); }
            }
        }
    }
}
extern "C" void sym_main() {
    AutS A = symAut("i");
    std::vector<RuleS> rs; symRules(rs);
    TPDA<W> pda; pda.ensure(NS);
    for (auto& r : rs) addRule<W>(pda, r);
    auto aut = A.build<TPDA<W>, internal::PAutomaton<W>>(pda);
    if constexpr (ALG == 0) { internal::PostStarSaturation<W> sat(aut); sat.run(); }
    else { internal::PreStarSaturation<W> sat(aut, [](size_t, uint32_t, size_t, internal::edge_annotation_t<W>, const auto&) -> bool { return false; }); while (!sat.workset_empty()) sat.step(); }
    for (auto& e : A.es) { e.f = sym_concretize(e.f); e.t = sym_concretize(e.t); e.l = (uint32_t)sym_pin(e.l); }
    pinRules(rs);
    size_t q = SC("q", 0, NS - 1); size_t nq = SC("nq", 0, SLQ);
    std::vector<uint32_t> sq; for (size_t i = 0; i < nq; ++i) sq.push_back((uint32_t)dec("t", i, "", 0, NL - 1));
    bool got = aut.accepts(q, sq);
    bool want;
    if constexpr (ALG == 0) {
        NaivePost o(NS, NL, rs); for (size_t i = 0; i < NX; ++i) o.node(A.acc[NS + i]); for (size_t i = 0; i < NS; ++i) o.acc[i] = A.acc[i];
        for (auto& e : A.es) o.add(e.f, e.l, e.t);
        o.run(); want = o.accepts(q, sq);
    } else { EL o = toEL(A); naivePre(o.es, rs, NL); want = o.accepts(q, sq); }
    if (want) sym_reach("accepted"); else sym_reach("rejected");
    if (want && nq == 0) sym_reach("empty stack");
    REQ(got == want, ALG == 0 ? "post* accepts exactly the configurations reachable from the initial set" : "pre* accepts exactly the configurations that can reach the target set");
}

// The product of two P-automata accepts the intersection; path search on it.
#include "solverh.h"
#include "auth.h"
#ifndef SWAPPED
#define SWAPPED 0
#endif
#ifndef EARLY
#define EARLY 0
#endif
#ifndef LATE
#define LATE 0     // the last edge of the first automaton is added after initialization
#endif
#ifndef SLQ
#define SLQ 2
#endif
#ifndef DUAL
#define DUAL 0     // 1: both automata grow: the last LATEA edges of the first and the last LATEB of the second are added later, in turn
#endif
#ifndef LATEA
#define LATEA 1
#endif
#ifndef LATEB
#define LATEB 1
#endif
using W = weight<void>;
#ifdef SKEL
// fixed sources, symbolic targets (within a range) and labels
struct Sk { size_t f, tlo, thi; };
static AutS skel(const char* pre, size_t nx, const std::vector<Sk>& es) {
    AutS a; a.ns = NS; a.nx = nx; a.acc.assign(NS + nx, 0); a.acc.back() = 1;
    for (auto& k : es) { size_t i = a.es.size(); a.es.push_back({k.f, dec(pre, i, "et", k.tlo, k.thi), (uint32_t)dec(pre, i, "el", 0, NL - 1)}); }
    return a;
}
#endif
extern "C" void sym_main() {
#if defined(SKEL) && SKEL == 1
    AutS A = skel("i", 2, {{1, 2, 2}, {0, 1, 1}, {0, 1, 1}}), B = skel("f", 3, {{0, 1, 2}, {0, 1, 2}, {1, 3, 3}, {2, 3, 3}});
#elif defined(SKEL) && SKEL == 2   // both directions branch
    AutS A = skel("i", 3, {{1, 3, 3}, {0, 1, 2}, {0, 1, 2}, {2, 3, 3}}), B = skel("f", 3, {{0, 1, 2}, {0, 1, 2}, {1, 2, 3}, {2, 3, 3}});
#elif defined(SKEL)                // longer chains
    AutS A = skel("i", 3, {{2, 3, 3}, {0, 1, 2}, {1, 1, 2}, {1, 2, 3}}), B = skel("f", 3, {{0, 1, 2}, {1, 1, 2}, {2, 2, 3}, {2, 3, 3}});
#else
    AutS A = symAut("i"), B = symAut("f");
#endif
    std::vector<RuleS> rs; pda_t_<W> pda; mkPda<W>(pda, rs);
#if DUAL
    AutS A0 = A, B0 = B; std::vector<EdgeS> la, lb;
    for (int i = 0; i < LATEA; ++i) { la.push_back(A0.es.back()); A0.es.pop_back(); }
    for (int i = 0; i < LATEB; ++i) { lb.push_back(B0.es.back()); B0.es.pop_back(); }
    auto ini = A0.build<pda_t_<W>, aut_t_<W>>(pda), fin = B0.build<pda_t_<W>, aut_t_<W>>(pda);
    PAutomatonProduct instance(pda, std::move(ini), std::move(fin));
    bool got = instance.initialize_product<true, true, Trace_Type::None>();
    for (size_t i = 0; i < la.size() || i < lb.size(); ++i) {
        if (i < la.size() && !got) { auto e = la[i]; instance.initial_automaton().add_edge(e.f, e.t, e.l); got = instance.add_initial_edge<Trace_Type::None>(sym_concretize(e.f), e.l, sym_concretize(e.t), internal::edge_annotation<W>::make_default()); }
        if (i < lb.size() && !got) { auto e = lb[i]; instance.final_automaton().add_edge(e.f, e.t, e.l); got = instance.add_final_edge<Trace_Type::None>(sym_concretize(e.f), e.l, sym_concretize(e.t), internal::edge_annotation<W>::make_default()); }
    }
#else
    AutS A0 = A; EdgeS late{}; if (LATE) { late = A.es[LATE - 1]; A0.es.erase(A0.es.begin() + LATE - 1); }
    auto ini = (SWAPPED ? B : A0).build<pda_t_<W>, aut_t_<W>>(pda), fin = (SWAPPED ? A0 : B).build<pda_t_<W>, aut_t_<W>>(pda);
    PAutomatonProduct instance(pda, std::move(ini), std::move(fin));
    if (SWAPPED) instance.enable_pre_star();
    bool got = instance.initialize_product<false, EARLY != 0, Trace_Type::None>();
    if (LATE && !(EARLY && got)) {
        instance.automaton().add_edge(late.f, late.t, late.l);
        got = instance.add_edge_product<EARLY != 0, Trace_Type::None>(sym_concretize(late.f), late.l, sym_concretize(late.t), internal::edge_annotation<W>::make_default());
    }
#endif
    for (AutS* a : {&A, &B}) for (auto& e : a->es) { e.f = sym_concretize(e.f); e.t = sym_concretize(e.t); e.l = (uint32_t)sym_pin(e.l); }
    EL a = toEL(A), b = toEL(B);
    // emptiness of the intersection: breadth first over pairs
    bool want = false; std::vector<std::pair<size_t, size_t>> seen; for (size_t i = 0; i < NS; ++i) seen.push_back({i, i});
    auto push = [&](size_t x, size_t y) { for (auto& p : seen) if (p.first == x && p.second == y) return; seen.push_back({x, y}); };
    for (size_t k = 0; k < seen.size() && !want; ++k) { auto [x, y] = seen[k]; if (A.acc[x] && B.acc[y]) { want = true; break; } for (auto& e : A.es) if (e.f == x) for (auto& f : B.es) if (f.f == y && BR(e.l == f.l)) push(e.t, f.t); }
    REQ(got == want, "the product reports exactly whether the intersection is non-empty");
    sym_reach(want ? "non-empty" : "empty");
    auto path = instance.find_path<Trace_Type::Any, true>();
    REQ(path.is_null() == !want, "a path is found exactly when the intersection is non-empty");
    if (want) {
        auto [states, stack] = path.get_path_and_stack();
        REQ(states.size() == stack.size() + 1, "one label between two states");
        REQ(states[0].first == states[0].second && states[0].first < NS, "the path starts in a control state");
        for (size_t i = 0; i < stack.size(); ++i) {
            bool f = false, g = false;
            for (auto& e : A.es) if (e.f == states[i].first && e.t == states[i + 1].first && BR(e.l == stack[i])) { f = true; break; }
            for (auto& e : B.es) if (e.f == states[i].second && e.t == states[i + 1].second && BR(e.l == stack[i])) { g = true; break; }
            REQ(f && g, "every step of the path is an edge of both automata");
        }
        REQ(states.back().first < A.acc.size() && A.acc[states.back().first] && states.back().second < B.acc.size() && B.acc[states.back().second], "the path ends in a pair of accepting states");
    }
    if (!EARLY && !DUAL) {
        size_t p = SC("qp", 0, NS - 1); auto q = symStack("q", 0, SLQ);
        bool x = instance.product_automaton().accepts(p, q);
        bool y = a.accepts(p, q) && b.accepts(p, q);
        sym_reach(y ? "accepted" : "rejected");
        REQ(x == y, "the product accepts exactly the configurations both automata accept");
    }
}

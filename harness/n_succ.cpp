// Step functions of NFAs over arbitrary small graphs with symbol, negated, wildcard and epsilon edges.
#include "sym.h"
#include "lb.h"
#include <cstdio>
#include "pdaaal/NFA.h"
#ifndef NST
#define NST 3
#endif
#ifndef NED
#define NED 3
#endif
#ifndef AL
#define AL 3
#endif
#ifndef PART
#define PART 1  // 1 edges and epsilon reachability, 2 closure and successors, 3 labels between states
#endif
using namespace pdaaal; using N = NFA<Lb>; using S = N::state_t;
struct Ed { size_t f, t; size_t kind; uint32_t a, b; // 0 {a}, 1 not {a}, 2 {a,b}, 3 any, 4 epsilon, 5 {a} or epsilon
    bool has(uint32_t x) const { return kind == 0 || kind == 5 ? x == a : kind == 1 ? x != a : kind == 2 ? (x == a) | (x == b) : kind == 3; }
    bool eps() const { return kind >= 4; } };
extern "C" void sym_main() {
    std::vector<std::unique_ptr<S>> st; std::vector<Ed> es; bool acc[NST];
    for (size_t i = 0; i < NST; ++i) { acc[i] = i + 1 == NST || SC("acc", 0, 1); st.emplace_back(std::make_unique<S>(acc[i])); }
    for (size_t i = 0; i < NED; ++i) {
        Ed e; e.f = SC("f", 0, NST - 1); e.t = SC("t", 0, NST - 1); e.kind = SC("kind", 0, 5); e.a = e.b = 0;
        if (i) ASSUME(es[i - 1].f <= e.f);
        if (e.kind != 3 && e.kind != 4) e.a = S32("a", 0, AL - 1); if (e.kind == 2) { e.b = S32("b", 0, AL - 1); ASSUME(e.a < e.b); }
        S* s = st[e.f].get(); S* d = st[e.t].get(); size_t id = s->_edges.size();
        if (e.kind == 3) s->_edges.emplace_back(d, s, id, false); else if (e.kind == 4) s->add_epsilon_edge(d);
        else { std::unordered_set<Lb> l; if (e.kind == 2) l.insert(Lb{e.b}); l.insert(Lb{e.a}); s->_edges.emplace_back(e.kind == 1, l, d, s, id); if (e.kind == 5) s->_edges.back()._epsilon = true; }
        es.push_back(e);
        if (PART != 1) continue;
        const auto& x = s->_edges.back(); uint32_t q = S32("q", 0, AL - 1);
        REQ(x.contains(Lb{q}) == e.has(q), "an edge contains exactly its symbols");
        size_t cnt = e.kind == 0 || e.kind == 5 ? 1 : e.kind == 1 ? AL - 1 : e.kind == 2 ? 2 : e.kind == 3 ? AL : 0;
        REQ(x.wildcard(AL) == (cnt == AL) && x.empty(AL) == (cnt == 0), "wildcard and empty edges");
    }
    auto real = [&](size_t i) { if (acc[i]) return true; for (auto& e : es) if (e.f == i && e.kind != 4) return true; return false; };
    // epsilon closure of every state
    bool cl[NST][NST] = {}; for (size_t i = 0; i < NST; ++i) cl[i][i] = true;
    for (size_t r = 0; r < NST; ++r) for (size_t i = 0; i < NST; ++i) for (auto& e : es) if (e.eps() && cl[i][e.f]) cl[i][e.t] = true;
    if (PART == 1) sym_reach("step");
    if (PART == 1) for (size_t i = 0; i < NST; ++i) { REQ(st[i]->has_non_epsilon() == (real(i) && [&] { for (auto& e : es) if (e.f == i && e.kind != 4) return true; return false; }()), "states with a symbol edge");
        for (size_t j = 0; j < NST; ++j) REQ(N::leads_to_by_epsilon(st[i].get(), st[j].get()) == cl[i][j], "reachability by epsilon edges"); }
    if (PART == 1) return;
    // a set of start states
    size_t m = SC("set", 1, (1u << NST) - 1); std::vector<S*> from; std::vector<const S*> cfrom; for (size_t i = 0; i < NST; ++i) if (m >> i & 1) { from.push_back(st[i].get()); cfrom.push_back(st[i].get()); }
    std::sort(from.begin(), from.end()); std::sort(cfrom.begin(), cfrom.end());
#if PART == 2
    auto ec = from; N::follow_epsilon(ec);
    auto in = [&](const std::vector<S*>& v, size_t i) { size_t c = 0; for (auto x : v) c += x == st[i].get(); return c; };
    for (size_t j = 0; j < NST; ++j) { bool w = false; for (size_t i = 0; i < NST; ++i) w |= (m >> i & 1) && cl[i][j]; REQ(in(ec, j) == (w && real(j) ? 1u : 0u), "epsilon closure keeps every state that accepts or reads a symbol"); }
    uint32_t l = S32("l", 0, AL - 1); auto nx = N::successor(from, Lb{l});
    REQ(std::is_sorted(nx.begin(), nx.end()), "successor sets are sorted");
    bool any = false; const size_t goal = 0;
    for (size_t j = 0; j < NST; ++j) { bool w = false; for (auto& e : es) if ((m >> e.f & 1) && cl[e.t][j]) w |= e.has(l); w &= real(j); REQ((in(nx, j) == 1) == w && in(nx, j) <= 1, "successors are exactly the states reached by the label"); { any |= BR(w); REQ(N::has_as_successor(cfrom, Lb{l}, st[j].get()) == w, "has_as_successor agrees"); } }
    if (any) sym_reach("step");
#else
    size_t goal = SC("goal", 0, NST - 1);
    // labels that lead from the set to the goal
    std::vector<Lb> ls; size_t lm = SC("ls", 0, (1u << AL) - 1); for (uint32_t x = 0; x < AL; ++x) if (lm >> x & 1) ls.push_back(Lb{x});
    auto r = N::intersect_edge_labels(cfrom, st[goal].get(), ls);
    for (uint32_t x = 0; x < AL; ++x) { size_t c = 0; for (auto& y : r) c += y.v == x; bool w = false; for (auto& e : es) if ((m >> e.f & 1) && cl[e.t][goal]) w |= e.has(x); w &= (lm >> x & 1) != 0; REQ(c == (w ? 1u : 0u), "exactly the labels leading to the goal are returned, once each"); }
    for (size_t i = 0; i + 1 < r.size(); ++i) REQ(r[i].v < r[i + 1].v, "the labels are sorted");
    if (r.size() > 1) sym_reach("step");
#endif
}

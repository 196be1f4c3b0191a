// Automaton paths: histories of construction, extension and removal against a list of states and labels.
#include "sym.h"
#include <cstdint>
#include <tuple>
#include "pdaaal/AutomatonPath.h"
#ifndef NOPS
#define NOPS 4
#endif
#ifndef PAIR
#define PAIR 0
#endif
using namespace pdaaal;
static constexpr uint32_t EPS = std::numeric_limits<uint32_t>::max();
#if PAIR
using ST = std::pair<size_t, size_t>; static ST st(const char* n) { return {S64(n, 0, 1000), S64(n, 0, 1000)}; }
#else
using ST = size_t; static ST st(const char* n) { return S64(n, 0, 1000); }
#endif
using P = AutomatonPath<PAIR != 0>;
struct M { ST end; std::vector<std::pair<ST, uint32_t>> e; }; // e.back() is the front edge
static uint32_t lab() { return SB("eps") ? EPS : S32("l", 0, 1000); }
static void same(const P& p, const M& m, const char* t) {
    REQ(!p.is_null(), "a path with an end is not null"); REQ(p.edges_size() == m.e.size() && p.empty() == m.e.empty(), "number of edges");
    REQ(p.front_state() == (m.e.empty() ? m.end : m.e.back().first), "front state");
    if (!m.e.empty()) { auto [f, l, t2] = p.front_edge(); REQ(f == m.e.back().first && l == m.e.back().second && t2 == (m.e.size() > 1 ? m.e[m.e.size() - 2].first : m.end), "front edge"); }
    auto s = p.stack(); REQ(s.size() == m.e.size(), "stack size"); for (size_t i = 0; i < s.size(); ++i) REQ(s[i] == m.e[m.e.size() - 1 - i].second, "the stack lists the labels from the front");
    auto [ps, ss] = p.get_path_and_stack(); std::vector<ST> wp; std::vector<uint32_t> ws; for (size_t i = m.e.size(); i-- > 0;) if (BR(m.e[i].second != EPS)) { wp.push_back(m.e[i].first); ws.push_back(m.e[i].second); } wp.push_back(m.end);
    REQ(ps.size() == wp.size() && ss.size() == ws.size(), t); for (size_t i = 0; i < wp.size() && i < ps.size(); ++i) REQ(ps[i] == wp[i], t); for (size_t i = 0; i < ws.size() && i < ss.size(); ++i) REQ(ss[i] == ws[i], t);
}
extern "C" void sym_main() {
    P nul; REQ(nul.is_null() && nul.empty(), "the default path is null");
    // from explicit vectors and back
    size_t n = SC("n", 0, NOPS - 1); std::vector<ST> ps; std::vector<uint32_t> ss; for (size_t i = 0; i <= n; ++i) ps.push_back(st("p")); for (size_t i = 0; i < n; ++i) ss.push_back(S32("s", 0, 1000));
    P p(ps, ss); M m; m.end = ps.back(); for (size_t i = n; i-- > 0;) m.e.emplace_back(ps[i], ss[i]);
    auto rt = p.get_path_and_stack(); REQ(rt.first == ps && rt.second == ss, "round trip"); REQ(p.stack() == ss, "stack of the path"); same(p, m, "round trip"); if (n) sym_reach("round trip");
    P c(m.end); for (size_t i = 0; i < n; ++i) c.emplace(m.e[i].first, m.e[i].second); REQ(c == p && !(c != p), "building edge by edge gives the same path");
    // history
    for (size_t i = 0; i < NOPS; ++i) {
        switch (SC("op", 0, 2)) {
            case 0: { ST s = st("f"); uint32_t l = lab(); p.emplace(s, l); m.e.emplace_back(s, l); break; }
            case 1: if (m.e.empty()) return; p.pop(); m.e.pop_back(); sym_reach("pop"); break;
            case 2: { if (!m.e.empty()) { ST t = m.e.size() > 1 ? m.e[m.e.size() - 2].first : m.end; if (BR(m.e.back().second == EPS)) { ASSUME(m.e.back().first == t); m.e.pop_back(); sym_reach("epsilon"); } } p.remove_epsilon(); break; }
        }
    }
    same(p, m, "path and stack after the operations");
#if PAIR
    auto [a, b] = p.split(); auto [pa, sa] = a.get_path_and_stack(); auto [pb, sb] = b.get_path_and_stack(); auto [pp, sp] = p.get_path_and_stack();
    REQ(sa == sp && sb == sp && pa.size() == pp.size() && pb.size() == pp.size(), "both halves have the stack"); for (size_t i = 0; i < pp.size() && i < pa.size() && i < pb.size(); ++i) REQ(pa[i] == pp[i].first && pb[i] == pp[i].second, "split separates the components");
    REQ(a.edges_size() == p.edges_size() && b.edges_size() == p.edges_size(), "both halves have all edges"); sym_reach("split");
#endif
    // equality is component-wise
    P q(m.end); bool eq = true; size_t k = SC("k", 0, m.e.size()); for (size_t i = 0; i < k; ++i) { ST s = m.e[i].first; uint32_t l = m.e[i].second; if (i == 0) { s = st("qs"); l = S32("ql", 0, 1000); eq = BR(s == m.e[0].first) && BR(l == m.e[0].second); } q.emplace(s, l); } eq = eq && k == m.e.size();
    REQ((q == p) == eq && (q != p) == !eq, "paths are equal iff all states and labels agree");
}

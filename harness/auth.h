// Symbolic P-automata: symbolic edges, symbolic accepting states; the oracle automaton has the same edge list.
#pragma once
#include "pdah.h"
#ifndef NX
#define NX 2      // automaton states besides the control states
#endif
#ifndef NE
#define NE 3      // edges of the initial automaton
#endif
#ifndef ACCX
#define ACCX 1    // 1: every further automaton state may accept; 0: only the last one does
#endif
#ifndef ACC0
#define ACC0 0    // 1: control states may accept the empty stack
#endif
struct EdgeS { size_t f, t; uint32_t l; };
struct AutS {
    size_t ns, nx; std::vector<EdgeS> es; std::vector<char> acc; // acc is concrete
    template <typename P, typename A> A build(const P& pda) const {
        std::vector<size_t> sp; for (size_t i = 0; i < ns; ++i) if (acc[i]) sp.push_back(i);
        A a(pda, sp, true);
        for (size_t i = 0; i < nx; ++i) a.add_state(false, acc[ns + i]);
        for (auto& e : es) a.add_edge(e.f, e.t, e.l);
        return a;
    }
    void pin() { for (auto& e : es) { e.f = sym_concretize(e.f); e.t = sym_concretize(e.t); e.l = (uint32_t)sym_concretize(e.l); } }
};
static inline AutS symAut(const char* pre, size_t ns = NS, size_t nx = NX, size_t ne = NE, size_t nl = NL, bool acc0 = ACC0) {
    AutS a; a.ns = ns; a.nx = nx; a.acc.resize(ns + nx);
    for (size_t i = 0; i < ns + nx; ++i) a.acc[i] = i < ns ? (acc0 ? sym_concretize(dec(pre, i, "acc", 0, 1)) : 0) : i + 1 == ns + nx ? 1 : ACCX ? sym_concretize(dec(pre, i, "acc", 0, 1)) : 0; // numbering is arbitrary: the last one accepts
    for (size_t i = 0; i < ne; ++i) { EdgeS e; e.f = dec(pre, i, "ef", 0, ns + nx - 1); e.t = ns + dec(pre, i, "et", 0, nx - 1); e.l = (uint32_t)dec(pre, i, "el", 0, nl - 1); a.es.push_back(e); }
    if (SYMM) for (size_t i = 0; i + 1 < ne; ++i) ASSUME((a.es[i].f << 8) + a.es[i].t <= (a.es[i + 1].f << 8) + a.es[i + 1].t);
    return a;
}
// straight-line language acceptance of an edge list with epsilon = 0xffffffff
struct EL { size_t n; std::vector<EdgeS> es; std::vector<char> acc;
    bool rec(size_t s, const std::vector<uint32_t>& w, size_t i, size_t eps) const {
        if (i == w.size() && acc[s]) return true;
        for (auto& e : es) if (e.f == s) {
            if (e.l == 0xffffffffu) { if (eps && rec(e.t, w, i, eps - 1)) return true; }
            else if (i < w.size() && BR(e.l == w[i]) && rec(e.t, w, i + 1, n)) return true;
        }
        return false;
    }
    bool accepts(size_t p, const std::vector<uint32_t>& w) const { return rec(p, w, 0, n); }
};
static inline EL toEL(const AutS& a) { return EL{a.ns + a.nx, a.es, a.acc}; }

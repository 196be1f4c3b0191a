// P-automata built from an NFA (or one configuration) accept exactly the given control states with the NFA's words.
#ifndef TYPED
#define TYPED 0
#endif
#ifndef ONE
#define ONE 0    // 1: the automaton of a single configuration
#endif
#if TYPED
#include "lb.h"
#include "pdah.h"
#include <ostream>
inline std::ostream& operator<<(std::ostream& o, const Lb& l) { return o << l.v; }
#include "pdaaal/Solver.h"
#else
#include "pdah.h"
#endif
#include "regen.h"
using W = weight<void>;
extern "C" void sym_main() {
    n = SC("n", 0, WL);
    size_t mask = ONE ? 1 : SC("states", 0, 3), q = SC("q", 0, 1); std::vector<size_t> states; if (mask & 1) states.push_back(0); if (mask & 2) states.push_back(1);
#if TYPED
    // labels are arbitrary distinct values, introduced in the order v[0], v[1], v[2]
    uint32_t v[AL]; for (int i = 0; i < AL; ++i) { v[i] = S32("label", 0, 1000); for (int j = 0; j < i; ++j) ASSUME(v[i] != v[j]); }
    auto some = [&](const char* s) { uint32_t x = S32(s, 0, 1000); int ok = 0; for (auto y : v) ok |= x == y; ASSUME(ok); return x; };
    pdaaal::PDA<Lb, W> pda; for (auto x : v) pda.insert_label(Lb{x}); for (size_t i = 0; i < 2; ++i) pda.insert_state(i);
    std::vector<uint32_t> ids; for (size_t i = 0; i < n; ++i) { ids.push_back(S32("w", 0, AL - 1)); w[i] = v[0]; for (uint32_t j = 1; j < AL; ++j) w[i] = ids[i] == j ? v[j] : w[i]; }
#else
    for (size_t i = 0; i < n; ++i) w[i] = S32("w", 0, AL - 1);
    std::vector<uint32_t> ids; for (size_t i = 0; i < n; ++i) ids.push_back(w[i]);
    TPDA<W> pda; pda.nl = AL; pda.ensure(2);
#endif
#if !ONE
#if TYPED
    auto [a, re] = genRe<Lb>([](uint32_t x) { return Lb{x}; }, some);
    a.compile(); pdaaal::PAutomaton<Lb, W, size_t, true> aut(pda, a, states);
#else
    auto [a, re] = genRe<uint32_t>([](uint32_t x) { return x; }, [](const char* s) { return (uint32_t)SC(s, 0, AL - 1); });
    a.compile(); internal::PAutomaton<W> aut(pda, a, states);
#endif
    bool got = aut.accepts(q, ids), want = (mask >> q & 1) && BR(re.m[0][n] != 0);
    REQ(got == want, "exactly the given control states with the words of the NFA are accepted");
#else
    size_t p = SC("p", 0, 1), k = SC("k", 0, 2); std::vector<uint32_t> one;
#if TYPED
    std::vector<Lb> ol; for (size_t i = 0; i < k; ++i) { one.push_back(some("o")); ol.push_back(Lb{one[i]}); } pdaaal::PAutomaton<Lb, W, size_t, true> c(pda, p, ol);
#else
    for (size_t i = 0; i < k; ++i) one.push_back(S32("o", 0, AL - 1)); internal::PAutomaton<W> c(pda, p, one);
#endif
    bool got = c.accepts(q, ids), want = p == q && k == n; for (size_t i = 0; i < k && want; ++i) want = BR(one[i] == w[i]);
    REQ(got == want, "the automaton of one configuration accepts just that configuration");
#endif
    if (want) sym_reach("accepted"); else sym_reach("rejected");
}

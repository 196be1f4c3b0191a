// NFAs built by the regular-expression combinators accept exactly the language of the expression.
#include "regen.h"
using N = NFA<Lb>;
extern "C" void sym_main() {
    n = SC("n", 0, WL); for (size_t i = 0; i < n; ++i) w[i] = S32("w", 0, AL - 1);
    auto [a, re] = genRe<Lb>([](uint32_t x) { return Lb{x}; }, [](const char* s) { return S32(s, 0, AL - 1); });
    a.compile();
    std::vector<N::state_t*> cur = a.initial(); bool e = a.empty_accept();
    for (size_t i = 0; i < n; ++i) cur = N::successor(cur, Lb{w[i]});
    bool got = false; for (auto s : cur) got |= s->_accepting;
    uint8_t want = re.m[0][n];
    REQ(got == (want != 0), "the automaton accepts exactly the words of the regular expression");
    if (n == 0) REQ(e == (want != 0), "the empty word is accepted iff the expression allows it");
    if (got) sym_reach("accepted"); else sym_reach("rejected");
}

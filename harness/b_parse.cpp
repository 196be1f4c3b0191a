// Text syntax of regular expressions: the parsed NFA accepts exactly the words of the expression; any other text is rejected.
#define LETTER(f, x) f(x)
#include "regen.h"
#include "reparse.h"
#include "pdaaal/parsing/NfaParser.cpp"
#ifndef N_
#define N_ 5       // characters at most
#endif
// SET: which characters the text consists of (0: all of 1..127)
#ifndef SET
#define SET 0
#endif
#if SET == 1
#define ALPHA ".|*()"
#elif SET == 2
#define ALPHA "[ab],^"
#elif SET == 3
#define ALPHA "[a].*+?"
#elif SET == 4
#define ALPHA ".|( )#\n"
#elif SET == 5
#define ALPHA "[a, #\n]."
#endif
#ifndef NMIN
#define NMIN 0
#endif
extern "C" void sym_main() {
    std::string text;
    size_t k = SC("chars", NMIN, N_);
    for (size_t j = 0; j < k; ++j) { unsigned c = S32("c", 1, 127);
#ifdef ALPHA
        int ok = 0; for (const char* s = ALPHA; *s; ++s) ok |= c == (unsigned char)*s; ASSUME(ok);
#endif
        text.push_back((char)c); }
    n = SC("n", 0, WL); for (size_t i = 0; i < n; ++i) w[i] = S32("w", 0, 1u << 21);
    auto value = [](const std::string& s) { uint32_t v = 0; for (char c : s) v = v * 128 + (unsigned char)c; return Lb{v}; };
    bool threw = false; bool got = false, empty = false;
    try {
        pegtl::memory_input in(text, "");
        auto a = pdaaal::parse<Lb>(in, std::function<Lb(const std::string&)>(value));
        a.compile();
        using N = NFA<Lb>; std::vector<N::state_t*> cur = a.initial(); empty = a.empty_accept();
        for (size_t i = 0; i < n; ++i) cur = N::successor(cur, Lb{w[i]});
        for (auto s : cur) got |= s->_accepting;
    } catch (const std::runtime_error&) { threw = true; }
    Parser p{text}; Re r = p.file();
    REQ(threw == p.bad, "a text is rejected exactly when it is not an expression");
    if (threw) { sym_reach("malformed"); return; }
    sym_reach("parsed");
    uint8_t want = r.m[0][n];
    REQ(got == (want != 0), "the automaton accepts exactly the words of the expression");
    if (n == 0) REQ(empty == (want != 0), "the empty word is accepted iff the expression allows it");
    sym_reach(got ? "accepted" : "rejected");
}

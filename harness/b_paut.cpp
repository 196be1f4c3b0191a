// Text syntax of P-automata: the automaton accepts exactly the configurations the text describes; any other text, or an unknown state, is rejected.
#define LETTER(f, x) f(x)
#include "regen.h"
#include "reparse.h"
#include <sstream>
#include <iomanip>
#include <filesystem>
#include "pdaaal/PDA.h"
#include "parsing/PAutomatonParser.h"
#ifndef NAMES
#define NAMES 1
#endif
// TEXT: the text, where each ? is any of the characters in ALPHA (or of 1..127)
#ifndef SK
#define SK 0
#endif
#if SK == 0
#define TEXT "????"
#elif SK == 1
#define TEXT "<????????,.>"
#define ALPHA "[pq, 1]\""
#elif SK == 2
#define TEXT "<p,????????>"
#define ALPHA "[a,]>|. "
#elif SK == 3
#define TEXT "<p,.???????q,.>"
#define ALPHA "[a]>|< *,"
#elif SK == 4
#define TEXT "<\"????????,.>"
#define ALPHA "pq\\\" n1"
#elif SK == 5
#define TEXT "<?,[?]>|<[?,?],[^?]?[?]>|<?,?>"
#define ALPHA "pqr01ab.*"
#elif SK == 6
#define TEXT "?<?p??,??.?>??"
#define ALPHA "#\n ."
#elif SK == 7
#define TEXT "<p,.>????<q,.>??"
#define ALPHA "#\n |>"
#endif
static const std::string names[3] = {"p", "q", "\""};
struct PParser : Parser {
    std::vector<std::pair<int, Re>> atoms; // set of states as bits, language
    bool digit() const { if (i >= t.size()) return false; return BR((t[i] >= '0') & (t[i] <= '9')); }
    void state(int& set) {
        std::string s; bool quoted = is('"');
        if (quoted) { ++i; for (;;) { if (i >= t.size()) { bad = true; return; } if (is('"')) { ++i; break; } if (is('\\')) { ++i; if (!one("\"\\")) { bad = true; return; } } else if (BR((unsigned char)t[i] < 0x20)) { bad = true; return; } s.push_back(t[i++]); } }
        else if (digit()) { while (digit()) s.push_back(t[i++]); }
        else { if (!ident()) { bad = true; return; } while (ident()) s.push_back(t[i++]); }
        int b = 0;
#if NAMES
        for (int k = 0; k < 3; ++k) if (s.size() == names[k].size() && BR(s[0] == names[k][0])) b = 1 << k;
#else
        if (quoted) for (char c : s) ASSUME((c >= '0') & (c <= '9')); // numbers in quotes; what is not a number is not covered
        bool num = !s.empty(); for (char c : s) num = num && BR((c >= '0') & (c <= '9'));
        if (num) { uint64_t v = 0; for (char c : s) v = v * 10 + (uint64_t)(c - '0'); if (BR(v < 3)) b = 1 << (int)sym_concretize(v); }
#endif
        if (!b) { bad = unknown = true; return; }
        set |= b;
    }
    bool unknown = false;
    void atom() {
        int set = 0;
        if (!is('<')) { bad = true; return; } ++i; ws();
        if (is('[')) { ++i; for (;;) { state(set); if (bad) return; size_t s = i; ws(); if (is(',')) { ++i; ws(); continue; } i = s; break; } if (!is(']')) { bad = true; return; } ++i; } else { state(set); if (bad) return; }
        ws(); if (!is(',')) { bad = true; return; } ++i; ws();
        Re r = starts() ? expr() : Re::eps(); if (bad) return; ws(); if (!is('>')) { bad = true; return; } ++i;
        atoms.push_back({set, r});
    }
    void all() { ws(); for (;;) { atom(); if (bad) return; size_t s = i; ws(); if (is('|')) { ++i; ws(); continue; } i = s; break; } ws(); if (i != t.size()) bad = true; }
};
extern "C" void sym_main() {
    std::string text = TEXT;
#if !NAMES
    for (auto& c : text) if (c == 'p' || c == 'q') c = (char)(c - 'p' + '0');
#endif
    for (auto& c : text) if (c == '?') { unsigned v = S32("c", 1, 127);
#ifdef ALPHA
        int ok = 0; for (const char* s = ALPHA; *s; ++s) ok |= v == (unsigned char)*s; ASSUME(ok);
#endif
        c = (char)v; }
    n = SC("n", 0, WL); uint32_t id[WL + 1]; for (size_t i = 0; i < n; ++i) { id[i] = S32("w", 0, 1); w[i] = 'a' + id[i]; }
#if NAMES
    PDA<std::string, weight<void>, fut::type::vector, std::string> pda(std::unordered_set<std::string>{}); pda.insert_label("a"); pda.insert_label("b");
    for (auto& s : names) pda.insert_state(s);
#else
    PDA<std::string, weight<void>, fut::type::vector, size_t> pda(std::unordered_set<std::string>{}); pda.insert_label("a"); pda.insert_label("b");
    pda.insert_state(2);
#endif
    bool threw = false; bool got[3] = {};
    try {
        auto a = parsing::PAutomatonParser::parse_string(text, pda);
        for (uint32_t i = 0; i < n; ++i) id[i] = (uint32_t)sym_concretize(id[i]);
        for (size_t s = 0; s < 3; ++s) got[s] = a.accepts(s, std::vector<uint32_t>(id, id + n));
    } catch (const std::exception&) { threw = true; }
    PParser p{{text}}; p.all();
    if (p.unknown && threw) sym_reach("unknown state");
    REQ(threw == p.bad, "a text is rejected exactly when it is malformed or names a state that does not exist");
    if (threw) { sym_reach("malformed"); return; }
    sym_reach("parsed");
    for (size_t s = 0; s < 3; ++s) {
        int want = 0; for (auto& [set, r] : p.atoms) if (set >> s & 1) want |= r.m[0][n] != 0;
        REQ(got[s] == (want != 0), "a configuration is accepted exactly when the text describes it"); sym_reach(want ? "accepted" : "rejected");
    }
}

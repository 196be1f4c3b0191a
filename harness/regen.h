// Random-access generator of regular expressions: a stack program builds an NFA with the library's combinators and, next
// to it, the span matrix of the expression on one word (the oracle).
#pragma once
#include "sym.h"
#include "lb.h"
#include <cstdio>
#ifndef OPS
#define OPS 5
#endif
#ifndef WL
#define WL 3     // word length
#endif
#ifndef AL
#define AL 3     // alphabet
#endif
#ifndef LEAFK
#define LEAFK 4  // leaf kinds: 0 symbol, 1 negated symbol, 2 two symbols, 3 epsilon, 4 wildcard, 5 empty set, 6 not accepting, 7 two negated symbols
#endif
#ifndef COPY
#define COPY 0   // 1: copies and assignments take part
#endif
#include "pdaaal/NFA.h"
using namespace pdaaal;
static uint32_t w[WL]; static size_t n;
#ifndef LETTER
#define LETTER(f, x) f(x)   // how a letter of the word is tested by a leaf
#endif
struct Re { uint8_t m[WL + 1][WL + 1]; // m[i][j]: the expression matches letters i..j-1
    static Re none() { Re r; for (auto& x : r.m) for (auto& y : x) y = 0; return r; }
    static Re eps() { Re r = none(); for (size_t i = 0; i <= n; ++i) r.m[i][i] = 1; return r; }
    template <typename F> static Re let(F f) { Re r = none(); for (size_t i = 0; i < n; ++i) r.m[i][i + 1] = LETTER(f, w[i]); return r; }
    friend Re operator*(const Re& a, const Re& b) { Re r = none(); for (size_t i = 0; i <= n; ++i) for (size_t j = i; j <= n; ++j) for (size_t k = i; k <= j; ++k) r.m[i][j] |= a.m[i][k] & b.m[k][j]; return r; }
    friend Re operator+(const Re& a, const Re& b) { Re r = none(); for (size_t i = 0; i <= n; ++i) for (size_t j = i; j <= n; ++j) r.m[i][j] = a.m[i][j] | b.m[i][j]; return r; }
    Re star() const { Re r = eps(); for (size_t k = 0; k < n; ++k) r = eps() + *this * r; return r; }
};
template <typename T, typename MK, typename LAB> static std::pair<NFA<T>, Re> genRe(MK mk, LAB lab) {
    using N = NFA<T>;
    std::vector<N> st; std::vector<Re> re; size_t ops = SC("ops", 1, OPS);
    for (size_t i = 0; i < ops; ++i) {
        size_t left = ops - i; // remaining operations including this one
        ASSUME(st.size() <= left + 1);
        size_t o = st.empty() ? 0 : SC("op", 0, st.size() >= 2 ? (COPY ? 7 : 5) : COPY ? 4 : 3); // 0 leaf 1 ? 2 + 3 *  (4 concat 5 or | copy ops)
        if (COPY) { if (st.size() < 2 && o == 4) o = 6; }
        switch (o) {
            case 0: {
                switch (SC("leaf", 0, LEAFK - 1)) {
                    case 0: { uint32_t a = lab("a"); st.emplace_back(std::unordered_set<T>{mk(a)}); re.push_back(Re::let([=](uint32_t x) { return x == a; })); break; }
                    case 1: { uint32_t a = lab("a"); st.emplace_back(std::unordered_set<T>{mk(a)}, true); re.push_back(Re::let([=](uint32_t x) { return x != a; })); break; }
                    case 2: { uint32_t a = lab("a"), b = lab("b"); ASSUME(a < b); st.emplace_back(std::unordered_set<T>{mk(b), mk(a)}); re.push_back(Re::let([=](uint32_t x) { return (x == a) | (x == b); })); break; }
                    case 3: st.emplace_back(true); re.push_back(Re::eps()); break;
                    case 4: st.emplace_back(std::unordered_set<T>{}, true); re.push_back(Re::let([](uint32_t) { return 1; })); break;
                    case 5: st.emplace_back(std::unordered_set<T>{}); re.push_back(Re::none()); break;
                    case 7: { uint32_t a = lab("a"), b = lab("b"); ASSUME(a < b); st.emplace_back(std::unordered_set<T>{mk(b), mk(a)}, true); re.push_back(Re::let([=](uint32_t x) { return (x != a) & (x != b); })); break; }
                    case 6: st.emplace_back(false); re.push_back(Re::none()); break;
                }
                break; }
            case 1: st.back().question_extend(); re.back() = Re::eps() + re.back(); break;
            case 2: st.back().plus_extend(); re.back() = re.back() * re.back().star(); break;
            case 3: st.back().star_extend(); re.back() = re.back().star(); break;
            case 4: case 5: { N b = std::move(st.back()); st.pop_back(); Re rb = re.back(); re.pop_back(); if (o == 4) { st.back().concat(std::move(b)); re.back() = re.back() * rb; } else { st.back().or_extend(std::move(b)); re.back() = re.back() + rb; } break; }
            case 6: { N c(st.back()); if (SB("orig")) { c.question_extend(); } else { st.back().question_extend(); st.back() = std::move(c); } sym_reach("copy"); break; } // the copy and the original are independent
            case 7: { N& d = st[st.size() - 2]; d = st.back(); re[re.size() - 2] = re.back(); st.pop_back(); re.pop_back(); N& self = st.back(); st.back() = self; sym_reach("assign"); break; }
        }
    }
    ASSUME(st.size() == 1);
    return {std::move(st[0]), re[0]};
}

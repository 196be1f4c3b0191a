// Shared harness code: symbolic pushdown systems and textbook reference algorithms (naive saturation), written independently of /repo.
#pragma once
#include "sym.h"
#include <cmath>
#include "pdaaal/internal/PdaSaturation.h"
#include <vector>
#include <cstdio>
using namespace pdaaal;
#ifndef NS
#define NS 2      // control states
#endif
#ifndef NL
#define NL 2      // stack labels
#endif
#ifndef NR
#define NR 2      // rules
#endif
#ifndef WILD
#define WILD 0    // allow wildcard pre-labels
#endif
#ifndef WMAX
#define WMAX 1000000
#endif
#ifndef WMIN
#define WMIN 0
#endif
struct RuleS { size_t from; uint32_t pre; bool wild; size_t to; op_t op; uint32_t ol; int64_t w; bool on; };
template <typename W> struct TPDA : public internal::PDA<W> {
    size_t nl = NL;
    size_t number_of_labels() const override { return nl; }
    void ensure(size_t n) { this->add_state(n - 1); }
};
static inline uint64_t dec(const char* a, size_t i, const char* b, uint64_t lo, uint64_t hi) {
    char n[32]; size_t k = 0; for (const char* p = a; *p; ++p) n[k++] = *p; if (i >= 10) n[k++] = '0' + i / 10; n[k++] = '0' + i % 10; for (const char* p = b; *p; ++p) n[k++] = *p; n[k] = 0;
    return lo == hi ? lo : sym_var(n, lo, hi);
}
static inline void conc(std::vector<uint32_t>& s) { for (auto& x : s) x = (uint32_t)sym_concretize(x); }
static inline op_t opOf(uint64_t o) { return o == 0 ? POP : o == 1 ? SWAP : o == 2 ? PUSH : NOOP; }
// one symbolic rule; the order of operations makes the solver split lazily, when the code under test looks at a field
static inline RuleS symRule(size_t i, size_t ns = NS, size_t nl = NL, bool wild = WILD, int64_t wmin = WMIN, int64_t wmax = WMAX) {
    RuleS r; r.on = true;
    r.from = dec("r", i, "from", 0, ns - 1); r.pre = (uint32_t)dec("r", i, "pre", 0, nl - 1); r.wild = wild ? dec("r", i, "wild", 0, 1) != 0 : false; r.to = dec("r", i, "to", 0, ns - 1);
    uint64_t o = dec("r", i, "op", 0, 3); r.op = (op_t)(o == 0 ? POP : o == 1 ? SWAP : o == 2 ? PUSH : NOOP);
    uint32_t l = (uint32_t)dec("r", i, "ol", 0, nl - 1);
    r.ol = l; r.w = (int64_t)dec("r", i, "w", 0, (uint64_t)(wmax - wmin)) + wmin;
    return r;
}
template <typename W> struct wmk { static typename W::type mk(int64_t w) { return (typename W::type)w; } };
template <typename W> void addRule(internal::PDA<W>& pda, const RuleS& r) {
    // labels of POP/NOOP rules are irrelevant; the typed front end stores max() for them
    uint32_t ol = (r.op == PUSH || r.op == SWAP) ? r.ol : std::numeric_limits<uint32_t>::max();
    user_rule_t<W> u;
    if constexpr (W::is_weight) u = user_rule_t<W>(r.from, r.pre, r.to, r.op, ol, wmk<W>::mk(r.w)); else u = user_rule_t<W>(r.from, r.pre, r.to, r.op, ol);
    if (r.wild) pda.add_wildcard_rule(u); else pda.add_rule(u);
}
#ifndef SYMM
#define SYMM 1   // 1: rules are considered up to reordering of the input rule list (from, to ascending)
#endif
#ifdef SHAPE
// fixed shapes: states and operations of the rules are given, labels (and weights, wildcards) are symbolic
struct ShapeR { size_t f, t; op_t op; };
static const ShapeR shape_[] =
#if SHAPE == 1     // recursion: push on push, pops return through swaps
    {{0, 0, PUSH}, {0, 1, SWAP}, {1, 1, POP}, {1, 2, SWAP}, {2, 0, PUSH}};
#elif SHAPE == 2   // two branches that meet below the same pushed label
    {{0, 1, SWAP}, {0, 2, SWAP}, {1, 0, PUSH}, {2, 0, PUSH}, {0, 0, POP}};
#elif SHAPE == 3   // nested calls and returns
    {{0, 1, PUSH}, {1, 2, PUSH}, {2, 1, POP}, {1, 0, POP}, {0, 2, SWAP}};
#elif SHAPE == 4   // a chain with a detour: the second way to a state is found late
    {{0, 2, SWAP}, {0, 1, PUSH}, {1, 1, SWAP}, {1, 2, POP}, {2, 2, POP}};
#elif SHAPE == 5   // pops in a row, then pushes again
    {{0, 0, POP}, {0, 1, POP}, {1, 2, PUSH}, {2, 2, PUSH}, {2, 0, NOOP}};
#else              // swap and noop cycles
    {{0, 1, SWAP}, {1, 0, NOOP}, {1, 2, SWAP}, {2, 1, PUSH}, {1, 1, POP}};
#endif
static inline void symRules(std::vector<RuleS>& rs, size_t = 0) {
    for (auto& k : shape_) { size_t i = rs.size(); RuleS r; r.on = true; r.from = k.f; r.to = k.t; r.op = k.op; r.pre = (uint32_t)dec("r", i, "pre", 0, NL - 1); r.wild = WILD ? dec("r", i, "wild", 0, 1) != 0 : false; r.ol = k.op == PUSH || k.op == SWAP ? (uint32_t)dec("r", i, "ol", 0, NL - 1) : 0; r.w = (int64_t)dec("r", i, "w", 0, (uint64_t)(WMAX - WMIN)) + WMIN; rs.push_back(r); }
}
#else
static inline void symRules(std::vector<RuleS>& rs, size_t n = NR) {
    for (size_t i = 0; i < n; ++i) rs.push_back(symRule(i));
    if (SYMM) for (size_t i = 0; i + 1 < n; ++i) ASSUME(rs[i].from * NS + rs[i].to <= rs[i + 1].from * NS + rs[i + 1].to);
}
#endif
static inline void pinRules(std::vector<RuleS>& rs) {
    for (auto& r : rs) { r.from = sym_concretize(r.from); r.pre = (uint32_t)sym_pin(r.pre); r.wild = sym_pin(r.wild); r.to = sym_pin(r.to); r.op = (op_t)sym_pin(r.op); r.ol = (uint32_t)sym_pin(r.ol); }
}
// ---- forward reachability, textbook post* on a naive edge list (unweighted) ----
struct NaivePost {
    struct E { size_t f; uint32_t l; size_t t; };
    static constexpr uint32_t EPS = 0xffffffff;
    size_t ns, nl, base; std::vector<E> es; std::vector<char> acc; const std::vector<RuleS>& rs;
    NaivePost(size_t ns_, size_t nl_, const std::vector<RuleS>& r) : ns(ns_), nl(nl_), base(ns_), rs(r) { acc.resize(ns); }
    size_t node(bool a) { acc.push_back(a); return base++; }
    void add(size_t f, uint32_t l, size_t t) { if (!has(f, l, t)) es.push_back({f, l, t}); }
    bool has(size_t f, uint32_t l, size_t t) const { for (auto& e : es) if (e.f == f && e.t == t && BR(e.l == l)) return true; return false; }
    void config(size_t p, const std::vector<uint32_t>& st) { size_t c = p; if (st.empty()) acc[p] = 1; for (size_t i = 0; i < st.size(); ++i) { size_t n = node(i + 1 == st.size()); add(c, st[i], n); c = n; } }
    void run() {
        size_t mid = base; for (size_t i = 0; i < ns * nl; ++i) node(false);
        bool ch = true;
        while (ch) {
            ch = false; size_t n0 = es.size();
            for (size_t i = 0; i < es.size(); ++i) {
                E e = es[i];
                if (e.l == EPS) { for (size_t j = 0; j < es.size(); ++j) if (es[j].f == e.t) { E g = es[j]; add(e.f, g.l, g.t); } continue; }
                if (e.f >= ns) continue;
                for (auto& r : rs) {
                    if (!r.on || !BR(r.from == e.f) || !(BR(r.wild) || BR(r.pre == e.l))) continue;
                    size_t to = sym_concretize(r.to);
                    switch ((op_t)sym_concretize(r.op)) {
                        case POP: add(to, EPS, e.t); break;
                        case SWAP: add(to, (uint32_t)sym_concretize(r.ol), e.t); break;
                        case NOOP: add(to, e.l, e.t); break;
                        case PUSH: { uint32_t l = (uint32_t)sym_concretize(r.ol); size_t q = mid + to * nl + l; add(to, l, q); add(q, e.l, e.t); break; }
                    }
                }
            }
            ch = es.size() != n0;
        }
    }
    bool accRec(size_t s, const std::vector<uint32_t>& st, size_t i, size_t depth) const {
        if (i == st.size() && acc[s]) return true;
        if (depth == 0) return false;
        for (auto& e : es) if (e.f == s) {
            if (e.l == EPS) { if (accRec(e.t, st, i, depth - 1)) return true; }
            else if (i < st.size() && BR(st[i] == e.l)) { if (accRec(e.t, st, i + 1, depth - 1)) return true; }
        }
        return false;
    }
    bool accepts(size_t s, const std::vector<uint32_t>& st) const { return accRec(s, st, 0, 2 * st.size() + 2); }
};
// apply one rule instance to a concrete/symbolic configuration; false if not applicable
static inline bool applyRule(const RuleS& r, size_t& st, std::vector<uint32_t>& stack) {
    if (!BR(r.from == st) || stack.empty()) return false;
    if (!(BR(r.wild) || BR(r.pre == stack[0]))) return false;
    st = r.to;
    switch ((op_t)sym_concretize(r.op)) {
        case POP: stack.erase(stack.begin()); break;
        case SWAP: stack[0] = r.ol; break;
        case PUSH: stack.insert(stack.begin(), r.ol); break;
        case NOOP: break;
    }
    return true;
}
// ---- minimal weight of a run from a configuration to a target configuration: textbook weighted pre*, naive iteration ----
struct NaiveMin {
    struct E { size_t f; uint32_t l; size_t t; int64_t w; };
    size_t ns, nl, base, acc; std::vector<E> es; const std::vector<RuleS>& rs;
    NaiveMin(size_t ns_, size_t nl_, const std::vector<RuleS>& r, size_t p, const std::vector<uint32_t>& st) : ns(ns_), nl(nl_), base(ns_), rs(r) {
        size_t c = p; for (auto x : st) { es.push_back({c, x, base, 0}); c = base++; } acc = c;
    }
    // smallest weight; every edge weight is the weight of some run, so an improvement is always sound
    bool put(size_t f, uint32_t l, size_t t, int64_t w) {
        for (auto& e : es) if (e.f == f && e.l == l && e.t == t) { if (BR(w < e.w)) { e.w = w; return true; } return false; }
        es.push_back({f, l, t, w}); return true;
    }
    const E* get(size_t f, uint32_t l, size_t t) const { for (auto& e : es) if (e.f == f && e.l == l && e.t == t) return &e; return nullptr; }
    void run(size_t rounds = 64) {
        bool ch = true;
        for (size_t it = 0; it < rounds && ch; ++it) {
            ch = false;
            for (auto& r : rs) {
                if (!r.on) continue;
                size_t p = sym_concretize(r.from), to = sym_concretize(r.to); op_t op = (op_t)sym_concretize(r.op);
                uint32_t ol = (op == PUSH || op == SWAP) ? (uint32_t)sym_concretize(r.ol) : 0; bool wild = BR(r.wild); uint32_t pre = wild ? 0 : (uint32_t)sym_concretize(r.pre);
                for (uint32_t g = 0; g < nl; ++g) {
                    if (!wild && g != pre) continue;
                    if (op == POP) { ch |= put(p, g, to, r.w); continue; }
                    uint32_t first = op == NOOP ? g : ol;
                    for (size_t i = 0; i < es.size(); ++i) {
                        E e = es[i]; if (e.f != to || e.l != first) continue;
                        if (op != PUSH) { ch |= put(p, g, e.t, r.w + e.w); continue; }
                        for (size_t j = 0; j < es.size(); ++j) { E h = es[j]; if (h.f == e.t && h.l == g) ch |= put(p, g, h.t, r.w + e.w + h.w); }
                    }
                }
            }
        }
        REQ(!ch, "oracle reached its fixed point");
    }
    bool best(size_t p, const std::vector<uint32_t>& st, int64_t& out) const {
        std::vector<std::pair<bool, int64_t>> cur(base), nxt; cur[p] = {true, 0};
        for (auto x : st) {
            nxt.assign(base, {false, 0});
            for (auto& e : es) if (cur[e.f].first && e.l == x) { int64_t w = cur[e.f].second + e.w; if (!nxt[e.t].first || BR(w < nxt[e.t].second)) nxt[e.t] = {true, w}; }
            cur.swap(nxt);
        }
        out = cur[acc].second; return cur[acc].first;
    }
};

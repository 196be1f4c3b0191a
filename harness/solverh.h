// Solver-level harness helpers (typed PDA, product automata); uses the ptrie stand-in.
#pragma once
#include "pdah.h"
#include "pdaaal/Solver.h"
#include "pdaaal/SolverInstance.h"
#ifdef LT
using L_t = LT;
#else
using L_t = int;
#endif
static constexpr uint32_t LB = 7; // label value = label id + LB
template <typename W> using pda_t_ = pdaaal::PDA<L_t, W>;
template <typename W, TraceInfoType ti = TraceInfoType::Single> using aut_t_ = pdaaal::PAutomaton<L_t, W, size_t, true, ti>;
template <typename W> void mkPda(pda_t_<W>& pda, const std::vector<RuleS>& rs, size_t ns = NS, size_t nl = NL) {
    for (uint32_t i = 0; i < nl; ++i) pda.insert_label(LB + i);
    for (size_t i = 0; i < ns; ++i) pda.insert_state(i);
    for (auto& r : rs) if (r.on) addRule<W>(static_cast<internal::PDA<W>&>(pda), r); // by label id: keeps labels symbolic
}
// P-automaton accepting exactly (p, stack of label ids)
template <typename A, typename P> A mkConfig(const P& pda, size_t p, const std::vector<uint32_t>& s) {
    if (s.empty()) { std::vector<size_t> sp{p}; return A(pda, sp, true); }
    A a(pda, std::vector<size_t>{}, true);
    size_t c = p; for (size_t i = 0; i < s.size(); ++i) { size_t n = a.add_state(false, i + 1 == s.size()); a.add_edge(c, n, s[i]); c = n; }
    return a;
}
static inline std::vector<uint32_t> symStack(const char* n, size_t lo, size_t hi, size_t nl = NL) {
    size_t k = lo == hi ? lo : SC(n, lo, hi); std::vector<uint32_t> s; for (size_t i = 0; i < k; ++i) s.push_back((uint32_t)dec(n, i, "", 0, nl - 1)); return s;
}
#ifndef LT
static inline std::vector<L_t> lab(const std::vector<uint32_t>& s) { std::vector<L_t> r; for (auto x : s) r.push_back(x + LB); return r; }
#endif
// is there a rule taking configuration a to configuration b?  The minimal weight of such rules goes to w.
static inline bool stepOk(const std::vector<RuleS>& rs, size_t p, const std::vector<uint32_t>& a, size_t q, const std::vector<uint32_t>& b, int64_t* w = nullptr) {
    bool any = false;
    for (auto& r : rs) {
        if (!r.on) continue;
        size_t s = p; std::vector<uint32_t> k = a;
        if (!applyRule(r, s, k)) continue;
        if (!BR(s == q) || k.size() != b.size()) continue;
        bool eq = true; for (size_t i = 0; i < k.size() && eq; ++i) eq = BR(k[i] == b[i]);
        if (!eq) continue;
        if (w) { if (!any || BR(r.w < *w)) *w = r.w; }
        any = true;
    }
    return any;
}
#ifndef LT
// a state trace must start at (p0,s0), end at (p1,s1) and make one rule step at a time
template <typename T> bool traceOk(const T& trace, const std::vector<RuleS>& rs, size_t p0, const std::vector<uint32_t>& s0, size_t p1, const std::vector<uint32_t>& s1) {
    if (trace.empty()) return false;
    auto unl = [](const std::vector<L_t>& s) { std::vector<uint32_t> r; for (auto x : s) r.push_back(x - LB); return r; };
    auto same = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!BR(a[i] == b[i])) return false; return true; };
    if (!BR(trace.front()._pdastate == p0) || !same(unl(trace.front()._stack), s0)) return false;
    if (!BR(trace.back()._pdastate == p1) || !same(unl(trace.back()._stack), s1)) return false;
    for (size_t i = 0; i + 1 < trace.size(); ++i) if (!stepOk(rs, trace[i]._pdastate, unl(trace[i]._stack), trace[i + 1]._pdastate, unl(trace[i + 1]._stack))) return false;
    return true;
}
// replay a rule trace from (p,s); every rule must be one of the pushdown system's rules (with its exact weight)
template <typename W> bool ruleTraceOk(const std::vector<user_rule_t<W>>& tr, const std::vector<RuleS>& rs, size_t p, std::vector<uint32_t> s, size_t p1, const std::vector<uint32_t>& s1, int64_t* sum = nullptr) {
    if (sum) *sum = 0;
    for (auto u : tr) {
        bool found = false;
        for (auto& r : rs) {
            if (!r.on || !BR(r.from == (size_t)u._from) || !BR(r.to == (size_t)u._to) || !BR(r.op == (op_t)u._op) || !(BR(r.wild) || BR(r.pre == (uint32_t)u._pre))) continue;
            if ((r.op == PUSH || r.op == SWAP) && !BR(r.ol == (uint32_t)u._op_label)) continue;
            if constexpr (W::is_weight) if (!BR(wmk<W>::mk(r.w) == u._weight)) continue;
            found = true; break;
        }
        if (!found) return false;
        if (!BR(p == (size_t)u._from) || s.empty() || !BR(s[0] == (uint32_t)u._pre)) return false;
        p = u._to;
        switch ((op_t)sym_concretize(u._op)) { case POP: s.erase(s.begin()); break; case SWAP: s[0] = u._op_label; break; case PUSH: s.insert(s.begin(), u._op_label); break; case NOOP: break; }
        if constexpr (W::is_weight && std::is_integral_v<typename W::type>) if (sum) *sum += (int64_t)u._weight;
    }
    if (!BR(p == p1) || s.size() != s1.size()) return false;
    for (size_t i = 0; i < s.size(); ++i) if (!BR(s[i] == s1[i])) return false;
    return true;
}
#endif

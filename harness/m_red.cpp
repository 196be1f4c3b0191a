// Reducer: pruning keeps every run from the initial state to the terminal state and adds nothing.
#include "pdah.h"
#include "pdaaal/internal/Reducer.h"
#ifndef AGG
#define AGG 1
#endif
#ifndef INI
#define INI 1
#endif
#ifndef TERM
#define TERM 0
#endif
#ifndef LEN
#define LEN 3     // rule applications after the initial push
#endif
using W = weight<void>;
struct Cnt { size_t n = 0; };
static TPDA<W>* P_; static std::vector<RuleS>* R_;
static const internal::labels_t* find(const RuleS& r) {
    uint32_t ol = (r.op == PUSH || r.op == SWAP) ? r.ol : std::numeric_limits<uint32_t>::max();
    for (auto& [rule, labels] : P_->states()[r.from]._rules) if (BR(rule._to == r.to) && BR(rule._operation == r.op) && BR(rule._op_label == ol)) return &labels;
    return nullptr;
}
static bool hasLabel(const internal::labels_t& l, uint32_t x) { if (l.wildcard()) return true; for (auto y : l.labels()) if (BR(x == y)) return true; return false; }
struct Step { const RuleS* r; bool bottom; uint32_t top; };
// all runs (initial, empty) -> push -> ... -> terminal: every step must still be possible in the reduced system
static void explore(std::vector<Step>& run, size_t st, const std::vector<uint32_t>& stack, size_t left) {
    if (st == TERM) {
        sym_reach("run"); if (run.size() > 2) sym_reach("long run");
        for (auto& s : run) { auto l = find(*s.r); REQ(l != nullptr, "a rule used on a run to the terminal state is kept"); if (s.bottom) REQ(!l->empty(), "a rule used on a run to the terminal state keeps a pre-label"); else REQ(hasLabel(*l, s.top), "the pre-labels used on a run to the terminal state are kept"); }
        return;
    }
    if (!left) return;
    for (auto& r : *R_) {
        if (r.from != st) continue;
        if (stack.empty()) { if (!(r.to == TERM && r.wild)) continue; run.push_back({&r, true, 0}); explore(run, TERM, stack, left - 1); run.pop_back(); continue; }
        if (!(r.wild || BR(r.pre == stack[0]))) continue;
        auto k = stack; switch (r.op) { case POP: k.erase(k.begin()); break; case SWAP: k[0] = r.ol; break; case PUSH: k.insert(k.begin(), r.ol); break; case NOOP: break; }
        run.push_back({&r, false, stack[0]}); explore(run, r.to, k, left - 1); run.pop_back();
    }
}
extern "C" void sym_main() {
    std::vector<RuleS> rs;
#ifdef SKEL   // fixed shapes (two branches that meet again above a pushed label) with symbolic labels
    static const struct { size_t f, t; op_t op; } sk[] =
#if SKEL == 1
        {{1, 2, PUSH}, {2, 3, SWAP}, {2, 4, SWAP}, {3, 5, PUSH}, {4, 5, PUSH}, {5, 6, POP}, {6, 0, POP}, {6, 0, NOOP}};
#elif SKEL == 2
        {{1, 2, PUSH}, {2, 3, SWAP}, {3, 4, PUSH}, {2, 4, PUSH}, {4, 5, SWAP}, {4, 5, NOOP}, {5, 6, POP}, {6, 0, SWAP}};
#elif SKEL == 4
        {{1, 2, PUSH}, {2, 3, SWAP}, {2, 4, SWAP}, {3, 5, PUSH}, {4, 5, PUSH}, {5, 6, POP}, {6, 7, POP}, {6, 7, POP}, {7, 0, POP}};
#else
        {{1, 2, PUSH}, {2, 3, PUSH}, {3, 2, SWAP}, {3, 4, POP}, {4, 3, SWAP}, {4, 5, PUSH}, {5, 6, POP}, {6, 0, POP}};
#endif
    for (auto& k : sk) { RuleS r; r.on = true; size_t i = rs.size(); r.from = k.f; r.to = k.t; r.op = k.op; r.wild = WILD ? dec("r", i, "wild", 0, 1) != 0 : false; r.pre = (uint32_t)dec("r", i, "pre", 0, NL - 1); r.ol = k.op == PUSH || k.op == SWAP ? (uint32_t)dec("r", i, "ol", 0, NL - 1) : 0; r.w = 0; rs.push_back(r); }
#else
    symRules(rs);
#endif
    for (auto& r : rs) ASSUME(r.from != INI || r.op == PUSH);   // rules of the initial state push the first label
    TPDA<W> pda; pda.ensure(NS); P_ = &pda; R_ = &rs;
    for (auto& r : rs) addRule<W>(pda, r);
    auto [before, after] = internal::Reducer::reduce(pda, AGG, INI, TERM);
    for (auto& r : rs) { r.from = sym_concretize(r.from); r.to = sym_concretize(r.to); r.wild = BR(r.wild); r.op = (op_t)sym_concretize(r.op); }
    if (after < before) sym_reach("smaller"); else sym_reach("unchanged");
    REQ(after <= before, "the reported size does not grow");
    REQ(pda.states().size() == NS, "no state disappears");
    // nothing is invented
    for (size_t s = 0; s < NS; ++s) for (auto& [rule, labels] : pda.states()[s]._rules) {
        bool found = false, wild = false;
        for (auto& r : rs) if (r.from == s && r.to == rule._to && BR(r.op == rule._operation) && ((r.op != PUSH && r.op != SWAP) || BR(r.ol == rule._op_label))) { found = true; wild |= r.wild; }
        REQ(found, "every remaining rule was there before");
        if (labels.wildcard()) { REQ(wild, "a remaining wildcard was there before"); continue; }
        for (size_t i = 1; i < labels.labels().size(); ++i) REQ(labels.labels()[i - 1] < labels.labels()[i], "remaining pre-labels are a sorted set");
        if (!wild) for (auto l : labels.labels()) {
            bool f = false; for (auto& r : rs) if (r.from == s && r.to == rule._to && r.op == rule._operation && ((r.op != PUSH && r.op != SWAP) || BR(r.ol == rule._op_label)) && BR(r.pre == l)) { f = true; break; }
            REQ(f, "every remaining pre-label was there before");
        }
    }
    std::vector<Step> run;
    for (auto& r : rs) if (r.from == INI && r.op == PUSH) { run.push_back({&r, true, 0}); explore(run, r.to, {r.ol}, LEN); run.pop_back(); }
}

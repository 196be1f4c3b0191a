// The rule store: label sets, rules by state, predecessor index, conversion between containers, typed front end.
#ifndef MODE
#define MODE 0   // 0 label sets, 1 untyped store, 2 typed front end
#endif
#if MODE == 2
#include "solverh.h"
#else
#include "pdah.h"
#endif
#ifndef NOPS
#define NOPS 3
#endif
#ifndef AL
#define AL 3
#endif
#ifndef WGT
#define WGT 0
#endif
#ifndef HASH
#define HASH 0
#endif
#if WGT
using W = weight<int32_t>;
#else
using W = weight<void>;
#endif
#if MODE == 0
// label ids are symbolic: each operand is an ascending list of unknown ids
static std::vector<uint32_t> ids(const char* n, size_t mx) { size_t k = SC(n, 0, mx); std::vector<uint32_t> v; for (size_t i = 0; i < k; ++i) { v.push_back(S32("id", 0, AL - 1)); if (i) ASSUME(v[i - 1] < v[i]); } return v; }
static bool in(const std::vector<uint32_t>& v, uint32_t x) { uint32_t r = 0; for (auto y : v) r |= (x == y); return r; }
extern "C" void sym_main() {
    internal::labels_t l; uint32_t x = S32("x", 0, AL - 1); bool inset = false; bool wild = false; std::vector<bool> full(AL, false); // membership of every label
    for (size_t i = 0; i < NOPS; ++i) {
        size_t op = SC("op", 0, 4);
        auto upd = [&](auto f) { for (uint32_t y = 0; y < AL; ++y) full[y] = f((bool)full[y], y); };
        auto anyFull = [&] { bool r = false; for (uint32_t y = 0; y < AL; ++y) r |= (bool)full[y]; return r; };
        if (op == 0) { auto o = ids("m", 2); l.merge(false, o); upd([&](bool b, uint32_t y) { return b || BR(in(o, y)); }); }
        else if (op == 1) { l.merge(true, {}); upd([&](bool, uint32_t) { return true; }); wild = true; sym_reach("wildcard"); }
        else if (op == 2) { auto o = ids("i", AL); bool r = l.intersect(o, AL); upd([&](bool b, uint32_t y) { return b && BR(in(o, y)); }); REQ(r == anyFull(), "intersect tells whether labels remain"); sym_reach("intersect"); }
        else if (op == 3) { auto o = ids("f", 2); std::set<uint32_t> s; for (auto y : o) s.insert(y); std::vector<bool> before = full; bool r = l.noop_pre_filter(s); upd([&](bool b, uint32_t y) { return b && BR(in(o, y)); }); if (!r) REQ(before == full, "an unchanged filter result keeps the labels"); else sym_reach("filter"); }
        else { l.clear(); upd([&](bool, uint32_t) { return false; }); }
        REQ(l.empty() == !anyFull(), "emptiness");
        inset = false; for (uint32_t y = 0; y < AL; ++y) if (full[y] && BR(x == y)) inset = true;
        REQ(l.contains(x) == inset, "a label is in the set exactly when the operations put it there");
        if (!l.wildcard()) { auto& v = l.labels(); for (size_t k = 0; k + 1 < v.size(); ++k) REQ(v[k] < v[k + 1], "stored labels are ascending and distinct"); size_t c = 0; for (uint32_t y = 0; y < AL; ++y) c += full[y]; REQ(v.size() == c, "each label is stored once"); }
    }
    (void)wild;
}
#elif MODE == 1
struct HP : internal::PDA<W, fut::type::hash> { size_t number_of_labels() const override { return AL; } void add(size_t f, rule_t r, bool w, const std::vector<uint32_t>& p) { add_untyped_rule_impl(f, r, w, p); } };
struct VP : internal::PDA<W, fut::type::vector> { VP() = default; explicit VP(HP&& h) : internal::PDA<W, fut::type::vector>(std::move(static_cast<internal::PDA<W, fut::type::hash>&>(h))) {} size_t number_of_labels() const override { return AL; } void add(size_t f, rule_t r, bool w, const std::vector<uint32_t>& p) { add_untyped_rule_impl(f, r, w, p); } };
struct In { size_t f; internal::pda_rule_t<W> r; bool wild; std::vector<uint32_t> pre; };
static bool eq(const internal::pda_rule_t<W>& a, const internal::pda_rule_t<W>& b) { bool r = BR(a._to == b._to) && BR(a._operation == b._operation) && BR(a._op_label == b._op_label);
#if WGT
    r = r && BR(a._weight == b._weight);
#endif
    return r; }
#define NST 2
extern "C" void sym_main() {
    std::vector<In> in; size_t mx = 0; uint32_t y = S32("y", 0, 1000); // the label asked for
#if HASH
    HP h;
#else
    VP pda;
#endif
    for (size_t i = 0; i < NOPS; ++i) {
        In a; a.f = SC("from", 0, NST - 1); a.r._to = SC("to", 0, NST - 1); uint64_t o = S64("op", 0, 3); a.r._operation = (op_t)(1u << o); a.r._op_label = S32("ol", 0, 1000);
#if WGT
        a.r._weight = (int32_t)(int64_t)S64("w", 0, 2000) - 1000;
#endif
        size_t k = SC("npre", 0, 2); a.wild = k == 0; for (size_t j = 0; j < k; ++j) { a.pre.push_back(S32("pre", 0, 1000)); if (j) ASSUME(a.pre[0] < a.pre[1]); }
#if HASH
        h.add(a.f, a.r, a.wild, a.pre);
#else
        pda.add(a.f, a.r, a.wild, a.pre);
#endif
        in.push_back(a); mx = std::max({mx, a.f, a.r._to});
    }
#if HASH
    VP pda(std::move(h));
#endif
    auto check = [&] {
        REQ(pda.states().size() == mx + 1, "all mentioned states exist");
        bool neg = false;
        for (size_t s = 0; s <= mx; ++s) {
            auto& st = pda.states()[s]; std::vector<internal::pda_rule_t<W>> seen;
            for (auto& [r, l] : st._rules) {
                bool m = false, w = false, any = false; for (auto& a : in) if (a.f == s && eq(a.r, r)) { any = true; w |= a.wild; m |= a.wild; for (auto p : a.pre) m = m | (p == y); }
                REQ(any, "only added rules are stored");
                for (auto& o : seen) { REQ(!eq(o, r), "a rule is stored once"); REQ(o < r, "rules are ordered"); } seen.push_back(r);
                if (w) REQ(l.wildcard(), "wildcard rule"); REQ(l.contains(y) == m, "a rule applies to exactly the labels it was added for");
#if WGT
                neg |= r._weight < 0;
#endif
            }
            for (auto& a : in) if (a.f == s) { bool f = false; for (auto& r : seen) f |= eq(r, a.r); REQ(f, "every added rule is stored"); }
            for (auto& a : in) if (a.r._to == s) REQ(st._pre_states.contains(a.f), "predecessor index");
        }
        if constexpr (WGT) REQ(pda.has_negative_weight(std::less<>()) == neg, "negative weights are detected");
    };
    check(); for (size_t s = 0; s <= mx; ++s) for (auto p : pda.states()[s]._pre_states) { bool f = false; for (auto& a : in) f |= a.f == p && a.r._to == s; REQ(f, "predecessor index has only predecessors"); }
    sym_reach("stored");
    if (SB("clear")) { size_t s = SC("s", 0, mx); pda.clear_state(s); std::vector<In> k; for (auto& a : in) if (a.f != s && a.r._to != s) k.push_back(a); in = k; check(); REQ(pda.states()[s]._rules.empty() && pda.states()[s]._pre_states.empty(), "a cleared state has no rules"); sym_reach("cleared"); }
}
#else
struct In { size_t f, t; op_t op; int ol; bool wild; std::vector<int> pre; int64_t w; };
extern "C" void sym_main() {
    int v[3]; for (int i = 0; i < 3; ++i) { v[i] = (int)S32("label", 0, 1000); for (int j = 0; j < i; ++j) ASSUME(v[i] != v[j]); }
    auto some = [&](const char* n) { int x = (int)S32(n, 0, 1000); ASSUME((x == v[0]) | (x == v[1]) | (x == v[2])); return x; };
    pdaaal::PDA<int, W, HASH ? fut::type::hash : fut::type::vector> b; std::vector<In> in;
    for (size_t i = 0; i < 3; ++i) { REQ(b.insert_label(v[i]) == i, "labels are numbered in insertion order"); }
    for (size_t i = 0; i < 2; ++i) b.insert_state(i);
    for (size_t i = 0; i < NOPS; ++i) {
        In a; a.f = SC("from", 0, 1); a.t = SC("to", 0, 1); uint64_t o = S64("op", 0, 3); a.op = (op_t)(1u << o); a.ol = some("ol"); a.w = WGT ? (int64_t)S64("w", 0, 2000) - 1000 : 0; a.wild = false;
        switch (SC("how", 0, 2)) {
            case 0: { int p = some("pre"); a.pre = {p};
#if WGT
                b.add_rule({a.f, p, a.t, a.op, a.ol, (int32_t)a.w});
#else
                b.add_rule({a.f, p, a.t, a.op, a.ol});
#endif
                break; }
            case 1: { a.wild = true;
#if WGT
                b.add_wildcard_rule({a.f, 0, a.t, a.op, a.ol, (int32_t)a.w});
#else
                b.add_wildcard_rule({a.f, 0, a.t, a.op, a.ol});
#endif
                sym_reach("wildcard"); break; }
            case 2: { a.pre = {some("p1"), some("p2")};
#if WGT
                b.add_rule(a.f, a.t, a.op, a.ol, false, a.pre, (int32_t)a.w);
#else
                b.add_rule(a.f, a.t, a.op, a.ol, false, a.pre);
#endif
                break; }
        }
        in.push_back(a);
    }
    pdaaal::PDA<int, W, fut::type::vector> pda(std::move(b));
    REQ(pda.number_of_labels() == 3, "all labels are kept"); for (size_t i = 0; i < 3; ++i) { REQ(pda.get_symbol(i) == v[i], "symbol of an id"); auto e = pda.exists_label(v[i]); REQ(e.first && e.second == i, "id of a symbol"); }
    int u = (int)S32("other", 0, 1000); ASSUME((u != v[0]) & (u != v[1]) & (u != v[2])); REQ(!pda.exists_label(u).first, "an unknown label does not exist");
    auto rules = pda.all_rules();
    auto lab = [](op_t o, int l) { return o == PUSH || o == SWAP ? l : 0; };
    auto same = [&](const auto& r, const In& a) { bool x = BR((r._from == a.f) & (r._to == a.t) & (r._op == a.op)) && BR(lab(r._op, r._op_label) == lab(a.op, a.ol));
#if WGT
        x = x && BR(r._weight == a.w);
#endif
        return x; };
    auto has = [&](const In& a, int p) { bool f = a.wild; for (auto q : a.pre) f = f || BR(p == q); return f; };
    for (size_t i = 0; i < rules.size(); ++i) { bool f = false; for (auto& a : in) f |= same(rules[i], a) && has(a, rules[i]._pre); REQ(f, "only added rules are listed");
        for (size_t j = 0; j < i; ++j) { bool d = BR((rules[i]._from == rules[j]._from) & (rules[i]._to == rules[j]._to) & (rules[i]._op == rules[j]._op) & (rules[i]._pre == rules[j]._pre)) && BR(lab(rules[i]._op, rules[i]._op_label) == lab(rules[j]._op, rules[j]._op_label));
#if WGT
            d = d && BR(rules[i]._weight == rules[j]._weight);
#endif
            REQ(!d, "a rule is listed once"); } }
    for (auto& a : in) for (int p = 0; p < 3; ++p) if (has(a, v[p])) { bool f = false; for (auto& r : rules) f |= same(r, a) && BR(r._pre == v[p]); REQ(f, "every added rule is listed"); }
    sym_reach("listed");
}
#endif

// Label abstraction: mapping, refinement, label encoding and automata over abstract labels.
#include "sym.h"
#include "lb.h"
#include <cmath>
#include <ostream>
inline std::ostream& operator<<(std::ostream& o, const Lb& l) { return o << l.v; }
#ifndef MODE
#define MODE 0   // 0 mapping and refinement, 1 automaton over abstract labels
#endif
#ifndef NC
#define NC 3     // concrete labels
#endif
#ifndef NA
#define NA 2     // abstract values
#endif
#ifndef REFN
#define REFN 1   // refinements applied
#endif
#ifndef LASTONLY
#define LASTONLY 0   // 1: the queries with free inputs are made after the last refinement only
#endif
#ifndef PARTS
#define PARTS 3      // parts of a refinement at most
#endif
#ifndef ALLIN
#define ALLIN 0      // 1: every member of the refined class is in a part
#endif
#ifndef HEADER
#define HEADER 0
#endif
static uint32_t v[NC], av[NC];
#if MODE == 1
static size_t idOf[NC];
template <typename F> static uint8_t preimage(F f, uint32_t a) { uint8_t r = 0; for (int j = 0; j < NC; ++j) r |= (idOf[j] == a) & (f(v[j]) != 0); return r; }
#define LETTER(f, x) preimage(f, x)
#endif
#include "pdaaal/cegar/AbstractionPAutomaton.h"
#include "regen.h"
using namespace pdaaal;
static uint32_t absOf(const Lb& l) { uint32_t r = 0; for (int j = 0; j < NC; ++j) r = l.v == v[j] ? av[j] : r; return r; }
static void labels() { for (int i = 0; i < NC; ++i) { v[i] = S32("label", 0, 1000); for (int j = 0; j < i; ++j) ASSUME(v[i] != v[j]); av[i] = S32("abs", 0, NA - 1); } }
// an arbitrary split of one class: every member is in a part or unmentioned
struct Split { size_t id; size_t part[NC]; };
template <typename M> static bool split(const M& m, const size_t* id, size_t ids, Split& s, std::vector<std::vector<Lb>>& parts) {
    s.id = SC("class", 0, ids - 1); parts.assign(3, {});
    for (int j = 0; j < NC; ++j) { s.part[j] = 3; if (id[j] != s.id) continue; s.part[j] = SC("part", 0, ALLIN ? PARTS - 1 : 3); if (s.part[j] < 3) { auto& p = parts[s.part[j]]; p.push_back(Lb{v[j]}); } }
    for (auto& p : parts) { std::sort(p.begin(), p.end()); }
    size_t k = 0; for (auto& p : parts) if (!p.empty()) ++k;
    for (size_t i = 0; i < k; ++i) if (parts[i].empty()) return false; // used parts come first
    parts.resize(k); return true;
}
static void check(const RefinementMapping<Lb>& m, const size_t* id, bool last = true) {
    for (int j = 0; j < NC; ++j) {
        auto e = m.exists(Lb{v[j]}); REQ(e.first && e.second == id[j], "every label keeps a class"); REQ(id[j] < m.size(), "classes are numbered");
        for (size_t k = 0; k < m.size(); ++k) REQ(m.maps_to(Lb{v[j]}, k) == (k == id[j]), "a label maps to its class only");
    }
    if (last && !ALLIN) { uint32_t o = S32("other", 0, 1000); bool known = false; for (auto x : v) known |= BR(x == o); REQ(m.exists(Lb{o}).first == known, "unknown labels have no class"); if (!known) REQ(!m.maps_to(Lb{o}, 0), "unknown labels map to nothing"); }
    for (size_t k = 0; k < m.size() + 1; ++k) {
        auto c = m.get_concrete_values(k); size_t want = 0; for (int j = 0; j < NC; ++j) want += id[j] == k;
        REQ(c.size() == want, "as many members as labels of the class"); if (k < m.size()) REQ(want > 0, "no class is empty");
        for (int j = 0; j < NC; ++j) { bool f = false; for (auto& x : c) f |= BR(x.v == v[j]); REQ(f == (id[j] == k), "members of a class"); }
        size_t i = 0; for (const auto& x : m.get_concrete_values_range(k)) { REQ(i < c.size() && x == c[i], "the range lists the members"); ++i; } REQ(i == c.size(), "the range is complete");
    }
    if (!last) return;
    std::vector<Lb> some; std::vector<size_t> w; for (int j = 0; j < NC; ++j) if (ALLIN || SC("in", 0, 1)) { some.push_back(Lb{v[j]}); w.push_back(id[j]); }
    std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); REQ(m.encode_many(some) == w, "encoding gives the sorted set of classes");
}
extern "C" void sym_main() {
    labels();
#if MODE == 0
    AbstractionMapping<Lb, uint32_t> am(std::function<uint32_t(const Lb&)>([](const Lb& l) { return absOf(l); }));
    size_t id[NC]; size_t fresh = 0;
    for (int j = 0; j < NC; ++j) { auto r = am.insert(Lb{v[j]}); id[j] = r.second; bool seen = false; for (int k = 0; k < j; ++k) { bool same = BR(av[k] == av[j]); REQ((id[k] == id[j]) == same, "two labels share a class exactly when they are abstracted alike"); seen |= same; } REQ(r.first == !seen, "a class is new exactly for a new abstract value"); fresh += !seen; REQ(am.size() == fresh, "number of classes"); REQ(BR(am.get_abstract_value(id[j]) == av[j]), "the abstract value of a class"); }
    for (int j = 0; j < NC; ++j) { auto r = am.insert(Lb{v[j]}); REQ(!r.first && r.second == id[j], "inserting again changes nothing"); auto e = am.exists(Lb{v[j]}); REQ(e.first && e.second == id[j], "inserted labels exist"); auto cs = am.get_concrete_values(av[j]); bool f = false; for (auto& x : cs) f |= BR(x.v == v[j]); REQ(f, "members by abstract value"); }
    RefinementMapping<Lb> m(std::move(am)); check(m, id, !LASTONLY);
    for (int t = 0; t < REFN; ++t) {
        size_t before = m.size(); Split s; std::vector<std::vector<Lb>> parts; if (!split(m, id, before, s, parts)) return; if (ALLIN && parts.size() < 2) return;
        Refinement<Lb> r(s.id); for (auto& p : parts) r.partitions().push_back(p);
#if HEADER
        HeaderRefinement<Lb> hr; hr.combine(std::move(r)); REQ(hr.refinements().size() <= 1, "one refinement per class"); for (auto& x : hr.refinements()) m.refine(x);
#else
        m.refine(r);
#endif
        sym_reach(parts.size() > 1 ? "refined" : "not refined");
        size_t id2[NC]; for (int j = 0; j < NC; ++j) { auto e = m.exists(Lb{v[j]}); REQ(e.first, "labels stay"); id2[j] = sym_concretize(e.second); }
        REQ(m.size() == before + (parts.size() > 1 ? parts.size() - 1 : 0), "one new class for each further part");
        for (int j = 0; j < NC; ++j) {
            if (id[j] != s.id || s.part[j] == 3) { REQ(id2[j] == id[j], "labels that are not mentioned keep their class"); continue; }
            for (int k = 0; k < j; ++k) if (id[k] == s.id && s.part[k] < 3) REQ((id2[j] == id2[k]) == (s.part[j] == s.part[k]), "labels are separated exactly when they are in different parts");
        }
        for (int j = 0; j < NC; ++j) id[j] = id2[j];
        check(m, id, !LASTONLY || t + 1 == REFN);
    }
#else
    std::unordered_set<Lb> all; for (auto x : v) all.insert(Lb{x});
    AbstractionPDA<Lb, weight<void>> pda(all, std::function<uint32_t(const Lb&)>([](const Lb& l) { return absOf(l); }));
    for (size_t i = 0; i < 2; ++i) pda.add_rule({i, 0, i, POP, std::numeric_limits<uint32_t>::max()});
    auto ids = [&] { for (int j = 0; j < NC; ++j) { auto e = pda.abstract_label(Lb{v[j]}); REQ(e.first, "labels have a class"); idOf[j] = sym_concretize(e.second); REQ(idOf[j] < pda.number_of_labels(), "classes are labels of the abstract system"); } };
    ids();
    for (int j = 0; j < NC; ++j) for (int k = 0; k < j; ++k) REQ((idOf[j] == idOf[k]) == BR(av[j] == av[k]), "two labels share a class exactly when they are abstracted alike");
    if (REFN && SC("refine", 0, 1)) { Split s; std::vector<std::vector<Lb>> parts; if (!split(pda, idOf, pda.number_of_labels(), s, parts) || parts.size() < 2) return; Refinement<Lb> r(s.id); for (auto& p : parts) r.partitions().push_back(p); pda.refine(r); ids(); sym_reach("refined"); }
    n = SC("n", 0, WL); std::vector<uint32_t> word; for (size_t i = 0; i < n; ++i) { w[i] = (uint32_t)SC("w", 0, pda.number_of_labels() - 1); word.push_back(w[i]); }
    auto some = [&](const char* s) { uint32_t x = S32(s, 0, 1000); int ok = 0; for (auto y : v) ok |= x == y; ASSUME(ok); return x; };
    auto [a, re] = genRe<Lb>([](uint32_t x) { return Lb{x}; }, some); a.compile();
    size_t mask = SC("states", 1, 3), q = SC("q", 0, 1); std::vector<size_t> states; if (mask & 1) states.push_back(0); if (mask & 2) states.push_back(1);
    AbstractionPAutomaton<Lb, weight<void>> aut(pda, a, states);
    bool got = aut.accepts(q, word), want = (mask >> q & 1) && BR(re.m[0][n] != 0);
    REQ(got == want, "an abstract word is accepted exactly when it abstracts some word of the NFA");
    sym_reach(want ? "accepted" : "rejected");
#endif
}

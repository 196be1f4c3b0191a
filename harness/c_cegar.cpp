// CEGAR: the refinement loop must answer exactly whether the target is reachable in the concrete system, and terminate.
#define NL 3
#include "pdah.h"
#include "lb.h"
#include <ostream>
inline std::ostream& operator<<(std::ostream& o, const Lb& l) { return o << l.v; }
#include "pdaaal/cegar/CegarPdaFactory.h"
#ifndef MODE
#define MODE 0     // 0 post*, 1 pre*, 2 dual*
#endif
#ifndef MERGE
#define MERGE 0    // 1: control states 2 and 3 start in one class
#endif
#ifndef ILO
#define ILO 1      // length of the initial header language (number of leaves)
#endif
#ifndef IHI
#define IHI 1
#endif
#ifndef FLO
#define FLO 1
#endif
#ifndef FHI
#define FHI 1
#endif
#ifndef LOOP
#define LOOP 0     // the last leaf may be repeated
#endif
#ifndef BEST
#define BEST 1
#endif
#ifndef CHAIN
#define CHAIN 0    // 1: the first rule leaves the initial state, the last one leads to the target state; 2: and all other ends are in states 2 and 3
#endif
using W = weight<void>;
static constexpr uint32_t LV = 10;                       // label value = id + LV
static std::vector<RuleS> rs;
static size_t cls[NL];                                   // initial label abstraction
#ifndef KM
#define KM 2       // leaf kinds: 0 one label, 1 all but one label, 2 any label
#endif
struct Leaf { int kind; uint32_t a; bool has(uint32_t x) const { return kind == 2 || ((x == a) != (kind == 1)); } }; // {a}, everything but a, anything
struct Lang { std::vector<Leaf> ls; bool loop = false; };
static Lang lang(const char* n, size_t lo, size_t hi) { Lang l; size_t k = SC(n, lo, hi); for (size_t i = 0; i < k; ++i) l.ls.push_back({KM ? (int)SC("kind", 0, KM) : 0, (uint32_t)dec(n, i, "a", 0, NL - 1)}); if (LOOP && k) l.loop = SC("loop", 0, 1); return l; }
static NFA<Lb> nfa(const Lang& l) {
    NFA<Lb> r(true);
    for (size_t i = 0; i < l.ls.size(); ++i) { auto& f = l.ls[i]; NFA<Lb> x = f.kind == 2 ? NFA<Lb>(std::unordered_set<Lb>{}, true) : NFA<Lb>(std::unordered_set<Lb>{Lb{f.a + LV}}, f.kind == 1); if (l.loop && i + 1 == l.ls.size()) x.plus_extend(); r.concat(std::move(x)); }
    r.compile(); return r;
}
static bool inLang(const Lang& l, const std::vector<Lb>& s) {
    if (l.loop ? s.size() < l.ls.size() : s.size() != l.ls.size()) return false;
    for (size_t i = 0; i < s.size(); ++i) if (!BR(l.ls[std::min(i, l.ls.size() - 1)].has(s[i].v - LV))) return false;
    return true;
}
struct Cfg { RuleS r; Header<Lb> h; };
struct Step { size_t state; std::vector<Lb> stack; };
using CfgRange = const std::vector<Cfg>&;
class Recon;
static size_t rounds;
class Fac : public CegarPdaFactory<Lb, W> {
    friend class Recon;
public:
    using label_t = Lb;
    static std::unordered_set<Lb> all() { std::unordered_set<Lb> s; for (uint32_t i = 0; i < NL; ++i) s.insert(Lb{i + LV}); return s; }
    Fac() : CegarPdaFactory<Lb, W>(all(), std::function<uint32_t(const Lb&)>([](const Lb& l) { return (uint32_t)cls[l.v - LV]; })) {
        AbstractionMapping<size_t, size_t> b(std::function<size_t(const size_t&)>([](const size_t& s) { return MERGE && s == 3 ? 2 : s; }));
        for (size_t s = 0; s < NS; ++s) b.insert(s);
        states = RefinementMapping<size_t>(std::move(b));
    }
    template <typename R> void refine(R&& r) { if constexpr (std::is_same_v<std::decay_t<R>, typename CegarPdaReconstruction<Lb, size_t, CfgRange, std::vector<Step>>::refinement_t>) states.refine(std::get<0>(r).first); }
protected:
    void build_pda() override {
        REQ(++rounds <= NL + NS, "every round makes the abstraction finer");
        size_t lid[NL]; for (uint32_t i = 0; i < NL; ++i) { auto e = this->abstract_label(Lb{i + LV}); REQ(e.first, "labels have a class"); lid[i] = e.second; }
        size_t sid[NS]; for (size_t i = 0; i < NS; ++i) sid[i] = states.exists(i).second;
        auto L = [&](uint32_t x) { uint32_t r = (uint32_t)lid[0]; for (uint32_t i = 1; i < NL; ++i) r = x == i ? (uint32_t)lid[i] : r; return r; };
        auto S = [&](size_t x) { size_t r = sid[0]; for (size_t i = 1; i < NS; ++i) r = x == i ? sid[i] : r; return r; };
        for (auto& r : rs) { abstract_rule_t u; u._from = S(r.from); u._to = S(r.to); u._pre = L(r.pre); u._op = r.op; u._op_label = (r.op == PUSH || r.op == SWAP) ? L(r.ol) : std::numeric_limits<uint32_t>::max(); this->add_rule(u); }
        for (size_t i = 0; i < NS; ++i) this->add_rule({sid[i], (uint32_t)lid[0], sid[i], NOOP, std::numeric_limits<uint32_t>::max()}); // makes all states known
        ini = {sid[0]}; fin = {sid[1]};
    }
    const std::vector<size_t>& initial() override { return ini; }
    const std::vector<size_t>& accepting() override { return fin; }
private:
    RefinementMapping<size_t> states; std::vector<size_t> ini, fin;
};
class Recon : public CegarPdaReconstruction<Lb, size_t, CfgRange, std::vector<Step>> {
    using P_ = CegarPdaReconstruction<Lb, size_t, CfgRange, std::vector<Step>>;
public:
    using label_t = Lb; using concrete_trace_t = std::vector<Step>; using refinement_t = typename P_::refinement_t; using header_refinement_t = typename P_::header_refinement_t;
    Recon(const Fac& f, const typename P_::product_t& i, const NFA<Lb>& a, const NFA<Lb>& b) : P_(i, a, b), st(f.states), cs(concrete()) {}
protected:
    using R_ = typename P_::abstract_rule_t;
    static std::vector<RuleS> concrete() { auto r = rs; for (size_t i = 0; i < NS; ++i) for (uint32_t l = 0; l < NL; ++l) r.push_back({i, l, false, i, NOOP, 0, 0, true}); return r; } // including the rules that make states known
    bool lmap(uint32_t l, size_t id) const { bool r = false; for (uint32_t i = 0; i < NL; ++i) r |= (l == i) & this->label_maps_to(Lb{i + LV}, id); return r; }
    bool smap(size_t s, size_t id) const { bool r = false; for (size_t i = 0; i < NS; ++i) r |= (s == i) & st.maps_to(i, id); return r; }
    bool match(const RuleS& r, const R_& a) const { return BR(r.op == a._op) && BR(smap(r.from, a._from)) && BR(smap(r.to, a._to)) && BR(lmap(r.pre, a._pre)) && (a._op == POP || a._op == NOOP || BR(lmap(r.ol, a._op_label))); }
    void make(std::vector<Cfg>& out, const R_& a, const std::vector<size_t>& from, const Header<Lb>& h) const {
        for (auto s : from) for (auto& r : cs) {
            if (!BR(r.from == s) || !match(r, a)) continue;
            std::vector<Lb> post; if (a._op == NOOP) post = {Lb{r.pre + LV}}; else if (a._op == SWAP) post = {Lb{r.ol + LV}}; else if (a._op == PUSH) post = {Lb{r.pre + LV}, Lb{r.ol + LV}};
            auto n = this->update_header(h, Lb{r.pre + LV}, post); if (n) out.push_back({r, n->first});
        }
    }
    CfgRange initial_concrete_rules(const R_& a) override { tmp.emplace_back(); make(tmp.back(), a, {0}, this->initial_header()); return tmp.back(); }
    CfgRange search_concrete_rules(const R_& a, const Cfg& c) override { tmp.emplace_back(); std::vector<size_t> f{(size_t)sym_concretize(c.r.to)}; make(tmp.back(), a, f, c.h); return tmp.back(); }
    refinement_t refn(const R_& a, std::vector<std::pair<size_t, Lb>>&& X) {
        std::vector<std::pair<size_t, Lb>> Y; for (auto& r : cs) if (match(r, a)) Y.emplace_back(sym_concretize(r.from), Lb{(uint32_t)sym_concretize(r.pre) + LV});
        sym_reach("spurious rule");
        return make_refinement<BEST ? refinement_option_t::best_refinement : refinement_option_t::fast_refinement>(std::move(X), std::move(Y), a._from, a._pre);
    }
    refinement_t find_initial_refinement(const R_& a) override {
        std::vector<std::pair<size_t, Lb>> X; if (st.maps_to(0, a._from)) for (auto& l : this->pre_labels(this->initial_header())) if (BR(lmap(l.v - LV, a._pre))) X.emplace_back(0, l);
        return refn(a, std::move(X));
    }
    refinement_t find_refinement(const R_& a, const std::vector<Cfg>& cfs) override {
        std::vector<std::pair<size_t, Lb>> X; for (auto& c : cfs) { size_t s = sym_concretize(c.r.to); if (st.maps_to(s, a._from)) for (auto& l : this->pre_labels(c.h)) if (BR(lmap(l.v - LV, a._pre))) X.emplace_back(s, Lb{(uint32_t)sym_concretize(l.v)}); }
        return refn(a, std::move(X));
    }
    Header<Lb> get_header(const Cfg& c) override { return c.h; }
    std::vector<Step> get_concrete_trace(std::vector<Cfg>&& c, std::vector<Lb>&& f, size_t ini) override {
        std::vector<Step> t;
        for (size_t i = c.size(); i-- > 0;) {
            t.push_back({c[i].r.to, {f.rbegin(), f.rend()}}); op_t o = (op_t)sym_concretize(c[i].r.op);
            if (o == POP) f.push_back(Lb{c[i].r.pre + LV}); else if (o == SWAP) f.back() = Lb{c[i].r.pre + LV}; else if (o == PUSH) f.pop_back();
        }
        t.push_back({c.empty() ? st.get_concrete_values(ini)[0] : c[0].r.from, {f.rbegin(), f.rend()}}); std::reverse(t.begin(), t.end()); return t;
    }
private:
    const RefinementMapping<size_t>& st; std::vector<RuleS> cs; std::vector<std::vector<Cfg>> tmp;
};
extern "C" void sym_main() {
    size_t used = 0; for (size_t i = 0; i < NL; ++i) { cls[i] = SC("class", 0, used); used = std::max(used, cls[i] + 1); } // every partition of the labels
    Lang I = lang("i", ILO, IHI), F = lang("f", FLO, FHI);
    symRules(rs); if (CHAIN) { ASSUME(rs[0].from == 0); ASSUME(rs.back().to == 1); } if (CHAIN == 2) for (size_t i = 0; i < rs.size(); ++i) { if (i) ASSUME(rs[i].from >= 2); if (i + 1 < rs.size()) ASSUME(rs[i].to >= 2); }
    NFA<Lb> ni = nfa(I), nf = nfa(F);
    CEGAR<Fac, Recon> cegar; Fac fac;
    auto res = cegar.cegar_solve<MODE == 1, MODE == 2>(std::move(fac), ni, nf);
    if (rounds > 1) sym_reach("refined");
    pinRules(rs); for (auto* l : {&I, &F}) for (auto& f : l->ls) f.a = (uint32_t)sym_pin(f.a);
    NaivePost o(NS, NL, rs); size_t c = 0; if (I.ls.empty()) o.acc[0] = 1;
    for (size_t i = 0; i < I.ls.size(); ++i) { size_t n = o.node(i + 1 == I.ls.size()); for (uint32_t l = 0; l < NL; ++l) if (BR(I.ls[i].has(l))) { o.add(c, l, n); if (I.loop && i + 1 == I.ls.size()) o.add(n, l, n); } c = n; }
    o.run();
    bool want = false; std::vector<std::pair<size_t, size_t>> seen{{1, 0}}; auto push = [&](size_t x, size_t y) { for (auto& p : seen) if (p.first == x && p.second == y) return; seen.push_back({x, y}); };
    for (size_t k = 0; k < seen.size() && !want; ++k) {
        auto [x, y] = seen[k]; if (o.acc[x] && y == F.ls.size()) { want = true; break; }
        for (size_t i = 0; i < o.es.size(); ++i) if (o.es[i].f == x) {
            auto e = o.es[i]; if (e.l == NaivePost::EPS) { push(e.t, y); continue; }
            if (y < F.ls.size() && BR(F.ls[y].has(e.l))) push(e.t, y + 1);
            if (F.loop && y == F.ls.size() && BR(F.ls[y - 1].has(e.l))) push(e.t, y);
        }
    }
    sym_reach(want ? "reachable" : "unreachable");
    REQ(res.has_value() == want, "the answer is exactly reachability in the concrete system");
    if (res) {
        auto& t = *res; REQ(!t.empty() && BR(t.front().state == 0) && inLang(I, t.front().stack), "the trace starts in an initial configuration");
        REQ(BR(t.back().state == 1) && inLang(F, t.back().stack), "the trace ends in a target configuration");
        auto cs = rs; for (size_t i = 0; i < NS; ++i) { cs.push_back({i, 0, true, i, NOOP, 0, 0, true}); }
        for (size_t i = 0; i + 1 < t.size(); ++i) {
            bool ok = false;
            for (auto& r : cs) { size_t s = t[i].state; std::vector<uint32_t> k; for (auto& x : t[i].stack) k.push_back(x.v - LV); if (!applyRule(r, s, k) || !BR(s == t[i + 1].state) || k.size() != t[i + 1].stack.size()) continue; bool eq = true; for (size_t j = 0; j < k.size() && eq; ++j) eq = BR(k[j] == t[i + 1].stack[j].v - LV); if (eq) { ok = true; break; } }
            REQ(ok, "consecutive configurations are one rule apart");
        }
    }
}

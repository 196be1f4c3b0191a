// JSON: pushdown systems and automata read through the SAX handlers, and written and read back.
#include "pdah.h"
#include "auth.h"
#include "nullos.h"
#include "parsing/PdaJsonParser.h"
#include "parsing/PAutomatonJsonParser.h"
#include <string>
#ifndef MODE
#define MODE 0   // 0 read a system, 1 write and read back a system, 2 write and read back an automaton, 3 reject malformed systems, 4 reject malformed automata, 5 write and read back an instance
#endif
#if MODE == 5
#include "parsing/SolverInstanceJsonParser.h"
#include "pdaaal/Solver.h"
#endif
#ifndef WL
#define WL 2
#endif
#ifndef NAMES
#define NAMES 0
#endif
#ifndef WK
#define WK 0     // 0 none, 1 int, 2 unsigned, 3 vector of int
#endif
#ifndef EXTRA
#define EXTRA 0  // unknown members
#endif
#if WK == 0
using W = weight<void>;
#elif WK == 1
using W = weight<int32_t>;
#elif WK == 2
using W = weight<uint32_t>;
#else
using W = weight<std::vector<int32_t>>;
#endif
using H_ = parsing::PdaSaxHandler<W, NAMES>; using pda_t = typename H_::pda_t;
static std::string lab(uint32_t l) { return std::string(1, (char)('A' + l)); }
static std::string nam(size_t s) { return std::string(1, (char)('p' + s)); }
#if NAMES
static std::string st(size_t s) { return nam(s); }
#else
static size_t st(size_t s) { return s; }
#endif
static std::vector<RuleS> rs; static bool ok = true;
#define EV(x) do { if (ok) ok = (x); } while (0)
template <typename H> static void str(H& h, std::string s) { EV(h.string(s)); }
template <typename H> static void key(H& h, std::string s) { EV(h.key(s)); }
template <typename H> static void num(H& h, int64_t v, bool forceSigned = false) { if (forceSigned || BR(v < 0)) EV(h.number_integer(v)); else EV(h.number_unsigned((uint64_t)v)); }
template <typename H> static void unknown(H& h, size_t k) {
    if (!k) return;
    key(h, "x");
    if (k == 1) num(h, 7);
    else if (k == 2) { EV(h.start_array(2)); num(h, 1); str(h, "y"); EV(h.end_array()); }
    else if (k == 3) { EV(h.start_object(2)); key(h, "a"); EV(h.null()); key(h, "b"); EV(h.boolean(true)); EV(h.end_object()); }
    else if (k == 4) { EV(h.start_array(2)); EV(h.start_object(1)); key(h, "pda"); num(h, 1); EV(h.end_object()); num(h, 2); EV(h.end_array()); }
    else { EV(h.start_object(1)); key(h, "states"); EV(h.start_array(2)); EV(h.start_array(0)); EV(h.end_array()); EV(h.start_object(0)); EV(h.end_object()); EV(h.end_array()); key(h, "c"); str(h, ""); EV(h.end_object()); }
}
static int bad = 0; // malformed variant
// hands the events on, but puts a value of another kind in place of the at-th value (leaf or container)
template <typename H> struct Subst {
    H& h; size_t at, kind, base = 0; size_t n = 0, depth = 0; int skip = 0; bool done = false, leaf = false, wt = false; // values of weight-type are left alone: what is not known means unweighted
    bool other() {
        done = true;
        switch (kind) {
            case 0: return h.null(); case 1: return h.boolean(true); case 2: return h.number_float(0.5, "0.5"); case 3: return h.start_object(0) && h.end_object(); case 4: return h.start_array(0) && h.end_array();
            case 5: { std::string s = "zz"; return h.string(s); } case 6: return h.number_unsigned(0); default: return h.number_integer(-1);
        }
    }
    bool hit(bool l) { if (skip || wt) return false; if (n++ != at) return false; leaf = l; return true; }
    bool string(std::string& s) { return skip ? true : hit(true) ? (kind == 5 ? (done = false, h.string(s)) : other()) : h.string(s); }
    bool number_integer(int64_t v) { return skip ? true : hit(true) ? (kind >= 6 ? (done = false, h.number_integer(v)) : other()) : h.number_integer(v); }
    bool number_unsigned(uint64_t v) { return skip ? true : hit(true) ? (kind == 6 ? (done = false, h.number_unsigned(v)) : other()) : h.number_unsigned(v); }
    bool number_float(double v, const std::string& s) { return skip ? true : h.number_float(v, s); }
    bool boolean(bool v) { return skip ? true : hit(true) ? (kind == 1 ? (done = false, h.boolean(v)) : other()) : h.boolean(v); }
    bool null() { return skip ? true : h.null(); }
    bool key(std::string& k) { if (skip) return true; wt = k == "weight-type"; return h.key(k); }
    // an object in place of an array and vice versa; but an empty array of rules in place of a rule is well-formed
    bool start_object(size_t k) { if (skip) { ++skip; return true; } ++depth; if (hit(false)) { if (kind == 3 || (kind == 4 && depth == 5 + base)) return h.start_object(k); skip = 1; return other(); } return h.start_object(k); }
    bool start_array(size_t k) { if (skip) { ++skip; return true; } ++depth; if (hit(false)) { if (kind == 4) return h.start_array(k); skip = 1; return other(); } return h.start_array(k); }
    bool end_object() { if (skip) { if (!--skip) --depth; return true; } --depth; wt = false; return h.end_object(); }
    bool end_array() { if (skip) { if (!--skip) --depth; return true; } --depth; return h.end_array(); }
};
#ifndef SUBST
#define SUBST 0
#endif
template <typename H> static void ruleObj(H& h, const RuleS& r, size_t perm) {
    op_t op = (op_t)sym_concretize(r.op);
    auto to = [&] { if (bad == 1) return; key(h, "to"); if (bad == 9) EV(h.number_integer(-1)); else if (bad == 10) EV(h.null()); else if (NAMES != (bad == 2)) str(h, nam(sym_concretize(r.to))); else num(h, sym_concretize(r.to)); if (bad == 3) { key(h, "to"); num(h, 0); } };
    auto act = [&] { if (bad == 4) return; if (bad == 11) { key(h, op == POP ? "pop" : op == PUSH ? "push" : "swap"); num(h, 0); return; } if (op == POP) { key(h, "pop"); str(h, ""); } else if (op == PUSH) { key(h, "push"); str(h, lab(r.ol)); } else { key(h, "swap"); str(h, op == SWAP ? lab(r.ol) : r.wild ? std::string("*") : lab(r.pre)); } if (bad == 5) { key(h, op == POP ? "swap" : "pop"); str(h, ""); } if (bad == 6) { key(h, "other"); str(h, ""); } };
    auto wgt = [&] { if (WK == 0) { if (bad == 7) { key(h, "weight"); num(h, 1); } return; } if (bad == 7) return; key(h, "weight"); if (bad == 12) { str(h, "1"); return; } if (bad == 13) { EV(h.number_float(0.5, "0.5")); return; } if (bad == 14) { if (WK != 3) EV(h.start_array(1)); num(h, 1); if (WK != 3) EV(h.end_array()); return; } if (bad == 15) { EV(h.boolean(true)); return; } if (WK == 3) { EV(h.start_array(2)); num(h, r.w); num(h, r.w + 1); EV(h.end_array()); } else num(h, r.w); if (bad == 16) { key(h, "weight"); num(h, 1); } };
    EV(h.start_object(3));
    if (perm == 0) { to(); act(); wgt(); } else if (perm == 1) { wgt(); act(); to(); } else { act(); to(); wgt(); }
    EV(h.end_object());
}
template <typename H> static void document(H& h) {
    size_t x1 = EXTRA ? SC("extra1", 0, 5) : 0, x2 = EXTRA ? SC("extra2", 0, 5) : 0, perm = SC("perm", 0, 2);
    EV(h.start_object(1)); unknown(h, x1); if (bad == 8) key(h, "dpa"); else key(h, "pda"); if (bad == 17) EV(h.start_array(1)); else EV(h.start_object(1)); if (bad == 18) key(h, "state"); else key(h, "states"); if (NAMES != (bad == 19)) EV(h.start_object(NS)); else EV(h.start_array(NS));
    for (size_t i = 0; i < NS; ++i) {
        size_t s = NAMES ? NS - 1 - i : i; if (NAMES) key(h, nam(s)); if (bad == 20) { num(h, 1); continue; } EV(h.start_object(0));
        std::vector<char> done(rs.size());
        for (size_t a = 0; a < rs.size(); ++a) {
            if (done[a] || !BR(rs[a].from == s)) continue;
            std::vector<size_t> g{a}; for (size_t b = a + 1; b < rs.size(); ++b) if (BR(rs[b].from == s) && rs[a].wild == rs[b].wild && (rs[a].wild || BR(rs[a].pre == rs[b].pre))) { g.push_back(b); done[b] = 1; }
            key(h, rs[a].wild ? std::string("*") : lab(rs[a].pre));
            bool arr = g.size() > 1 || perm == 1; if (arr) EV(h.start_array(g.size())); for (auto b : g) if (bad == 21) str(h, "A"); else ruleObj(h, rs[b], perm); if (arr) EV(h.end_array());
        }
        EV(h.end_object());
    }
    if (NAMES) EV(h.end_object()); else EV(h.end_array()); unknown(h, x2); if (bad == 22) { key(h, "states"); EV(h.start_array(0)); EV(h.end_array()); } EV(h.end_object()); if (bad == 23) { key(h, "pda"); EV(h.null()); } EV(h.end_object());
}
// feeding a JSON value to a handler, as the JSON reader does
template <typename H> static void feed(H& h, const json& j) {
    if (!ok) return;
    if (j.is_object()) { EV(h.start_object(j.size())); for (auto it = j.begin(); it != j.end(); ++it) { std::string k = it.key(); EV(h.key(k)); feed(h, *it); } EV(h.end_object()); }
    else if (j.is_array()) { EV(h.start_array(j.size())); for (auto& x : j) feed(h, x); EV(h.end_array()); }
    else if (j.is_string()) { std::string s = j.template get<std::string>(); EV(h.string(s)); }
    else if (j.is_boolean()) EV(h.boolean(j.template get<bool>()));
    else if (j.is_number_unsigned()) EV(h.number_unsigned(j.template get<uint64_t>()));
    else if (j.is_number_integer()) { int64_t v = j.template get<int64_t>(); if (BR(v < 0)) EV(h.number_integer(v)); else EV(h.number_unsigned((uint64_t)v)); } // text does not tell whether a type was signed
    else EV(h.null());
}
struct T_ { size_t to; op_t op; uint32_t ol; int64_t w; };
static void addT(std::vector<T_>& v, T_ t) { for (auto& x : v) if (x.to == t.to && x.op == t.op && BR(x.ol == t.ol) && BR(x.w == t.w)) return; v.push_back(t); }
static std::vector<T_> wantAt(size_t s, uint32_t l) {
    std::vector<T_> v; for (auto& r : rs) if (BR(r.from == s) && (r.wild || BR(r.pre == l))) { op_t op = (op_t)sym_concretize(r.op); addT(v, {(size_t)sym_concretize(r.to), op == NOOP ? SWAP : op, op == POP ? 0 : op == NOOP ? l : r.ol, WK ? r.w : 0}); } return v;
}
template <typename W_, typename R> static int64_t wof(const R& r) { if constexpr (!W_::is_weight) return 0; else if constexpr (W_::is_vector) { REQ(r._weight.size() == 2 && BR(r._weight[1] == r._weight[0] + 1), "all components of a weight are kept"); return r._weight[0]; } else return (int64_t)r._weight; }
static std::vector<T_> gotAt(const pda_t& p, size_t id, uint32_t l, const std::vector<size_t>& back) {
    std::vector<T_> v; auto e = p.exists_label(lab(l));
    for (const auto& [r, ls] : p.states()[id]._rules) {
        bool ap = ls.wildcard(); if (!ap && e.first) for (auto x : ls.labels()) ap |= x == e.second;
        if (!ap) continue;
        uint32_t ol = 0; if (r._operation == PUSH || r._operation == SWAP) { auto t = p.get_symbol(r._op_label); REQ(t.size() == 1, "label names are kept"); ol = (uint32_t)(t[0] - 'A'); } else if (r._operation == NOOP) ol = l;
        REQ(r._to < back.size(), "rules lead to known states");
        addT(v, {back[r._to], r._operation == NOOP ? SWAP : r._operation, ol, wof<W>(r)});
    }
    return v;
}
static void compare(const pda_t& p) {
    std::vector<size_t> id(NS), back(p.states().size(), 99);
    for (size_t s = 0; s < NS; ++s) {
        auto e = p.exists_state(st(s)); REQ(e.first, "every state of the document exists"); id[s] = e.second;
        REQ(id[s] < p.states().size(), "every state of the document is a state of the system"); back[id[s]] = s;
    }
    REQ(p.states().size() == NS, "as many states as in the document");
    for (size_t s = 0; s < NS; ++s) for (uint32_t l = 0; l < NL; ++l) {
        auto a = wantAt(s, l), b = gotAt(p, id[s], l, back);
        for (auto& x : a) { bool f = false; for (auto& y : b) if (x.to == y.to && x.op == y.op && BR(x.ol == y.ol) && BR(x.w == y.w)) { f = true; break; } REQ(f, "every rule of the document is a rule of the system"); }
        for (auto& x : b) { bool f = false; for (auto& y : a) if (x.to == y.to && x.op == y.op && BR(x.ol == y.ol) && BR(x.w == y.w)) { f = true; break; } REQ(f, "every rule of the system is in the document"); }
        if (a.size()) sym_reach("rule"); if (a.size() > 1) sym_reach("several rules");
    }
}
extern "C" void sym_main() {
    NullOs os;
#if MODE == 0 || MODE == 3
    symRules(rs); for (auto& r : rs) r.wild = BR(r.wild);
    H_ h(os);
#if MODE == 3
#if SUBST
    Subst<H_> sub{h, SC("at", 0, SUBST), SC("kind", 0, 7)}; document(sub); if (!sub.done || (WK % 2 && sub.leaf && sub.kind == 7)) return; sym_reach(sub.leaf ? "leaf" : "container");
#else
    bad = (int)SC("bad", 1, 23); if (!WK && bad >= 12 && bad <= 16) return;
#endif
#endif
#if !SUBST
    document(h);
#endif
#if MODE == 3
    REQ(!ok && h.is_errored(), "a malformed document is rejected with an error"); sym_reach("rejected");
#else
    bool fits = true;
    if (WK == 1) for (auto& r : rs) fits &= BR(r.w > std::numeric_limits<int32_t>::min()) && BR(r.w < std::numeric_limits<int32_t>::max());
    if (WK == 2) for (auto& r : rs) fits &= BR(r.w >= 0) && BR(r.w < (int64_t)std::numeric_limits<uint32_t>::max());
    if (WK == 3) for (auto& r : rs) fits &= BR(r.w > std::numeric_limits<int32_t>::min()) && BR(r.w + 1 < std::numeric_limits<int32_t>::max());
    REQ(ok == fits && ok == !h.is_errored(), "a document is accepted exactly when it is well-formed and its weights are representable");
    if (!ok) { sym_reach("weight rejected"); return; }
    sym_reach("accepted"); compare(h.get_pda());
#endif
#elif MODE == 1 || MODE == 5
    symRules(rs); for (auto& r : rs) r.wild = BR(r.wild);
    pda_t p;
#if MODE == 5
    for (uint32_t l = 0; l < NL; ++l) p.insert_label(lab(l));
#endif
    size_t ids[NS]; for (size_t s = 0; s < NS; ++s) ids[s] = p.insert_state(st(s));
    for (auto& r : rs) {
        op_t op = (op_t)sym_concretize(r.op); typename internal::PDA<W>::rule_t u; u._to = ids[sym_concretize(r.to)]; u._operation = op; u._op_label = (op == PUSH || op == SWAP) ? p.insert_label(lab(r.ol)) : std::numeric_limits<uint32_t>::max();
#if WK == 3
        u._weight = {(int32_t)r.w, (int32_t)r.w + 1};
#elif WK
        u._weight = (typename W::type)r.w;
#endif
        std::vector<uint32_t> pre; if (!r.wild) pre.push_back(p.insert_label(lab(r.pre)));
        p.add_rule_detail(ids[sym_concretize(r.from)], u, r.wild, pre);
    }
#if MODE == 1
    json j = p.to_json(); H_ h(os); feed(h, j);
    REQ(ok, "what was written can be read"); sym_reach("read back"); compare(h.get_pda());
#else
    using aut_t = pda_to_pautomaton_t<pda_t>;
    struct C { size_t p; std::vector<uint32_t> s; }; auto conf = [&](const char* n, size_t k) { C c; c.p = SC(n, 0, NS - 1); for (size_t i = 0; i < k; ++i) c.s.push_back((uint32_t)dec(n, i, "", 0, NL - 1)); return c; };
    auto aut = [&](const C& c) { std::vector<size_t> sp; if (c.s.empty()) sp.push_back(c.p); aut_t a(p, sp, true); size_t f = c.p; for (size_t i = 0; i < c.s.size(); ++i) { size_t t = a.add_state(false, i + 1 == c.s.size()); a.add_edge(f, t, c.s[i]); f = t; } return a; };
    C ci = conf("i", SC("ilen", 0, 1)), cf = conf("f", SC("flen", SUBST ? 1 : 0, SUBST ? 1 : 2));
    PAutomatonProduct inst(p, aut(ci), aut(cf)); json j = inst.to_json();
    parsing::SolverInstanceSaxHandler<> ih(os); parsing::SAXHandlerDispatch d(ih, [&ih](parsing::SAXHandlerDispatch& x) { return ih.callback(x); }); 
#if SUBST
    Subst<parsing::SAXHandlerDispatch> sub{d, SC("at", 0, SUBST), SC("kind", 0, 7), 1}; feed(sub, j); if (!sub.done || (sub.leaf && ((WK && sub.kind == 7) || (NAMES && (sub.kind == 5 || sub.kind == 6))))) return; /* other weights; names and numbers of further states */ REQ(!ok, "a document with a value of another kind is rejected"); sym_reach(sub.leaf ? "leaf" : "container"); return;
#endif
    feed(d, j);
    REQ(ok && !ih.is_errored(), "what was written can be read"); sym_reach("read back");
    auto v = ih.get_solver_instance(); using inst_t = SolverInstance<std::string, W, std::conditional_t<NAMES, std::string, size_t>>;
    bool kind = std::holds_alternative<inst_t>(v); REQ(kind, "the instance has the kind of states and weights it was written with"); if (!kind) return;
    auto moved = std::move(std::get<inst_t>(v)); compare(moved->pda());
    bool got = Solver::post_star_accepts<Trace_Type::Any>(*moved);
    pinRules(rs); for (auto* c : {&ci, &cf}) for (auto& x : c->s) x = (uint32_t)sym_concretize(x);
    NaivePost o(NS, NL, rs); o.config(ci.p, ci.s); o.run(); bool want = o.accepts(cf.p, cf.s); sym_reach(want ? "reachable" : "unreachable");
    REQ(got == want, "the instance that is read back has the same answer");
#endif
#elif MODE == 2
    // an automaton with symbolic edges (including epsilon edges) and accepting states; the written document describes the same language from every control state
    pda_t p; for (size_t s = 0; s < NS; ++s) p.insert_state(st(s)); for (uint32_t l = 0; l < NL; ++l) p.insert_label(lab(l));
    EL want; want.n = NS + NX; for (size_t i = 0; i < NS + NX; ++i) want.acc.push_back((char)sym_concretize(dec("acc", i, "", 0, 1)));
    for (size_t i = 0; i < NE; ++i) { EdgeS e; e.f = dec("e", i, "f", 0, NS + NX - 1); e.t = dec("e", i, "t", 0, NS + NX - 1); e.l = (uint32_t)dec("e", i, "l", 0, NL); if (i) { auto& b = want.es.back(); ASSUME(b.f * 8 + b.t <= e.f * 8 + e.t); } want.es.push_back(e); }
    using aut_t = pda_to_pautomaton_t<pda_t>; std::vector<size_t> sp; for (size_t i = 0; i < NS; ++i) if (want.acc[i]) sp.push_back(i);
    aut_t a(p, sp, true); size_t named = NAMES ? SC("named", 0, NX) : 0; // how many of the further states have a name
    for (size_t i = 0; i < NX; ++i) { a.add_state(false, want.acc[NS + i]);
#if NAMES
        if (i < named) a.insert_state("q" + std::string(1, (char)('z' - i)));
#endif
    }
    for (auto& e : want.es) { if (BR(e.l == NL)) { e.l = 0xffffffffu; a.add_epsilon_edge(e.f, e.t); } else a.add_edge(e.f, e.t, e.l); }
    json j = a.to_json(); parsing::PAutomatonSaxHandler<pda_t> h(p, os); feed(h, j);
    REQ(ok && !h.is_errored(), "what was written can be read"); sym_reach("read back");
    auto b = h.get_automaton(); for (auto& e : want.es) { e.f = sym_concretize(e.f); e.t = sym_concretize(e.t); e.l = (uint32_t)sym_concretize(e.l); }
    EL got; got.n = b.states().size();
    for (auto& s : b.states()) { got.acc.push_back(s->_accepting); for (auto& [to, ls] : s->_edges) for (auto& [l, x] : ls) { REQ(to < got.n, "edges lead to states"); got.es.push_back({s->_id, to, l == aut_t::epsilon ? 0xffffffffu : l}); } }
    std::vector<std::vector<uint32_t>> ws{{}}; for (size_t i = 0, e = 0; e < WL; ++e) for (size_t n = ws.size(); i < n; ++i) for (uint32_t l = 0; l < NL; ++l) { auto w = ws[i]; w.push_back(l); ws.push_back(w); }
    for (size_t s = 0; s < NS; ++s) for (auto& w : ws) { bool x = want.accepts(s, w); REQ(got.accepts(s, w) == x, "the automaton that is read back accepts the same configurations"); sym_reach(x ? "in" : "out"); }
#elif MODE == 4
    pda_t p; for (size_t s = 0; s < NS; ++s) p.insert_state(st(s));
    bad = SUBST ? 0 : (int)SC("bad", 0, 14); size_t f = SC("from", 0, NS + 1), t = SC("to", 0, NS + 1); uint32_t l = (uint32_t)dec("l", 0, "", 0, NL - 1); bool first = SC("first", 0, 1);
    parsing::PAutomatonSaxHandler<pda_t> h0(p, os);
#if SUBST
    Subst<parsing::PAutomatonSaxHandler<pda_t>> h{h0, SC("at", 0, SUBST), SC("kind", 0, 7)};
#else
    auto& h = h0;
#endif
    auto state = [&](size_t s, bool wrong = false) { if ((NAMES && s < NS) != wrong) str(h, nam(s)); else num(h, s); };
    auto edge = [&](bool b) { if (b && bad == 5) { str(h, "A"); return; } EV(h.start_array(3)); if (b && bad == 6) EV(h.null()); else if (b && bad == 7 && !NAMES) state(f, true); else state(f); if (b && bad == 8) num(h, l); else str(h, lab(l)); if (!(b && (bad == 9 || bad == 7 && NAMES))) { if (b && bad == 10) EV(h.boolean(true)); else state(t); } if (b && bad == 11) state(t); EV(h.end_array()); };
    EV(h.start_object(1)); key(h, bad == 12 ? "automaton" : "P-automaton"); EV(h.start_object(3));
    if (bad != 1) { key(h, "accepting"); EV(h.start_array(1)); if (bad == 13) EV(h.number_integer(-1)); else state(t); EV(h.end_array()); }
    if (bad != 2) { key(h, "edges"); EV(h.start_array(2)); if (!first) edge(false); edge(true); if (first) edge(false); EV(h.end_array()); }
    if (bad != 3) { key(h, "initial"); EV(h.start_array(1)); if (bad == 4) { if (NAMES) str(h, "unknown"); else num(h, NS + 5); } else if (NS) state(0); EV(h.end_array()); }
    if (bad == 14) { key(h, "other"); num(h, 1); }
    EV(h.end_object()); EV(h.end_object());
#if SUBST
    if (!h.done || (NAMES && h.leaf && (h.kind == 5 || h.kind == 6))) return; /* further states may have names or numbers */ REQ(!ok && h0.is_errored(), "a document with a value of another kind is rejected"); sym_reach(h.leaf ? "leaf" : "container"); return;
#endif
    if (bad == 0) { REQ(ok && !h0.is_errored(), "a well-formed document is accepted"); sym_reach("accepted"); } else { REQ(!ok, "a malformed document is rejected"); sym_reach("rejected"); }
#endif
}

// P-automata without epsilon edges: membership, accepting paths, shortest paths (MODE 0, 1) and union (MODE 2).
#include "solverh.h"
#include "auth.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef SLQ
#define SLQ 2
#endif
#ifndef ACCLOOP
#define ACCLOOP 0
#endif
using W = std::conditional_t<MODE == 1, weight<uint32_t>, weight<void>>;
using IA = internal::PAutomaton<W>;
static bool edge(const std::vector<EdgeS>& es, size_t f, uint32_t l, size_t t) { for (auto& e : es) if (e.f == f && e.t == t && BR(e.l == l)) return true; return false; }
extern "C" void sym_main() {
    TPDA<W> pda; pda.ensure(NS);
    AutS A = symAut("i");
    std::vector<uint64_t> ws;
    auto fin = [&](AutS& a) { for (auto& e : a.es) { e.f = sym_concretize(e.f); e.t = sym_concretize(e.t); e.l = (uint32_t)sym_pin(e.l); } };
    if constexpr (MODE == 2) {
        AutS B = symAut("f", NS, NX, NE);
        IA a = A.build<TPDA<W>, IA>(pda), b = B.build<TPDA<W>, IA>(pda);
        a.or_extend(std::move(b));
        fin(A); fin(B);
        size_t p = SC("qp", 0, NS - 1); auto q = symStack("q", 0, SLQ);
        bool x = a.accepts(p, q), y = toEL(A).accepts(p, q) | toEL(B).accepts(p, q);
        sym_reach(y ? "accepted" : "rejected");
        REQ(x == y, "the union accepts what one of the automata accepts");
        bool any = false; for (auto& s : a.states()) any |= s->_accepting;
        REQ(a.has_accepting_state() == any, "accepting states are registered");
        IA c(a); // copies are independent
        REQ(c.accepts(p, q) == y, "a copy accepts the same");
        c.set_state_accepting(NS + NX - 1); c.add_edge(p, NS + NX - 1, 0);
        REQ(a.accepts(p, q) == y, "changing a copy leaves the original alone");
        return;
    }
    std::vector<size_t> sp; for (size_t i = 0; i < NS; ++i) if (A.acc[i]) sp.push_back(i);
    IA a(pda, sp, true);
    for (size_t i = 0; i < NX; ++i) a.add_state(false, A.acc[NS + i]);
    for (size_t i = 0; i < A.es.size(); ++i) {
        auto& e = A.es[i];
#if MODE == 1
        { // one weight per edge; parallel equal edges are excluded
            ws.push_back(dec("w", i, "", 0, 1000000));
            for (size_t j = 0; j < i; ++j) ASSUME(!((A.es[j].f == e.f) & (A.es[j].t == e.t) & (A.es[j].l == e.l)));
            a.add_edge(e.f, e.t, e.l, std::make_pair(internal::TraceInfo<TraceInfoType::Single>::make_default(), (uint32_t)ws[i]));
        }
#else
        a.add_edge(e.f, e.t, e.l);
#endif
    }
    size_t p = SC("qp", 0, NS - 1); auto q = symStack("q", 0, SLQ);
    bool x = a.accepts(p, q); auto path = a.accept_path(p, q);
    fin(A); EL el = toEL(A);
    bool y = el.accepts(p, q);
    sym_reach(y ? "accepted" : "rejected");
    REQ(x == y, "membership is exactly the language");
    REQ(path.empty() == !y, "an accepting path is reported exactly for members");
    auto okPath = [&](const std::vector<size_t>& path, size_t from, const std::vector<uint32_t>& q) {
        if (path.size() != q.size() + 1 || path[0] != from) return false;
        for (size_t i = 0; i < q.size(); ++i) if (!edge(A.es, path[i], q[i], path[i + 1])) return false;
        return path.back() < A.acc.size() && A.acc[path.back()] != 0;
    };
    if (y) REQ(okPath(path, p, q), "the accepting path is a run of the automaton");
    // emptiness
    bool ne = false; { std::vector<char> r(NS + NX); for (size_t i = 0; i < NS; ++i) r[i] = 1; for (size_t k = 0; k <= A.es.size(); ++k) for (auto& e : A.es) if (r[e.f]) r[e.t] = 1; for (size_t i = 0; i < NS + NX; ++i) ne |= r[i] && A.acc[i]; }
    auto fp = a.find_path();
    REQ(fp.is_null() == !ne, "a path is found exactly when the language is not empty");
    if (ne) { auto [st, sk] = fp.get_path_and_stack(); REQ(st[0] < NS && okPath(st, st[0], sk), "the path found is an accepting run"); sym_reach("found"); }
#if MODE == 1
    {
        auto wOf = [&](size_t f, uint32_t l, size_t t) { for (size_t i = 0; i < A.es.size(); ++i) if (A.es[i].f == f && A.es[i].t == t && BR(A.es[i].l == l)) return (int64_t)ws[i]; return (int64_t)-1; };
        // minimum over all runs on q
        struct V { bool ok; int64_t w; }; 
        std::vector<V> cur(NS + NX, V{false, 0}), nxt; cur[p].ok = true;
        for (auto l : q) { nxt.assign(NS + NX, V{false, 0}); for (size_t i = 0; i < A.es.size(); ++i) { auto& e = A.es[i]; if (cur[e.f].ok && BR(e.l == l)) { int64_t w = cur[e.f].w + (int64_t)ws[i]; if (!nxt[e.t].ok || BR(w < nxt[e.t].w)) nxt[e.t] = V{true, w}; } } cur.swap(nxt); }
        V best{false, 0}; for (size_t i = 0; i < NS + NX; ++i) if (cur[i].ok && A.acc[i] && (!best.ok || BR(cur[i].w < best.w))) best = cur[i];
        auto [sp2, w] = a.template accept_path<Trace_Type::Shortest>(p, q);
        REQ(sp2.empty() == !y, "a shortest accepting path is reported exactly for members");
        if (y) { REQ(okPath(sp2, p, q), "the shortest accepting path is a run"); REQ((int64_t)w == best.w, "its weight is the minimum"); int64_t s = 0; for (size_t i = 0; i < q.size(); ++i) s += wOf(sp2[i], q[i], sp2[i + 1]); REQ(s == best.w, "the path attains its weight"); }
        // minimum over all accepting runs
        std::vector<V> d(NS + NX, V{false, 0}); for (size_t i = 0; i < NS; ++i) d[i].ok = true;
        for (size_t k = 0; k < NS + NX; ++k) for (size_t i = 0; i < A.es.size(); ++i) { auto& e = A.es[i]; if (!d[e.f].ok) continue; int64_t w = d[e.f].w + (int64_t)ws[i]; if (!d[e.t].ok || BR(w < d[e.t].w)) d[e.t] = V{true, w}; }
        V b2{false, 0}; for (size_t i = 0; i < NS + NX; ++i) if (d[i].ok && A.acc[i] && (!b2.ok || BR(d[i].w < b2.w))) b2 = d[i];
        auto [fs, fw] = a.template find_path_shortest<false>();
        REQ(fs.is_null() == !ne, "a shortest path is found exactly when the language is not empty");
        if (ne) { auto [st, sk] = fs.get_path_and_stack(); REQ(st[0] < NS && okPath(st, st[0], sk), "the shortest path found is an accepting run"); REQ((int64_t)fw == b2.w, "its weight is the minimum over all accepting runs"); int64_t s = 0; for (size_t i = 0; i < sk.size(); ++i) s += wOf(st[i], sk[i], st[i + 1]); REQ(s == b2.w, "the shortest path found attains its weight"); }
    }
#endif
}

// Optimum (longest or shortest, possibly unbounded) over all runs; include after defining "static bool better(int64_t, int64_t)".
#pragma once
#include "pdah.h"
// textbook: edges of the pre* automaton as unknowns of a max-plus (min-plus) system, Kleene rounds, then propagation of infinity
struct Opt {
    struct E { size_t f; uint32_t l; size_t t; int64_t w; bool inf; bool init; };
    size_t ns, nl, base, acc; std::vector<E> es; const std::vector<RuleS>& rs;
    struct D { size_t e; int64_t w; int a, b; };   // es[e] can be derived with weight w plus the weights of edges a and b (-1: none)
    std::vector<D> ds;
    Opt(size_t ns_, size_t nl_, const std::vector<RuleS>& r, size_t p, const std::vector<uint32_t>& st) : ns(ns_), nl(nl_), base(ns_), rs(r) {
        size_t c = p; for (auto x : st) { es.push_back({c, x, base, 0, false, true}); c = base++; } acc = c;
    }
    int at(size_t f, uint32_t l, size_t t, bool add) { for (size_t i = 0; i < es.size(); ++i) if (es[i].f == f && es[i].l == l && es[i].t == t) return (int)i; if (!add) return -1; es.push_back({f, l, t, 0, false, false}); return (int)es.size() - 1; }
    void derive(bool record) {
        for (auto& r : rs) {
            if (!r.on) continue;
            size_t p = sym_concretize(r.from), to = sym_concretize(r.to); op_t op = (op_t)sym_concretize(r.op);
            uint32_t ol = (op == PUSH || op == SWAP) ? (uint32_t)sym_concretize(r.ol) : 0; bool wild = BR(r.wild); uint32_t pre = wild ? 0 : (uint32_t)sym_concretize(r.pre);
            auto put = [&](uint32_t g, size_t t, int a, int b) { int e = at(p, g, t, true); if (record) ds.push_back({(size_t)e, r.w, a, b}); };
            for (uint32_t g = 0; g < nl; ++g) {
                if (!wild && g != pre) continue;
                if (op == POP) { put(g, to, -1, -1); continue; }
                uint32_t first = op == NOOP ? g : ol;
                for (size_t i = 0; i < es.size(); ++i) {
                    if (es[i].f != to || es[i].l != first) continue;
                    if (op != PUSH) { put(g, es[i].t, (int)i, -1); continue; }
                    for (size_t j = 0; j < es.size(); ++j) if (es[j].f == es[i].t && es[j].l == g) put(g, es[j].t, (int)i, (int)j);
                }
            }
        }
    }
    void run() {
        for (size_t n = ~0ull; n != es.size();) { n = es.size(); derive(false); }
        derive(true);
        std::vector<char> def(es.size()); for (size_t i = 0; i < es.size(); ++i) def[i] = es[i].init;
        for (size_t phase = 0; phase < 2; ++phase)
            for (size_t round = 0; round < es.size() + 1; ++round) {
                auto old = es; auto odef = def; bool ch = false;
                for (auto& d : ds) {
                    if ((d.a >= 0 && !odef[d.a]) || (d.b >= 0 && !odef[d.b])) continue;
                    bool inf = (d.a >= 0 && old[d.a].inf) || (d.b >= 0 && old[d.b].inf);
                    int64_t w = d.w + (d.a >= 0 ? old[d.a].w : 0) + (d.b >= 0 ? old[d.b].w : 0);
                    E& e = es[d.e];
                    if (!def[d.e]) { def[d.e] = 1; e.w = w; e.inf = inf; ch = true; continue; }
                    if (e.inf) continue;
                    if (inf || better(w, e.w)) { e.w = w; e.inf = inf || phase == 1; ch = true; }
                }
                if (!ch) return;
            }
    }
    bool best(size_t p, const std::vector<uint32_t>& st, int64_t& out, bool& oinf) const {
        struct V { bool ok, inf; int64_t w; }; std::vector<V> cur(base, V{false, false, 0}), nxt; cur[p].ok = true;
        for (auto x : st) {
            nxt.assign(base, V{false, false, 0});
            for (auto& e : es) if (cur[e.f].ok && e.l == x) { V v{true, cur[e.f].inf || e.inf, cur[e.f].w + e.w}; V& n = nxt[e.t]; if (!n.ok || (!n.inf && (v.inf || better(v.w, n.w)))) n = v; }
            cur.swap(nxt);
        }
        out = cur[acc].w; oinf = cur[acc].inf; return cur[acc].ok;
    }
};

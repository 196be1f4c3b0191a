// Refinements: combining keeps all separations; pair refinements separate every good pair from every bad pair.
#include "sym.h"
#include "lb.h"
#include <vector>
#include <array>
#include <limits>
#include "pdaaal/cegar/Refinement.h"
#ifndef MODE
#define MODE 0   // 0 combine, 1 best pair refinement, 2 simple pair refinement
#endif
#ifndef EL
#define EL 4     // elements 0..EL
#endif
#ifndef SZ
#define SZ 2     // size of each side
#endif
#ifndef SZ0
#define SZ0 SZ
#endif
#ifndef ASC
#define ASC 0    // 1: each side is given in ascending order
#endif
#ifndef NCOMB
#define NCOMB 2
#endif
#ifndef NX_
#define NX_ 2
#endif
#ifndef NY_
#define NY_ 2
#endif
#ifndef NW_
#define NW_ 1
#endif
using namespace pdaaal;
#if MODE == 0
using T = uint32_t;
struct Two { std::vector<T> s[2]; };
static Two two(size_t SZ_ = SZ) { Two t; std::vector<T> all; for (int k = 0; k < 2; ++k) { size_t n = SC("sz", 1, SZ_); for (size_t i = 0; i < n; ++i) { T x = S32("x", 0, EL); if (ASC && i) ASSUME(t.s[k].back() < x); for (auto y : all) ASSUME(x != y); all.push_back(x); t.s[k].push_back(x); } } return t; }
extern "C" void sym_main() {
    std::vector<Two> in; in.push_back(two(SZ0));
    Refinement<T> r(std::vector<T>(in[0].s[0]), std::vector<T>(in[0].s[1]), 5);
    for (size_t c = 0; c < NCOMB; ++c) { in.push_back(two()); r.combine(Refinement<T>(std::vector<T>(in.back().s[0]), std::vector<T>(in.back().s[1]), 5)); }
    REQ(r.abstract_id == 5 && !r.empty(), "the abstract label stays");
    auto part = [&](T x) { size_t c = 0, w = ~0ull; for (size_t i = 0; i < r.partitions().size(); ++i) for (auto y : r.partitions()[i]) if (BR(x == y)) { ++c; w = i; } REQ(c == 1, "every mentioned element is in exactly one part"); return w; };
    for (auto& p : r.partitions()) { REQ(!p.empty(), "no part is empty"); for (size_t i = 0; i + 1 < p.size(); ++i) REQ(p[i] < p[i + 1], "parts are sorted"); }
    for (auto& t : in) for (auto a : t.s[0]) for (auto b : t.s[1]) REQ(part(a) != part(b), "elements separated by one of the refinements stay separated");
    for (auto& p : r.partitions()) for (auto y : p) { bool f = false; for (auto& t : in) for (auto& s : t.s) for (auto a : s) f = f | (a == y); REQ(f, "parts contain only mentioned elements"); }
    if (r.partitions().size() > 2) sym_reach("split"); sym_reach("end");
}
#else
using A = Lb; using B = Lb; using PR = std::pair<A, B>;
static A e(const char* n) { return A{S32(n, 0, EL)}; }
static bool eq(const PR& a, const PR& b) { return (a.first.v == b.first.v) & (a.second.v == b.second.v); }
extern "C" void sym_main() {
    size_t nx = SC("nx", 1, NX_), ny = SC("ny", 0, NY_), nw = NW_ ? SC("nw", ny ? 0 : 1, NW_) : 0; if (!nw) ASSUME(ny > 0); std::vector<PR> X, Y; std::vector<A> W;
    for (size_t i = 0; i < nx; ++i) X.emplace_back(e("xa"), e("xb"));
    for (size_t i = 0; i < ny; ++i) { Y.emplace_back(e("ya"), e("yb")); for (auto& x : X) ASSUME(!eq(x, Y[i])); }
    for (size_t i = 0; i < nw; ++i) { W.push_back(e("w")); if (i) ASSUME(W[i - 1].v < W[i].v); for (auto& x : X) ASSUME(x.first.v != W[i].v); for (auto& y : Y) ASSUME(y.first.v != W[i].v); }
    constexpr auto opt = MODE == 1 ? refinement_option_t::best_refinement : refinement_option_t::fast_refinement;
    auto [ra, rb] = make_refinement<opt>(std::vector<PR>(X), std::vector<PR>(Y), 3, 4, std::vector<A>(W));
    REQ(ra.abstract_id == 3 && rb.abstract_id == 4, "the abstract labels are kept");
    auto part = [&](auto& r, A x) { size_t c = 0, w = ~0ull; for (size_t i = 0; i < r.partitions().size(); ++i) for (auto& y : r.partitions()[i]) if (BR(x.v == y.v)) { ++c; w = i; } REQ(c <= 1, "no element is in two parts"); return w; };
    auto sep = [&](auto& r, A x, A y) { size_t i = part(r, x), j = part(r, y); return i != j && i != ~0ull && j != ~0ull; };
    auto pairSep = [&](const PR& x, const PR& y) { return (!BR(x.first.v == y.first.v) && sep(ra, x.first, y.first)) || (!BR(x.second.v == y.second.v) && sep(rb, x.second, y.second)); };
    if (MODE == 1) {
        for (auto& x : X) { REQ(part(ra, x.first) != ~0ull && part(rb, x.second) != ~0ull, "every element is placed"); for (auto& y : Y) REQ(pairSep(x, y), "every good pair is separated from every bad pair"); for (auto& w : W) REQ(sep(ra, x.first, w), "every good pair is separated from every wildcard"); }
    } else { if (nw) REQ(sep(ra, X[0].first, W[0]), "the first good pair is separated from the first wildcard"); else REQ(pairSep(X[0], Y[0]), "the first good pair is separated from the first bad pair"); }
    auto known = [&](A a, bool first) { bool f = false; for (auto& x : X) f = f | ((first ? x.first.v : x.second.v) == a.v); for (auto& y : Y) f = f | ((first ? y.first.v : y.second.v) == a.v); if (first) for (auto& w : W) f = f | (w.v == a.v); return f; };
    for (auto& p : ra.partitions()) for (auto& a : p) REQ(known(a, true), "parts contain only mentioned elements");
    for (auto& p : rb.partitions()) for (auto& b : p) REQ(known(b, false), "parts contain only mentioned elements");
    REQ(ra.partitions().size() >= 2 || rb.partitions().size() >= 2, "something is separated");
    if (nw) sym_reach("wildcard"); if (ra.partitions().size() >= 2) sym_reach("first"); if (rb.partitions().size() >= 2) sym_reach("second");
}
#endif

// Sorted-range and priority-queue helpers, flag sets.
#include "sym.h"
#include "pdaaal/utils/more_algorithms.h"
#include "pdaaal/utils/flags.h"
#include "pdaaal/utils/workset.h"
using namespace pdaaal;
#ifndef MODE
#define MODE 0
#endif
#ifndef N1
#define N1 3
#endif
#ifndef N2
#define N2 3
#endif
#ifndef FN
#define FN 8
#endif
extern "C" void sym_main() {
#if MODE == 0
    size_t n = SC("n", 0, N1), m = SC("m", 0, N2); std::vector<uint32_t> a, b;
    for (size_t i = 0; i < n; ++i) { a.push_back(S32("a", 0, 0xffffffffu)); if (i) ASSUME(a[i - 1] <= a[i]); }
    for (size_t i = 0; i < m; ++i) { b.push_back(S32("b", 0, 0xffffffffu)); if (i) ASSUME(b[i - 1] <= b[i]); }
    bool got = is_disjoint(a, b);
    std::vector<std::pair<uint32_t, size_t>> pa; for (size_t i = 0; i < n; ++i) pa.emplace_back(a[i], i); std::vector<std::pair<uint32_t, size_t>> pb; for (size_t i = 0; i < m; ++i) pb.emplace_back(b[i], i + 7);
    bool got2 = is_disjoint(pa, pb, CompFirst<uint32_t, size_t>{}), got3 = is_disjoint(pa, b, CompFirst<uint32_t, size_t>{});
    bool want = true; for (auto x : a) for (auto y : b) want &= !(x == y);
    if (BR(want)) sym_reach("disjoint"); else sym_reach("common");
    REQ(got == want && got2 == want && got3 == want, "two sorted ranges are disjoint iff they have no common element");
#elif MODE == 1
    // histories of emplace/pop; an element that was taken out is never added again
    priority_set<uint32_t, size_t, CompSwapArgs<uint32_t>> q; std::vector<std::pair<uint32_t, size_t>> in; std::vector<size_t> out;
    for (size_t i = 0; i < N1; ++i) {
        if (SC("op", 0, 1) == 0) { uint32_t w = S32("w", 0, 1000000); size_t e = SC("e", 0, 2); bool dead = false; for (auto x : out) dead |= x == e; ASSUME(!dead); if (SB("mv")) q.emplace(uint32_t(w), e); else q.emplace(w, e); in.emplace_back(w, e); }
        else {
            bool any = false; uint32_t best = 0; for (auto& [w, e] : in) { bool dead = false; for (auto x : out) dead |= x == e; if (!dead && (!any || BR(w < best))) { any = true; best = w; } }
            REQ(q.empty() == !any, "empty exactly when every element was taken"); if (!any) break;
            auto [w, e] = q.top(); REQ(w == best, "the best remaining weight comes first"); REQ(q.back() == e, "back is the top element");
            bool dead = false; for (auto x : out) dead |= x == e; REQ(!dead, "no element comes out twice"); bool real = false; for (auto& [w2, e2] : in) real |= e2 == e && BR(w2 == w); REQ(real, "an element comes out with a weight it was given");
            if (SB("pb")) q.pop_back(); else q.pop(); out.push_back(e); sym_reach("pop");
        }
    }
    bool any = false; for (auto& [w, e] : in) { bool dead = false; for (auto x : out) dead |= x == e; any |= !dead; } REQ(q.empty() == !any, "empty exactly when every element was taken");
#elif MODE == 2
    using F = utils::flags<FN>; using T = F::flag_t; constexpr uint64_t ALL = FN == 64 ? ~0ull : (1ull << FN) - 1;
    T mask = (T)S64("mask", 0, ALL), f = (T)S64("f", 0, ALL);
    T m1 = mask; F::add(m1, f); REQ(m1 == (T)(mask | f), "add is union"); T m2 = mask; F::remove(m2, f); REQ(m2 == (T)(mask & ~f), "remove is difference");
    bool sub = true; for (size_t i = 0; i < FN; ++i) sub &= !((f >> i) & 1) || ((mask >> i) & 1); REQ(F::contains(mask, f) == sub, "contains is inclusion");
    bool one = false, two = false; for (size_t i = 0; i < FN; ++i) { bool b = (f >> i) & 1; two |= one & b; one |= b; } REQ(F::is_single_flag(f) == (one & !two), "single flag");
    size_t i = SC("i", 0, FN); REQ(F::flag(i) == (T)(i == 0 ? 0 : 1ull << (i - 1)), "flag i is the i-th bit"); uint64_t fl = 0; for (size_t k = 1; k <= i; ++k) fl |= F::flag(k); REQ(F::fill(i) == (T)fl, "fill n is the first n flags");
    REQ(F::fill<FN>() == (T)ALL && F::fill<FN - 1>() == (T)(ALL >> 1) && F::fill<0>() == 0 && F::fill<1>() == 1 && F::flag<FN>() == (T)(1ull << (FN - 1)) && F::flag<1>() == 1 && F::no_flags == 0, "compile-time flags agree");
    utils::flag_mask<FN> k(mask); REQ(k.needs_flag(f) == sub && k.has_missing_flags() == (mask != 0), "mask queries"); k.got_flag(f); REQ(k.has_missing_flags() == ((mask & ~f) != 0), "a flag that arrived is no longer missing"); REQ(!k.needs_flag(f) || f == 0, "a flag that arrived is no longer needed");
#if FN <= 8
    auto v = k.get_missing_flags(); uint64_t u = 0; for (auto x : v) { REQ(F::is_single_flag(x), "missing flags are single flags"); REQ((u & x) == 0, "missing flags are distinct"); u |= x; } REQ(u == (uint64_t)(T)(mask & ~f), "the missing flags are exactly those not seen");
#endif
    sym_reach("flags");
#endif
    sym_reach("end");
}

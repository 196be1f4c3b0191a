// The weight domains (smallest / largest element, order, addition) against an exact model.
#include "sym.h"
#include "pdaaal/Weight.h"
using namespace pdaaal;
#ifndef T_
#define T_ uint32_t
#endif
#ifndef MX
#define MX 0      // 0 minimising, 1 maximising domain
#endif
#ifndef SHAPE
#define SHAPE 0   // 0 scalar, 1 array<T,2>, 2 vector up to 3
#endif
#ifndef VN
#define VN 3
#endif
using T = T_;
static constexpr bool SG = std::numeric_limits<T>::is_signed;
static T sv(const char* n) { return (T)S64(n, 0, sizeof(T) == 8 ? ~0ull : ((1ull << (8 * sizeof(T))) - 1)); }
static constexpr T TMAX = std::numeric_limits<T>::max(), TMIN = std::numeric_limits<T>::min();
// model: infinity is the worst element, the best element is the dual
static constexpr T WORST = (MX && SG) ? TMIN : TMAX;
static constexpr T BEST = MX ? (SG ? TMAX : (T)(TMAX - 1)) : TMIN;
static bool mless(T a, T b) { // a strictly better than b
    if (MX) { if (a == WORST) return false; if (b == WORST) return true; return a > b; }
    return a < b;
}
// the exact sum when it is neither saturated nor out of range
static bool exact(T a, T b, T& out) {
    if (a == WORST || b == WORST) { out = WORST; return true; }
    if (BEST != 0 && (a == BEST || b == BEST)) { out = BEST; return true; }
    if (SG ? ((b > 0 && a > TMAX - b) || (b < 0 && a < TMIN - b)) : a > (T)(TMAX - b)) return false; // overflow: outside the claim
    out = (T)(a + b); return true;
}
template <typename C> static bool mlex(const C& a, const C& b) {
    size_t n = a.size() > b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; ++i) { T x = i < a.size() ? a[i] : T(0), y = i < b.size() ? b[i] : T(0); if (BR(mless(x, y))) return true; if (BR(mless(y, x))) return false; }
    return false;
}
extern "C" void sym_main() {
    if constexpr (SHAPE == 0) {
        using D = details::weight_impl<T, MX>;
        static_assert(D::is_weight);
        T a = sv("a"), b = sv("b");
        REQ(D::max() == WORST && D::bottom() == BEST && D::zero() == T(0), "the constants are the worst, the best and the neutral element");
        REQ(D::less(a, b) == mless(a, b), "the order prefers smaller (larger) weights and puts infinity last");
        REQ(!D::less(a, D::bottom()), "nothing is better than bottom"); REQ(!D::less(D::max(), a), "nothing is worse than infinity");
        T c; if (exact(a, b, c)) { sym_reach("sum"); REQ(D::add(a, b) == c, "addition is exact and saturates at infinity and bottom"); }
        REQ(D::add(a, D::zero()) == a && D::add(D::zero(), a) == a, "zero is neutral");
        REQ(D::add(a, b) == D::add(b, a), "addition commutes");
        if (D::less(a, b)) sym_reach("less");
    } else {
        using C = std::conditional_t<SHAPE == 1, std::array<T, 2>, std::vector<T>>;
        using D = details::weight_impl<C, MX>;
        C a{}, b{};
#if SHAPE == 2
        size_t na = SC("na", 0, VN), nb = SC("nb", 0, VN); a.resize(na); b.resize(nb);
#endif
        for (auto& x : a) x = sv("a"); for (auto& x : b) x = sv("b");
        bool ab = mlex(a, b), ba = mlex(b, a);
        bool gab = D::less(a, b), gba = D::less(b, a);
        if (ab) { sym_reach("less"); REQ(gab && !gba, "a lexicographically better weight is preferred, missing components count as zero"); }
        else if (ba) REQ(!gab && gba, "a lexicographically better weight is preferred, missing components count as zero");
        else { sym_reach("tie"); REQ(!(gab && gba), "the order is asymmetric"); if (a.size() == b.size()) REQ(!gab && !gba, "equal weights are not ordered"); }
        REQ(!D::less(a, a), "the order is irreflexive");
        C s = D::add(a, b), r = D::add(b, a);
        size_t n = a.size() > b.size() ? a.size() : b.size();
        REQ(s.size() == n && r.size() == n, "the sum has the longer operand's length");
        for (size_t i = 0; i < n; ++i) { T x = i < a.size() ? a[i] : T(0), y = i < b.size() ? b[i] : T(0), c; if (exact(x, y, c)) { sym_reach("sum"); REQ(s[i] == c && r[i] == c, "addition works componentwise, missing components count as zero"); } }
        C z = D::add(a, D::zero()); REQ(z == a && D::add(D::zero(), a) == a, "zero is neutral");
        if (SHAPE == 1) { REQ(!D::less(a, D::bottom()) && !D::less(D::max(), a), "bottom and infinity bound every weight"); }
        REQ(D::max()[0] == WORST && D::bottom()[0] == BEST, "infinity and bottom");
    }
}

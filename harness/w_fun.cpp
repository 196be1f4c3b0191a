// Linear and ordered combinations of weight functions.
#include "sym.h"
#include "pdaaal/Weight.h"
using namespace pdaaal;
#ifndef T_
#define T_ int64_t
#endif
#ifndef VMAX
#define VMAX (1ull << 40)
#endif
using T = T_;
using F = linear_weight_function<T, size_t, T>;
static T coef(const char* n) { static const T c[] = {0, 1, 3, 5, (T)-2, 1000}; return c[SC(n, 0, std::is_signed_v<T> ? 5 : 3)]; }
extern "C" void sym_main() {
    T v[3]; for (auto& x : v) x = (T)S64("v", 0, VMAX); T arg = (T)S64("arg", 0, VMAX);
    T off = std::is_signed_v<T> ? (T)S64("off", 0, 1000) : 0;
    F f0(std::function<T(size_t, T)>([&](size_t i, T) -> T { return v[i] - off; })), f1(std::function<T(size_t, T)>([&](size_t, T a) -> T { return a; })), f2(std::function<T(size_t, T)>([&](size_t i, T a) -> T { return v[2 - i] + a; }));
    size_t i = SC("i", 0, 2);
    T w0 = v[i] - off, w1 = arg, w2 = v[2 - i] + arg;
    REQ(f0(i, arg) == w0 && f1(i, arg) == w1 && f2(i, arg) == w2, "a plain function is evaluated on the arguments");
    T c0 = coef("c"), c1 = coef("c"), c2 = coef("c");
    size_t k = SC("k", 0, 3); std::vector<std::pair<T, F>> fs; T want = 0;
    if (k > 0) { fs.emplace_back(c0, f0); want += c0 * w0; } if (k > 1) { fs.emplace_back(c1, f1); want += c1 * w1; } if (k > 2) { fs.emplace_back(c2, f2); want += c2 * w2; }
    F lin(fs); REQ(lin(i, arg) == want, "a linear combination is the weighted sum"); sym_reach("linear");
    std::vector<std::pair<T, F>> nest; nest.emplace_back(c1, lin); nest.emplace_back(c0, f1); F lin2(nest);
    T want2 = c1 * want + c0 * w1;
    REQ(lin2(i, arg) == want2, "linear combinations nest");
    std::vector<F> ord; size_t n = SC("n", 0, 3); if (n > 0) ord.push_back(f2); if (n > 1) ord.push_back(lin); if (n > 2) ord.push_back(lin2);
    ordered_weight_function<T, size_t, T> o(ord); auto r = o(i, arg);
    REQ(r.size() == n, "one component per function");
    if (n > 0) REQ(r[0] == w2, "components keep their order"); if (n > 1) REQ(r[1] == want, "components keep their order"); if (n > 2) REQ(r[2] == want2, "components keep their order");
}

// The verifier of the command-line tool: for every engine and trace type, the reported answer, weight and trace are those of the instance.
#include "solverh.h"
#include <sstream>
#include <iomanip>
#include <filesystem>
#include <array>
#include <nlohmann/json.hpp>
#ifndef WK
#define WK 1       // 0 unweighted, 1 weighted
#endif
#ifndef PAIR
#define PAIR 0     // 0: no trace, any trace, shortest trace; 1: longest and shortest trace by fixed point
#endif
#ifndef ELO
#define ELO 0
#endif
#ifndef EHI
#define EHI 4
#endif
#ifndef SLMIN
#define SLMIN 1
#endif
#ifndef SL1
#define SL1 2
#endif
// stand-ins: options are set directly, and entries are recorded instead of being printed
#define PDAAAL_JSON_STREAM_H
using json = nlohmann::json;
struct json_stream {
    std::vector<std::pair<std::string, json>> es;
    void begin_object(const std::string&) {} void end_object() {} void close() {}
    void entry(const std::string& k, const json& v) { es.emplace_back(k, v); }
    void entry_object(const std::string& k, const json& v) { es.emplace_back(k, v); }
    const json* get(const char* k, size_t& n) const { const json* r = nullptr; n = 0; for (auto& e : es) if (e.first == k) { r = &e.second; ++n; } return r; }
};
static size_t* optEngine; static Trace_Type* optTrace;
namespace po {
    template <typename T> struct value_t { T* p; value_t* default_value(T v) { *p = v; return this; } value_t* default_value(T v, const char*) { *p = v; return this; } value_t* required() { return this; } };
    inline value_t<size_t>* value(size_t* p, int) { optEngine = p; static value_t<size_t> v; v.p = p; return &v; }
    inline value_t<Trace_Type>* value(Trace_Type* p, int) { optTrace = p; static value_t<Trace_Type> v; v.p = p; return &v; }
    template <typename T> value_t<T>* value(T* p) { return value(p, 0); }
    struct options_description { explicit options_description(const std::string&) {} options_description& add_options() { return *this; } template <typename V> options_description& operator()(const char*, V&&, const char*) { return *this; } };
}
#include "utils/stopwatch.h"
#include "Verifier.h"
static int longest = 0;
static bool better(int64_t a, int64_t b) { return longest ? BR(a > b) : BR(a < b); }
#include "optim.h"
#if WK
using W = weight<int32_t>;
#else
using W = weight<void>;
#endif
extern "C" void sym_main() {
    std::vector<RuleS> rs; symRules(rs);
    size_t eng = SC("engine", ELO, EHI); Trace_Type tt = PAIR ? (SC("trace", 0, 1) ? Trace_Type::Longest : Trace_Type::ShortestFixedPoint) : (Trace_Type)SC("trace", 0, WK ? 2 : 1);
    longest = tt == Trace_Type::Longest;
    pda_t_<W> pda; mkPda<W>(pda, rs);
    size_t p0 = S64("p0", 0, NS - 1), p1 = S64("p1", 0, NS - 1); auto s0 = symStack("a", SLMIN, 1), s1 = symStack("b", SLMIN, SL1);
    constexpr auto ti = PAIR ? TraceInfoType::Pair : TraceInfoType::Single; using aut = aut_t_<W, ti>;
    PAutomatonProduct instance(pda, mkConfig<aut>(pda, p0, s0), mkConfig<aut>(pda, p1, s1));
    Verifier v("x"); REQ(optEngine && optTrace, "the verifier has an engine and a trace option"); *optEngine = eng; *optTrace = tt;
    REQ(v.needs_trace_info_pair() == PAIR, "the kind of trace information matches the trace type");
    json_stream out; bool threw = false;
    try { v.verify<ti>(instance, out); } catch (const std::runtime_error&) { threw = true; }
    REQ(threw == (eng > 3), "an engine that does not exist is rejected");
    if (threw) { sym_reach("no such engine"); return; }
    if (eng == 0) { REQ(out.es.empty(), "nothing is reported without an engine"); sym_reach("no engine"); return; }
    conc(s0); conc(s1); p0 = sym_concretize(p0); p1 = sym_concretize(p1); pinRules(rs);
    Opt o(NS, NL, rs, p1, s1); o.run(); int64_t best = 0; bool inf = false; bool want = o.best(p0, s0, best, inf); bool weighted = tt != Trace_Type::None && tt != Trace_Type::Any;
    size_t k; auto* e = out.get("engine", k); static const std::string names[4] = {"", "post*", "pre*", "dual*"};
    REQ(k == 1 && e->is_string() && e->get_ref<const std::string&>() == names[eng], "the engine that was used is named");
    auto* r = out.get("result", k); REQ(k == 1 && r->is_boolean(), "one result"); REQ(r->get<bool>() == want, "the result is exactly reachability");
    auto* w = out.get("weight", k); REQ(k == (want && weighted ? 1u : 0u), "a weight is reported exactly for traces by weight");
    if (w) {
        if (inf) { REQ(w->is_string() && w->get_ref<const std::string&>() == (longest ? "infinity" : "negative infinity"), "an unbounded weight is reported as such"); sym_reach("unbounded"); }
        else { REQ(w->is_number_integer(), "a bounded weight is a number"); REQ(w->get<int64_t>() == best, "the reported weight is the optimum"); sym_reach("weight"); }
    }
    auto* t = out.get("trace", k); REQ(k == 1, "one trace");
    if (!want || tt == Trace_Type::None) { REQ(t->empty(), "no trace is reported without one"); sym_reach(want ? "reachable" : "unreachable"); return; }
    if (inf && weighted) return; // which run stands for an unbounded weight is not specified
    REQ(t->is_array() && !t->empty(), "a trace is reported"); sym_reach("trace");
    struct C { size_t p; std::vector<uint32_t> s; }; std::vector<C> cs;
    for (auto& x : *t) { C c; c.p = x.at("state").get<size_t>(); for (auto& l : x.at("stack")) c.s.push_back((uint32_t)(l.get<int>() - (int)LB)); cs.push_back(c); }
    auto same = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!BR(a[i] == b[i])) return false; return true; };
    REQ(cs.front().p == p0 && same(cs.front().s, s0), "the trace begins in the initial configuration");
    REQ(cs.back().p == p1 && same(cs.back().s, s1), "the trace ends in the target configuration");
    int64_t sum = 0;
    for (size_t i = 0; i + 1 < cs.size(); ++i) {
        bool any = false; int64_t m = 0;
        for (auto& q : rs) { size_t s = cs[i].p; auto st = cs[i].s; if (!applyRule(q, s, st) || !BR(s == cs[i + 1].p) || !same(st, cs[i + 1].s)) continue; if (!any || better(q.w, m)) m = q.w; any = true; }
        REQ(any, "each step of the trace is a rule"); sum += m;
    }
    if (weighted) REQ(sum == best, "the trace has the reported weight");
}

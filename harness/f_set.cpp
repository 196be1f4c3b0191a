// Sequences of operations on the flat and nested containers against a plain list model.
#include "sym.h"
#include "pdaaal/utils/fut_set.h"
#include <vector>
#include <array>
using namespace pdaaal;
#ifndef KIND
#define KIND 0   // 0 vector_set, 1 vector_map, 2 tuple set (2 levels), 3 tuple map (2 levels), 4 tuple map (1 level, tuple value), 5 conversion hash -> vector, 6 three levels
#endif
#ifndef C1
#define C1 vector
#endif
#ifndef C2
#define C2 vector
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef KM
#define KM 3     // keys 0..KM
#endif
#ifdef MOVK  // keys that own something: a moved-from key is no longer the key
struct K { uint32_t v; K(uint32_t x = 0) : v(x) {} K(const K& o) : v(o.v) {} K(K&& o) noexcept : v(o.v) { o.v = 99; } K& operator=(const K& o) { v = o.v; return *this; } K& operator=(K&& o) noexcept { uint32_t t = o.v; o.v = 99; v = t; return *this; }
    friend bool operator==(const K& a, const K& b) { return a.v == b.v; } friend bool operator!=(const K& a, const K& b) { return a.v != b.v; } friend bool operator<(const K& a, const K& b) { return a.v < b.v; }
    template <typename H> friend H AbslHashValue(H h, const K& k) { return H::combine(std::move(h), k.v); } };
#else
using K = uint32_t;
#endif
using V = uint32_t;
static K key(const char* n) { return K((uint32_t)S64(n, 0, KM)); }
static V val(const char* n) { return (V)S64(n, 0, 100); }
struct M { struct E { K a, b; V v; }; std::vector<E> es;
    E* get(K a, K b = 0) { for (auto& e : es) if (BR(e.a == a) && BR(e.b == b)) return &e; return nullptr; }
    bool head(K a) { for (auto& e : es) if (BR(e.a == a)) return true; return false; } };
template <typename C> static bool sorted(const C& c) { bool ok = true; for (size_t i = 0; i + 1 < c.size(); ++i) if (!BR(c[i] < c[i + 1])) ok = false; return ok; }
extern "C" void sym_main() {
    M m;
#if KIND == 0
    fut::vector_set<K> s;
    for (size_t i = 0; i < NOPS; ++i) { K k = key("k");
        switch (SC("op", 0, 2)) {
            case 0: { auto [it, fresh] = s.emplace(k); bool had = m.get(k); REQ(*it == k && fresh == !had, "emplace returns the element and whether it is new"); if (!had) m.es.push_back({k, 0, 0}); break; }
            case 1: { bool had = m.get(k); REQ(s.contains(k) == had, "contains"); auto it = s.find(k); REQ((it != s.end()) == had, "find"); if (had) { REQ(*it == k, "find"); sym_reach("found"); } break; }
            case 2: { auto it = s.lower_bound(k); size_t n = 0; for (auto& e : m.es) if (BR(e.a < k)) ++n; REQ((size_t)(it - s.begin()) == n, "lower_bound counts the smaller elements"); break; }
        }
        REQ(s.size() == m.es.size() && s.empty() == m.es.empty(), "size"); REQ(sorted(s), "elements are iterated in strictly ascending order");
    }
    for (auto x : s) REQ(m.get(x), "only inserted elements are stored");
    K k = key("q"); const auto& cs = s; bool had = m.get(k); REQ((cs.find(k) != cs.end()) == had && cs.contains(k) == had, "membership");
    if (s.size() > 1) { K f = s[0]; s.resize(1); REQ(s.size() == 1 && s[0] == f, "resize keeps the smallest elements"); s.clear(); REQ(s.empty() && !s.contains(k), "clear"); }
#elif KIND == 1
    fut::vector_map<K, V> s;
    for (size_t i = 0; i < NOPS; ++i) { K k = key("k"); V v = val("v"); auto* e = m.get(k); size_t op = SC("op", 0, 3);
        if (op == 0) { auto [it, fresh] = s.emplace(k, v); REQ(it->first == k && fresh == !e && it->second == (e ? e->v : v), "emplace keeps an existing value"); if (!e) m.es.push_back({k, 0, v}); }
        else if (op == 1) { auto [it, fresh] = s.try_emplace(K(k), v); REQ(it->first == k && fresh == !e && it->second == (e ? e->v : v), "try_emplace keeps an existing value"); if (!e) m.es.push_back({k, 0, v}); }
        else if (op == 2) { auto r = SB("mv") ? s.insert_or_assign(K(k), v) : s.insert_or_assign(k, v); REQ(r.first->first == k && r.second == !e && r.first->second == v, "insert_or_assign overwrites"); if (e) { e->v = v; sym_reach("overwrite"); } else m.es.push_back({k, 0, v}); }
        else { auto it = s.find(k); REQ((it != s.end()) == (e != nullptr) && s.contains(k) == (e != nullptr), "find"); if (e) REQ(it->first == k && it->second == e->v, "find returns the value"); size_t n = 0; for (auto& x : m.es) if (BR(x.a < k)) ++n; REQ((size_t)(s.lower_bound(k) - s.begin()) == n, "lower_bound"); }
        REQ(s.size() == m.es.size() && s.empty() == m.es.empty(), "size"); for (size_t j = 0; j + 1 < s.size(); ++j) REQ(s[j].first < s[j + 1].first, "entries are iterated in strictly ascending key order");
    }
    for (auto& x : s) { auto* e = m.get(x.first); REQ(e && e->v == x.second, "exactly the inserted entries are stored"); }
    const auto& cs = s; K k = key("q"); auto* e = m.get(k); auto it = cs.find(k); REQ((it != cs.end()) == (e != nullptr), "find"); if (e) REQ(it->second == e->v, "find");
#elif KIND == 2
    fut::set<std::tuple<K, K>, fut::type::C1, fut::type::C2> s;
    for (size_t i = 0; i < NOPS; ++i) { K a = key("a"), b = key("b"); auto* e = m.get(a, b); size_t op = SC("op", 0, 2);
        if (op == 0) { auto [it, fresh] = SB("mv") ? s.emplace(K(a), K(b)) : s.emplace(a, b); REQ(fresh == !e && *it == b, "emplace reports whether the tuple is new"); if (!e) m.es.push_back({a, b, 0}); }
        else if (op == 1) { auto [it, fresh] = SB("mv") ? s.insert_or_assign(K(a), K(b)) : s.insert_or_assign(a, b); REQ(fresh == !e && *it == b, "insert_or_assign reports whether the tuple is new"); if (!e) m.es.push_back({a, b, 0}); }
        else { REQ(s.contains(a, b) == (e != nullptr), "contains"); if (e) sym_reach("found"); }
    }
    size_t n = 0; for (auto& [a, in] : s) for (auto& b : in) { ++n; REQ(m.get(a, b), "only inserted tuples are iterated"); } REQ(n == m.es.size(), "every inserted tuple is iterated once");
    K a = key("qa"); REQ((s.find(a) != s.end()) == m.head(a), "find by first component"); REQ(s.empty() == m.es.empty(), "empty");
    s.clear(); REQ(s.empty() && !s.contains(a, a), "clear");
#elif KIND == 3
    fut::set<std::tuple<K, K, V>, fut::type::C1, fut::type::C2> s;
    for (size_t i = 0; i < NOPS; ++i) { K a = key("a"), b = key("b"); V v = val("v"); auto* e = m.get(a, b); size_t op = SC("op", 0, 2);
        if (op == 0) { auto [it, fresh] = SB("mv") ? s.emplace(K(a), K(b), v) : s.emplace(a, b, v); REQ(fresh == !e && it->first == b && it->second == (e ? e->v : v), "emplace keeps an existing value"); if (!e) m.es.push_back({a, b, v}); }
        else if (op == 1) { auto [it, fresh] = SB("mv") ? s.insert_or_assign(K(a), K(b), v) : s.insert_or_assign(a, b, v); REQ(fresh == !e && it->second == v, "insert_or_assign overwrites"); if (e) { e->v = v; sym_reach("overwrite"); } else m.es.push_back({a, b, v}); }
        else { auto* p = s.get(a, b); REQ((p != nullptr) == (e != nullptr) && s.contains(a, b) == (e != nullptr), "get"); if (e) { REQ(*p == e->v, "get returns the value"); *p = v; e->v = v; } }
    }
    size_t n = 0; for (auto& [a, in] : s) for (auto& [b, v] : in) { ++n; auto* e = m.get(a, b); REQ(e && e->v == v, "only inserted tuples are iterated"); } REQ(n == m.es.size(), "every inserted tuple is iterated once");
    const auto& cs = s; K a = key("qa"), b = key("qb"); auto* e = m.get(a, b); auto* p = cs.get(a, b); REQ((p != nullptr) == (e != nullptr), "get"); if (e) REQ(*p == e->v, "get"); REQ((cs.find(a) != cs.end()) == m.head(a), "find by first component");
#elif KIND == 4
    fut::set<std::tuple<K, V, V>, fut::type::C1> s;
    for (size_t i = 0; i < NOPS; ++i) { K a = key("a"); V v = val("v"); auto* e = m.get(a); size_t op = SC("op", 0, 2);
        if (op == 0) { auto [it, fresh] = s.emplace(a, std::make_tuple(v, v + 1)); REQ(fresh == !e && it->first == a && std::get<0>(it->second) == (e ? e->v : v), "emplace keeps an existing value"); if (!e) m.es.push_back({a, 0, v}); }
        else if (op == 1) { auto [it, fresh] = s.insert_or_assign(a, std::make_tuple(v, v + 1)); REQ(fresh == !e && std::get<0>(it->second) == v, "insert_or_assign overwrites"); if (e) { e->v = v; sym_reach("overwrite"); } else m.es.push_back({a, 0, v}); }
        else { auto* p = s.get(a); REQ((p != nullptr) == (e != nullptr) && s.contains(a) == (e != nullptr), "get"); if (e) REQ(std::get<0>(*p) == e->v && std::get<1>(*p) == e->v + 1, "get returns the value"); }
    }
    REQ(s.size() == m.es.size(), "size"); for (auto& [a, v] : s) { auto* e = m.get(a); REQ(e && e->v == std::get<0>(v), "only inserted tuples are iterated"); }
#elif KIND == 5
    fut::set<std::tuple<K, V>, fut::type::hash> h; std::unordered_set<K, absl::Hash<K>> hs;
    for (size_t i = 0; i < NOPS; ++i) { K a = key("a"); V v = val("v"); auto* e = m.get(a); h.insert_or_assign(a, v); hs.emplace(a); if (e) { e->v = v; sym_reach("overwrite"); } else m.es.push_back({a, 0, v}); }
    bool mv = SB("mv"); auto hs2 = hs; auto h2 = h;
    fut::vector_set<K> vs = mv ? fut::vector_set<K>(std::move(hs2)) : fut::vector_set<K>(hs);
    REQ(vs.size() == m.es.size() && sorted(vs), "conversion sorts and keeps every element"); for (auto x : vs) REQ(m.get(x), "conversion keeps the elements");
    fut::set<std::tuple<K, V>, fut::type::vector> v = mv ? fut::set<std::tuple<K, V>, fut::type::vector>(std::move(h2)) : fut::set<std::tuple<K, V>, fut::type::vector>(h);
    REQ(v.size() == m.es.size(), "conversion keeps the size"); for (size_t j = 0; j + 1 < v.size(); ++j) REQ(v[j].first < v[j + 1].first, "conversion sorts");
    for (auto& x : m.es) { auto* p = v.get(x.a); REQ(p && *p == x.v, "conversion keeps every entry"); }
    K q = key("q"); REQ((v.get(q) != nullptr) == (m.get(q) != nullptr) && v.contains(q) == (m.get(q) != nullptr), "membership after conversion");
#elif KIND == 6
    fut::set<std::tuple<K, K, K>, fut::type::C1, fut::type::C2, fut::type::C1> s; std::vector<std::array<K, 3>> l;
    auto has = [&](K a, K b, K c) { for (auto& x : l) if (BR(x[0] == a) && BR(x[1] == b) && BR(x[2] == c)) return true; return false; };
    for (size_t i = 0; i < NOPS; ++i) { K a = key("a"), b = key("b"), c = key("c"); bool had = has(a, b, c); if (SB("op")) { auto r = s.emplace(a, b, c); REQ(r.second == !had, "emplace reports whether the tuple is new"); if (!had) l.push_back({a, b, c}); else sym_reach("again"); } else REQ(s.contains(a, b, c) == had, "contains"); }
    size_t n = 0; for (auto& [a, x] : s) for (auto& [b, y] : x) for (auto& c : y) { ++n; REQ(has(a, b, c), "only inserted tuples are iterated"); } REQ(n == l.size(), "every inserted tuple is iterated once");
#endif
    sym_reach("end");
}

// Label type for NFAs: hashed to one value, so that hash sets depend on equality only.
#pragma once
#include <cstdint>
#include <functional>
struct Lb { uint32_t v; friend bool operator<(const Lb& a, const Lb& b) { return a.v < b.v; } friend bool operator==(const Lb& a, const Lb& b) { return a.v == b.v; } friend bool operator!=(const Lb& a, const Lb& b) { return a.v != b.v; } };
namespace std { template <> struct hash<Lb> { size_t operator()(const Lb&) const { return 0; } }; }

// Harness interface: implemented by the symbolic engine, or by native.cpp when a counterexample is replayed.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
    uint64_t sym_var(const char* name, uint64_t lo, uint64_t hi);   // fresh input in [lo,hi]
    void sym_assume(int c);
    void sym_assert(int c, const char* tag);
    uint64_t sym_pin(uint64_t v);          // concrete if the path condition fixes the value
    uint64_t sym_concretize(uint64_t v);   // case split on the value
    void sym_reach(const char* tag);
    void sym_note(const char* tag, uint64_t v);
    int sym_is_concrete(uint64_t v);
    void sym_main();
}
static inline uint64_t S64(const char* n, uint64_t lo, uint64_t hi) { return sym_var(n, lo, hi); }
static inline uint32_t S32(const char* n, uint64_t lo, uint64_t hi) { return (uint32_t)sym_var(n, lo, hi); }
static inline size_t SC(const char* n, uint64_t lo, uint64_t hi) { return sym_concretize(sym_var(n, lo, hi)); }
static inline bool SB(const char* n) { return sym_var(n, 0, 1) != 0; }
#define REQ(c, tag) sym_assert((c) ? 1 : 0, tag)
#define ASSUME(c) sym_assume((c) ? 1 : 0)
#define BR(c) (sym_concretize((c) ? 1 : 0) != 0)

// Native replay runtime: reads the counterexample inputs and runs the harness on the really compiled code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
static std::vector<std::pair<std::string, uint64_t>> in; static size_t pos = 0;
extern "C" {
uint64_t sym_var(const char* name, uint64_t lo, uint64_t hi) {
    if (pos >= in.size()) { fprintf(stderr, "REPLAY: more inputs requested than recorded (%s); using %llu\n", name, (unsigned long long)lo); return lo; }
    auto& p = in[pos++]; if (p.first != name) fprintf(stderr, "REPLAY: input order differs: want %s have %s\n", name, p.first.c_str());
    fprintf(stderr, "REPLAY-INPUT %s = %llu\n", name, (unsigned long long)p.second);
    if (p.second < lo || p.second > hi) { fprintf(stderr, "REPLAY: out of range\n"); exit(77); }
    return p.second;
}
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); fflush(nullptr); _Exit(77); } }
void sym_assert(int c, const char* tag) { if (!c) { printf("REPLAY-VIOLATION %s\n", tag); fflush(nullptr); _Exit(1); } }
uint64_t sym_pin(uint64_t v) { return v; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_reach(const char*) {}
void sym_note(const char* t, uint64_t v) { fprintf(stderr, "REPLAY-NOTE %s %llu\n", t, (unsigned long long)v); }
int sym_is_concrete(uint64_t) { return 1; }
}
int main(int argc, char** argv) {
    if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) return 78; char buf[4096]; while (fgets(buf, sizeof buf, f)) { if (buf[0] == '#') continue; char n[512]; unsigned long long v; if (sscanf(buf, "%511s %llu", n, &v) == 2) in.push_back({n, v}); } fclose(f); }
    sym_main(); printf("REPLAY-OK\n"); fflush(nullptr); _Exit(0);
}

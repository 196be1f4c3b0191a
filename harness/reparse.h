// Recursive-descent reading of the text syntax, independent of the code under test (regen.h gives the languages).
#pragma once
struct Parser {
    const std::string& t; size_t i = 0; bool bad = false;
    bool is(char c) const { return i < t.size() && BR(t[i] == c); }
    bool one(const char* s) const { if (i >= t.size()) return false; int r = 0; for (; *s; ++s) r |= t[i] == *s; return BR(r); }
    bool ident() const { if (i >= t.size()) return false; unsigned char c = (unsigned char)t[i]; return BR((c >= 'a' & c <= 'z') | (c >= 'A' & c <= 'Z') | (c >= '0' & c <= '9') | (c == '_')); }
    void ws() { for (;;) { if (one(" \t\n\v\f\r")) ++i; else if (is('#')) { while (i < t.size() && !is('\n')) ++i; if (i < t.size()) ++i; } else return; } }
    uint32_t label() { uint32_t v = 0; size_t k = 0; while (ident()) { v = v * 128 + (unsigned char)t[i++]; ++k; } if (!k) bad = true; return v; }
    bool starts() const { return is('.') || is('(') || is('['); }
    Re set() {
        ++i; bool neg = is('^'); if (neg) ++i; std::vector<uint32_t> ls;
        for (;;) { ls.push_back(label()); if (bad) return Re::none(); size_t s = i; ws(); if (is(',')) { ++i; ws(); continue; } i = s; break; }
        if (!is(']')) { bad = true; return Re::none(); } ++i;
        return Re::let([=](uint32_t x) { int r = 0; for (auto l : ls) r |= x == l; return neg ? !r : r; });
    }
    Re value() { if (is('.')) { ++i; return Re::let([](uint32_t) { return 1; }); } if (is('(')) { ++i; ws(); Re r = expr(); if (bad) return r; ws(); if (!is(')')) { bad = true; return r; } ++i; return r; } return set(); }
    Re unary() { Re r = value(); if (bad) return r; if (is('*')) { ++i; return r.star(); } if (is('+')) { ++i; return r * r.star(); } if (is('?')) { ++i; return Re::eps() + r; } return r; }
    Re seq() { if (!starts()) { bad = true; return Re::none(); } Re r = unary(); while (!bad) { size_t s = i; ws(); if (!starts()) { i = s; break; } Re q = unary(); r = r * q; } return r; }
    Re expr() { Re r = seq(); while (!bad) { size_t s = i; ws(); if (!is('|')) { i = s; break; } ++i; ws(); Re q = seq(); r = r + q; } return r; }
    Re file() { ws(); if (i == t.size()) return Re::eps(); Re r = expr(); if (bad) return r; ws(); if (i != t.size()) bad = true; return r; }
};

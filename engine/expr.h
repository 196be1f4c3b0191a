// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <memory>
#include <z3.h>
typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef int64_t s64;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
    Op op; uint16_t w;
    uint32_t id;
    const Expr *a, *b, *c;
    u128 k;                 // constant value / var id / extract offset
    mutable u64 stamp = 0;  // evaluation memo
    mutable u128 ev = 0;
    mutable Z3_ast z = nullptr;
    mutable const VarSet* vs = nullptr;
    mutable uint64_t h;
    mutable u64 rlo = 0, rhi = 0; mutable uint8_t rk = 0;
};
typedef const Expr* E;

struct VarInfo { std::string name; unsigned w; u64 lo, hi; bool ranged; Z3_ast z; };

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u128 sextw(u128 v, unsigned w) { // sign extend to 128
    if (w >= 128) return v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (v ^ m) - m;
}

struct ExprPool {
    std::vector<Expr*> table; size_t mask, count = 0;
    std::vector<VarInfo> vars;
    uint32_t nextid = 1;
    // arena
    char* cur = nullptr; size_t left = 0;
    ExprPool() { table.assign(1 << 16, nullptr); mask = table.size() - 1; }
    Expr* alloc() {
        if (left < sizeof(Expr)) { left = 1 << 20; cur = (char*)malloc(left); }
        Expr* e = new (cur) Expr(); cur += sizeof(Expr); left -= sizeof(Expr); return e;
    }
    static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
    E mk(Op op, unsigned w, E a, E b, E c, u128 k) {
        u64 h = mix(mix(mix(mix(mix(op * 131 + w, (u64)a), (u64)b), (u64)c), (u64)k), (u64)(k >> 64));
        h ^= h >> 29;
        size_t i = h & mask;
        while (Expr* e = table[i]) {
            if (e->h == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->k == k) return e;
            i = (i + 1) & mask;
        }
        Expr* e = alloc();
        e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->k = k; e->h = h; e->id = nextid++;
        table[i] = e;
        if (++count * 2 > table.size()) {
            std::vector<Expr*> nt(table.size() * 2, nullptr); size_t nm = nt.size() - 1;
            for (auto* x : table) if (x) { size_t j = x->h & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
            table.swap(nt); mask = nm;
        }
        return e;
    }
    E cst(u128 v, unsigned w) { return mk(CONST, w, 0, 0, 0, v & maskw(w)); }
    E tru() { static E t = cst(1, 1); return t; }
    E fls() { static E t = cst(0, 1); return t; }
    E newvar(const std::string& name, unsigned w, bool ranged, u64 lo, u64 hi) {
        uint32_t id = vars.size();
        vars.push_back({name, w, lo, hi, ranged, nullptr});
        return mk(VAR, w, 0, 0, 0, id);
    }
    static bool isc(E e) { return e->op == CONST; }
    static bool isc(E e, u128 v) { return e->op == CONST && e->k == v; }
    static bool allones(E e) { return e->op == CONST && e->k == maskw(e->w); }

    E not_(E a) { return bin(XOR, a, cst(maskw(a->w), a->w)); }
    E eq(E a, E b) { return bin(EQ, a, b); }
    E ite(E c, E t, E f) {
        if (isc(c)) return c->k ? t : f;
        if (t == f) return t;
        if (t->w == 1) {
            if (isc(t, 1) && isc(f, 0)) return c;
            if (isc(t, 0) && isc(f, 1)) return not_(c);
            if (isc(t, 1)) return bin(OR, c, f);
            if (isc(f, 0)) return bin(AND, c, t);
            if (isc(t, 0)) return bin(AND, not_(c), f);
            if (isc(f, 1)) return bin(OR, not_(c), t);
        }
        // negated condition
        if (c->op == XOR && c->w == 1 && isc(c->b, 1)) return ite(c->a, f, t);
        if (t->op == ITE && t->a == c) t = t->b;
        if (f->op == ITE && f->a == c) f = f->c;
        if (t == f) return t;
        return mk(ITE, t->w, c, t, f, 0);
    }
    E extract(E a, unsigned off, unsigned w) {
        if (off == 0 && w == a->w) return a;
        switch (a->op) {
            case CONST: return cst(a->k >> off, w);
            case EXTRACT: return extract(a->a, off + (unsigned)a->k, w);
            case CONCAT: { // a = hi, b = lo
                unsigned lw = a->b->w;
                if (off + w <= lw) return extract(a->b, off, w);
                if (off >= lw) return extract(a->a, off - lw, w);
                return concat(extract(a->a, 0, off + w - lw), extract(a->b, off, lw - off));
            }
            case ZEXT: {
                unsigned iw = a->a->w;
                if (off >= iw) return cst(0, w);
                if (off + w <= iw) return extract(a->a, off, w);
                return zext(extract(a->a, off, iw - off), w);
            }
            case SEXT: {
                unsigned iw = a->a->w;
                if (off + w <= iw) return extract(a->a, off, w);
                if (off < iw) return sext(extract(a->a, off, iw - off), w);
                break;
            }
            case ITE:
                if (isc(a->b) || isc(a->c)) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
                break;
            case AND: case OR: case XOR:
                if (isc(a->b)) return bin(a->op, extract(a->a, off, w), extract(a->b, off, w));
                break;
            case ADD: case SUB: case MUL:
                if (off == 0 && w >= 32) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
                break;
            default: break;
        }
        return mk(EXTRACT, w, a, 0, 0, off);
    }
    E raw(E a, unsigned off, unsigned w) { if (off == 0 && w == a->w) return a; if (a->op == ADD || a->op == SUB || a->op == MUL) return mk(EXTRACT, w, a, 0, 0, off); return extract(a, off, w); }
    E concat(E hi, E lo) {
        if (isc(hi) && isc(lo)) return cst((hi->k << lo->w) | lo->k, hi->w + lo->w);
        if (isc(hi, 0)) return zext(lo, hi->w + lo->w);
        if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w)
            return raw(hi->a, (unsigned)lo->k, hi->w + lo->w);
        if (hi->op == EXTRACT && hi->a == lo && hi->k == lo->w) return raw(lo, 0, hi->w + lo->w); // not valid widths, never hit
        // zext(extract tail) ++ ...
        if (hi->op == ZEXT && hi->a->op == EXTRACT && lo->op == EXTRACT && hi->a->a == lo->a && hi->a->k == lo->k + lo->w)
            return zext(raw(lo->a, (unsigned)lo->k, hi->a->w + lo->w), hi->w + lo->w);
        if (hi->op == ZEXT) return zext(concat(hi->a, lo), hi->w + lo->w);
        if (hi->op == ITE && lo->op == ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
        if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && hi->a == lo->a->a && hi->k == lo->a->k + lo->a->w)
            return concat(raw(hi->a, (unsigned)lo->a->k, hi->w + lo->a->w), lo->b);
        return mk(CONCAT, hi->w + lo->w, hi, lo, 0, 0);
    }
    E zext(E a, unsigned w) {
        if (w == a->w) return a;
        if (isc(a)) return cst(a->k, w);
        if (a->op == ZEXT) return zext(a->a, w);
        if (a->op == ITE && (isc(a->b) && isc(a->c))) return ite(a->a, zext(a->b, w), zext(a->c, w));
        return mk(ZEXT, w, a, 0, 0, 0);
    }
    E sext(E a, unsigned w) {
        if (w == a->w) return a;
        if (isc(a)) return cst(sextw(a->k, a->w), w);
        if (a->op == SEXT) return sext(a->a, w);
        if (a->op == ZEXT) return zext(a->a, w);
        if (a->op == ITE && (isc(a->b) && isc(a->c))) return ite(a->a, sext(a->b, w), sext(a->c, w));
        return mk(SEXT, w, a, 0, 0, 0);
    }
    static bool fold(Op op, u128 x, u128 y, unsigned w, u128& r) {
        u128 m = maskw(w);
        switch (op) {
            case ADD: r = x + y; break;
            case SUB: r = x - y; break;
            case MUL: r = x * y; break;
            case UDIV: if (!y) return false; r = x / y; break;
            case UREM: if (!y) return false; r = x % y; break;
            case SDIV: case SREM: {
                __int128 sx = (__int128)sextw(x, w), sy = (__int128)sextw(y, w);
                if (!sy) return false;
                if (sy == -1) { r = op == SDIV ? (u128)(-(u128)sx) : 0; break; }
                r = op == SDIV ? (u128)(sx / sy) : (u128)(sx % sy); break; }
            case AND: r = x & y; break;
            case OR: r = x | y; break;
            case XOR: r = x ^ y; break;
            case SHL: r = y >= w ? 0 : x << (unsigned)y; break;
            case LSHR: r = y >= w ? 0 : (x & m) >> (unsigned)y; break;
            case ASHR: { __int128 sx = (__int128)sextw(x, w); unsigned sh = y >= w ? w - 1 : (unsigned)y; r = (u128)(sx >> sh); break; }
            case EQ: r = x == y; return true;
            case ULT: r = x < y; return true;
            case ULE: r = x <= y; return true;
            case SLT: r = (__int128)sextw(x, w) < (__int128)sextw(y, w); return true;
            case SLE: r = (__int128)sextw(x, w) <= (__int128)sextw(y, w); return true;
            default: return false;
        }
        r &= m; return true;
    }
    // unsigned interval of a term, w <= 64
    void urange(E e, u64& lo, u64& hi) {
        if (e->rk) { lo = e->rlo; hi = e->rhi; return; }
        u64 m = (u64)maskw(e->w), al, ah, bl, bh; lo = 0; hi = m;
        switch (e->op) {
            case CONST: lo = hi = (u64)e->k; break;
            case VAR: { auto& v = vars[(size_t)e->k]; if (v.ranged) { lo = v.lo; hi = v.hi; } break; }
            case ZEXT: urange(e->a, lo, hi); break;
            case EXTRACT: if (e->k == 0 && e->a->w <= 64) { urange(e->a, al, ah); if (ah <= m) { lo = al; hi = ah; } } break;
            case CONCAT: urange(e->a, al, ah); urange(e->b, bl, bh); lo = (al << e->b->w) + bl; hi = (ah << e->b->w) + bh; break;
            case ADD: urange(e->a, al, ah); urange(e->b, bl, bh); if ((u128)ah + bh <= m) { lo = al + bl; hi = ah + bh; } break;
            case SUB: urange(e->a, al, ah); urange(e->b, bl, bh); if (al >= bh) { lo = al - bh; hi = ah - bl; } break;
            case MUL: urange(e->a, al, ah); urange(e->b, bl, bh); if ((u128)ah * bh <= m) { lo = al * bl; hi = ah * bh; } break;
            case ITE: urange(e->b, al, ah); urange(e->c, bl, bh); lo = std::min(al, bl); hi = std::max(ah, bh); break;
            case AND: urange(e->a, al, ah); urange(e->b, bl, bh); hi = std::min(ah, bh); break;
            case LSHR: urange(e->a, al, ah); if (isc(e->b) && e->b->k < e->w) { lo = al >> (u64)e->b->k; hi = ah >> (u64)e->b->k; } break;
            case UDIV: urange(e->a, al, ah); if (isc(e->b) && e->b->k) { lo = al / (u64)e->b->k; hi = ah / (u64)e->b->k; } break;
            case UREM: if (isc(e->b) && e->b->k) hi = (u64)e->b->k - 1; break;
            default: break;
        }
        e->rlo = lo; e->rhi = hi; e->rk = 1;
    }
    unsigned lowz(E e) { // number of low bits known zero
        if (isc(e)) { if (!e->k) return e->w; unsigned n = 0; while (!((e->k >> n) & 1)) ++n; return n; }
        if (e->op == CONCAT) { unsigned l = lowz(e->b); return l < e->b->w ? l : l + lowz(e->a); }
        if (e->op == ZEXT) { unsigned l = lowz(e->a); return l < e->a->w ? l : e->w; }
        if (e->op == SHL && isc(e->b) && e->b->k < e->w) return (unsigned)e->b->k;
        return 0;
    }
    unsigned topw(E e) { // width outside of which all high bits are known zero
        if (isc(e)) { unsigned n = e->w; while (n && !((e->k >> (n - 1)) & 1)) --n; return n; }
        if (e->op == ZEXT) return topw(e->a);
        if (e->op == CONCAT && !isc(e->a)) return e->b->w + topw(e->a);
        return e->w;
    }
    int (*cmpHook)(Op, E, E) = nullptr; // decides a comparison by intervals: -1 unknown
    static bool iscmp(Op op) { return op >= EQ && op <= SLE; }
    E bin(Op op, E a, E b) {
        unsigned w = a->w, rw = iscmp(op) ? 1 : w;
        if (isc(a) && isc(b)) { u128 r; if (fold(op, a->k, b->k, w, r)) return cst(r, rw); }
        bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
        if (comm && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
        // push op into ITE with constant arms
        if (isc(b) && a->op == ITE && isc(a->b) && isc(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        if (!comm && isc(a) && b->op == ITE && isc(b->b) && isc(b->c)) return ite(b->a, bin(op, a, b->b), bin(op, a, b->c));
        if ((op == AND || op == OR || op == XOR) && a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return zext(bin(op, a->a, b->a), w);
        switch (op) {
            case ADD:
                if (isc(b, 0)) return a;
                if (isc(b) && a->op == ADD && isc(a->b)) return bin(ADD, a->a, cst(a->b->k + b->k, w));
                break;
            case SUB:
                if (a == b) return cst(0, w);
                if (isc(b)) return bin(ADD, a, cst((u128)0 - b->k, w));
                if (a->op == ADD && isc(a->b) && b->op == ADD && isc(b->b)) return bin(ADD, bin(SUB, a->a, b->a), cst(a->b->k - b->b->k, w));
                if (a->op == ADD && a->a == b) return a->b;
                if (a->op == ADD && a->b == b) return a->a;
                break;
            case MUL:
                if (isc(b, 0)) return b;
                if (isc(b, 1)) return a;
                break;
            case UDIV: if (isc(b, 1)) return a; break;
            case AND:
                if (a == b) return a;
                if (isc(b, 0)) return b;
                if (allones(b)) return a;
                if (isc(b) && a->op == AND && isc(a->b)) return bin(AND, a->a, cst(a->b->k & b->k, w));
                if (isc(b) && a->op == ZEXT && w <= 128 && (b->k & maskw(a->a->w)) == maskw(a->a->w)) return a;
                if (w == 1) {
                    if (a->op == XOR && isc(a->b, 1) && a->a == b) return fls();
                    if (b->op == XOR && isc(b->b, 1) && b->a == a) return fls();
                }
                break;
            case OR:
                if (a == b) return a;
                if (isc(b, 0)) return a;
                if (allones(b)) return b;
                if (w == 1) {
                    if (a->op == XOR && isc(a->b, 1) && a->a == b) return tru();
                    if (b->op == XOR && isc(b->b, 1) && b->a == a) return tru();
                } else { // disjoint halves: reassembled aggregates
                    unsigned la = lowz(a), lb = lowz(b), ha = topw(a), hb = topw(b);
                    if (lb < w && lb > 0 && ha <= lb) return concat(extract(b, lb, w - lb), extract(a, 0, lb));
                    if (la < w && la > 0 && hb <= la) return concat(extract(a, la, w - la), extract(b, 0, la));
                }
                break;
            case XOR:
                if (a == b) return cst(0, w);
                if (isc(b, 0)) return a;
                if (isc(b) && a->op == XOR && isc(a->b)) return bin(XOR, a->a, cst(a->b->k ^ b->k, w));
                if (w == 1 && isc(b, 1)) { // not(cmp)
                    if (a->op == ULT) return bin(ULE, a->b, a->a);
                    if (a->op == ULE) return bin(ULT, a->b, a->a);
                    if (a->op == SLT) return bin(SLE, a->b, a->a);
                    if (a->op == SLE) return bin(SLT, a->b, a->a);
                }
                break;
            case SHL: case LSHR: case ASHR:
                if (isc(b, 0)) return a;
                if (isc(b) && b->k < w) {
                    unsigned s = (unsigned)b->k;
                    if (op == LSHR) return zext(extract(a, s, w - s), w);
                    if (op == SHL) return concat(extract(a, 0, w - s), cst(0, s));
                    if (op == ASHR) return sext(extract(a, s, w - s), w);
                }
                break;
            case EQ:
                if (a == b) return tru();
                if (isc(b)) {
                    if (w == 1) return b->k ? a : not_(a);
                    if (a->op == ZEXT) { if (b->k >> a->a->w) return fls(); return eq(a->a, cst(b->k, a->a->w)); }
                    if (a->op == SEXT) { if (cst(sextw(b->k & maskw(a->a->w), a->a->w), w) != b) return fls(); return eq(a->a, cst(b->k, a->a->w)); }
                    if (a->op == ADD && isc(a->b)) return eq(a->a, cst(b->k - a->b->k, w));
                    if (a->op == XOR && isc(a->b)) return eq(a->a, cst(b->k ^ a->b->k, w));
                    if (a->op == CONCAT) return bin(AND, eq(a->a, cst(b->k >> a->b->w, a->a->w)), eq(a->b, cst(b->k, a->b->w)));
                    if (a->op == ITE && isc(a->b)) return a->b == b ? bin(OR, a->a, eq(a->c, b)) : bin(AND, not_(a->a), eq(a->c, b));
                    if (a->op == ITE && isc(a->c)) return a->c == b ? bin(OR, not_(a->a), eq(a->b, b)) : bin(AND, a->a, eq(a->b, b));
                }
                if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
                if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
                break;
            case ULT:
                if (a == b) return fls();
                if (isc(b, 0)) return fls();
                if (isc(b, 1)) return eq(a, cst(0, w));
                if (isc(a) && a->k == maskw(w)) return fls();
                if (isc(a, 0)) return not_(eq(b, a));
                if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
                if (a->op == ZEXT && isc(b)) { if (b->k >> a->a->w) return tru(); return bin(ULT, a->a, cst(b->k, a->a->w)); }
                if (b->op == ZEXT && isc(a)) { if (a->k >> b->a->w) return fls(); return bin(ULT, cst(a->k, b->a->w), b->a); }
                break;
            case ULE:
                if (a == b) return tru();
                if (isc(a, 0)) return tru();
                if (isc(b) && b->k == maskw(w)) return tru();
                if (isc(b, 0)) return eq(a, b);
                if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
                if (a->op == ZEXT && isc(b)) { if (b->k >> a->a->w) return tru(); return bin(ULE, a->a, cst(b->k, a->a->w)); }
                if (b->op == ZEXT && isc(a)) { if (a->k >> b->a->w) return fls(); return bin(ULE, cst(a->k, b->a->w), b->a); }
                break;
            case SLT:
                if (a == b) return fls();
                if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
                if (a->op == ZEXT && isc(b)) { if ((b->k >> (w - 1)) & 1) return fls(); return bin(ULT, a, b); }
                if (b->op == ZEXT && isc(a)) { if ((a->k >> (w - 1)) & 1) return tru(); return bin(ULT, a, b); }
                break;
            case SLE:
                if (a == b) return tru();
                if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
                if (a->op == ZEXT && isc(b)) { if ((b->k >> (w - 1)) & 1) return fls(); return bin(ULE, a, b); }
                if (b->op == ZEXT && isc(a)) { if ((a->k >> (w - 1)) & 1) return tru(); return bin(ULE, a, b); }
                break;
            default: break;
        }
        if (iscmp(op) && w > 1 && w <= 64) {
            u64 al, ah, bl, bh; urange(a, al, ah); urange(b, bl, bh); u64 sb = (u64)1 << (w - 1);
            if ((op == SLT || op == SLE) && ah < sb && bh < sb) return bin(op == SLT ? ULT : ULE, a, b);
            if (op == EQ && (ah < bl || bh < al)) return fls();
            if (op == ULT) { if (ah < bl) return tru(); if (al >= bh) return fls(); }
            if (op == ULE) { if (ah <= bl) return tru(); if (al > bh) return fls(); }
            if (cmpHook) { int r = cmpHook(op, a, b); if (r >= 0) return cst(r, 1); }
        }
        return mk(op, rw, a, b, 0, 0);
    }
    // ---- evaluation under an assignment (var id -> value)
    u64 evstamp = 0;
    u128 eval(E e, const std::vector<u64>& m, const std::vector<u64>* hi = nullptr) { ++evstamp; return ev(e, m); }
    u128 ev(E e, const std::vector<u64>& m) {
        if (e->op == CONST) return e->k;
        if (e->stamp == evstamp) return e->ev;
        u128 r = 0;
        switch (e->op) {
            case VAR: { size_t i = (size_t)e->k; r = (i < m.size() ? (u128)m[i] : (u128)0) & maskw(e->w); break; }
            case ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
            case CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
            case EXTRACT: r = (ev(e->a, m) >> (unsigned)e->k) & maskw(e->w); break;
            case ZEXT: r = ev(e->a, m); break;
            case SEXT: r = sextw(ev(e->a, m), e->a->w) & maskw(e->w); break;
            default: {
                u128 x = ev(e->a, m), y = ev(e->b, m);
                if (!fold(e->op, x, y, e->a->w, r)) { // division by zero: SMT-LIB semantics
                    if (e->op == UDIV) r = maskw(e->w);
                    else if (e->op == SDIV) r = (__int128)sextw(x, e->a->w) < 0 ? 1 : maskw(e->w);
                    else r = x;
                }
            }
        }
        e->stamp = evstamp; e->ev = r; return r;
    }
    // ---- variables of an expression
    std::unordered_map<std::string, const VarSet*> vsIntern;
    const VarSet* vsMerge(const VarSet* x, const VarSet* y) {
        if (!x || x->v.empty()) return y; if (!y || y->v.empty() || x == y) return x;
        std::vector<uint32_t> r; r.reserve(x->v.size() + y->v.size());
        size_t i = 0, j = 0;
        while (i < x->v.size() || j < y->v.size()) {
            if (j >= y->v.size() || (i < x->v.size() && x->v[i] < y->v[j])) r.push_back(x->v[i++]);
            else { if (i < x->v.size() && x->v[i] == y->v[j]) ++i; r.push_back(y->v[j++]); }
        }
        if (r.size() == x->v.size()) return x; if (r.size() == y->v.size()) return y;
        return intern(std::move(r));
    }
    const VarSet* intern(std::vector<uint32_t>&& r) {
        std::string key((const char*)r.data(), r.size() * 4);
        auto it = vsIntern.find(key);
        if (it != vsIntern.end()) return it->second;
        auto* n = new VarSet{std::move(r)}; vsIntern.emplace(std::move(key), n); return n;
    }
    const VarSet* vset(E e) {
        if (e->vs) return e->vs;
        static const VarSet* emptyset = new VarSet{};
        const VarSet* r = emptyset;
        if (e->op == VAR) r = intern({(uint32_t)e->k});
        else { if (e->a) r = vsMerge(r, vset(e->a)); if (e->b) r = vsMerge(r, vset(e->b)); if (e->c) r = vsMerge(r, vset(e->c)); }
        e->vs = r; return r;
    }
    std::string str(E e, int d = 6) {
        static const char* n[] = {"const","var","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","++","ext","zx","sx"};
        if (e->op == CONST) return std::to_string((unsigned long long)e->k) + ":" + std::to_string(e->w);
        if (e->op == VAR) return vars[(size_t)e->k].name;
        if (d == 0) return "...";
        std::string s = "("; s += n[e->op];
        if (e->op == EXTRACT) s += std::to_string((u64)e->k) + "w" + std::to_string(e->w);
        if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->w);
        for (E x : {e->a, e->b, e->c}) if (x) s += " " + str(x, d - 1);
        return s + ")";
    }
};

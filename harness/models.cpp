#include <string>
#include <new>
// Models of the libstdc++/libc functions that live in shared libraries rather than headers.
#include <cstddef>
#include <cstdint>
#include <exception>
#include <stdexcept>
#include <new>
#include <functional>
#include <optional>
#include <variant>
#include <map>
#include <list>
#include <unordered_map>
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}
namespace std {
    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_alloc(); }
    void __throw_bad_cast() { throw bad_alloc(); }
    void __throw_bad_function_call() { throw bad_alloc(); }
    void __throw_length_error(const char* s) { throw length_error(s); }
    void __throw_logic_error(const char* s) { throw logic_error(s); }
    void __throw_out_of_range(const char* s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
    void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
    void __throw_runtime_error(const char* s) { throw runtime_error(s); }
    void __throw_overflow_error(const char* s) { throw overflow_error(s); }
    namespace __detail {
        static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731, 236897, 480881};
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
            for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
            _M_next_resize = n; return n | 1;
        }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
            if (n_elt + n_ins > _M_next_resize) {
                size_t min_bkts = n_elt + n_ins; size_t base = _M_next_resize ? 0 : 11; if (min_bkts < base) min_bkts = base;
                if (min_bkts >= n_bkt) { size_t want = min_bkts + 1; if (want < n_bkt * 2) want = n_bkt * 2; return {true, _M_next_bkt(want)}; }
                _M_next_resize = n_bkt; return {false, 0};
            }
            return {false, 0};
        }
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
        void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
            if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
        }
    }
    size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* b = (const unsigned char*)p; size_t h = seed; (void)b; return h + n * 0; }
    // red-black trees are modelled as plain (unbalanced) binary search trees; colours are kept consistent enough for
    // iteration (header red, nodes black)
    typedef _Rb_tree_node_base NB;
    static NB* inc(NB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
    NB* _Rb_tree_increment(NB* x) throw() { return inc(x); }
    const NB* _Rb_tree_increment(const NB* x) throw() { return inc(const_cast<NB*>(x)); }
    static NB* dec(NB* x) {
        if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
        if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
        NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
    }
    NB* _Rb_tree_decrement(NB* x) throw() { return dec(x); }
    const NB* _Rb_tree_decrement(const NB* x) throw() { return dec(const_cast<NB*>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw() {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    }
    static void replace(NB* a, NB* b, NB& h) { NB* p = a->_M_parent; if (h._M_parent == a) h._M_parent = b; else if (p->_M_left == a) p->_M_left = b; else p->_M_right = b; if (b) b->_M_parent = p; }
    NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw() {
        NB* next = nullptr; (void)next;
        if (h._M_left == z) h._M_left = (z->_M_right || z->_M_parent != &h) ? inc(z) : &h;
        if (h._M_right == z) h._M_right = (z->_M_left || z->_M_parent != &h) ? dec(z) : &h;
        if (!z->_M_left) replace(z, z->_M_right, h);
        else if (!z->_M_right) replace(z, z->_M_left, h);
        else {
            NB* y = z->_M_right; while (y->_M_left) y = y->_M_left;
            if (y->_M_parent != z) { replace(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
            replace(z, y, h); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
        }
        if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
        return z;
    }
}
// Output streams: what goes to a stream made by nullos.h is discarded (error messages); a string stream keeps its text in a string, which is
// its buffer's own string (the output part of a stringstream starts at byte 16, of an ostringstream at 0; the string is 80 bytes further on).
namespace { constexpr unsigned long SSMAGIC = 0x5353747265616d21ul; struct OutPart { void* vptr; unsigned long magic; };
std::string* textOf(void* o) { auto* p = (OutPart*)o; return p->magic == SSMAGIC ? (std::string*)((char*)o + 80) : nullptr; }
unsigned long vtab[8] = {112, 112, 112, 112, 112, 112, 112, 112}; // offsets of the virtual base ios, read by inlined code; 264 bytes from there are inside the object
alignas(8) unsigned char ctypeTable[600];                         // "characters are widened by table"
void ssInit(char* o) {
    for (int i = 0; i < 80; ++i) o[i] = 0; for (int i = 112; i < 376; ++i) o[i] = 0;
    ctypeTable[56] = 1; for (int i = 0; i < 256; ++i) ctypeTable[57 + i] = (unsigned char)i; *(void**)(o + 112 + 240) = ctypeTable;
    ((OutPart*)o)->vptr = &vtab[4]; ((OutPart*)o)->magic = SSMAGIC; new (o + 80) std::string();
}
void outStr(void* o, const char* s, size_t n) { if (auto* t = textOf(o)) { long* width = (long*)((char*)o + 112 + 16); for (long k = (long)n; k < *width; ++k) t->push_back(' '); *width = 0; t->append(s, n); } }
void ssDone(char* o) { ((std::string*)(o + 80))->~basic_string(); ((OutPart*)o)->magic = 0; }
void* outNum(void* o, unsigned long v, bool neg) { if (auto* t = textOf(o)) { if (neg) t->push_back('-'); char b[24]; int n = 0; do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n) t->push_back(b[--n]); } return o; } }
#define WK extern "C" __attribute__((weak))
WK void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char* s, long n) { outStr(o, s, (size_t)n); return o; }
WK void* _ZNSo3putEc(void* o, char c) { if (auto* t = textOf(o)) t->push_back(c); return o; }
WK void* _ZNSo5flushEv(void* o) { return o; }
WK void* _ZNSo9_M_insertIbEERSoT_(void* o, bool b) { return outNum(o, b, false); }
WK void* _ZNSo9_M_insertImEERSoT_(void* o, unsigned long v) { return outNum(o, v, false); }
WK void* _ZNSo9_M_insertIlEERSoT_(void* o, long v) { return outNum(o, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); }
WK void* _ZNSo9_M_insertIdEERSoT_(void* o, double) { return o; }
WK void* _ZNSolsEi(void* o, int v) { return _ZNSo9_M_insertIlEERSoT_(o, v); }
WK void* _ZNSolsEj(void* o, unsigned v) { return outNum(o, v, false); }
WK void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev(char* s) { ssInit(s + 16); }
WK void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev(char* s) { ssDone(s + 16); }
WK std::string _ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv(const char* s) { return *textOf((char*)s + 16); }
WK void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev(char* s) { ssInit(s); }
WK void _ZNSt6localeD1Ev(void*) {}
WK void _ZNSt8ios_baseD2Ev(void*) {}
#define VT (void*)&vtab[4]
extern "C" { __attribute__((weak)) extern void* const _ZTTNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEE[10] = {VT, VT, VT, VT, VT, VT, VT, VT, VT, VT}; __attribute__((weak)) extern void* const _ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE[4] = {VT, VT, VT, VT}; }
WK void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev(char* s) { ssDone(s); }
WK std::string _ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(const char* s) { return *textOf((char*)s); }
WK void _ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE7_M_syncEPcmm(void*, char*, unsigned long, unsigned long) {}
WK void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* o, const char* s) { size_t n = 0; while (s[n]) ++n; outStr(o, s, n); return o; }
WK void* _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void* o) { if (auto* t = textOf(o)) t->push_back('\n'); return o; }
WK void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void* o, char c) { outStr(o, &c, 1); return o; }
WK std::string _ZNKRSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv(const char* s) { return *textOf((char*)s + 16); }
WK unsigned long __isoc23_strtoul(const char* s, char** end, int base) {
    const char* p = s; while (isspace(*p)) ++p; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
    unsigned long v = 0; const char* d = p; for (; *p >= '0' && *p < '0' + base; ++p) v = v * (unsigned long)base + (unsigned long)(*p - '0');
    if (end) *end = (char*)(p == d ? s : p); return neg ? 0ul - v : v;
}
WK long _ZNSt6chrono3_V212system_clock3nowEv() { return 0; } // time stands still: durations are not part of any property
WK long _ZNSt6chrono3_V212steady_clock3nowEv() { return 0; }
#include <clocale>
WK struct lconv* localeconv() noexcept { static char dot[2] = {'.', 0}, none[1] = {0}; static struct lconv l; l.decimal_point = dot; l.thousands_sep = none; return &l; }

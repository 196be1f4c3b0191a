// symx: symbolic executor for LLVM IR (clang-18 bitcode) with a Z3 back end.
// Memory is modelled byte-precisely with concrete object addresses; register and memory contents may be
// bit-vector expressions over the harness' symbolic inputs.  Branches on symbolic conditions fork the state when
// the solver says both sides are feasible; assertions are decided by the solver under the path condition.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <map>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ globals
static ExprPool P;
static const DataLayout* DL;
static Module* M;
static Z3_context Z;
static Z3_solver ZS;

struct Options {
    std::string bc, out, entry = "sym_main";
    int jobs = 8; double timeout = 600; u64 maxinst = 30000000; int maxviol = 3; u64 seed = 1; size_t memMB = 3000; bool trace = false;
    u64 rlimit = 40000000;
} opt;

struct Shared {
    std::atomic<int> active, viol, stop, nproc; std::atomic<u64> paths;
};
static Shared* sh;
static double tstart, deadline;

struct Stats {
    u64 paths = 0, completed = 0, killedAssume = 0, forks = 0, queries = 0, qsat = 0, qunsat = 0, qunk = 0, cachehits = 0, domdecided = 0,
        insts = 0, asserts = 0, assertq = 0, violations = 0, errors = 0, abandoned = 0, limit = 0, maxdepth = 0, assertconst = 0, lia = 0;
    double ztime = 0, zmax = 0;
    std::map<std::string, u64> reach;
    std::map<std::string, u64> asserttags;
    std::map<std::string, u64> errs;
    std::set<std::string> funcs;
    std::vector<std::string> samples;
} st;

// ------------------------------------------------------------------ values and memory
struct Val { u64 c; E e; };
static inline Val C(u64 c) { return Val{c, nullptr}; }

enum : uint8_t { KHEAP, KSTACK, KGLOBAL };
struct Obj {
    int rc = 1; uint8_t kind; bool ro = false; uint32_t size; uint32_t allocSite = 0;
    uint8_t* b; uint8_t* s; uintptr_t* y = nullptr; // bytes, status (0 concrete, 1 uninit, 2 symbolic), symbolic entries
    uint32_t nonconc = 0; // if zero then all status bytes are zero (conservative upper bound)
    static Obj* make(uint32_t size, uint8_t kind, bool zero) {
        Obj* o = new Obj(); o->kind = kind; o->size = size;
        o->b = (uint8_t*)malloc(2 * (size_t)size + 16); o->s = o->b + size;
        if (zero) memset(o->b, 0, 2 * (size_t)size); else { memset(o->b, 0, size); memset(o->s, 1, size); o->nonconc = size; }
        return o;
    }
    Obj* clone() const {
        Obj* o = new Obj(); o->kind = kind; o->size = size; o->ro = ro; o->nonconc = nonconc; o->allocSite = allocSite;
        o->b = (uint8_t*)malloc(2 * (size_t)size + 16); o->s = o->b + size; memcpy(o->b, b, 2 * (size_t)size);
        if (y) { o->y = (uintptr_t*)malloc(sizeof(uintptr_t) * size); memcpy(o->y, y, sizeof(uintptr_t) * size); }
        return o;
    }
    void unref() { if (--rc == 0) { free(b); free(y); delete this; } }
};
static const u64 HEAPBASE = 0x100000000000ULL, STKBASE = 0x600000000000ULL, FNBASE = 0x10000000ULL;
static const unsigned SH = 20;
static const unsigned CH = 128;
struct Chunk { int rc = 1; Obj* o[CH]; };

struct HeapT {
    std::vector<Chunk*> ch; u64 n = 0;
    HeapT() {}
    HeapT(const HeapT& h) : ch(h.ch), n(h.n) { for (auto* c : ch) if (c) c->rc++; }
    HeapT& operator=(const HeapT&) = delete;
    ~HeapT() { for (auto* c : ch) drop(c); }
    static void drop(Chunk* c) { if (c && --c->rc == 0) { for (auto* o : c->o) if (o) o->unref(); delete c; } }
    Obj* get(u64 id) const { if (id >= n) return nullptr; Chunk* c = ch[id / CH]; return c ? c->o[id % CH] : nullptr; }
    Chunk* wchunk(u64 ci) {
        Chunk*& c = ch[ci];
        if (!c) { c = new Chunk(); memset(c->o, 0, sizeof c->o); }
        else if (c->rc > 1) { Chunk* d = new Chunk(); memcpy(d->o, c->o, sizeof d->o); for (auto* o : d->o) if (o) o->rc++; c->rc--; c = d; }
        return c;
    }
    Obj* wget(u64 id) {
        Obj* o0 = get(id); if (!o0) return nullptr;
        Chunk* c = wchunk(id / CH); Obj*& o = c->o[id % CH];
        if (o->rc > 1) { Obj* d = o->clone(); o->unref(); o = d; }
        return o;
    }
    u64 add(Obj* o, u64 span) { u64 id = n; n += span; while (ch.size() * CH < n) ch.push_back(nullptr); wchunk(id / CH)->o[id % CH] = o; return id; }
    void del(u64 id) { Chunk* c = wchunk(id / CH); Obj*& o = c->o[id % CH]; o->unref(); o = nullptr;
        bool any = false; for (auto* x : c->o) if (x) { any = true; break; }
        if (!any && (id / CH) + 1 < ch.size()) { drop(c); ch[id / CH] = nullptr; } }
};

// ------------------------------------------------------------------ decoded program
struct FnD; struct BBD;
struct LeafT { unsigned w; uint32_t off; uint32_t bytes; };
struct GepIdx { int32_t opd; u64 scale; unsigned w; };
struct Edge { BBD* to; std::vector<std::pair<int32_t, int32_t>> copies; };
enum Bi : int;
struct CallX {
    FnD* direct = nullptr; int bi = -1; int32_t calleeOpd = 0; std::vector<std::vector<int32_t>> args; std::vector<uint32_t> byval; std::vector<int32_t> flat;
    Edge* norm = nullptr; Edge* unw = nullptr; unsigned retslots = 0; std::vector<unsigned> argw; unsigned retw = 0; std::string name;
};
struct SwitchX { std::vector<std::pair<u64, Edge*>> cases; Edge* def; };
enum DOp : uint8_t { D_BIN, D_ICMP, D_FCMP, D_FBIN, D_FNEG, D_CAST, D_SELECT, D_LOAD, D_LOADAGG, D_STORE, D_STOREAGG, D_GEP, D_ALLOCA, D_CALL, D_INVOKE, D_RET,
                     D_BR, D_CBR, D_SWITCH, D_UNREACHABLE, D_EXTRACT, D_INSERT, D_COPY, D_LPAD, D_RESUME, D_ATOMICRMW, D_CMPXCHG, D_NOP, D_UNSUP };
struct DI {
    DOp op; uint8_t sub = 0; uint16_t w = 0, w2 = 0; int32_t dst = -1, a = 0, b = 0, c = 0; u64 imm = 0; uint32_t n = 0; void* x = nullptr; const Instruction* I = nullptr;
};
struct BBD { std::vector<DI> is; const BasicBlock* bb; FnD* fn; };
struct FnD {
    Function* F; bool decoded = false; unsigned nslots = 0; std::vector<Val> consts; std::vector<BBD*> bbs; BBD* entry = nullptr; std::vector<int32_t> argslot; std::vector<unsigned> argn;
    int bi = -1; u64 addr = 0; std::string name; bool seen = false; u64 count = 0;
};
static std::unordered_map<const Function*, FnD*> fnmap;
static std::vector<FnD*> fnlist;
static std::unordered_map<const GlobalVariable*, u64> gaddr;
static std::unordered_map<u64, std::string> gname;

struct Frame { int rc = 1; FnD* fn; BBD* bb; uint32_t ip; uint32_t stkbase; std::vector<Val> r; bool ctorRet = false; };

struct Exc { u64 obj = 0, tinfo = 0; };
struct State {
    std::vector<Frame*> fr; HeapT heap; std::vector<Obj*> stk; uint32_t stkn = 0;
    std::vector<E> pc; std::vector<uint32_t> known; // sorted ids of expressions known true
    std::vector<u64> model, dom; std::vector<uint8_t> flags; // flags: 1 pinned, 2 nonunary
    std::vector<uint32_t> inputs; std::vector<std::pair<uint32_t, uint32_t>> dummy;
    Exc cur; std::vector<Exc> caught; u64 ninst = 0; uint32_t seq = 0, useq = 0; uint32_t depth = 0; bool dead = false;
    std::vector<std::pair<std::string, std::string>> notes;
    State() {}
    State(const State& o) : fr(o.fr), heap(o.heap), stk(o.stk), stkn(o.stkn), pc(o.pc), known(o.known), model(o.model), dom(o.dom), flags(o.flags), inputs(o.inputs),
        cur(o.cur), caught(o.caught), ninst(o.ninst), seq(o.seq), useq(o.useq), depth(o.depth), notes(o.notes) {
        for (auto* f : fr) f->rc++; for (auto* x : stk) if (x) x->rc++;
    }
    ~State() { for (auto* f : fr) if (--f->rc == 0) delete f; for (auto* x : stk) if (x) x->unref(); }
    Frame* top() { Frame*& f = fr.back(); if (f->rc > 1) { Frame* g = new Frame(*f); g->rc = 1; f->rc--; f = g; } return f; }
};
static std::vector<State*> work;

static FnD* getFn(const Function* F);
static unsigned nslotsOf(Type* T) {
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return 0;
    if (auto* S = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto* e : S->elements()) n += nslotsOf(e); return n; }
    if (auto* A = dyn_cast<ArrayType>(T)) return A->getNumElements() * nslotsOf(A->getElementType());
    if (auto* V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * nslotsOf(V->getElementType());
    return 1;
}
static unsigned widthOf(Type* T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isDoubleTy()) return 64;
    if (T->isFloatTy()) return 32;
    if (T->isX86_FP80Ty() || T->isFP128Ty()) return 64; // kept as double
    return 0;
}
static void leaves(Type* T, u64 off, std::vector<LeafT>& out) {
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) leaves(S->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto* A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); ++i) leaves(A->getElementType(), off + i * es, out); return; }
    if (auto* V = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeAllocSize(V->getElementType()); for (u64 i = 0; i < V->getNumElements(); ++i) leaves(V->getElementType(), off + i * es, out); return; }
    out.push_back({widthOf(T), (uint32_t)off, (uint32_t)((widthOf(T) + 7) / 8)});
}

[[noreturn]] static void fatal(const std::string& s) { fprintf(stderr, "symx: fatal: %s\n", s.c_str()); _exit(4); }

// constants
static u64 constInt(const Constant* c);
static void constVals(const Constant* c, std::vector<Val>& out) {
    Type* T = c->getType();
    if (isa<UndefValue>(c)) { for (unsigned i = 0, n = nslotsOf(T); i < n; ++i) out.push_back(C(0)); return; }
    if (isa<ConstantAggregateZero>(c)) { for (unsigned i = 0, n = nslotsOf(T); i < n; ++i) out.push_back(C(0)); return; }
    if (auto* A = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < A->getNumOperands(); ++i) constVals(cast<Constant>(A->getOperand(i)), out); return; }
    if (auto* D = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < D->getNumElements(); ++i) constVals(D->getElementAsConstant(i), out); return; }
    if (auto* CI = dyn_cast<ConstantInt>(c)) {
        if (CI->getBitWidth() <= 64) { out.push_back(C(CI->getZExtValue())); return; }
        auto& v = CI->getValue(); u128 k = ((u128)v.getRawData()[1] << 64) | v.getRawData()[0];
        if (v.getNumWords() > 2) fatal("wide const");
        if (!(k >> 64)) { out.push_back(Val{(u64)k, nullptr}); }
        out.back().e = nullptr; if (k >> 64) out.push_back(Val{0, P.cst(k, CI->getBitWidth())});
        return;
    }
    out.push_back(C(constInt(c)));
}
static u64 constInt(const Constant* c) {
    if (auto* CI = dyn_cast<ConstantInt>(c)) return CI->getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto* F = dyn_cast<ConstantFP>(c)) {
        APFloat f = F->getValueAPF(); bool li;
        if (F->getType()->isFloatTy()) return f.bitcastToAPInt().getZExtValue();
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        return f.bitcastToAPInt().getZExtValue();
    }
    if (auto* F = dyn_cast<Function>(c)) return getFn(F)->addr;
    if (auto* G = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(G); if (it == gaddr.end()) fatal("no global " + G->getName().str()); return it->second; }
    if (auto* A = dyn_cast<GlobalAlias>(c)) return constInt(A->getAliasee());
    if (auto* CE = dyn_cast<ConstantExpr>(c)) {
        switch (CE->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) fatal("const gep");
                return constInt(CE->getOperand(0)) + off.getZExtValue();
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned w = widthOf(CE->getType()); return (u64)(constInt(CE->getOperand(0)) & maskw(w)); }
            case Instruction::Trunc: return (u64)(constInt(CE->getOperand(0)) & maskw(widthOf(CE->getType())));
            case Instruction::Sub: return (u64)((constInt(CE->getOperand(0)) - constInt(CE->getOperand(1))) & maskw(widthOf(CE->getType())));
            case Instruction::Add: return (u64)((constInt(CE->getOperand(0)) + constInt(CE->getOperand(1))) & maskw(widthOf(CE->getType())));
            default: break;
        }
        std::string s; raw_string_ostream os(s); c->print(os); fatal("constexpr " + s);
    }
    std::string s; raw_string_ostream os(s); c->print(os); fatal("const " + s);
}
static void initMem(Obj* o, u64 off, const Constant* c) {
    std::vector<LeafT> ls;
    Type* T = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* D = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = D->getRawDataValues(); memcpy(o->b + off, raw.data(), raw.size()); return; }
    if (auto* A = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); ++i) initMem(o, off + i * es, A->getOperand(i)); return; }
    if (auto* S = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); ++i) initMem(o, off + L->getElementOffset(i), S->getOperand(i)); return; }
    unsigned w = widthOf(T); u64 v = constInt(c); memcpy(o->b + off, &v, (w + 7) / 8);
}

// ------------------------------------------------------------------ builtins
enum Bi : int {
    B_NONE = -1, B_UNKNOWN = 0,
    B_SYM, B_ASSUME, B_ASSERT, B_PIN, B_CONC, B_REACH, B_NOTE, B_PINNED, B_ISREPLAY,
    B_MALLOC, B_CALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_NOP0, B_ASSERTFAIL, B_ABORT,
    B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_TYPEID,
    B_GUARD_ACQ, B_RET0, B_RET1, B_PUREVIRT,
    B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_EXPECT, B_ADDO_U, B_ADDO_S, B_SUBO_U, B_SUBO_S, B_MULO_U, B_MULO_S, B_FSHL, B_FSHR, B_USUBSAT, B_UADDSAT,
    B_LAUNDER, B_OBJSIZE, B_POW, B_FMATH1, B_FMA, B_FMULADD, B_TRAP, B_ISCONST, B_REALLOC, B_ERRNO, B_FABS, B_EXIT, B_SSACOPY, B_MEMCMP0, B_LIKELYFP
};
static u64 errnoAddr = 0;
static int builtinFor(const std::string& n) {
    static const std::unordered_map<std::string, int> m = {
        {"sym_var", B_SYM}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_pin", B_PIN}, {"sym_concretize", B_CONC}, {"sym_reach", B_REACH}, {"sym_note", B_NOTE}, {"sym_is_concrete", B_PINNED}, {"sym_is_replay", B_RET0},
        {"malloc", B_MALLOC}, {"_Znwm", B_MALLOC}, {"_Znam", B_MALLOC}, {"_ZnwmRKSt9nothrow_t", B_MALLOC}, {"_ZnamRKSt9nothrow_t", B_MALLOC}, {"_ZnwmSt11align_val_t", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC},
        {"free", B_FREE}, {"_ZdlPv", B_FREE}, {"_ZdaPv", B_FREE}, {"_ZdlPvm", B_FREE}, {"_ZdaPvm", B_FREE}, {"_ZdlPvRKSt9nothrow_t", B_FREE}, {"_ZdlPvmSt11align_val_t", B_FREE}, {"_ZdlPvSt11align_val_t", B_FREE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP0},
        {"__assert_fail", B_ASSERTFAIL}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ASSERTFAIL}, {"abort", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"exit", B_EXIT}, {"__clang_call_terminate", B_NONE},
        {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW},
        {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_NOP0}, {"__cxa_guard_abort", B_NOP0}, {"__cxa_atexit", B_RET0}, {"atexit", B_RET0}, {"__cxa_pure_virtual", B_PUREVIRT}, {"__cxa_thread_atexit", B_RET0},
        {"pow", B_POW}, {"powl", B_POW}, {"ceil", B_FMATH1}, {"floor", B_FMATH1}, {"ceill", B_FMATH1}, {"floorl", B_FMATH1}, {"sqrt", B_FMATH1}, {"log", B_FMATH1}, {"log2", B_FMATH1}, {"exp", B_FMATH1},
        {"__errno_location", B_ERRNO},
        {"_ZNSt8ios_base4InitC1Ev", B_NOP0}, {"_ZNSt8ios_base4InitD1Ev", B_NOP0},
    };
    auto it = m.find(n); if (it != m.end()) return it->second;
    auto sw = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
    if (sw("llvm.")) {
        if (sw("llvm.memcpy") || sw("llvm.memmove")) return B_MEMCPY;
        if (sw("llvm.memset")) return B_MEMSET;
        if (sw("llvm.umax")) return B_UMAX; if (sw("llvm.umin")) return B_UMIN; if (sw("llvm.smax")) return B_SMAX; if (sw("llvm.smin")) return B_SMIN;
        if (sw("llvm.abs")) return B_ABS; if (sw("llvm.ctpop")) return B_CTPOP; if (sw("llvm.ctlz")) return B_CTLZ; if (sw("llvm.cttz")) return B_CTTZ; if (sw("llvm.bswap")) return B_BSWAP;
        if (sw("llvm.expect")) return B_EXPECT; if (sw("llvm.uadd.with")) return B_ADDO_U; if (sw("llvm.sadd.with")) return B_ADDO_S; if (sw("llvm.usub.with")) return B_SUBO_U; if (sw("llvm.ssub.with")) return B_SUBO_S;
        if (sw("llvm.umul.with")) return B_MULO_U; if (sw("llvm.smul.with")) return B_MULO_S; if (sw("llvm.fshl")) return B_FSHL; if (sw("llvm.fshr")) return B_FSHR; if (sw("llvm.usub.sat")) return B_USUBSAT; if (sw("llvm.uadd.sat")) return B_UADDSAT;
        if (sw("llvm.launder") || sw("llvm.strip") || sw("llvm.ssa.copy") || sw("llvm.ptr.annotation") || sw("llvm.threadlocal.address") || sw("llvm.freeze")) return B_LAUNDER;
        if (sw("llvm.objectsize")) return B_OBJSIZE; if (sw("llvm.is.constant")) return B_ISCONST; if (sw("llvm.pow.")) return B_POW; if (sw("llvm.fma.")) return B_FMA; if (sw("llvm.fmuladd.")) return B_FMULADD; if (sw("llvm.fabs.")) return B_FABS;
        if (sw("llvm.ceil") || sw("llvm.floor") || sw("llvm.sqrt")) return B_FMATH1;
        if (sw("llvm.eh.typeid.for")) return B_TYPEID; if (sw("llvm.trap") || sw("llvm.ubsantrap")) return B_TRAP;
        if (sw("llvm.lifetime") || sw("llvm.assume") || sw("llvm.dbg") || sw("llvm.experimental.noalias") || sw("llvm.invariant") || sw("llvm.prefetch") || sw("llvm.donothing") || sw("llvm.stackrestore")) return B_NOP0;
        if (sw("llvm.stacksave")) return B_RET0;
        return B_UNKNOWN;
    }
    // constructors/destructors of standard exception classes living in libstdc++.so
    static const char* excls[] = {"St9exception", "St11logic_error", "St12out_of_range", "St13runtime_error", "St16invalid_argument", "St12length_error", "St9bad_alloc", "St12domain_error", "St11range_error", "St14overflow_error", "St8bad_cast", "St17bad_function_call"};
    for (auto* x : excls) { std::string p = std::string("_ZN") + x; if (n.compare(0, p.size(), p) == 0) return B_NOP0; }
    return B_UNKNOWN;
}

static FnD* getFn(const Function* F) {
    auto it = fnmap.find(F); if (it != fnmap.end()) return it->second;
    FnD* d = new FnD(); d->F = const_cast<Function*>(F); d->name = F->getName().str();
    d->addr = FNBASE + 16 * fnlist.size(); fnlist.push_back(d); fnmap[F] = d;
    int b = builtinFor(d->name);
    if (b > 0) d->bi = b; else if (F->isDeclaration()) d->bi = B_UNKNOWN; else d->bi = -1;
    return d;
}

// ------------------------------------------------------------------ decoding
struct Decoder {
    FnD* fd; std::unordered_map<const Value*, int32_t> slot; std::unordered_map<const Constant*, int32_t> cslot; std::unordered_map<const BasicBlock*, BBD*> bmap;
    int32_t opd(const Value* v, unsigned k = 0) {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = cslot.find(c);
            if (it == cslot.end()) {
                int32_t base = fd->consts.size(); std::vector<Val> vs; 
                if (auto* CI = dyn_cast<ConstantInt>(c); CI && CI->getBitWidth() > 64) {
                    auto& a = CI->getValue(); u128 kk = ((u128)a.getRawData()[1] << 64) | a.getRawData()[0]; vs.push_back(Val{(u64)kk, P.cst(kk, CI->getBitWidth())});
                } else constVals(c, vs);
                for (auto& x : vs) fd->consts.push_back(x);
                it = cslot.emplace(c, base).first;
            }
            return ~(it->second + (int32_t)k);
        }
        auto it = slot.find(v); if (it == slot.end()) fatal("operand without slot in " + fd->name);
        return it->second + (int32_t)k;
    }
    Edge* edge(const BasicBlock* from, const BasicBlock* to) {
        Edge* e = new Edge(); e->to = bmap[to];
        for (auto& p : to->phis()) {
            const Value* in = p.getIncomingValueForBlock(from); unsigned n = nslotsOf(p.getType());
            if (isa<UndefValue>(in)) { for (unsigned i = 0; i < n; ++i) e->copies.push_back({slot[&p] + (int)i, opd(in, i)}); continue; }
            for (unsigned i = 0; i < n; ++i) e->copies.push_back({slot[&p] + (int)i, opd(in, i)});
        }
        return e;
    }
    void run(FnD* f) {
        fd = f; Function& F = *f->F;
        if (F.isMaterializable()) { if (F.materialize()) fatal("materialize"); }
        unsigned n = 0;
        for (auto& a : F.args()) { slot[&a] = n; f->argslot.push_back(n); unsigned k = nslotsOf(a.getType()); f->argn.push_back(k); n += k; }
        for (auto& bb : F) { BBD* b = new BBD(); b->bb = &bb; b->fn = f; bmap[&bb] = b; f->bbs.push_back(b); for (auto& I : bb) { unsigned k = nslotsOf(I.getType()); if (k) { slot[&I] = n; n += k; } } }
        f->nslots = n; f->entry = bmap[&F.getEntryBlock()];
        for (auto& bb : F) for (auto& I : bb) decode(I, bmap[&bb]);
        f->decoded = true;
    }
    void call(const CallBase& CB, DI& d, BBD* b) {
        CallX* x = new CallX(); d.x = x;
        const Value* cal = CB.getCalledOperand()->stripPointerCasts();
        if (auto* A = dyn_cast<GlobalAlias>(cal)) cal = A->getAliaseeObject();
        if (auto* F = dyn_cast<Function>(cal)) { FnD* fd2 = getFn(F); if (fd2->bi >= 0) { x->bi = fd2->bi; } else x->direct = fd2; x->name = fd2->name; }
        else x->calleeOpd = opd(cal);
        for (unsigned i = 0; i < CB.arg_size(); ++i) {
            const Value* a = CB.getArgOperand(i); std::vector<int32_t> v;
            if (!a->getType()->isMetadataTy()) for (unsigned k = 0, nn = nslotsOf(a->getType()); k < nn; ++k) v.push_back(opd(a, k));
            x->args.push_back(v); x->argw.push_back(widthOf(a->getType()));
            x->byval.push_back(CB.isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(CB.getParamByValType(i)) + 1 : 0);
            for (auto q : v) x->flat.push_back(q);
        }
        x->retslots = nslotsOf(CB.getType()); x->retw = widthOf(CB.getType());
        if (auto* st = dyn_cast<StructType>(CB.getType()); st && st->getNumElements()) x->retw = widthOf(st->getElementType(0));
    }
    void decode(const Instruction& I, BBD* b) {
        DI d; d.I = &I; d.op = D_UNSUP; Type* T = I.getType();
        unsigned ns = nslotsOf(T); d.n = ns; if (ns) d.dst = slot[&I]; d.w = widthOf(T);
        bool vec = T->isVectorTy(); for (auto& o : I.operands()) if (o->getType()->isVectorTy()) vec = true;
        if (isa<PHINode>(I)) return;
        if (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<CallBase>(I)) { vecDecode(I, b); return; }
        if (auto* BO = dyn_cast<BinaryOperator>(&I)) {
            d.a = opd(BO->getOperand(0)); d.b = opd(BO->getOperand(1));
            if (T->isFloatingPointTy()) { d.op = D_FBIN; d.sub = BO->getOpcode(); }
            else {
                d.op = D_BIN;
                switch (BO->getOpcode()) {
                    case Instruction::Add: d.sub = ADD; break; case Instruction::Sub: d.sub = SUB; break; case Instruction::Mul: d.sub = MUL; break;
                    case Instruction::UDiv: d.sub = UDIV; break; case Instruction::SDiv: d.sub = SDIV; break; case Instruction::URem: d.sub = UREM; break; case Instruction::SRem: d.sub = SREM; break;
                    case Instruction::And: d.sub = AND; break; case Instruction::Or: d.sub = OR; break; case Instruction::Xor: d.sub = XOR; break;
                    case Instruction::Shl: d.sub = SHL; break; case Instruction::LShr: d.sub = LSHR; break; case Instruction::AShr: d.sub = ASHR; break;
                    default: d.op = D_UNSUP;
                }
            }
        } else if (auto* IC = dyn_cast<ICmpInst>(&I)) { d.op = D_ICMP; d.sub = IC->getPredicate(); d.w = widthOf(IC->getOperand(0)->getType()); d.a = opd(IC->getOperand(0)); d.b = opd(IC->getOperand(1)); }
        else if (auto* FC = dyn_cast<FCmpInst>(&I)) { d.op = D_FCMP; d.sub = FC->getPredicate(); d.w = widthOf(FC->getOperand(0)->getType()); d.a = opd(FC->getOperand(0)); d.b = opd(FC->getOperand(1)); }
        else if (auto* CI = dyn_cast<CastInst>(&I)) { d.op = D_CAST; d.sub = CI->getOpcode(); d.a = opd(CI->getOperand(0)); d.w2 = widthOf(CI->getSrcTy()); if (T->isFloatTy()) d.imm |= 1; if (CI->getSrcTy()->isFloatTy()) d.imm |= 2;
            if (d.sub == Instruction::BitCast || d.sub == Instruction::AddrSpaceCast) { d.op = D_COPY; } }
        else if (I.getOpcode() == Instruction::FNeg) { d.op = D_FNEG; d.a = opd(I.getOperand(0)); }
        else if (isa<FreezeInst>(I)) { d.op = D_COPY; d.a = opd(I.getOperand(0)); }
        else if (auto* S = dyn_cast<SelectInst>(&I)) {
            for (unsigned k = 0; k < ns; ++k) { DI e = d; e.op = D_SELECT; e.dst = d.dst + k; e.a = opd(S->getCondition()); e.b = opd(S->getTrueValue(), k); e.c = opd(S->getFalseValue(), k);
                std::vector<LeafT> lv; leaves(T, 0, lv); e.w = lv[k].w; b->is.push_back(e); }
            return;
        } else if (auto* L = dyn_cast<LoadInst>(&I)) {
            d.a = opd(L->getPointerOperand());
            if (ns == 1 && !T->isAggregateType() && !vec) d.op = D_LOAD; else { d.op = D_LOADAGG; auto* v = new std::vector<LeafT>; leaves(T, 0, *v); d.x = v; d.imm = DL->getTypeStoreSize(T); }
        } else if (auto* S = dyn_cast<StoreInst>(&I)) {
            Type* VT = S->getValueOperand()->getType(); d.a = opd(S->getPointerOperand()); d.w = widthOf(VT); d.n = nslotsOf(VT);
            if (d.n == 1 && !VT->isAggregateType() && !vec) { d.op = D_STORE; d.b = opd(S->getValueOperand()); }
            else { d.op = D_STOREAGG; auto* v = new std::vector<LeafT>; leaves(VT, 0, *v); d.x = v; if (d.n) d.b = opd(S->getValueOperand()); auto* ops = new std::vector<int32_t>; for (unsigned k = 0; k < d.n; ++k) ops->push_back(opd(S->getValueOperand(), k)); d.imm = (u64)ops; }
        } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
            d.op = D_GEP; d.a = opd(G->getPointerOperand()); auto* v = new std::vector<GepIdx>; u64 off = 0;
            for (auto gti = gep_type_begin(G), ge = gep_type_end(G); gti != ge; ++gti) {
                Value* ix = gti.getOperand();
                if (StructType* ST = gti.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                u64 sc = DL->getTypeAllocSize(gti.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(ix)) { off += (u64)(ci->getSExtValue() * (s64)sc); continue; }
                v->push_back({opd(ix), sc, widthOf(ix->getType())});
            }
            d.imm = off; d.x = v->empty() ? (delete v, nullptr) : v;
        } else if (auto* A = dyn_cast<AllocaInst>(&I)) { d.op = D_ALLOCA; d.imm = DL->getTypeAllocSize(A->getAllocatedType()); d.a = opd(A->getArraySize()); }
        else if (auto* CA = dyn_cast<CallInst>(&I)) {
            if (isa<DbgInfoIntrinsic>(I)) return;
            if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) return; }
            d.op = D_CALL; call(*CA, d, b);
        } else if (auto* IV = dyn_cast<InvokeInst>(&I)) { d.op = D_INVOKE; call(*IV, d, b); auto* x = (CallX*)d.x; x->norm = edge(b->bb, IV->getNormalDest()); x->unw = edge(b->bb, IV->getUnwindDest()); }
        else if (auto* R = dyn_cast<ReturnInst>(&I)) { d.op = D_RET; auto* v = new std::vector<int32_t>; if (R->getReturnValue()) for (unsigned k = 0, n = nslotsOf(R->getReturnValue()->getType()); k < n; ++k) v->push_back(opd(R->getReturnValue(), k)); d.x = v; }
        else if (auto* B = dyn_cast<BranchInst>(&I)) {
            if (B->isUnconditional()) { d.op = D_BR; d.x = edge(b->bb, B->getSuccessor(0)); }
            else { d.op = D_CBR; d.a = opd(B->getCondition()); d.x = edge(b->bb, B->getSuccessor(0)); d.imm = (u64)edge(b->bb, B->getSuccessor(1)); }
        } else if (auto* S = dyn_cast<SwitchInst>(&I)) { d.op = D_SWITCH; d.a = opd(S->getCondition()); d.w = widthOf(S->getCondition()->getType()); auto* x = new SwitchX; x->def = edge(b->bb, S->getDefaultDest()); for (auto& c : S->cases()) x->cases.push_back({c.getCaseValue()->getZExtValue(), edge(b->bb, c.getCaseSuccessor())}); d.x = x; }
        else if (isa<UnreachableInst>(I)) d.op = D_UNREACHABLE;
        else if (auto* EV = dyn_cast<ExtractValueInst>(&I)) {
            unsigned off = aggOff(EV->getAggregateOperand()->getType(), EV->getIndices());
            for (unsigned k = 0; k < ns; ++k) { DI e = d; e.op = D_COPY; e.dst = d.dst + k; e.a = opd(EV->getAggregateOperand(), off + k); b->is.push_back(e); }
            return;
        } else if (auto* IVI = dyn_cast<InsertValueInst>(&I)) {
            unsigned off = aggOff(IVI->getAggregateOperand()->getType(), IVI->getIndices()), m = nslotsOf(IVI->getInsertedValueOperand()->getType());
            for (unsigned k = 0; k < ns; ++k) { DI e = d; e.op = D_COPY; e.dst = d.dst + k; e.a = (k >= off && k < off + m) ? opd(IVI->getInsertedValueOperand(), k - off) : opd(IVI->getAggregateOperand(), k); b->is.push_back(e); }
            return;
        } else if (auto* LP = dyn_cast<LandingPadInst>(&I)) { d.op = D_LPAD; (void)LP; }
        else if (auto* RS = dyn_cast<ResumeInst>(&I)) { d.op = D_RESUME; d.a = opd(RS->getValue(), 0); }
        else if (auto* RM = dyn_cast<AtomicRMWInst>(&I)) { d.op = D_ATOMICRMW; d.sub = RM->getOperation(); d.a = opd(RM->getPointerOperand()); d.b = opd(RM->getValOperand()); }
        else if (auto* CX = dyn_cast<AtomicCmpXchgInst>(&I)) { d.op = D_CMPXCHG; d.a = opd(CX->getPointerOperand()); d.b = opd(CX->getCompareOperand()); d.c = opd(CX->getNewValOperand()); d.w = widthOf(CX->getCompareOperand()->getType()); }
        else if (isa<FenceInst>(I)) return;
        b->is.push_back(d);
    }
    static unsigned aggOff(Type* T, ArrayRef<unsigned> idx) {
        unsigned off = 0;
        for (unsigned i : idx) {
            if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; ++k) off += nslotsOf(S->getElementType(k)); T = S->getElementType(i); }
            else { auto* A = cast<ArrayType>(T); off += i * nslotsOf(A->getElementType()); T = A->getElementType(); }
        }
        return off;
    }
    void vecDecode(const Instruction& I, BBD* b) {
        Type* T = I.getType(); unsigned ns = nslotsOf(T);
        auto base = [&](DOp op) { DI d; d.I = &I; d.op = op; d.n = 1; return d; };
        if (auto* BO = dyn_cast<BinaryOperator>(&I); BO && T->getScalarType()->isIntegerTy()) {
            uint8_t sub; switch (BO->getOpcode()) { case Instruction::Add: sub = ADD; break; case Instruction::Sub: sub = SUB; break; case Instruction::Mul: sub = MUL; break; case Instruction::And: sub = AND; break; case Instruction::Or: sub = OR; break; case Instruction::Xor: sub = XOR; break; case Instruction::Shl: sub = SHL; break; case Instruction::LShr: sub = LSHR; break; case Instruction::AShr: sub = ASHR; break; default: sub = 255; }
            if (sub != 255) { for (unsigned k = 0; k < ns; ++k) { DI d = base(D_BIN); d.sub = sub; d.w = widthOf(T->getScalarType()); d.dst = slot[&I] + k; d.a = opd(BO->getOperand(0), k); d.b = opd(BO->getOperand(1), k); b->is.push_back(d); } return; }
        }
        if (auto* IC = dyn_cast<ICmpInst>(&I)) { for (unsigned k = 0; k < ns; ++k) { DI d = base(D_ICMP); d.sub = IC->getPredicate(); d.w = widthOf(IC->getOperand(0)->getType()->getScalarType()); d.dst = slot[&I] + k; d.a = opd(IC->getOperand(0), k); d.b = opd(IC->getOperand(1), k); b->is.push_back(d); } return; }
        if (auto* CI = dyn_cast<CastInst>(&I); CI && nslotsOf(CI->getSrcTy()) == ns && CI->getOpcode() != Instruction::BitCast) { for (unsigned k = 0; k < ns; ++k) { DI d = base(D_CAST); d.sub = CI->getOpcode(); d.w = widthOf(T->getScalarType()); d.w2 = widthOf(CI->getSrcTy()->getScalarType()); d.dst = slot[&I] + k; d.a = opd(CI->getOperand(0), k); b->is.push_back(d); } return; }
        if (auto* S = dyn_cast<SelectInst>(&I)) { bool vc = S->getCondition()->getType()->isVectorTy(); for (unsigned k = 0; k < ns; ++k) { DI d = base(D_SELECT); d.w = widthOf(T->getScalarType()); d.dst = slot[&I] + k; d.a = opd(S->getCondition(), vc ? k : 0); d.b = opd(S->getTrueValue(), k); d.c = opd(S->getFalseValue(), k); b->is.push_back(d); } return; }
        if (auto* EE = dyn_cast<ExtractElementInst>(&I)) if (auto* ci = dyn_cast<ConstantInt>(EE->getIndexOperand())) { DI d = base(D_COPY); d.dst = slot[&I]; d.w = widthOf(T); d.a = opd(EE->getVectorOperand(), ci->getZExtValue()); b->is.push_back(d); return; }
        if (auto* IE = dyn_cast<InsertElementInst>(&I)) if (auto* ci = dyn_cast<ConstantInt>(IE->getOperand(2))) { for (unsigned k = 0; k < ns; ++k) { DI d = base(D_COPY); d.dst = slot[&I] + k; d.w = widthOf(T->getScalarType()); d.a = k == ci->getZExtValue() ? opd(IE->getOperand(1)) : opd(IE->getOperand(0), k); b->is.push_back(d); } return; }
        if (auto* SV = dyn_cast<ShuffleVectorInst>(&I)) { auto mask = SV->getShuffleMask(); unsigned n0 = nslotsOf(SV->getOperand(0)->getType()); for (unsigned k = 0; k < ns; ++k) { DI d = base(D_COPY); d.dst = slot[&I] + k; d.w = widthOf(T->getScalarType()); int m = mask[k]; if (m < 0) m = 0; d.a = (unsigned)m < n0 ? opd(SV->getOperand(0), m) : opd(SV->getOperand(1), m - n0); b->is.push_back(d); } return; }
        DI d = base(D_UNSUP); b->is.push_back(d);
    }
};

// ------------------------------------------------------------------ solver layer
static inline E expr(const Val& v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
static inline Val mkval(E e) { if (e->op == CONST && e->w <= 64) return C((u64)e->k); return Val{0, e}; }

static std::vector<Z3_ast> ztmp;
static Z3_ast T(Z3_ast a) { Z3_inc_ref(Z, a); ztmp.push_back(a); return a; }
static void dropTmp() { for (auto a : ztmp) Z3_dec_ref(Z, a); ztmp.clear(); }
static Z3_sort bvs(unsigned w) { static std::map<unsigned, Z3_sort> m; auto& r = m[w]; if (!r) { r = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, r)); } return r; }
static Z3_ast num(u64 v, Z3_sort so) { return T(Z3_mk_unsigned_int64(Z, v, so)); }
static Z3_ast toZ3(E e) {
    if (e->z) return e->z;
    Z3_ast r = nullptr; auto S = [&](unsigned w) { return bvs(w); };
    auto b2bv = [&](Z3_ast b) { T(b); Z3_ast o = num(1, S(1)), z = num(0, S(1)); return Z3_mk_ite(Z, b, o, z); };
    switch (e->op) {
        case CONST: {
            if (e->w <= 64) r = num( (u64)e->k, S(e->w));
            else r = Z3_mk_concat(Z, num( (u64)(e->k >> 64), S(e->w - 64)), num( (u64)e->k, S(64)));
            break; }
        case VAR: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, (int)e->k), S(e->w)); P.vars[(size_t)e->k].z = r; break;
        case ITE: r = Z3_mk_ite(Z, T(Z3_mk_eq(Z, toZ3(e->a), num( 1, S(1)))), toZ3(e->b), toZ3(e->c)); break;
        case CONCAT: r = Z3_mk_concat(Z, toZ3(e->a), toZ3(e->b)); break;
        case EXTRACT: r = Z3_mk_extract(Z, (unsigned)e->k + e->w - 1, (unsigned)e->k, toZ3(e->a)); break;
        case ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, toZ3(e->a)); break;
        case SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, toZ3(e->a)); break;
        default: {
            Z3_ast a = toZ3(e->a), b = toZ3(e->b);
            switch (e->op) {
                case ADD: r = Z3_mk_bvadd(Z, a, b); break; case SUB: r = Z3_mk_bvsub(Z, a, b); break; case MUL: r = Z3_mk_bvmul(Z, a, b); break;
                case UDIV: r = Z3_mk_bvudiv(Z, a, b); break; case SDIV: r = Z3_mk_bvsdiv(Z, a, b); break; case UREM: r = Z3_mk_bvurem(Z, a, b); break; case SREM: r = Z3_mk_bvsrem(Z, a, b); break;
                case AND: r = Z3_mk_bvand(Z, a, b); break; case OR: r = Z3_mk_bvor(Z, a, b); break; case XOR: r = Z3_mk_bvxor(Z, a, b); break;
                case SHL: r = Z3_mk_bvshl(Z, a, b); break; case LSHR: r = Z3_mk_bvlshr(Z, a, b); break; case ASHR: r = Z3_mk_bvashr(Z, a, b); break;
                case EQ: r = b2bv(Z3_mk_eq(Z, a, b)); break; case ULT: r = b2bv(Z3_mk_bvult(Z, a, b)); break; case ULE: r = b2bv(Z3_mk_bvule(Z, a, b)); break;
                case SLT: r = b2bv(Z3_mk_bvslt(Z, a, b)); break; case SLE: r = b2bv(Z3_mk_bvsle(Z, a, b)); break;
                default: fatal("toZ3");
            }
        }
    }
    Z3_inc_ref(Z, r); e->z = r; return r;
}
static Z3_ast toBool(E e) { Z3_ast x = toZ3(e), o = num(1, bvs(1)); return T(Z3_mk_eq(Z, x, o)); }

typedef std::vector<std::pair<uint32_t, u64>> Asg;
struct CacheEnt { int res; Asg asg; };
struct VecHash { size_t operator()(const std::vector<u64>& v) const { u64 h = 1469598103934665603ULL; for (u64 x : v) h = ExprPool::mix(h, x); return h; } };
static std::unordered_map<std::vector<u64>, CacheEnt, VecHash> qcache;

static void setLimit(Z3_solver so, unsigned rl) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), rl); Z3_solver_set_params(Z, so, p); Z3_params_dec_ref(Z, p); }
// every query ends within its resource limit and, shortly after the deadline, in any case
static void onAlarm(int) { if (now() > deadline + 6) Z3_interrupt(Z); }
static void armAlarm() { signal(SIGALRM, onAlarm); itimerval t{{2, 0}, {2, 0}}; setitimer(ITIMER_REAL, &t, nullptr); }
static inline bool pinned(State& s, uint32_t v) { return s.flags[v] & 1; }
#include "lia.inc"

// returns 1 sat (asg filled), 0 unsat, -1 unknown.  query: pc && cond
static int query(State& s, E cond, Asg& asg) {
    // slice
    static std::vector<uint8_t> mark; static std::vector<uint8_t> used; mark.assign(P.vars.size(), 0); used.assign(s.pc.size(), 0);
    std::vector<uint32_t> vs; std::vector<E> sl; std::vector<uint32_t> pin;
    auto addvars = [&](E e) { for (uint32_t v : P.vset(e)->v) if (!mark[v]) { if (pinned(s, v)) { mark[v] = 2; pin.push_back(v); } else { mark[v] = 1; vs.push_back(v); } } };
    addvars(cond);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); ++i) if (!used[i]) {
            bool hit = false; for (uint32_t v : P.vset(s.pc[i])->v) if (mark[v] == 1) { hit = true; break; }
            if (hit) { used[i] = 1; sl.push_back(s.pc[i]); size_t k = vs.size(); addvars(s.pc[i]); if (vs.size() != k) ch = true; }
        }
    }
    { int lr = liaQuery(s, sl, cond, vs, pin, asg); if (lr != -2) {
        if (lr == 1) { // the integer reading is checked against the bit-vector reading on every model
            std::vector<u64>& mm = s.model; std::vector<u64> save; for (auto& a : asg) { save.push_back(mm[a.first]); mm[a.first] = a.second; }
            bool okm = P.eval(cond, mm) != 0; for (E e : sl) if (!P.eval(e, mm)) okm = false;
            for (size_t i = 0; i < asg.size(); ++i) mm[asg[i].first] = save[i];
            if (!okm) { fprintf(stderr, "cond %s\n", P.str(cond, 12).c_str()); fatal("integer translation disagrees"); }
        }
        return lr; } }
    if (getenv("DBGQ") && (st.queries % 97) == 5) { fprintf(stderr, "cond lbool=%u: %s\n", lbool(cond, false), Z3_ast_to_string(Z, toBool(cond))); for (E e : sl) if (!lbool(e, false)) { fprintf(stderr, "  nolia: %s\n", Z3_ast_to_string(Z, toBool(e))); } }
    std::vector<u64> key; key.reserve(sl.size() + pin.size() * 2 + 2); for (E e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.push_back(~0ULL); key.push_back(cond->id);
    std::sort(pin.begin(), pin.end()); for (uint32_t v : pin) { key.push_back(v); key.push_back(s.model[v]); }
    auto it = qcache.find(key);
    if (it != qcache.end()) { st.cachehits++; asg = it->second.asg; return it->second.res; }
    double t0 = now();
    Z3_solver_push(Z, ZS);
    for (uint32_t v : vs) {
        auto& vi = P.vars[v]; E ve = P.mk(VAR, vi.w, 0, 0, 0, v); Z3_ast z = toZ3(ve);
        if (vi.ranged) { Z3_sort so = bvs(vi.w);
            if (vi.lo) Z3_solver_assert(Z, ZS, T(Z3_mk_bvuge(Z, z, num(vi.lo, so))));
            if (vi.hi != (u64)maskw(vi.w)) Z3_solver_assert(Z, ZS, T(Z3_mk_bvule(Z, z, num(vi.hi, so)))); }
    }
    for (uint32_t v : pin) { auto& vi = P.vars[v]; Z3_solver_assert(Z, ZS, T(Z3_mk_eq(Z, toZ3(P.mk(VAR, vi.w, 0, 0, 0, v)), num(s.model[v], bvs(vi.w))))); }
    for (E e : sl) Z3_solver_assert(Z, ZS, toBool(e));
    Z3_solver_assert(Z, ZS, toBool(cond));
    Z3_lbool r = Z3_solver_check(Z, ZS);
    Z3_solver used_s = ZS; Z3_solver alt = nullptr;
    if (r == Z3_L_UNDEF) {
        alt = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, alt);
        setLimit(alt, 400000000u);
        Z3_ast_vector av = Z3_solver_get_assertions(Z, ZS); Z3_ast_vector_inc_ref(Z, av); for (unsigned i = 0; i < Z3_ast_vector_size(Z, av); ++i) Z3_solver_assert(Z, alt, Z3_ast_vector_get(Z, av, i)); Z3_ast_vector_dec_ref(Z, av);
        r = Z3_solver_check(Z, alt); used_s = alt;
    }
    int res = -1; asg.clear();
    if (r == Z3_L_FALSE) { res = 0; st.qunsat++; }
    else if (r == Z3_L_TRUE) {
        res = 1; st.qsat++;
        Z3_model m = Z3_solver_get_model(Z, used_s); Z3_model_inc_ref(Z, m);
        for (uint32_t v : vs) { Z3_ast o; auto& vi = P.vars[v]; if (!Z3_model_eval(Z, m, toZ3(P.mk(VAR, vi.w, 0, 0, 0, v)), true, &o)) fatal("model"); T(o); uint64_t u = 0; if (!Z3_get_numeral_uint64(Z, o, &u)) fatal("numeral"); asg.push_back({v, u}); }
        Z3_model_dec_ref(Z, m);
    } else st.qunk++;
    if (alt) Z3_solver_dec_ref(Z, alt);
    Z3_solver_pop(Z, ZS, 1); dropTmp();
    double dt = now() - t0; st.ztime += dt; st.queries++; if (dt > st.zmax) st.zmax = dt;
    if (res >= 0) { if (qcache.size() > 2000000) qcache.clear(); qcache.emplace(std::move(key), CacheEnt{res, asg}); }
    return res;
}

static bool isKnown(State& s, E c) { return std::binary_search(s.known.begin(), s.known.end(), c->id); }

static void addConstraint(State& s, E c) {
    if (getenv("DBGC") && !P.eval(c, s.model)) { fprintf(stderr, "BAD constraint %s\n", P.str(c, 8).c_str()); abort(); }
    if (ExprPool::isc(c)) return;
    if (c->op == AND && c->w == 1) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
    if (isKnown(s, c)) return;
    s.known.insert(std::lower_bound(s.known.begin(), s.known.end(), c->id), c->id);
    const VarSet* v = P.vset(c); uint32_t un = 0, nu = 0;
    for (uint32_t x : v->v) if (!pinned(s, x)) { un = x; if (++nu > 1) break; }
    if (nu == 0) return; // implied by the model
    s.pc.push_back(c);
    if (nu == 1) {
        auto& vi = P.vars[un];
        if (vi.ranged && vi.hi - vi.lo < 64) {
            u64 d = s.dom[un], nd = 0; u64 save = s.model[un];
            for (u64 i = 0; i <= vi.hi - vi.lo; ++i) if (d >> i & 1) { s.model[un] = vi.lo + i; if (P.eval(c, s.model)) nd |= 1ULL << i; }
            s.model[un] = save; s.dom[un] = nd;
            if (nd && !(nd & (nd - 1))) s.flags[un] |= 1;
        } else if (c->op == EQ && c->a->op == VAR && ExprPool::isc(c->b)) s.flags[un] |= 1;
    } else for (uint32_t x : v->v) if (!pinned(s, x)) s.flags[x] |= 2;
}

// decide a condition. returns 0/1 if forced, 2 if both feasible (alt = assignment making it !cur), -1 solver gave up
static int decide(State& s, E c, bool& cur, Asg& alt) {
    if (isKnown(s, c)) { cur = true; return 1; }
    E nc = P.not_(c);
    if (isKnown(s, nc)) { cur = false; return 0; }
    cur = P.eval(c, s.model) != 0;
    const VarSet* v = P.vset(c); uint32_t un[4]; unsigned nu = 0; u64 prod = 1; bool small = true;
    for (uint32_t x : v->v) if (!pinned(s, x)) {
        if (nu == 4) { small = false; break; }
        un[nu++] = x; auto& vi = P.vars[x];
        if (!(vi.ranged && vi.hi - vi.lo < 64)) { small = false; break; }
        prod *= __builtin_popcountll(s.dom[x]); if (prod > 256) { small = false; break; }
    }
    if (nu == 0) { st.domdecided++; return cur; }
    if (small) {
        bool found = false; u64 save[4]; for (unsigned i = 0; i < nu; ++i) save[i] = s.model[un[i]];
        std::vector<u64> vals[4]; for (unsigned i = 0; i < nu; ++i) { auto& vi = P.vars[un[i]]; for (u64 k = 0; k <= vi.hi - vi.lo; ++k) if (s.dom[un[i]] >> k & 1) vals[i].push_back(vi.lo + k); }
        size_t ix[4] = {0, 0, 0, 0};
        while (true) {
            for (unsigned i = 0; i < nu; ++i) s.model[un[i]] = vals[i][ix[i]];
            if ((P.eval(c, s.model) != 0) != cur) { found = true; break; }
            unsigned i = 0; while (i < nu && ++ix[i] == vals[i].size()) ix[i++] = 0;
            if (i == nu) break;
        }
        bool unary = true; for (unsigned i = 0; i < nu; ++i) if (s.flags[un[i]] & 2) unary = false;
        if (found && unary) { alt.clear(); for (unsigned i = 0; i < nu; ++i) alt.push_back({un[i], s.model[un[i]]}); }
        for (unsigned i = 0; i < nu; ++i) s.model[un[i]] = save[i];
        if (!found) { st.domdecided++; return cur; }
        if (unary) { st.domdecided++; return 2; }
    }
    int r = query(s, cur ? nc : c, alt);
    if (r == 1) return 2;
    if (r == 0) return cur;
    return -1;
}

static void finish(State* s) { delete s; }

static std::string where(State& s) {
    std::string out; int n = 0;
    for (auto it = s.fr.rbegin(); it != s.fr.rend() && n < 14; ++it, ++n) {
        Frame* f = *it; uint32_t ip = f->ip; std::string loc;
        if (ip < f->bb->is.size()) { auto* I = f->bb->is[ip].I; if (I && I->getDebugLoc()) { loc = I->getDebugLoc()->getFilename().str() + ":" + std::to_string(I->getDebugLoc().getLine()); } }
        std::string dn = demangle(f->fn->name); if (dn.size() > 160) dn = dn.substr(0, 160) + "...";
        out += "    #" + std::to_string(n) + " " + dn + (loc.empty() ? "" : " at " + loc) + "\n";
    }
    return out;
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string inputsStr(State& s, const std::vector<u64>& m) { std::string o; for (uint32_t v : s.inputs) { o += P.vars[v].name + " " + std::to_string(v < m.size() ? m[v] : 0) + "\n"; } return o; }

static void violation(State& s, const std::string& kind, const std::string& msg, const std::vector<u64>& model) {
    st.violations++;
    int k = sh->viol.fetch_add(1);
    if (k < 16) {
        std::string fn = opt.out + ".viol." + std::to_string(k); FILE* f = fopen((fn + ".tmp").c_str(), "w");
        fprintf(f, "#kind %s\n#msg %s\n", kind.c_str(), jesc(msg).c_str());
        std::string w = where(s); size_t p = 0; while (p < w.size()) { size_t q = w.find('\n', p); fprintf(f, "#at %s\n", w.substr(p, q - p).c_str()); p = q + 1; }
        for (auto& n : s.notes) fprintf(f, "#note %s %s\n", n.first.c_str(), n.second.c_str());
        fputs(inputsStr(s, model).c_str(), f); fclose(f); rename((fn + ".tmp").c_str(), fn.c_str());
    }
    if (k + 1 >= opt.maxviol) sh->stop = 1;
    s.dead = true;
}
static void error(State& s, const std::string& msg) { st.errors++; if (st.errs[msg]++ == 0 && opt.trace) fprintf(stderr, "symx: error: %s\n%s", msg.c_str(), where(s).c_str()); s.dead = true; }

// add cond==cur to s; push sibling with !cur at the same ip when both possible. returns false if state died
static bool branchOn(State& s, E c, bool& cur) {
    if (ExprPool::isc(c)) { cur = c->k != 0; return true; }
    Asg alt; int r = decide(s, c, cur, alt);
    if (r == 2) {
        State* t = new State(s); t->depth++; for (auto& a : alt) t->model[a.first] = a.second;
        addConstraint(*t, cur ? P.not_(c) : c); work.push_back(t); st.forks++;
        s.depth++; addConstraint(s, cur ? c : P.not_(c));
    } else if (r < 0) { st.abandoned++; s.dead = true; return false; }
    return true;
}
// concretise a value; may fork siblings. false if state died
static bool conc(State& s, Val& v, unsigned w) {
    if (!v.e) return true;
    if (v.e->op == CONST) { v = C((u64)v.e->k); return true; }
    u64 k = (u64)P.eval(v.e, s.model); E eqk = P.eq(v.e, P.cst(k, v.e->w));
    bool cur; if (!branchOn(s, eqk, cur)) return false;
    if (!cur) { fprintf(stderr, "eqk %s known %d %d\n", P.str(eqk, 8).c_str(), isKnown(s, eqk), isKnown(s, P.not_(eqk))); for (E e : s.pc) fprintf(stderr, "  pc %s = %d\n", P.str(e, 8).c_str(), (int)P.eval(e, s.model)); fprintf(stderr, "%s k=%llu\n", P.str(v.e, 8).c_str(), (unsigned long long)k); for (uint32_t x : P.vset(v.e)->v) fprintf(stderr, "%s [%llu,%llu] = %llu\n", P.vars[x].name.c_str(), (unsigned long long)P.vars[x].lo, (unsigned long long)P.vars[x].hi, (unsigned long long)s.model[x]); fatal("conc"); }
    v = C(k); return true;
}

static uint32_t newInput(State& s, const std::string& name, unsigned w, bool ranged, u64 lo, u64 hi, bool input) {
    static std::map<std::tuple<std::string, uint32_t, unsigned, u64, u64>, uint32_t> ids;
    uint32_t k = input ? s.seq++ : (0x80000000u | s.useq++);
    auto key = std::make_tuple(name, k, w, lo, hi); auto it = ids.find(key); uint32_t id;
    if (it == ids.end()) { E e = P.newvar(name, w, ranged, lo, hi); id = (uint32_t)e->k; ids[key] = id; } else id = it->second;
    if (s.model.size() <= id) { s.model.resize(id + 1, 0); s.dom.resize(id + 1, 0); s.flags.resize(id + 1, 0); }
    s.model[id] = ranged ? lo : 0; s.flags[id] = 0;
    if (ranged && hi - lo < 64) { u64 n = hi - lo + 1; s.dom[id] = n == 64 ? ~0ULL : ((1ULL << n) - 1); if (lo == hi) s.flags[id] = 1; } else s.dom[id] = 0;
    if (input) s.inputs.push_back(id);
    return id;
}

// ------------------------------------------------------------------ memory access
static Obj* lookup(State& s, u64 addr, u64& off, bool write, bool& stk) {
    if (addr >= STKBASE) { u64 id = (addr - STKBASE) >> SH; off = (addr - STKBASE) & ((1u << SH) - 1); stk = true; if (id >= s.stk.size()) return nullptr; Obj*& o = s.stk[id]; if (!o) return nullptr;
        if (write && o->rc > 1) { Obj* d = o->clone(); o->unref(); o = d; } return o; }
    stk = false;
    if (addr < HEAPBASE) return nullptr;
    u64 id = (addr - HEAPBASE) >> SH; off = (addr - HEAPBASE) & ((1u << SH) - 1);
    Obj* o = s.heap.get(id);
    if (!o) { // maybe inside a large object
        for (int k = 1; k < 64 && (u64)k <= id; ++k) { Obj* p = s.heap.get(id - k); if (p) { if (p->size >= (1u << SH)) { o = p; id -= k; off += (u64)k << SH; } break; } }
        if (!o) return nullptr;
    }
    if (write) o = s.heap.wget(id);
    return o;
}
static bool memerr(State& s, const char* what, u64 addr, u64 n) {
    char buf[200]; u64 off = 0; bool stk; Obj* o = lookup(s, addr, off, false, stk);
    if (!o) snprintf(buf, sizeof buf, "invalid %s of %llu bytes at address 0x%llx (%s)", what, (unsigned long long)n, (unsigned long long)addr, addr < 0x100000 ? "null" : "freed or unmapped");
    else snprintf(buf, sizeof buf, "out-of-bounds %s of %llu bytes at offset %llu of %s object of size %u", what, (unsigned long long)n, (unsigned long long)off, o->kind == KHEAP ? "heap" : o->kind == KSTACK ? "stack" : "global", o->size);
    violation(s, "memory", buf, s.model); return false;
}
static inline E entByte(uintptr_t y) { E e = (E)(y & ~(uintptr_t)15); unsigned off = y & 15; return P.extract(e, off * 8, 8); }
static bool readMem(State& s, u64 addr, unsigned bytes, unsigned w, Val& out) {
    u64 off = 0; bool stk; Obj* o = lookup(s, addr, off, false, stk);
    if (!o || off + bytes > o->size) return memerr(s, "read", addr, bytes);
    bool concrete = true;
    if (o->nonconc) for (unsigned i = 0; i < bytes; ++i) if (o->s[off + i]) { concrete = false; break; }
    if (concrete) {
        if (bytes <= 8) { u64 v = 0; memcpy(&v, o->b + off, bytes); out = C(w < 64 ? v & ((1ULL << w) - 1) : v); return true; }
        u128 v = 0; memcpy(&v, o->b + off, bytes); E e = P.cst(v, bytes * 8); if (w < bytes * 8) e = P.extract(e, 0, w); out = Val{(u64)v, e}; return true;
    }
    bool anyun = false; for (unsigned i = 0; i < bytes; ++i) if (o->s[off + i] == 1) anyun = true;
    if (anyun) {
        o = lookup(s, addr, off, true, stk);
        if (!o->y) o->y = (uintptr_t*)calloc(o->size, sizeof(uintptr_t));
        for (unsigned i = 0; i < bytes; ++i) if (o->s[off + i] == 1) { uint32_t id = newInput(s, "?uninit", 8, false, 0, 255, false); o->y[off + i] = (uintptr_t)P.mk(VAR, 8, 0, 0, 0, id); o->s[off + i] = 2; }
    }
    if (o->s[off] == 2 && (o->y[off] & 15) == 0) {
        E e = (E)o->y[off];
        if (e->w == bytes * 8) { bool same = true; for (unsigned i = 1; i < bytes; ++i) if (o->s[off + i] != 2 || o->y[off + i] != ((uintptr_t)e | i)) { same = false; break; }
            if (same) { if (w < e->w) e = P.extract(e, 0, w); out = mkval(e); return true; } }
    }
    E r = nullptr;
    for (unsigned i = 0; i < bytes; ++i) { E b = o->s[off + i] == 2 ? entByte(o->y[off + i]) : P.cst(o->b[off + i], 8); r = r ? P.concat(b, r) : b; }
    if (w < r->w) r = P.extract(r, 0, w);
    out = mkval(r); if (r->op == CONST && r->w > 64) out = Val{(u64)r->k, r};
    return true;
}
static bool writeMem(State& s, u64 addr, unsigned bytes, unsigned w, const Val& v) {
    u64 off = 0; bool stk; Obj* o = lookup(s, addr, off, true, stk);
    if (!o || off + bytes > o->size) return memerr(s, "write", addr, bytes);
    if (o->ro) { violation(s, "memory", "write to constant object", s.model); return false; }
    if (!v.e || v.e->op == CONST) {
        if (v.e) { u128 k = v.e->k; memcpy(o->b + off, &k, bytes); } else { if (bytes <= 8) memcpy(o->b + off, &v.c, bytes); else { u128 k = v.c; memcpy(o->b + off, &k, bytes); } }
        if (o->nonconc) memset(o->s + off, 0, bytes);
        return true;
    }
    E e = v.e; if (e->w < bytes * 8) e = P.zext(e, bytes * 8);
    if (!o->y) o->y = (uintptr_t*)calloc(o->size, sizeof(uintptr_t));
    o->nonconc = o->size; memset(o->s + off, 2, bytes);
    for (unsigned i = 0; i < bytes; ++i) o->y[off + i] = (uintptr_t)e | i;
    return true;
}
static bool copyMem(State& s, u64 dst, u64 src, u64 n) {
    if (!n) return true;
    u64 so = 0, dof = 0; bool k; Obj* a = lookup(s, src, so, false, k); if (!a || so + n > a->size) return memerr(s, "read", src, n);
    Obj* b = lookup(s, dst, dof, true, k); if (!b || dof + n > b->size) return memerr(s, "write", dst, n);
    if (b->ro) { violation(s, "memory", "write to constant object", s.model); return false; }
    a = lookup(s, src, so, false, k);
    memmove(b->b + dof, a->b + so, n);
    if (a->nonconc || b->nonconc) {
        memmove(b->s + dof, a->s + so, n); if (a->nonconc) b->nonconc = b->size;
        if (a->y) { if (!b->y) b->y = (uintptr_t*)calloc(b->size, sizeof(uintptr_t)); memmove(b->y + dof, a->y + so, n * sizeof(uintptr_t)); }
    }
    return true;
}
static u64 heapAlloc(State& s, u64 size, bool zero, uint8_t kind = KHEAP) {
    Obj* o = Obj::make((uint32_t)size, kind, zero); u64 id = s.heap.add(o, (size >> SH) + 1); return HEAPBASE + (id << SH);
}
static u64 stackAlloc(State& s, u64 size) {
    if (size >= (1u << SH)) return heapAlloc(s, size, false, KSTACK);
    Obj* o = Obj::make((uint32_t)size, KSTACK, false); u64 id = s.stk.size(); s.stk.push_back(o); return STKBASE + (id << SH);
}
static void popFrame(State& s) {
    Frame* f = s.fr.back(); uint32_t base = f->stkbase;
    while (s.stk.size() > base) { if (s.stk.back()) s.stk.back()->unref(); s.stk.pop_back(); }
    s.fr.pop_back(); if (--f->rc == 0) delete f;
}
static void pushFrame(State& s, FnD* f) {
    if (!f->decoded) { Decoder d; d.run(f); }
    if (!f->seen) { f->seen = true; }
    f->count++;
    Frame* g = new Frame(); g->fn = f; g->bb = f->entry; g->ip = 0; g->stkbase = s.stk.size(); g->r.assign(f->nslots, Val{0, nullptr}); s.fr.push_back(g);
}

static inline Val get(Frame* f, int32_t i) { return i >= 0 ? f->r[i] : f->fn->consts[~i]; }
static inline void takeEdge(Frame* f, Edge* e) {
    size_t n = e->copies.size();
    if (n == 1) f->r[e->copies[0].first] = get(f, e->copies[0].second);
    else if (n) { static std::vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; ++i) tmp[i] = get(f, e->copies[i].second); for (size_t i = 0; i < n; ++i) f->r[e->copies[i].first] = tmp[i]; }
    f->bb = e->to; f->ip = 0;
}

// type-info based catch matching
static const GlobalVariable* gvAt(u64 addr) { static std::unordered_map<u64, const GlobalVariable*> m; if (m.empty()) for (auto& p : gaddr) m[p.second] = p.first; auto it = m.find(addr); return it == m.end() ? nullptr : it->second; }
static bool tiMatches(u64 thrown, u64 caught, int depth = 0) {
    if (thrown == caught) return true; if (depth > 8) return false;
    auto* g = gvAt(thrown), *h = gvAt(caught); if (!g) return false;
    if (h && g->getName() == h->getName()) return true;
    if (g->hasInitializer()) {
        if (auto* S = dyn_cast<ConstantStruct>(g->getInitializer())) for (unsigned i = 2; i < S->getNumOperands(); ++i) if (S->getOperand(i)->getType()->isPointerTy()) { u64 b = constInt(S->getOperand(i)); if (tiMatches(b, caught, depth + 1)) return true; }
        return false;
    }
    static const std::map<std::string, std::string> base = { {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"} };
    std::string n = g->getName().str(); auto it = base.find(n);
    while (it != base.end()) { if (h && h->getName() == it->second) return true; it = base.find(it->second); }
    return false;
}
static std::unordered_map<u64, int> typeids;
static int typeIdFor(u64 ti) { auto it = typeids.find(ti); if (it != typeids.end()) return it->second; int k = typeids.size() + 1; typeids[ti] = k; return k; }

static std::string tiName(u64 t) { auto* g = gvAt(t); return g ? g->getName().str() : "?"; }
// unwind from the current instruction of the top frame (a throw call / resume)
static void unwind(State& s) {
    bool first = true;
    std::string w0 = where(s);
    while (true) {
        if (s.fr.empty()) { State& t = s; violation(t, "exception", "uncaught exception " + demangle(tiName(s.cur.tinfo)) + " thrown from\n" + w0, s.model); return; }
        Frame* f = s.top(); DI& d = f->bb->is[f->ip];
        if (d.op == D_INVOKE) {
            CallX* x = (CallX*)d.x; auto* lp = x->unw->to->bb->getLandingPadInst(); bool go = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses() && !go; ++i) if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) go = true; else if (tiMatches(s.cur.tinfo, constInt(c))) go = true; }
            if (go) { takeEdge(f, x->unw); return; }
        }
        (void)first; first = false;
        popFrame(s);
        if (s.fr.empty()) continue;
    }
}

static double asD(const Val& v, bool isf) { if (isf) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, bool isf) { if (isf) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return C(u); } u64 u; memcpy(&u, &d, 8); return C(u); }
static bool isF32(Type* T) { return T->isFloatTy(); }

static std::string readStr(State& s, u64 addr) { std::string r; for (int i = 0; i < 300; ++i) { Val v; u64 off; bool k; Obj* o = lookup(s, addr + i, off, false, k); if (!o || off >= o->size || o->s[off]) break; if (!o->b[off]) break; r += (char)o->b[off]; } return r; }

#include "exec.inc"

// ------------------------------------------------------------------ main
static void writeStats() {
    std::string fn = opt.out + ".st." + std::to_string(getpid()); FILE* f = fopen(fn.c_str(), "w");
    fprintf(f, "paths %llu\ncompleted %llu\nassume_killed %llu\nforks %llu\nqueries %llu\nqsat %llu\nqunsat %llu\nqunknown %llu\ncachehits %llu\ndomdecided %llu\ninsts %llu\nasserts %llu\nassertq %llu\nassertconst %llu\nviolations %llu\nerrors %llu\nabandoned %llu\nlimit %llu\nmaxdepth %llu\nztime_us %llu\nzmax_us %llu\nexprs %llu\nlia %llu\n",
        (unsigned long long)st.paths, (unsigned long long)st.completed, (unsigned long long)st.killedAssume, (unsigned long long)st.forks, (unsigned long long)st.queries, (unsigned long long)st.qsat, (unsigned long long)st.qunsat, (unsigned long long)st.qunk, (unsigned long long)st.cachehits, (unsigned long long)st.domdecided, (unsigned long long)st.insts,
        (unsigned long long)st.asserts, (unsigned long long)st.assertq, (unsigned long long)st.assertconst, (unsigned long long)st.violations, (unsigned long long)st.errors, (unsigned long long)st.abandoned, (unsigned long long)st.limit, (unsigned long long)st.maxdepth, (unsigned long long)(st.ztime * 1e6), (unsigned long long)(st.zmax * 1e6), (unsigned long long)P.count, (unsigned long long)st.lia);
    for (auto& r : st.reach) fprintf(f, "reach %s %llu\n", r.first.c_str(), (unsigned long long)r.second);
    for (auto& r : st.asserttags) fprintf(f, "tag %s %llu\n", r.first.c_str(), (unsigned long long)r.second);
    for (auto& r : st.errs) fprintf(f, "err %llu %s\n", (unsigned long long)r.second, jesc(r.first).c_str());
    for (auto* d : fnlist) if (d->count) fprintf(f, "fn %llu %s\n", (unsigned long long)d->count, d->name.c_str());
    for (auto& r : st.samples) fprintf(f, "sample %s\n", jesc(r).c_str());
    fclose(f);
}

static void resetStats() { Stats z; st = z; for (auto* d : fnlist) d->count = 0; }

static size_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; size_t a = 0, b = 0; if (fscanf(f, "%zu %zu", &a, &b) != 2) b = 0; fclose(f); return b * 4 / 1024; }

static void runAll() {
    double lastSplit = now(); u64 tick = 0, rng = opt.seed * 0x9E3779B97F4A7C15ull + 1;
    while (!work.empty()) {
        if (sh->stop || now() > deadline) { st.abandoned += work.size(); break; }
        if (work.size() > 1 && work.size() < 3000) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; if (rng & 64) std::swap(work[(rng >> 8) % work.size()], work.back()); } // diversify: matters only when the time budget ends first
        State* s = work.back(); work.pop_back();
        // run until it dies, completes, or forks make splitting useful
        runState(s);
        if (s->dead) { st.paths++; sh->paths.fetch_add(1, std::memory_order_relaxed); if (s->depth > st.maxdepth) st.maxdepth = s->depth; st.insts += s->ninst; delete s; }
        else work.push_back(s); // yielded
        if ((++tick & 15) == 0 || work.size() > 1) {
            double t = now();
            if (work.size() >= 2 && sh->active.load() < opt.jobs && t - lastSplit > 0.02) {
                int a = sh->active.fetch_add(1);
                if (a >= opt.jobs) sh->active.fetch_sub(1);
                else {
                    lastSplit = t; pid_t p = fork();
                    if (p == 0) { // child takes every other state
                        std::vector<State*> mine; for (size_t i = 0; i < work.size(); ++i) if (i % 2 == 0) mine.push_back(work[i]); // oldest are biggest
                        work.swap(mine); resetStats(); armAlarm(); lastSplit = now(); rng ^= (u64)++sh->nproc * 0xD1B54A32D192ED03ull;
                    } else if (p > 0) { std::vector<State*> mine; for (size_t i = 0; i < work.size(); ++i) if (i % 2 == 1) mine.push_back(work[i]); else delete work[i]; work.swap(mine); lastSplit = now(); }
                    else sh->active.fetch_sub(1);
                }
            }
            if ((tick & 255) == 0) { if (rssMB() > opt.memMB) {
                // continue in a fresh process is not possible; drop caches first
                qcache.clear(); if (rssMB() > opt.memMB * 1.5) { st.abandoned += work.size(); st.errs["memory limit"]++; break; } } }
        }
    }
    for (auto* s : work) (void)s;
    writeStats(); sh->active.fetch_sub(1);
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-o") opt.out = nx(); else if (a == "-j") opt.jobs = stoi(nx()); else if (a == "-t") opt.timeout = stod(nx()); else if (a == "--maxinst") opt.maxinst = stoull(nx()); else if (a == "--maxviol") opt.maxviol = stoi(nx());
        else if (a == "--seed") opt.seed = stoull(nx()); else if (a == "--trace") opt.trace = true; else if (a == "--entry") opt.entry = nx(); else if (a == "--mem") opt.memMB = stoull(nx()); else opt.bc = a;
    }
    tstart = now(); deadline = tstart + opt.timeout;
    LLVMContext ctx; SMDiagnostic err; auto mod = getLazyIRFileModule(opt.bc, err, ctx);
    if (!mod) { err.print("symx", errs()); return 4; }
    M = mod.get(); DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); _exit(4); });
    P.cmpHook = cmpByRange; IntS = Z3_mk_int_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, IntS)); ZS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZS);
    { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)opt.rlimit); Z3_solver_set_params(Z, ZS, p); }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->active = 1; sh->nproc = 1;
    State* s = new State();
    // globals
    heapAlloc(*s, 16, true);
    for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64; if (G.isDeclaration() && sz < 64) sz = 64; u64 a = heapAlloc(*s, sz, true, KGLOBAL); gaddr[&G] = a; }
    errnoAddr = heapAlloc(*s, 16, true, KGLOBAL);
    for (auto& G : M->globals()) {
        u64 off; bool k; Obj* o = lookup(*s, gaddr[&G], off, true, k);
        if (G.hasInitializer()) { if (auto e = G.materialize()) fatal("materialize global"); initMem(o, 0, G.getInitializer()); o->ro = G.isConstant(); }
        if (G.getName() == "__libc_single_threaded") o->b[0] = 1;
    }
    Function* F = M->getFunction(opt.entry); if (!F) fatal("no entry function");
    // constructors run before entry: push entry first, then ctors on top in reverse order
    pushFrame(*s, getFn(F));
    if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) if (auto* A = dyn_cast<ConstantArray>(GC->getInitializer())) {
        std::vector<std::pair<u64, Function*>> cs;
        for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto it = cs.rbegin(); it != cs.rend(); ++it) if (it->second) { pushFrame(*s, getFn(it->second)); s->fr.back()->ctorRet = true; }
    }
    work.push_back(s);
    pid_t root = getpid(); signal(SIGCHLD, SIG_IGN);
    armAlarm(); runAll();
    if (getpid() != root) _exit(0);
    while (sh->active.load() > 0) { usleep(2000); if (now() > deadline + 60) break; // lost children
        if (kill(0, 0) != 0) break; }
    fprintf(stderr, "symx: %d processes, %.2fs, viol=%d\n", sh->nproc.load(), now() - tstart, sh->viol.load());
    fflush(nullptr);
    _exit(0);
}

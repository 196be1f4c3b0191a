"""What each check runs: harnesses (in harness/), bounds per tier, expected reachability witnesses."""
import os
COMMON_ASSUMPTIONS = [
 "the code is executed as LLVM IR produced by clang 18 -O1 from the current /repo sources; g++ builds are only used to replay counterexamples and sampled paths",
 "out-of-line libstdc++ functions (red-black tree rebalancing, list hooks, hashtable prime policy, throw helpers) are replaced by the models in harness/models.cpp; trees are not balanced, which is not observable",
 "hash functions are replaced by an injective-enough model (hash tables are exercised, but collision patterns differ from the real hash)",
 "ptrie containers are not available offline: stubs/common/ptrie is a map with the same interface; the real ptrie library is trusted",
 "memory allocation does not fail",
]
def known_findings(p):
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.txt")
    if not os.path.exists(f): return []
    return [l.strip() for l in open(f) if l.startswith("KNOWN-FINDING: property=%s " % p)]
PDA = "src/include/pdaaal/internal/PDA.cpp"
def H(name, src, quick, thorough=None, reach=(), bounds="", repo=(PDA,), share=1.0, **kw):
    d = dict(name=name, src=src, repo_src=list(repo), quick=dict(quick), reach=list(reach), bounds=bounds, share=share); d.update(kw)
    t = dict(quick); t.update(thorough or {}); d["thorough"] = t
    return d
PROPS = {}
def P(id, *hs, quick_s=300, thorough_s=1500, assumptions=()): PROPS[id] = dict(harnesses=list(hs), quick_s=quick_s, thorough_s=thorough_s, assumptions=list(assumptions))

AR = ["accepted", "rejected"]
def sat(alg): return [
  H("r2e2", "c_sat.cpp", dict(ALG=alg, NR=2, NE=2, NX=2), dict(NR=3, NE=2), AR, "2 control states, 2 labels, NR rules of every kind, automaton with NX extra states and NE edges, query stacks of length 0..3"),
  H("r3e1", "c_sat.cpp", dict(ALG=alg, NR=3, NE=1, NX=1, SLQ=2), dict(SLQ=3), AR, "3 rules, single automaton edge"),
  H("wild", "c_sat.cpp", dict(ALG=alg, NR=2, NE=1, NX=1, WILD=1, ACC0=1, SLQ=2), dict(NE=2, NX=2), AR + ["empty stack"], "rules may have wildcard pre-labels, control states may accept the empty stack")]
SHB = "five rules whose states and operations have a fixed shape (SHAPE in harness/pdah.h) over three states; symbolic labels"
def shapes(alg): return [H("shape%d" % k, "c_sat.cpp", dict(ALG=alg, SHAPE=k, NS=3, NE=1, NX=1, SLQ=2), dict(SLQ=3, NL=3), AR, SHB) for k in (1, 2, 3, 4, 5, 6)] + [H("shape3-e2", "c_sat.cpp", dict(ALG=alg, SHAPE=3, NS=3, NE=2, NX=2, SLQ=2), None, AR, SHB)]
P("P01", *sat(0), *shapes(0)); P("P02", *sat(1), *shapes(1))
RU = ["reachable", "unreachable"]
P("P03", *[H(n, "s_any.cpp", dict(MODE=m, CHK=1, NR=2, NX=1, NE=1, NX1=2), dict(NR=3), RU, "unweighted solver, 2 states, 2 labels, NR rules, automata with 1-2 extra states and NE edges each") for m, n in enumerate(["post", "pre", "dual", "post-noet", "pre-noet"])],
  *[H("conf-" + n, "s_any.cpp", dict(MODE=m, CHK=1, NR=2, CONF=1, S0LO=0, S0HI=2, S1LO=0, S1HI=2), dict(NR=3, S1HI=1), RU, "single configurations with stacks up to S0HI and S1HI symbols") for m, n in enumerate(["post", "pre", "dual"])],
  *[H("shape%d-%s" % (k, n), "s_any.cpp", dict(MODE=m, CHK=1, SHAPE=k, NS=3, CONF=1, S0LO=0, S0HI=h, S1LO=0, S1HI=2), dict(S0HI=2), RU, SHB + ", single configurations with stacks up to S0HI and S1HI symbols") for k, h in ((3, 2), (4, 2), (1, 1)) for m, n in enumerate(["post", "pre", "dual"])])
P("P04", *[H(n, "s_any.cpp", dict(MODE=m, CHK=6, NR=2, NX=1, NE=1, NX1=2), dict(NR=3), ["trace", "rule trace"], "unweighted solver, 2 states, 2 labels, NR rules, automata with 1-2 extra states and NE edges each") for m, n in enumerate(["post", "pre", "dual", "post-noet", "pre-noet"])],
  *[H("conf-" + n, "s_any.cpp", dict(MODE=m, CHK=6, NR=2, CONF=1, S0LO=0, S0HI=2, S1LO=0, S1HI=2), dict(NR=3, S1HI=1), ["trace", "rule trace", "long rule trace"], "single configurations with stacks up to S0HI and S1HI symbols") for m, n in enumerate(["post", "pre", "dual"])],
  *[H("shape%d-%s" % (k, n), "s_any.cpp", dict(MODE=m, CHK=6, SHAPE=k, NS=3, CONF=1, S0LO=0, S0HI=h, S1LO=0, S1HI=2), dict(S0HI=2), ["trace", "rule trace"], SHB + ", single configurations with stacks up to S0HI and S1HI symbols") for k, h in ((3, 2), (4, 2), (5, 1)) for m, n in enumerate(["post", "pre", "dual"])])
P("P05", *([H(n, "s_short.cpp", dict(MODE=m, NR=2, SLMIN=0), dict(NR=3), RU, "weighted solver, single-configuration endpoints, stacks up to 1 and 2 symbols, weights 0..10^6") for m, n in enumerate(["post", "pre", "dual"])] +
            [H("pre-r3", "s_short.cpp", dict(MODE=1, NR=3, NL=1, SL0=2, SL1=2, SLMIN=0), dict(NR=4), RU, "one label, NR rules, stacks up to 2 symbols"),
             H("dual-s3", "s_short.cpp", dict(MODE=2, NR=2, SL0=1, SL1=3, SLMIN=0), dict(SL0=2), RU, "stacks up to 1 and 3 symbols"),
             H("dual-s2", "s_short.cpp", dict(MODE=2, NR=2, SL0=2, SL1=0, SLMIN=0), dict(NR=3), RU, "stacks up to 2 symbols, empty target stack")] +
            [H("shape%d-%s" % (k, n), "s_short.cpp", dict(MODE=m, SHAPE=k, NS=3, SL0=1, SL1=2, SLMIN=0, P0HI=0, SL0MIN=1), dict(SL0=2), RU, SHB + " and weights") for k, ms in ((4, (0, 1, 2)), (5, (0, 1, 2)), (6, (0,)), (3, (0, 1, 2))) for m, n in enumerate(["post", "pre", "dual"]) if m in ms] +
            [H(n, "w_acc.cpp", dict(MODE=m, NR=2), dict(NR=3), AR, "weighted saturation without a product; shortest accepting path and its trace") for m, n in enumerate(["acc-post", "acc-pre"])]))

WA = ["sum", "less"]
P("P07", *[H("%s-%s-%s" % (ty, ["min", "max"][mx], sh), "w_alg.cpp", dict(T_=ty, MX=mx, SHAPE=si), None, WA + (["tie"] if si else []), "all values without overflow, vectors up to length 3", ()) for ty in ("uint32_t", "int32_t", "uint64_t", "int64_t") for mx in (0, 1) for si, sh in enumerate(["scalar", "array", "vector"])])
P("P08", *[H(ty, "w_fun.cpp", dict(T_=ty, **({"VMAX": 1000} if "32" in ty else {})), None, ["linear"], "up to 3 terms, nested, symbolic scales and atoms", ()) for ty in ("int64_t", "uint64_t", "int32_t", "uint32_t")])
def fs(name, k, n, reach, c1="vector", c2="vector", tn=None, **kw): return H(name, "f_set.cpp", dict(KIND=k, NOPS=n, C1=c1, C2=c2, **kw), dict(NOPS=tn or n), reach, "%d operations, symbolic keys" % n, ())
P("P09", fs("set", 0, 4, ["found"], tn=5), fs("map", 1, 4, ["overwrite"]), fs("map-move", 1, 3, ["overwrite"], MOVK=1), fs("set-move", 0, 3, ["found"], MOVK=1),
  *[fs("tuple%d-%s-%s" % (k, a, b), k, 3, ["end"], a, b) for k in (2, 3) for a in ("vector", "hash") for b in ("vector", "hash")],
  *[fs("tuple4-%s" % a, 4, 3, ["end"], a) for a in ("vector", "hash")], *[fs("convert%d" % n, 5, n, ["end"]) for n in (3,)], *[fs("three-%s" % a, 6, 3, ["end"], a) for a in ("vector", "hash")])
P("P10", H("expr5", "n_re.cpp", dict(OPS=5), dict(OPS=6), AR, "up to OPS construction steps, words up to length 3 over 3 symbols", ()), H("leaves", "n_re.cpp", dict(OPS=3, LEAFK=8), dict(OPS=4), AR, "all leaf kinds", ()), H("copies", "n_re.cpp", dict(OPS=4, COPY=1), dict(OPS=5), AR + ["copy", "assign"], "with copies and assignments", ()))
P("P11", H("ids", "p_nfa.cpp", dict(OPS=4, WL=2), dict(OPS=5), AR, "id-typed NFA, up to OPS construction steps, words up to length 2, any subset of 2 control states"), H("ids-leaves", "p_nfa.cpp", dict(OPS=2, LEAFK=8, WL=3), dict(OPS=3), AR, "all leaf kinds"),
  H("labels", "p_nfa.cpp", dict(TYPED=1, OPS=3, WL=2), dict(OPS=4), AR, "label-typed NFA, three arbitrary distinct labels introduced in arbitrary order"), H("labels-leaves", "p_nfa.cpp", dict(TYPED=1, OPS=2, LEAFK=8, WL=2), dict(OPS=3), AR, "all leaf kinds"),
  *[H("config-%s" % ["ids", "labels"][t], "p_nfa.cpp", dict(TYPED=t, ONE=1, WL=3), None, AR, "single configuration, stacks up to length 2, queries up to 3") for t in (0, 1)])
P("P12", H("labelset", "d_store.cpp", dict(MODE=0, NOPS=3), dict(NOPS=4), ["filter", "intersect", "wildcard"], "NOPS operations on symbolic label lists, 3 labels"),
  *[H("store%s%s" % (["", "-w"][w], ["", "-hash"][h]), "d_store.cpp", dict(MODE=1, NOPS=2, WGT=w, HASH=h), dict(NOPS=3), ["stored", "cleared"], "NOPS additions, symbolic operations, labels and weights, 2 states") for w in (0, 1) for h in (0, 1)],
  *[H("typed%s%s" % (["", "-w"][w], ["", "-hash"][h]), "d_store.cpp", dict(MODE=2, NOPS=n, WGT=w, HASH=h), dict(NOPS=2), ["listed", "wildcard"], "NOPS additions through the typed interface, three arbitrary distinct labels") for w, h, n in ((0, 0, 2), (1, 0, 1), (0, 1, 1), (1, 1, 1))])
P("P19", *[H("part%d-%d-%d" % (q, a, b), "n_succ.cpp", dict(PART=q, NST=a, NED=b), dict(NST=3, NED=3) if a == 3 else None, ["step"], "NFA with NST states and NED edges, symbolic labels", ()) for q in (1, 2, 3) for a, b in ((2, 3), (3, 2))])
P("P21", H("disjoint", "u_alg.cpp", dict(MODE=0, N1=3, N2=3), dict(N1=4, N2=4), ["disjoint", "common"], "sorted ranges of symbolic elements", ()), H("prio", "u_alg.cpp", dict(MODE=1, N1=5), dict(N1=6), ["pop"], "N1 operations", ()))

FX = ["bounded", "unbounded", "unreachable"]
FXB = "weighted solver, NS states, 2 labels, NR rules with weights in -1000..1000, single-configuration endpoints with stacks up to 1 and SL1 symbols"
P("P06", *([H("%s-%s" % (["post", "pre", "both"][m], ["shortest", "longest"][l]), "x_fix.cpp", dict(MODE=m, LONGEST=l, NR=2, SL1=2, SLMIN=0, WMIN=-1000, WMAX=1000), dict(NR=3, SL1=1), FX, FXB) for m in (0, 1, 2) for l in (1, 0)] +
            [H("%s-longest-r3" % ["post", "pre"][m], "x_fix.cpp", dict(MODE=m, LONGEST=1, NR=3, NS=1, SL1=1, WMIN=-1000, WMAX=1000), dict(NS=1, SL1=2), FX, FXB) for m in (0, 1)] +
            [H("shape%d-%s-%s" % (k, ["post", "pre", "both"][m], ["shortest", "longest"][l]), "x_fix.cpp", dict(MODE=m, LONGEST=l, SHAPE=k, NS=3, SL1=1, SLMIN=0, WMIN=-1000, WMAX=1000), dict(SL1=2), FX if k != 4 else FX[::2], SHB + " and weights") for k, m, l in ((1, 0, 1), (1, 1, 0), (1, 2, 1), (2, 0, 1), (2, 1, 1), (3, 0, 0), (3, 1, 1), (5, 0, 1), (5, 0, 0), (5, 1, 1), (5, 2, 0), (6, 0, 1), (6, 1, 0))] +
            [H("post-%s-u" % ["shortest", "longest"][l], "x_fix.cpp", dict(MODE=0, LONGEST=l, NR=2, SL1=1, WMIN=0, WMAX=1000, WT="uint32_t"), dict(SL1=2), FX if l else [x for x in FX if x != "unbounded"], "unsigned weights") for l in (1, 0)]))
RED = (PDA, "src/include/pdaaal/internal/Reducer.cpp")
P("P13", *([H("agg%d" % a, "m_red.cpp", dict(AGG=a, NS=3, NR=3, WILD=1, LEN=3), dict(NR=4, LEN=4), ["run", "long run", "unchanged"] + (["smaller"] if a else []), "3 control states, 2 labels, NR rules with single or wildcard pre-labels, runs of up to LEN+1 rules", RED) for a in (0, 1, 2, 3, 4)] +
            [H("agg%d-term%d" % (a, t), "m_red.cpp", dict(AGG=a, NS=3, NR=3, WILD=1, LEN=3, INI=0, TERM=t), None, ["run", "long run", "unchanged", "smaller"], "other initial and terminal states", RED) for a, t in ((2, 1), (2, 2), (3, 1))] +
            [H("shape%d-agg%d" % (k, a), "m_red.cpp", dict(AGG=a, SKEL=k, NS=8, WILD=1, LEN=8), dict(NL=3), ["run", "long run", "smaller"], "8 or 9 rules whose states and operations have a fixed shape, symbolic labels or wildcard pre-labels, runs of up to 9 rules", RED) for k, a in ((1, 2), (1, 4), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 4), (4, 1), (4, 2), (4, 3), (4, 4))] +
            [H("agg2-r4", "m_red.cpp", dict(AGG=2, NS=3, NR=4, WILD=0, LEN=4), None, ["run", "long run", "unchanged", "smaller"], "4 rules, single pre-labels", RED)]))
TP = ["non-empty", "empty"]
P("P14", *([H(n, "t_prod.cpp", dict(NE=2, NX=2, **d), None if "ACC0" in d else dict(NE=3, NX=2), TP + ([] if "EARLY" in d else AR), "two automata with 2 control states, NX extra states and NE edges each; edges known before or added after the product was set up; query stacks of length 0..2")
   for n, d in (("plain", {}), ("swapped", dict(SWAPPED=1)), ("early", dict(EARLY=1)), ("late1", dict(LATE=1)), ("late2", dict(LATE=2)), ("late1-swapped", dict(LATE=1, SWAPPED=1)), ("late2-early", dict(LATE=2, EARLY=1)), ("late1-early-swapped", dict(LATE=1, EARLY=1, SWAPPED=1)), ("control-accepting", dict(ACC0=1)))] +
            [H("e3", "t_prod.cpp", dict(NE=3, NX=1), dict(NX=2), TP + AR, "3 edges")] +
            [H("dual-%d%d" % (a, b), "t_prod.cpp", dict(NE=2, NX=2, DUAL=1, LATEA=a, LATEB=b), dict(NE=3), TP, "both automata grow: LATEA and LATEB edges are added in turn after the product was set up") for a, b in ((1, 1), (2, 1), (1, 2))] +
            [H("shape%d%s" % (k, n), "t_prod.cpp", dict(SKEL=k, NS=1, **d), dict(NL=3), TP + ([] if "EARLY" in d or "DUAL" in d else AR), "fixed sources of 3 to 4 edges each, symbolic targets and labels") for k in (1, 2, 3) for n, d in (("", dict(LATE=1)), ("-early-swapped", dict(LATE=1, EARLY=1, SWAPPED=1)), ("-dual", dict(DUAL=1, LATEA=2)))]))
P("P15", *[H("union-%d%d%d" % (a, b, c), "y_aut.cpp", dict(MODE=2, NE=a, NX=b, ACC0=c), dict(SLQ=3), AR, "two automata with 2 control states, NX extra states and NE edges each, query stacks of length 0..2") for a, b, c in ((1, 2, 1), (2, 1, 1), (2, 2, 0))])
P("P16", *[H(["single", "pair"][k], "a_path.cpp", dict(PAIR=k, NOPS=5), dict(NOPS=6), ["round trip", "pop", "epsilon"] + (["split"] if k else []), "NOPS operations on symbolic states and labels", ()) for k in (0, 1)])
P("P17", H("accept", "y_aut.cpp", dict(MODE=0, NE=3, NX=2, ACC0=1, SLQ=3), dict(NE=4), AR + ["found"], "2 control states, NX extra states, NE edges, query stacks up to SLQ"), H("shortest", "y_aut.cpp", dict(MODE=1, NE=3, NX=2, ACC0=1), dict(NE=4), AR + ["found"], "symbolic weights on the edges"))
RP = ["first", "second"]
P("P18", H("combine1", "r_comb.cpp", dict(MODE=0, NCOMB=2, SZ=1, EL=4), None, ["split", "end"], "refinements of two sides with SZ elements, combined NCOMB times", ()), H("combine2", "r_comb.cpp", dict(MODE=0, NCOMB=2, SZ=2, EL=2), dict(EL=3), ["split", "end"], "same", ()), H("combine3", "r_comb.cpp", dict(MODE=0, ASC=1, NCOMB=1, SZ0=1, SZ=3, EL=4), dict(EL=5), ["split", "end"], "a refinement of SZ elements on each side combined with one of one and three", ()),
  H("pairs", "r_comb.cpp", dict(MODE=1, NW_=0, EL=2), dict(EL=3), RP, "2 good and 2 bad pairs over EL+1 elements", ()), H("pairs-wild", "r_comb.cpp", dict(MODE=1, NW_=1, EL=1), dict(EL=2), RP + ["wildcard"], "with wildcards", ()), H("pairs-wild12", "r_comb.cpp", dict(MODE=1, NW_=1, NX_=1, NY_=2, EL=3), None, RP + ["wildcard"], "with wildcards", ()), H("simple", "r_comb.cpp", dict(MODE=2, EL=4), None, RP + ["wildcard"], "simple refinement", ()))

P("P20", *([H("map%s" % ["", "-header"][h], "g_abs.cpp", dict(MODE=0, HEADER=h), None, ["refined", "not refined"], "3 arbitrary distinct labels, 2 abstract values, one refinement of up to 3 parts") for h in (0, 1)] +
            [H("map-twice", "g_abs.cpp", dict(MODE=0, NC=4, NA=1, REFN=2, LASTONLY=1, PARTS=2, ALLIN=1), dict(NC=5), ["refined"], "NC arbitrary distinct labels of one class, two refinements into two parts each")] +
            [H("automaton-refined", "g_abs.cpp", dict(MODE=1, OPS=1, LEAFK=8, WL=1), dict(WL=2), AR + ["refined"], "NFA of one construction step with all leaf kinds, abstract words up to WL, before and after a refinement"),
             H("automaton", "g_abs.cpp", dict(MODE=1, OPS=2, LEAFK=8, WL=2, REFN=0), dict(OPS=3, LEAFK=4), AR, "NFA of OPS construction steps, abstract words up to WL")]))
FB = "NS states, 2 labels, NR rules, any non-empty sets of initial and accepting states, header languages of one word length"
P("P22", *([H("%s-%s" % (["list", "dfs"][d], ["post", "pre", "dual"][m]), "f_fac.cpp", dict(DFS=d, MODE=m, NR=1, NS=2, WILD=1, WGT=1 - d, ILO=0, IHI=1, FLO=0, FHI=1), dict(NS=3), RU, FB + "; all leaf kinds") for d in (0, 1) for m in (0, 1, 2)] +
            [H("%s-r2%s" % (["list", "dfs"][d], ["", "-w"][w]), "f_fac.cpp", dict(DFS=d, MODE=0, NR=2, NS=2, WILD=0, WGT=w, KM=0, ILO=1, IHI=1, FLO=1, FHI=1), dict(WILD=1), RU, FB + "; single-label headers") for d, w in ((0, 0), (1, 1))]))
JB = "events of documents with NS states and NR rules, single-character names"
JW = dict(WMIN="-4000000000", WMAX="5000000000")
def wk(w): return ["none", "int", "uint", "vec"][w]
def nm(n): return ["array", "names"][n]
P("P23", *([H("read-%s-%s" % (nm(n), wk(w)), "j_io.cpp", dict(MODE=0, NAMES=n, NS=2, NR=2, WILD=1, WK=w, **JW), dict(NR=3) if not w else None, ["accepted", "rule", "several rules"] + (["weight rejected"] if w else []), JB) for n, w in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 3))] +
            [H("extra-%s" % nm(n), "j_io.cpp", dict(MODE=0, NAMES=n, NS=2, NR=1, WILD=1, EXTRA=1, WK=n, **JW), dict(NR=2), ["accepted", "rule"], JB + ", unknown members") for n in (0, 1)] +
            [H("bad-%s-%s" % (nm(n), wk(w)), "j_io.cpp", dict(MODE=3, NAMES=n, NS=2, NR=2, WILD=1, WK=w, WMAX=10), dict(NR=3), ["rejected"], JB + ", malformed in one place") for n, w in ((0, 0), (0, 3), (1, 1), (1, 2))] +
            [H("kinds-%s-%s" % (nm(n), wk(w)), "j_io.cpp", dict(MODE=3, NAMES=n, NS=2, NR=2, WILD=1, WK=w, WMAX=10, SUBST=16), None, ["leaf", "container", "rejected"], JB + ", a value of another kind in place of one of the first 17 values") for n, w in ((0, 0), (0, 3), (1, 1))]))
WR = {0: {}, 1: dict(WMIN="-2147483647", WMAX="2147483646"), 2: dict(WMIN=0, WMAX="4294967294"), 3: dict(WMIN="-2147483647", WMAX="2147483645")}
P("P24", *([H("system-%s-%s" % (nm(n), wk(w)), "j_io.cpp", dict(MODE=1, NAMES=n, NS=2, NR=2, WILD=1, WK=w, **WR[w]), dict(NR=3), ["read back", "rule", "several rules"], "written and read back: NS states, NR rules") for n, w in ((0, 0), (0, 1), (1, 3), (1, 0), (1, 2))] +
            [H("automaton-%s-%d%d%d" % (nm(n), a, b, c), "j_io.cpp", dict(MODE=2, NAMES=n, NS=a, NX=b, NE=c), dict(NE=3), ["read back", "in", "out"], "NS control states, NX further states, NE edges, words up to length 2") for n, a, b, c in ((0, 1, 2, 2), (0, 2, 1, 3), (1, 1, 2, 2), (1, 2, 1, 2))] +
            [H("bad-automaton-%s" % nm(n), "j_io.cpp", dict(MODE=4, NAMES=n, NS=2), None, ["accepted", "rejected"], "malformed in one place") for n in (0, 1)] +
            [H("kinds-automaton-%s" % nm(n), "j_io.cpp", dict(MODE=4, NAMES=n, NS=2, SUBST=20), None, ["leaf", "container"], "a value of another kind in place of any value") for n in (0, 1)] +
            [H("kinds-instance-%s-%s" % (nm(n), wk(w)), "j_io.cpp", dict(MODE=5, NAMES=n, NS=1, NR=1, WILD=1, WK=w, WMAX=10, SUBST=30), None, ["leaf", "container"], "a value of another kind in place of any value, NS states, NR rules, stacks up to 1 symbol") for n, w in ((0, 0), (1, 1))] +
            [H("instance-%s-%s" % (nm(n), wk(w)), "j_io.cpp", dict(MODE=5, NAMES=n, NS=2, NR=1, WILD=1, WK=w, WMAX=1000), dict(NR=2), ["read back"] + RU, "NS states, NR rules, stacks up to 1 and 2 symbols") for n, w in ((0, 0), (0, 3), (1, 1))]))
CR = RU + ["refined", "spurious rule"]
P("P25", *([H("leaves-%s" % ["post", "pre", "dual"][m], "c_cegar.cpp", dict(MODE=m, NR=1), dict(FHI=2, IHI=2), CR, "3 labels in any partition, NR rules, all leaf kinds") for m in (0, 1, 2)] +
            [H("r2-%s" % ["post", "pre", "dual"][m], "c_cegar.cpp", dict(MODE=m, NR=2, KM=0, SYMM=0, CHAIN=1), dict(CHAIN=0, SYMM=1), CR, "NR rules, headers of one label") for m in (0, 1)] +
            [H("merged-%s" % ["fast", "best"][b], "c_cegar.cpp", dict(MODE=0, NR=2, KM=0, SYMM=0, CHAIN=2, NS=4, MERGE=1, BEST=b), None, CR, "4 states, two of them in one class") for b in (0, 1)] +
            [H("loops", "c_cegar.cpp", dict(NR=1, CHAIN=1, LOOP=1, IHI=2, FHI=2, KM=0), dict(MODE=1, KM=1), CR, "headers with a repeated last label")]))
PT = ["parsed", "malformed", "accepted", "rejected"]
P("P26", H("any4", "b_parse.cpp", dict(N_=4, WL=2), dict(N_=5), PT, "texts of up to N_ arbitrary ASCII characters, words up to WL", repo=()),
         H("operators", "b_parse.cpp", dict(SET=1, N_=8, NMIN=7, WL=2), dict(N_=9), PT, "texts of NMIN to N_ characters out of . | * ( )", repo=()),
         H("sets", "b_parse.cpp", dict(SET=2, N_=10, NMIN=8, WL=2), dict(N_=12), PT, "NMIN to N_ characters out of [ a b ] , ^", repo=()),
         H("suffixes", "b_parse.cpp", dict(SET=3, N_=9, NMIN=7, WL=2), dict(N_=10, WL=3), PT, "NMIN to N_ characters out of [ a ] . * + ?", repo=()),
         H("comments", "b_parse.cpp", dict(SET=4, N_=6, NMIN=5, WL=2), dict(N_=7), PT, "NMIN to N_ characters out of . | ( ) # blank newline", repo=()),
         H("set-comments", "b_parse.cpp", dict(SET=5, N_=7, NMIN=6, WL=1), dict(N_=8, WL=2), PT, "NMIN to N_ characters out of [ a , ] . # blank newline", repo=()))
PU = PT + ["unknown state"]
P("P27", *([H("any4", "b_paut.cpp", dict(SK=0, WL=2), None, PU, "texts of 4 arbitrary ASCII characters")] +
           [H("%s-%s" % (n, "names" if k else "numbers"), "b_paut.cpp", dict(SK=i, WL=2, NAMES=k), dict(WL=3), PU if u else PT, "free characters in the pattern %s" % t)
            for i, n, u, t in ((1, "states", 3, "<????????,.>"), (2, "expression", 0, "<p,????????>"), (3, "alternatives", 3, "<p,.???????q,.>"), (4, "quoted", 3, '<"????????,.>'), (5, "three", 3, "<?,[?]>|<[?,?],[^?]?[?]>|<?,?>"), (6, "blanks", 0, "?<?p??,??.?>??"), (7, "between", 0, "<p,.>????<q,.>??")) for k in ((1, 0) if u and i != 3 else (1,))]))
VB = "every engine (and engines that do not exist) with every trace type; NR rules, stacks of 0 or 1 and up to 2 symbols"
P("P28", H("unweighted", "v_ver.cpp", dict(WK=0, NR=1, SLMIN=0), None, ["reachable", "unreachable", "trace", "no engine", "no such engine"], VB),
         H("unweighted-r2", "v_ver.cpp", dict(WK=0, NR=2, SLMIN=0, ELO=1, EHI=3, SL1=1), dict(SL1=2), ["reachable", "unreachable", "trace"], VB),
         H("weighted", "v_ver.cpp", dict(WK=1, NR=1, SLMIN=0, WMAX=1000), None, ["reachable", "unreachable", "trace", "weight", "no engine", "no such engine"], VB),
         H("weighted-r2", "v_ver.cpp", dict(WK=1, NR=2, SLMIN=0, ELO=1, EHI=3, SL1=1, WMAX=1000), dict(SL1=2), ["reachable", "unreachable", "trace", "weight"], VB),
         H("fixed-point", "v_ver.cpp", dict(WK=1, PAIR=1, NR=1, SLMIN=0, WMIN=-1000, WMAX=1000), None, ["unreachable", "trace", "weight", "unbounded", "no engine", "no such engine"], VB),
         H("fixed-point-r2", "v_ver.cpp", dict(WK=1, PAIR=1, NR=2, SLMIN=0, ELO=1, EHI=3, SL1=1, WMIN=-1000, WMAX=1000), dict(SL1=2), ["unreachable", "trace", "weight", "unbounded"], VB),
         H("output", "j_stream.cpp", dict(OPS=4), dict(OPS=5), ["balanced", "closed at the end", "empty"], "sequences of up to OPS calls of the JSON output stream", repo=()))

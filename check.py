#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only harness] [--keep]
Decides one property by symbolic execution of the code in /repo (see DESIGN.md)."""
import sys, os, subprocess, json, time, glob, shutil, re, argparse, threading, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
import props

CLANG = "/usr/bin/clang++-18"
SYMF = ["-std=gnu++20", "-O1", "-g1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS",
        "-DSYMX=1", "-I" + V + "/stubs/sym", "-I" + V + "/stubs/common", "-I" + V + "/harness", "-I" + REPO + "/src/include", "-I" + REPO + "/src/pdaaal-bin", "-emit-llvm", "-c"]
NATF = ["-std=gnu++20", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-I" + V + "/stubs/common", "-I" + V + "/harness", "-I" + REPO + "/src/include", "-I" + REPO + "/src/pdaaal-bin"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def ensure_engine():
    r = sh(["make", "-s", "-C", V + "/engine", "symx"])
    if r.returncode != 0:
        print(r.stdout); die("engine build failed")

def die(msg):
    print("ERROR: " + msg); sys.exit(2)

def defs(d):
    return ["-D%s=%s" % (k, v) for k, v in d.items()]

_shared = {}; _lock = threading.Lock()
def shared(key, cmd, o):
    """objects that do not depend on a harness's parameters (models, replay runtime, /repo's .cpp files) are compiled once per run"""
    with _lock:
        f = _shared.get(key)
        if f is None: f = _shared[key] = cf.Future(); mine = True
        else: mine = False
    if mine:
        try: r = sh(cmd + ["-o", o]); f.set_result((r.returncode, r.stdout, o))
        except BaseException as e: f.set_exception(e); raise
    return f.result()
class _Done:
    def __init__(self, rc, t): self.returncode, self.t = rc, t
    def communicate(self): return self.t, None

def build_sym(h, cfg, out):
    objs = []
    srcs = [V + "/harness/" + h["src"], V + "/harness/models.cpp"] + [REPO + "/" + s for s in h.get("repo_src", [])]
    procs = []
    for i, s in enumerate(srcs):
        if i:
            rc, t, o = shared(("sym", s), [CLANG] + SYMF + (["-fno-builtin"] if s.endswith("models.cpp") else []) + [s], "%s/shared.%d.bc" % (os.path.dirname(out), abs(hash(s)))); objs.append(o); procs.append((s, _Done(rc, t))); continue
        o = "%s.%d.bc" % (out, i); objs.append(o)
        fl = list(SYMF) + defs(cfg)
        procs.append((s, subprocess.Popen([CLANG] + fl + [s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        t, _ = p.communicate()
        if p.returncode != 0: return None, "compiling %s:\n%s" % (s, t[:1500])
    r = sh(["/usr/bin/llvm-link-18"] + objs + ["-o", out + ".bc"])
    if r.returncode != 0: return None, r.stdout[-2000:]
    os.unlink(objs[0])
    return out + ".bc", ""

def build_native(h, cfg, out, stub=False):
    srcs = [V + "/harness/" + h["src"], V + "/harness/native.cpp"] + [REPO + "/" + s for s in h.get("repo_src", [])]
    fl = list(NATF)
    if stub: fl = ["-I" + V + "/stubs/sym"] + fl
    objs = []; procs = []
    for i, s in enumerate(srcs):
        if i:
            rc, t, o = shared(("nat", s, stub), ["/usr/bin/g++"] + fl + ["-c", s], "%s/shared.%d.%d.o" % (os.path.dirname(out), abs(hash(s)), stub)); objs.append(o); procs.append((s, _Done(rc, t))); continue
        o = "%s.%d.o" % (out, i); objs.append(o)
        procs.append((s, subprocess.Popen(["/usr/bin/g++"] + fl + defs(cfg) + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        t, _ = p.communicate()
        if p.returncode != 0: return None, "compiling %s:\n%s" % (s, t[:1500])
    libs = [] if stub else ["-labsl_hash", "-labsl_city", "-labsl_low_level_hash", "-labsl_raw_hash_set", "-labsl_strings", "-labsl_int128", "-labsl_raw_logging_internal"]
    r = sh(["/usr/bin/g++", "-fsanitize=address"] + objs + ["-o", out] + libs)
    if r.returncode != 0:
        r = sh(["/usr/bin/g++", "-fsanitize=address"] + objs + ["-o", out, "-labsl_hash", "-labsl_city", "-labsl_low_level_hash"])
    os.unlink(objs[0])
    if r.returncode != 0: return None, r.stdout[-2000:]
    return out, ""

def replay(binp, inp, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    try:
        p = subprocess.run(["bash", "-c", "ulimit -v unlimited; exec %s %s" % (binp, inp)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""
    t = p.stdout
    if p.returncode == 0 and "REPLAY-OK" in t: return "ok", t
    if p.returncode == 77: return "assume", t
    if p.returncode == 78: return "noinput", t
    if "REPLAY-VIOLATION" in t: return "violation", t
    return "crash", t  # sanitizer report, assertion failure, abort, uncaught exception

def merge(out):
    tot = {}; reach = {}; tags = {}; errs = {}; fns = {}; samples = []; n = 0
    for f in glob.glob(out + ".st.*"):
        n += 1
        for line in open(f, errors="replace"):
            p = line.rstrip("\n").split(" ", 2)
            if p[0] == "reach": k = line.rstrip("\n")[6:].rsplit(" ", 1); reach[k[0]] = reach.get(k[0], 0) + int(k[1])
            elif p[0] == "tag":
                k = line.rstrip("\n")[4:].rsplit(" ", 1); tags[k[0]] = tags.get(k[0], 0) + int(k[1])
            elif p[0] == "err": errs[p[2]] = errs.get(p[2], 0) + int(p[1])
            elif p[0] == "fn": fns[p[2]] = fns.get(p[2], 0) + int(p[1])
            elif p[0] == "sample": samples.append(line.rstrip("\n")[7:].replace("\\n", "\n"))
            elif p[0] in ("maxdepth", "zmax_us"): tot[p[0]] = max(tot.get(p[0], 0), int(p[1]))
            else: tot[p[0]] = tot.get(p[0], 0) + int(p[1])
    return tot, reach, tags, errs, fns, samples, n

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--nonative", action="store_true"); ap.add_argument("--time", type=float)
    a = ap.parse_args(); t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    if a.prop not in props.PROPS: die("unknown property")
    P = props.PROPS[a.prop]
    ensure_engine()
    wd = "%s/out/%s" % (V, a.prop); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    jobs = []
    for h in P["harnesses"]:
        if a.only and h["name"] != a.only: continue
        cfg = dict(h.get("defs", {})); cfg.update(h.get(tier, h.get("quick", {})))
        jobs.append((h, cfg))
    # sampled paths are replayed natively for at most ten harnesses, spread over the list (every harness when it reports a violation)
    step = (len(jobs) + 9) // 10
    jobs = [(h if i % step == 0 or "validate" in h else dict(h, validate=0), cfg) for i, (h, cfg) in enumerate(jobs)]
    budget = a.time or (P.get("thorough_s", 1500) if tier == "thorough" else P.get("quick_s", 120))
    ex = cf.ThreadPoolExecutor(max_workers=8)
    symf = {h["name"]: ex.submit(build_sym, h, cfg, wd + "/" + h["name"]) for h, cfg in jobs}
    natf = {} if a.nonative else {h["name"]: ex.submit(build_native, h, cfg, wd + "/" + h["name"] + ".native") for h, cfg in jobs if h.get("validate", 12)}
    total = {}; cov_h = []; allfns = {}; samples = []; validated = 0; violations = []; unrep = []; exhaustive = True; problems = []; reach_missing = []
    for idx, (h, cfg) in enumerate(jobs):
        bc, err = symf[h["name"]].result()
        if bc is None: die("harness %s does not build against the current tree: %s" % (h["name"], err))
        out = wd + "/" + h["name"] + ".run"
        left = budget - (time.time() - t0); wl = sum(j[0].get("share", 1.0) for j in jobs[idx:]); share = max(10.0, min(left, left if idx == len(jobs) - 1 else max(left * 0.3, left * h.get("share", 1.0) / wl * 1.5)))
        ts = time.time()
        r = sh([V + "/engine/symx", bc, "-o", out, "-j", str(a.jobs), "-t", "%.1f" % share, "--maxinst", str(h.get("maxinst", 30000000)), "--maxviol", "6", "--seed", str(seed)])
        if r.returncode != 0: die("symbolic engine failed on %s: %s" % (h["name"], r.stdout[-2000:]))
        tot, reach, tags, errs, fns, smp, n = merge(out)
        nproc = int(re.search(r"symx: (\d+) processes", r.stdout).group(1))
        vf = sorted(glob.glob(out + ".viol.*"))
        complete = tot.get("abandoned", 0) == 0 and n == nproc and tot.get("qunknown", 0) == 0
        if errs: problems.append("%s: %s" % (h["name"], "; ".join(list(errs)[:3])))
        info = {"harness": h["name"], "bounds": h.get("bounds", ""), "parameters": {k: str(v) for k, v in cfg.items()}, "paths": tot.get("paths", 0), "paths_completed": tot.get("completed", 0), "paths_cut_by_assumption": tot.get("assume_killed", 0), "solver_queries": tot.get("queries", 0), "sat": tot.get("qsat", 0), "unsat": tot.get("qunsat", 0), "query_cache_hits": tot.get("cachehits", 0), "finite_domain_decisions": tot.get("domdecided", 0),
                "assertions_decided": tot.get("asserts", 0), "assertions_by_solver": tot.get("assertq", 0), "solver_s": round(tot.get("ztime_us", 0) / 1e6, 2), "slowest_query_s": round(tot.get("zmax_us", 0) / 1e6, 3), "instructions": tot.get("insts", 0), "reach": reach, "assertions": tags, "complete": complete, "wall_s": round(time.time() - ts, 1)}
        cov_h.append(info)
        for k, v in tot.items(): total[k] = total.get(k, 0) + v
        for k, v in fns.items(): allfns[k] = allfns.get(k, 0) + v
        if smp: samples += [{"harness": h["name"], "inputs": s.strip().replace("\n", ", ")} for s in smp[:2]]
        if not complete or errs or vf: exhaustive = False
        nb = None
        def native():
            nonlocal nb
            if nb is None and not a.nonative:
                nb, e = natf[h["name"]].result() if h["name"] in natf else build_native(h, cfg, wd + "/" + h["name"] + ".native")
                if nb is None: problems.append("native build of %s failed: %s" % (h["name"], e[-600:])); nb = ""
            return nb
        for v in vf:
            kind = re.search(r"^#kind (.*)$", open(v, errors="replace").read(), re.M).group(1)
            dst = "%s/%s.%d.input" % (wd, h["name"], len(violations) + len(unrep)); shutil.copy(v, dst)
            res = "none"; txt = ""
            if native(): res, txt = replay(native(), dst, 30 if kind == "hang" else 60)
            if res in ("ok", "none", "assume") and not a.nonative:
                sb, e = build_native(h, cfg, wd + "/" + h["name"] + ".stub", stub=True)
                if sb: res, txt = replay(sb, dst, 30 if kind == "hang" else 60)
            open(dst, "a").write("".join("#replay %s\n" % l for l in ([res] + txt.splitlines()[-60:])))
            (violations if res in ("violation", "crash", "timeout") else unrep).append((h["name"], dst, res, open(v, errors="replace").read()))
            if violations: break
        # translation validation: push sampled path inputs through the really compiled code
        if not vf and h.get("validate", 12) and native():
            for k, s in enumerate(smp[:h.get("validate", 12)]):
                fn = "%s/%s.s%d" % (wd, h["name"], k); open(fn, "w").write(s)
                res, txt = replay(native(), fn)
                if res == "ok": validated += 1
                elif res != "assume":
                    problems.append("encoding mismatch: %s path accepted symbolically but natively %s: %s" % (h["name"], res, txt[-500:]))
                    # the real code fails on an input: that is a violation whatever the encoding says
                    dst = "%s/%s.native.input" % (wd, h["name"]); shutil.copy(fn, dst); violations.append((h["name"], dst, res, txt[-800:])); break
        for t in h.get("reach", []):
            if reach.get(t, 0) == 0 and not vf and complete: reach_missing.append("%s:%s" % (h["name"], t))
        if violations: break
    fnames = sh(["c++filt"], input="\n".join(sorted(allfns))).stdout.splitlines()
    pf = sorted({re.sub(r"\s+", " ", x)[:200] for x in fnames if "pdaaal" in x})
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 1), "violations": len(violations),
          "coverage": {"states": total.get("paths", 0) + total.get("forks", 0), "transitions": total.get("insts", 0), "traces_validated_against_impl": validated, "samples": samples[:6] or ["none"], "exhaustive": bool(exhaustive and not violations),
                       "explanation": "states = symbolic states created (path ends + forks), transitions = LLVM instructions executed symbolically; a harness with complete=true was decided by the solver for every input within its bounds",
                       "harnesses": cov_h, "queries": total.get("queries", 0), "solver_s": round(total.get("ztime_us", 0) / 1e6, 2), "functions_encoded": len(pf), "functions": pf[:400], "unreproduced_counterexamples": [{"harness": x[0], "file": x[1], "result": x[2], "report": x[3][:600]} for x in unrep], "problems": problems},
          "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS}
    json.dump(ev, open("%s/evidence/%s.json" % (V, a.prop), "w"), indent=1)
    for c in cov_h: print("%-22s paths=%d queries=%d asserts=%d solver=%.1fs wall=%.1fs complete=%s" % (c["harness"], c["paths"], c["solver_queries"], c["assertions_decided"], c["solver_s"], c["wall_s"], c["complete"]))
    ex.shutdown(wait=not violations, cancel_futures=True)
    for f in props.known_findings(a.prop): print(f)
    for f in set(glob.glob(wd + "/*.st.*") + glob.glob(wd + "/*.bc") + glob.glob(wd + "/shared.*") + glob.glob(wd + "/*.s[0-9]*")):
        try: os.unlink(f)
        except FileNotFoundError: pass
    if violations:
        n, dst, res, rep = violations[0]
        print(rep[:3000]); print("native replay: %s" % res)
        print("VIOLATION property=%s replay=%s" % (a.prop, dst)); sys.exit(1)
    for x in unrep: print("UNREPRODUCED counterexample (not reported): %s %s %s\n%s" % (x[0], x[1], x[2], x[3][:1500]))
    for p in problems: print("PROBLEM: " + p)
    if reach_missing or (unrep and any("native build" in p for p in problems)):
        for m in reach_missing: print("PROBLEM: witness not reached: " + m)
        sys.exit(2)
    for f in glob.glob(wd + "/*"):
        if f.endswith(".native") or f.endswith(".stub"): os.unlink(f)
    sys.exit(0)

if __name__ == "__main__": main()

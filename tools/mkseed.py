#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> : stdin has OLD \n====\n NEW \n==== \n needs \n==== \n breaks \n====\n demo.cpp ; writes seeded/<id>/"""
import sys, os, subprocess, json
sid, prop, f = sys.argv[1:4]; parts = sys.stdin.read().split("\n====\n")
old, new, needs, breaks, demo = parts[:5]; old = old.strip("\n"); new = new.strip("\n")
R = os.environ.get("R", "/repo")
p = R + "/" + f; s = open(p, newline="").read()
if "\r\n" in s: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
assert s.count(old) == 1, (s.count(old), old)
open(p, "w", newline="").write(s.replace(old, new))
d = "/verif/seeded/" + sid; os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout)
subprocess.run(["git", "-C", R, "checkout", "--", "."])
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.cpp", "w").write(demo)
extra = "/repo/src/include/pdaaal/internal/PDA.cpp" if "internal/PDA" in demo or "PAutomaton" in demo or "Saturation" in demo or "Solver" in demo or "Reducer" in demo else ""
if "pdaaal/" in demo and not extra: extra = "/repo/src/include/pdaaal/internal/PDA.cpp"
stub = ' -I"$D"' if any(x in demo for x in ("Solver.h", "pdaaal/PDA.h", "Factory.h", "parsing/", "CegarPdaReachability", "Abstraction")) else ""
if "parsing/" in demo: stub += " -I/repo/src/pdaaal-bin"
if stub: subprocess.run(["cp", "-r", "/verif/stubs/common/ptrie", d + "/"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++20 -O1 -w%s -I/repo/src/include "$D/demo.cpp" %s -o "$T/demo" -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set || exit 3
timeout 60 "$T/demo"
''' % (stub, extra))

#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + "/tools"]
import props, proptext as t
try: import jsonschema
except ImportError: jsonschema = None
ids = [x["id"] for x in t.TEXT]; na = {x["property"] for x in t.NA}
assert len(set(ids)) == len(ids)
assert set(props.PROPS) | na == set(ids) and not (set(props.PROPS) & na), (set(props.PROPS) ^ (set(ids) - na))
for x in t.TEXT: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
for x in t.TEXT:
    for f in x["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
open(V + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in t.TEXT))
m = {"version": 1, "setup_cmd": "make -s -C engine symx", "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "technique": t.TECH, "level": "model_checking", "level_note": t.LEVEL_NOTE} for i in ids if i in props.PROPS], "not_applicable": t.NA}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
if jsonschema:
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for x in t.TEXT: jsonschema.validate(x, json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(ids), "properties,", len(m["checks"]), "checks")

import how, re, glob
miss = [i for i in props.PROPS if i not in how.HOW]; assert not miss, miss
out = []
for x in t.TEXT:
    i = x["id"]
    if i not in props.PROPS: continue
    h = how.HOW[i]; hs = props.PROPS[i]["harnesses"]; srcs = sorted({y["src"] for y in hs}); b = []
    for y in hs:
        if y["bounds"] not in b: b.append(y["bounds"])
    out.append("### %s %s\n\nEncoded: %s (`%s`, %d configurations).  \nOracle: %s.  \nBounds: %s.  \nWhy: %s." % (i, x["title"], h[0], "`, `".join(srcs), len(hs), h[1], "; ".join(b), h[2]))
D = open(V + "/doc/DESIGN.in.md").read().replace("@@PROPS@@", "\n\n".join(out))
fx = []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: fx.append("* %s, `%s`: %s" % m.groups())
    elif l.startswith("KNOWN-FINDING"): fx.append("* (recorded, not repaired) " + l.split(" ", 1)[1].strip())
D = D.replace("@@FIXED@@", "\n".join(fx))
res = {}
if os.path.exists(V + "/doc/caught.txt"):
    for l in open(V + "/doc/caught.txt"):
        p = l.split(None, 2)
        if len(p) > 1: res[p[0]] = p[1:]
rows = ["| bug | property | breaks | needs | quick check |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    k = f.split("/")[-2]; j = json.load(open(f)); rows.append("| %s | %s | %s | %s | %s |" % (k, j["property"], j["what_it_breaks"].strip().replace("\n", " "), j["needs"].strip().replace("\n", " "), " ".join(res.get(k, ["?"])).strip()))
D = D.replace("@@SEEDS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(D)

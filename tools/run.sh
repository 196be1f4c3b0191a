#!/bin/bash
# tools/run.sh <seconds> <harness.cpp> [-Dx=y ...] [-- repo sources]: development helper, runs one harness configuration
T=$1; H=$2; shift 2; V=$(cd "$(dirname "$0")/.." && pwd); D=$(mktemp -d /tmp/w/runXXXXXX)
DEFS=(); SRC=(src/include/pdaaal/internal/PDA.cpp)
while [ $# -gt 0 ]; do if [ "$1" = -- ]; then shift; SRC=("$@"); break; fi; DEFS+=("$1"); shift; done
python3 - "$V" "$T" "$H" "$D" "${DEFS[*]}" "${SRC[*]}" <<'PY'
import sys,os; V,T,H,D,defs,src=sys.argv[1:]; sys.path.insert(0,V); import check as c, glob
cfg={}
for d in defs.split(): k,_,v=d[2:].partition("="); cfg[k]=v or "1"
h={"src":H,"repo_src":src.split()}
bc,e=c.build_sym(h,cfg,D+"/h")
if bc is None: print(e); sys.exit(2)
r=c.sh([V+"/engine/symx",bc,"-o",D+"/run","-j",os.environ.get("J","8"),"-t",T,"--maxinst",os.environ.get("MAXINST","30000000"),"--maxviol","3"])
import time
tot,reach,tags,errs,fns,smp,n=c.merge(D+"/run")
print(r.stdout.strip()[-300:]); print({k:tot.get(k) for k in ("paths","completed","abandoned","queries","asserts","qunknown","zmax_us","ztime_us","maxdepth","insts")}, "reach",reach,"errs",dict(list(errs.items())[:4]))
vf=sorted(glob.glob(D+"/run.viol.*"))
if vf:
    print(open(vf[0],errors="replace").read()[:1800])
    nb,e=c.build_native(h,cfg,D+"/nat")
    if nb: print("native:",[x[-600:] for x in c.replay(nb,vf[0])][:2])
    else: print(e)
PY
rm -rf "$D"

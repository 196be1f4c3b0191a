#!/bin/bash
# tools/tryseed.sh <id>...: demo on both trees, stable tests with the change, quick check of its property
# R: the tree to use (default /repo; the stable tests are run only there)
R=${R:-/repo}; export VERIF_REPO=$R
demo() { T=$(mktemp -d); cp -r $1/. $T/; sed -i "s#/repo/#$R/#g" $T/demo.sh; bash $T/demo.sh >/tmp/w/demo.log 2>&1; local r=$?; rm -rf $T; return $r; }
for s in "$@"; do D=/verif/seeded/$s; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
demo $D; a=$?
git -C $R apply $D/patch.diff || { echo "$s: does not apply"; continue; }
demo $D; b=$?
t=skip; if [ -z "$NOTEST" -a $R = /repo ]; then bash /opt/vp/build.sh >/tmp/w/b.log 2>&1; t=$(bash /opt/vp/test.sh /tmp/w/o.json 2>&1 | grep -o "[0-9]* passed, [0-9]* failed"); fi
st=$(date +%s); (cd /verif; python3 check.py $P > /tmp/w/c_$s.log 2>&1); c=$?; en=$(date +%s)
git -C $R checkout -- .
echo "$s $P demo(clean)=$a demo(bug)=$b tests=[$t] check=$c $((en-st))s $(grep -m1 VIOLATION /tmp/w/c_$s.log)"
done
[ -z "$NOTEST" -a $R = /repo ] && bash /opt/vp/build.sh >/tmp/w/b.log 2>&1

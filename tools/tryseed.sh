#!/bin/bash
# tryseed.sh ID [PROP...]: confirms a planted bug (demo, build, tests) and runs the checks against it.
# The bug is applied to /repo and undone again.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
d=$PWD/seeded/$id
props=("$@"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"))
[ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 2; }
cp -r "$d" /tmp/seedcopy.$$
if [ -z "$SKIP" ]; then
(cd /repo && bash /tmp/seedcopy.$$/demo.sh >/tmp/demo.out 2>&1); c=$?
fi
git -C /repo apply "$d/patch.diff" || exit 2
if [ -z "$SKIP" ]; then
(cd /repo && bash /tmp/seedcopy.$$/demo.sh >/tmp/demo.out 2>&1); m=$?
t=$(bash /root/rt.sh 2>&1 | grep -c "^missing \[\]$")
fi
res=""
for p in "${props[@]}"; do
  timeout 900 ./check.sh $p >/tmp/check.out 2>&1; r=$?
  v=$(grep -c "^VIOLATION property=$p" /tmp/check.out)
  res="$res $p:exit=$r,viol=$v"
done
git -C /repo checkout -q -- .
rm -f /repo/tests/rfcs/*.failed
echo "$id demo-clean=$c demo-bug=$m tests-ok=$t$res"

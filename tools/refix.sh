#!/bin/bash
# refix.sh N COMMIT... (PROPS="C08 C22" for other checks than the fix's own): takes each fix back in a private copy of /repo (as lane.sh does) and runs the
# check of its property, which has to report it.
n=$1; shift
l=/tmp/lane$n
mkdir -p $l/repo $l/verif $l/tmp $l/vp
rsync -a --delete /repo/ $l/repo/
rsync -a --delete /verif/ $l/verif/
rsync -a --delete /opt/vp/ $l/vp/
cat > $l/tmp/go.sh <<'G'
cd /verif
for c in "$@"; do
  ps=${PROPS:-$(awk -v c=$c '$1==c{print $2}' tools/fixes.txt)}
  if ! git -C /repo revert -n $c >/tmp/revert.out 2>&1; then
    git -C /repo revert --abort 2>/dev/null; git -C /repo reset -q --hard
    echo "$c $ps CONFLICT"; continue
  fi
  git -C /repo reset -q
  for p in $ps; do timeout 900 ./check.sh $p >/tmp/check.out 2>&1; r=$?
  echo "$c $p exit=$r $(grep -aE "^$p: \[" /tmp/check.out | head -2 | cut -c1-120 | tr '\n' ' ')"; done
  git -C /repo checkout -q -- .; git -C /repo clean -fdq
  rm -rf .git/rebase* 2>/dev/null; rm -f /repo/.git/REVERT_HEAD
done
G
exec unshare -m bash -c "mount --bind $l/repo /repo && mount --bind $l/verif /verif && mount --bind $l/vp /opt/vp && mount --bind $l/tmp /tmp && bash /tmp/go.sh $*"

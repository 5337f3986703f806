#!/bin/bash
# lane.sh N PATTERN...: runs tryseed.sh for the matching planted bugs on private copies of /repo,
# /verif and /opt/vp, mounted over the originals in a mount namespace of its own, so that work on the
# originals and other lanes can go on.
n=$1; shift
l=/tmp/lane$n
mkdir -p $l/repo $l/verif $l/tmp $l/vp
rsync -a --delete /repo/ $l/repo/
rsync -a --delete /verif/ $l/verif/
rsync -a --delete /opt/vp/ $l/vp/
exec unshare -m bash -c "mount --bind $l/repo /repo && mount --bind $l/verif /verif && mount --bind $l/vp /opt/vp && mount --bind $l/tmp /tmp && cd /verif && tools/tryall.sh $(printf ' %q' "$@")"

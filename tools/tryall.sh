#!/bin/bash
# tryall.sh PATTERN...: tryseed.sh for every planted bug whose id matches.
cd "$(dirname "$0")/.."
for p in "$@"; do for d in seeded/$p; do tools/tryseed.sh $(basename $d); done; done

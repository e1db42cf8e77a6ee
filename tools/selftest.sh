#!/bin/bash
# Determinism self-test of the simulator: the digest of every run (results, violations, statistics) must not depend on
# the number of workers or the hash seed.  Not a registered check; exits 1 if any digest differs.
cd "$(dirname "$0")/.." || exit 2
D=$(mktemp -d) || exit 2; trap 'rm -rf "$D"' EXIT; rc=0
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}; do
  for v in "0 8" "0 3" "77 5"; do set -- $v
    PYTHONHASHSEED=$1 VERIF_JOBS=$2 VERIF_REPLAYS=$D/rep ./check "$p" quick --runs "${N:-60}" --digests > "$D/$1.$2" 2>&1
  done
  for o in 0.3 77.5; do cmp -s "$D/0.8" "$D/$o" && echo "$p $o same" || { echo "$p $o DIFFERENT"; rc=1; }; done
done
exit $rc

#!/bin/bash
# Decides one property on the working tree of /repo.
# usage: check.sh ID [quick|thorough]     (VERIF_SEED, VERIF_TIER)
# exit 0: held; exit 1 with "VIOLATION property=ID replay=FILE": violated;
# anything else: the check itself could not run.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1 ;; esac
out=${VERIF_BUILD:-$here/build}
"$here/build.sh" || { echo "check $id: build failed" >&2; exit 3; }
mkdir -p "$here/evidence" "$here/replays"
ev=$here/evidence/$id.json
rep=$here/replays/$id
rm -f "$ev" "$rep"
unset LANG LC_ALL LC_NUMERIC LC_CTYPE LANGUAGE
export TZ=UTC
if [ -f "$here/known-findings.txt" ] && grep -q "^KNOWN-FINDING: property=$id " "$here/known-findings.txt"; then
  "$out/pat/vprop" probe "$id" | while read -r name state; do
    [ "$state" = shows ] && grep "^KNOWN-FINDING: property=$id \[$name\] " "$here/known-findings.txt"
  done
fi
if [ -x "$here/extra/$id.sh" ]; then
  # properties that need more than one run of the engine
  exec "$here/extra/$id.sh" "$tier" "$seed" "$ev" "$rep" "$out"
fi
exec "$out/pat/vprop" run "$id" --tier "$tier" --seed "$seed" --evidence "$ev" --replay "$rep"

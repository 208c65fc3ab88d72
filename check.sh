#!/bin/bash
# check.sh PROPERTY quick|thorough|replay [FILE]
# Builds the harness for PROPERTY from /repo's current working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
prop="$1"; shift
crates=$(awk -v p="$prop" '$1==p{print $2}' mc/index.txt | tr , ' ')
[ -n "$crates" ] || { echo "no check for $prop" >&2; exit 2; }
mkdir -p "$CARGO_TARGET_DIR"
for crate in $crates; do build_crate "$crate" || exit 2; done
set -- "$prop" "$@"
if [ "${crates/ /}" = "$crates" ]; then
  exec "$CARGO_TARGET_DIR/release/mc-$crates" "$@"
fi
rc=0
for crate in $crates; do
  VERIF_PART=$crate "$CARGO_TARGET_DIR/release/mc-$crate" "$@"; r=$?
  if [ $r = 1 ] || [ $rc = 0 ]; then rc=$r; fi
done
python3 tools/merge.py "$prop" $crates || rc=2
exit $rc

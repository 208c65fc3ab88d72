#!/bin/bash
# Builds every harness crate once, so that checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p "$CARGO_TARGET_DIR"
for c in $(awk 'NF&&!/^#/{print $2}' mc/index.txt | tr , '\n' | sort -u); do
  build_crate "$c" || exit 1
done

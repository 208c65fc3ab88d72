#!/bin/bash
# b.sh CRATE : build a harness crate, show its errors
cd "$(dirname "$0")/.."; export VERIF_DIR=$PWD; . ./env.sh; mkdir -p target
build_crate $1 2>/dev/null || grep -E "^(error|warning: unus)" -A${N:-8} target/build-$1.log | cut -c1-${W:-220} | head -${L:-100}

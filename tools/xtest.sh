#!/bin/bash
# xtest.sh REPO CRATE…: run the existing tests of crates the build leaves out, on
# a copy with the stand-in dependencies of mc/x (development only)
here=$(cd "$(dirname "$0")" && pwd); repo=$1; shift
REPO=$repo OUT=/tmp/xt TESTS=1 "$here/../mc/x/prepare.sh" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR=/tmp/xt-target CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cp -n "$here/../mc/x/Cargo.lock" /tmp/xt/ 2>/dev/null
cd /tmp/xt && for c in "$@"; do cargo test --offline -p $c 2>&1 | grep -E "^(test result|error|test .*FAILED|failures)|panicked" ; done

#!/bin/bash
# tools_fix.sh CRATES MSG : run the crates' tests, then commit /repo (development helper)
. /opt/vp/env.sh
ok=1
for c in $1; do cargo test -p $c --offline >/tmp/fix.log 2>&1 || ok=0; grep -E '^test .*FAILED|panicked at|^error' /tmp/fix.log | head -20; done
[ $ok = 1 ] || { echo "NOT COMMITTED"; exit 1; }
cd /repo && git add -u && git commit -q -m "$2" && git log --oneline | head -1

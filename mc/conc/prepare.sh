#!/bin/bash
# Copy the crates of /repo that share state between threads to
# target/conc-src, with std::sync replaced by the controlled scheduler's.
set -e
here=$(cd "$(dirname "$0")" && pwd); out="$here/../../target/conc-src"
mkdir -p "$out.new"
for c in sip-core sip-parse sip-auth sip-dialog sip-registrar sip-ratelimit sip-observe; do
  mkdir -p "$out.new/$c"
  cp -r "/repo/crates/$c/src" "/repo/crates/$c/Cargo.toml" "$out.new/$c/"
  python3 "$here/prepare.py" "$out.new/$c/src"
  sed -i -E "s#^\[dependencies\]#[dependencies]\nmcrt = { path = \"$here/rt\" }#; /^\[dev-dependencies\]/,\$d" "$out.new/$c/Cargo.toml"
done
python3 - "$out.new" <<'P'
import re,sys
s=open('/repo/Cargo.toml').read()
pk=re.search(r'^\[workspace\.package\].*?(?=^\[)',s,re.M|re.S); dp=re.search(r'^\[workspace\.dependencies\].*?(?=^\[|\Z)',s,re.M|re.S)
members=["sip-core","sip-parse","sip-auth","sip-dialog","sip-registrar","sip-ratelimit","sip-observe"]
open(sys.argv[1]+'/Cargo.toml','w').write('[workspace]\nresolver="2"\nmembers=%s\n'%str(members).replace("'",'"')+(pk.group(0) if pk else '')+(dp.group(0) if dp else ''))
P
# limits that cannot be reached in an exploration are lowered in the copy
sed -i -E 's/^(const MAX_TOTAL_BINDINGS: usize = )[0-9_]+;/\130;/' "$out.new/sip-registrar/src/lib.rs"
sed -i -E "s/^((pub )?const MAX_TRACKED_KEYS: usize = )[0-9_]+;/\16;/" "$out.new/sip-ratelimit/src/lib.rs"
sed -i -E "s/^((pub )?const (MAX_CONFIRMED_DIALOGS|MAX_SUBSCRIPTIONS): usize = )[0-9_]+;/\15;/; s/^((pub )?const MAX_EARLY_DIALOGS_PER_CALL_ID: usize = )[0-9_]+;/\13;/" "$out.new/sip-dialog/src/lib.rs"
sed -i -E "s/^((pub )?const MAX_DIALOGS: usize = )[0-9_]+;/\15;/" "$out.new/sip-dialog/src/storage.rs"
# keep the old time stamps of files that did not change
mkdir -p "$out"; rsync -rc --delete "$out.new/" "$out/" 2>/dev/null || { rm -rf "$out"; mv "$out.new" "$out"; }
rm -rf "$out.new"

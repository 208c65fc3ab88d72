#!/bin/bash
# Copy the crates of /repo that the build here leaves out (they need the git
# dependency hep-rs), with the crates they use, to target/x-src, with manifests
# whose unavailable dependencies are the stand-ins next to this script.
set -e
here=$(cd "$(dirname "$0")" && pwd); out="${OUT:-$here/../../target/x-src}"; repo=${REPO:-/repo}
crates="sip-core sip-parse sip-observe sip-ratelimit sip-dialog sip-auth sip-dns sip-sdp sip-hep sip-transport sip-transaction sip-proxy"
mkdir -p "$out.new"
for c in $crates; do
  mkdir -p "$out.new/$c"
  cp -r "$repo/crates/$c/src" "$repo/crates/$c/Cargo.toml" "$out.new/$c/"
  # TESTS=1 (tools/xtest.sh): keep the existing tests, to run them on a fix
  [ -z "$TESTS" ] || [ ! -d "$repo/crates/$c/tests" ] || cp -r "$repo/crates/$c/tests" "$out.new/$c/"
done
python3 - "$out.new" "$here" "$repo" $crates <<'P'
import os, re, sys
out, here, repo, *crates = sys.argv[1:]
gone = ('tokio-rustls', 'rustls', 'rustls-pki-types', 'rustls-pemfile', 'rcgen', 'criterion', 'tokio-test', 'arc-swap', 'tokio-tungstenite', 'futures-util')
for c in crates:
    p = f'{out}/{c}/Cargo.toml'; s = open(p).read()
    # no tests, benches, examples or optional features
    s = re.sub(r'(?ms)^\[+(%s\[bench|\[example|\[test|features|bench|example|test)\b.*?(?=^\[|\Z)' % ('' if os.environ.get('TESTS') else 'dev-dependencies|'), '', s)
    lines = []
    for l in s.splitlines():
        k = re.match(r'\s*([\w-]+)(\.workspace)?\s*=', l)
        if k and k.group(1) in gone:
            continue
        if k and k.group(1) == 'hep-rs':
            l = f'hep-rs = {{ path = "{here}/hep-rs" }}'
        if k and k.group(1) == 'socket2':
            l = 'socket2 = { version = "0.6", features = ["all"] }'
        lines.append(l)
    s = '\n'.join(lines) + '\n'
    if c == 'sip-proxy' and not os.environ.get('TESTS'):
        # locks with scheduling points
        s = s.replace('[dependencies]', f'[dependencies]\nmcsync = {{ path = "{here}/mcsync" }}', 1)
        for f in __import__('glob').glob(f'{out}/{c}/src/**/*.rs', recursive=True):
            t = open(f).read(); open(f, 'w').write(t.replace('tokio::sync::', 'mcsync::'))
    if c == 'sip-transport':
        # the generic session, to run it on a stand-in stream
        f = f'{out}/{c}/src/lib.rs'; t = open(f).read()
        t = re.sub(r'(?m)^async fn spawn_stream_session', 'pub async fn spawn_stream_session', t); open(f, 'w').write(t)
    feats = sorted(set(re.findall(r'feature\s*=\s*"([\w-]+)"', ''.join(open(f).read() for f in __import__('glob').glob(f'{out}/{c}/src/**/*.rs', recursive=True)))))
    if feats:
        s += '\n[features]\n' + ''.join(f'{f} = []\n' for f in feats)
    open(p, 'w').write(s)
s = open(f'{repo}/Cargo.toml').read()
pk = re.search(r'^\[workspace\.package\].*?(?=^\[)', s, re.M | re.S); dp = re.search(r'^\[workspace\.dependencies\].*?(?=^\[|\Z)', s, re.M | re.S)
open(out + '/Cargo.toml', 'w').write('[workspace]\nresolver="2"\nmembers=%s\n' % str(crates).replace("'", '"') + (pk.group(0) if pk else '') + (dp.group(0) if dp else ''))
P
# keep the old time stamps of files that did not change
mkdir -p "$out"; rsync -rc --delete "$out.new/" "$out/" 2>/dev/null || { rm -rf "$out"; mv "$out.new" "$out"; }
rm -rf "$out.new"

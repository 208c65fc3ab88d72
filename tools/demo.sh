#!/bin/bash
# Builds and runs main.rs (beside this file) against /repo; exit status is the program's.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
d="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
{
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.dev]\ndebug = false\n[dependencies]\n'
  for c in $(sed -n 's,^// crates: ,,p' "$here/main.rs"); do echo "$c = { path = \"/repo/crates/$c\" }"; done
  sed -n 's,^// dep: ,,p' "$here/main.rs"
} > "$d/Cargo.toml"
export CARGO_TARGET_DIR="$d/target"
(cd "$d" && cargo build -q --offline) || exit 4
timeout 120 "$d/target/debug/demo"

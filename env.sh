# environment and build of the harness crates (sourced)
export PATH=/root/.cargo/bin:$PATH CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
build_crate() {
  if [ -x mc/$1/prepare.sh ]; then mc/$1/prepare.sh || { echo "prepare failed for $1" >&2; return 2; }; fi
  local log="$CARGO_TARGET_DIR/build-$1.log"
  if ! (cd mc/$1 && cargo build --release --offline) >"$log" 2>&1; then
    echo "build of mc/$1 failed:" >&2; tail -30 "$log" >&2; return 2
  fi
}

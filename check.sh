#!/bin/bash
# check.sh ID — rebuild the harness from /repo's working tree and run one check.
# check.sh --build — only build.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
export RUST_BACKTRACE=0
mkdir -p "$here/evidence" "$here/work" "$here/replay" || exit 3
log="$here/work/build-$$.log"
build() {
  (cd "$here/harness" && cargo build --release --offline --locked) || return 1
  # The coverage tool is a program of its own; only its check needs it.
  case "$1" in
    C32 | --build) (cd "$here/harness/sdd" && cargo build --release --offline --locked) ;;
  esac
}
if ! build "$1" >"$log" 2>&1; then
  echo "error: the harness does not build against /repo" >&2
  tail -40 "$log" >&2
  rm -f "$log"
  exit 3
fi
rm -f "$log"
[ "$1" = --build ] && exit 0
export VP_ROOT="$here"
exec "$here/harness/target/release/vp" check "$@"

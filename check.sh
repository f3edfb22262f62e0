#!/bin/bash
# check.sh <ID> [quick|thorough]   decide a property on /repo's working tree
# check.sh replay <file>           re-execute a recorded violation
# check.sh apis                    std inside the simulation against std outside it
# check.sh build | selftest [n] | one <ID> <seed> <index>
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
target="$here/work/target"
mkdir -p "$here/work"
build() {
  ( cd "$here/sim" && RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" CARGO_TARGET_DIR="$target" CARGO_INCREMENTAL=0 \
      cargo build --offline --locked -q --target x86_64-unknown-linux-gnu ) >"$here/work/build.$$.log" 2>&1 || {
    grep -v '^warning' "$here/work/build.$$.log" | tail -40 >&2; echo "check.sh: build failed" >&2; rm -f "$here/work/build.$$.log"; exit 2; }
  rm -f "$here/work/build.$$.log"
}
bin="$target/x86_64-unknown-linux-gnu/debug/dst"
build
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  apis) exec "$bin" "$@" ;;
  selftest) exec "$bin" selftest "${VERIF_SEED:-1}" "${2:-40}" ;;
  one) exec "$bin" "$@" ;;
  *) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" ;;
esac

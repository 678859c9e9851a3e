#!/bin/bash
# usage: run.sh check <ID> [quick|thorough] | replay <file> | build
# Builds the harness against /repo's current working tree and runs one check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$VERIF/target" KVMON_VERIF="$VERIF"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
cd "$VERIF/harness" || exit 4
log=$(mktemp)
if ! cargo build --offline --locked >"$log" 2>&1; then
  grep -A12 "^error" "$log" | tail -60; rm -f "$log"
  echo "INCONCLUSIVE: the harness does not build against /repo"
  exit 5
fi
rm -f "$log"

# the C26 workload: plain, under ThreadSanitizer, under AddressSanitizer, interpreted
san() {
  local T=x86_64-unknown-linux-gnu S="$VERIF/target/san" log rc
  log=$(mktemp)
  cd "$VERIF/sanit" || exit 4
  if ! cargo build --offline --locked >"$log" 2>&1; then
    grep -A12 "^error" "$log" | tail -60; rm -f "$log"
    echo "INCONCLUSIVE: the C26 workload does not build against /repo"
    exit 5
  fi
  export KVSAN_PLAIN="$CARGO_TARGET_DIR/debug/kvsan"
  # sanitized builds: when one is impossible here, the evidence says it did not run
  if RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_PROFILE_DEV_OPT_LEVEL=1 RUSTFLAGS="-Zsanitizer=thread" CARGO_TARGET_DIR="$S-t" \
      timeout 500 cargo build --offline --locked -Zbuild-std --target $T >"$log" 2>&1 && "$S-t/$T/debug/kvsan" ops >/dev/null 2>&1; then
    export KVSAN_TSAN="$S-t/$T/debug/kvsan"
  else echo "note: no ThreadSanitizer build"; fi
  if RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_PROFILE_DEV_OPT_LEVEL=1 RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$S-a" \
      timeout 500 cargo build --offline --locked --target $T >"$log" 2>&1 && "$S-a/$T/debug/kvsan" ops >/dev/null 2>&1; then
    export KVSAN_ASAN="$S-a/$T/debug/kvsan"
  else echo "note: no AddressSanitizer build"; fi
  if RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR="$S-m" \
      timeout 300 cargo miri run --offline --locked -q -- raws >"$log" 2>&1; then
    export KVSAN_MIRI="env RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR=$S-m cargo miri run --offline --locked -q --manifest-path $VERIF/sanit/Cargo.toml --"
  else echo "note: no Miri build"; fi
  rm -f "$log"
  cd "$VERIF/harness" || exit 4
}
bin="$CARGO_TARGET_DIR/debug/kvmon"
case "${1:-}" in
  build) san; exit 0 ;;
  check)
    tier=${3:-${VERIF_TIER:-quick}}
    [ "$2" = C26 ] && san
    lim=850; [ "$tier" = thorough ] && lim=14400
    timeout -k 10 $lim "$bin" run "$2" "$tier"
    rc=$?
    [ $rc -eq 124 ] && echo "INCONCLUSIVE property=$2 wall-clock watchdog"
    exit $rc ;;
  replay) grep -q '"property": "C26"' "$2" && san
    exec "$bin" replay "$2" ;;
  *) echo "usage: run.sh check <ID> [tier] | replay <file> | build"; exit 4 ;;
esac

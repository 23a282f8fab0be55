#!/bin/bash
# usage: run.sh <ID> quick|thorough     decide one property on /repo's current working tree
#        run.sh replay <file>           re-execute one recorded counterexample
#        run.sh build                   build only
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p target
# two runs at once must not build at once
exec 9> target/lock; flock 9 2>/dev/null
# cargo decides freshness by time stamps; a checkout may carry old ones, so forget what was built
# whenever the contents differ from those of the last build
now=$(cd / && find /repo/src /repo/Cargo.toml "$VERIF_ROOT/harness/src" "$VERIF_ROOT/harness/Cargo.toml" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/stamp 2>/dev/null)" ]; then
  rm -rf target/release/.fingerprint/satellite-* target/release/.fingerprint/vsat-* target/stamp
fi
if ! cargo build --release --offline --manifest-path harness/Cargo.toml > target/build.log 2>&1; then
  echo "build failed:" >&2
  grep -a -E -A12 '^error' target/build.log | head -60 >&2
  exit 2
fi
echo "$now" > target/stamp
exec 9>&-
[ "$1" = build ] && exit 0
ulimit -v 28000000
if [ "$1" = replay ]; then
  exec target/release/vsat replay "$2"
fi
exec target/release/vsat check "$1" "${2:-${VERIF_TIER:-quick}}"

#!/bin/bash
# usage: check.sh <property id> | build
# Rebuilds the harness against /repo's working tree (two build profiles) and
# runs the check of one property.  Exit 0: held; 1: VIOLATION; 2: error.
set -u
cd "$(dirname "$0")" || exit 2
export GX_ROOT="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p out
build() { # target dir, debug assertions, log
  local td=$1 da=$2
  (cd harness && CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=$da CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=$da \
    cargo build --release --locked --target-dir "$td") >out/build.log 2>&1 || { cat out/build.log >&2; echo "ERROR: the harness does not build" >&2; exit 2; }
}
# file times may lie: force a rebuild of the crate when its content changed
h=$( (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cat "$GX_ROOT"/harness/src/*.rs "$GX_ROOT"/harness/src/props/*.rs) | sha256sum | cut -d' ' -f1)
if [ "$(cat out/stamp 2>/dev/null)" != "$h" ]; then
  rm -f out/stamp
  for td in target target-nd target-asan; do
    [ -d $td ] && (cd harness && cargo clean -p geo-crossings -p gxcheck --release $([ $td = target-asan ] && echo --target x86_64-unknown-linux-gnu) --target-dir "../$td" >/dev/null 2>&1)
  done
fi
asan() { # the same harness under AddressSanitizer
  (cd harness && RUSTFLAGS="-Zsanitizer=address" CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
    cargo +nightly build --release --locked --target x86_64-unknown-linux-gnu --target-dir ../target-asan) >out/build.log 2>&1 || { cat out/build.log >&2; echo "ERROR: the harness does not build with AddressSanitizer" >&2; exit 2; }
}
case "${1:-build}" in
  build) build ../target true; build ../target-nd false; asan ;;
  C31) asan ;;
  *) build ../target true; build ../target-nd false ;;
esac
echo "$h" >out/stamp
[ "${1:-build}" = build ] && exit 0
if [ "$1" = C31 ]; then
  export ASAN_OPTIONS=exitcode=99:detect_leaks=0:detect_stack_use_after_return=1
  exec ./target-asan/x86_64-unknown-linux-gnu/release/gxcheck run C31 asan target-asan/x86_64-unknown-linux-gnu/release/gxcheck
fi
exec ./target/release/gxcheck run "$1" debug-assertions target/release/gxcheck plain target-nd/release/gxcheck

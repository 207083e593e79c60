#!/bin/bash
# Builds the monitors together with the code of /repo's working tree.
# usage: build.sh [C19 | C20 | C24 | C25 | all]   (also what these properties need)
set -u
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-1.77.2}" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
# Lets the monitors (and only them) turn failed allocations into panics.
export RUSTC_BOOTSTRAP=vharness
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p target run
exec 9>target/.verif-lock
flock 9
# Cargo judges freshness by time stamps; a tree restored with old time stamps
# must not be mistaken for the one last built.
stamp=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
fresh() { # profile-dir stamp-file
  if [ "$(cat "$2" 2>/dev/null)" != "$stamp" ]; then
    for d in "$1"/.fingerprint/twiggy* "$1"/.fingerprint/vharness*; do
      [ -d "$d" ] && find "$d" -type f -delete
    done
  fi
  return 0
}
fresh target/debug target/.stamp-debug
if ! cargo build --offline --manifest-path harness/Cargo.toml >target/build.log 2>&1; then
  grep -E -A8 '^error' target/build.log | head -60 >&2
  exit 2
fi
echo "$stamp" >target/.stamp-debug
if [ harness/shim.c -nt target/shim.so ]; then
  gcc -shared -fPIC -O1 -o target/shim.so harness/shim.c -ldl || exit 2
fi
[ -e target/samples/.done ] || { tools/samples.sh && touch target/samples/.done; }
case "${1:-}" in
C19 | C25 | all)
  # The library for JavaScript, as its users build it.
  fresh target/api/debug target/api/.stamp
  fresh target/api/wasm32-unknown-unknown/debug target/api/.stamp
  if ! CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$PWD/target/api" cargo build --offline --manifest-path /repo/wasm-api/Cargo.toml --target wasm32-unknown-unknown >target/build-api.log 2>&1; then
    grep -E -A8 '^error' target/build-api.log | head -60 >&2
    exit 2
  fi
  echo "$stamp" >target/api/.stamp
  ;;
esac
case "${1:-}" in
C20 | C25 | all)
  # The same once more with every control-flow edge counted (harness/work.c).
  mkdir -p target/work
  if [ harness/work.c -nt target/work/work.o ]; then
    gcc -O2 -c harness/work.c -o target/work/work.o || exit 2
  fi
  fresh target/work/debug target/work/.stamp
  if ! RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Clink-arg=$PWD/target/work/work.o --cfg vh_work" CARGO_TARGET_DIR="$PWD/target/work" cargo build --offline --manifest-path harness/Cargo.toml --bin vharness >target/build-work.log 2>&1; then
    grep -E -A8 '^error' target/build-work.log | head -60 >&2
    exit 2
  fi
  echo "$stamp" >target/work/.stamp
  ;;
esac
case "${1:-}" in
C24 | all)
  # The same, and every library, with each access to memory checked.
  asan=target/asan/x86_64-unknown-linux-gnu/debug
  fresh "$asan" target/asan/.stamp
  fresh target/asan/debug target/asan/.stamp
  if ! RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Zallow-features=alloc_error_hook --cap-lints allow --cfg vh_asan" CARGO_TARGET_DIR="$PWD/target/asan" cargo build --offline --manifest-path harness/Cargo.toml --target x86_64-unknown-linux-gnu >target/build-asan.log 2>&1; then
    grep -E -A8 '^error' target/build-asan.log | head -60 >&2
    exit 2
  fi
  echo "$stamp" >target/asan/.stamp
  ;;
esac
exit 0

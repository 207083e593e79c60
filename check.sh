#!/bin/bash
# usage: check.sh ID   (tier and seed from VERIF_TIER and VERIF_SEED)
cd "$(dirname "$0")" || exit 2
./build.sh "$1" || { echo "build failed" >&2; exit 2; }
bin=target/debug/vharness
case "$1" in
C20 | C25) bin=target/work/debug/vharness ;;
C24) bin=target/asan/x86_64-unknown-linux-gnu/debug/vharness ;;
esac
exec "$bin" check "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}"

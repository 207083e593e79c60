#!/bin/bash
# Builds the coverage-guided search that grows harness/corpus (see DESIGN.md).
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/../target/fuzz"
export RUSTC_BOOTSTRAP=vfuzz,read
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares --cfg fuzzing -Cdebug-assertions -Ccodegen-units=1 -Clink-arg=/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer-x86_64.a -Clink-arg=-lstdc++ -Clink-arg=-lm -Clink-arg=-lgcc_s -Clink-arg=-lc -Clink-arg=-l:libc_nonshared.a"
exec cargo build --offline --release --target x86_64-unknown-linux-gnu

#!/bin/bash
# Compiles the sample programs into real binaries (target/samples). What the
# installed tools cannot build is left out.
cd "$(dirname "$0")/.." || exit 2
S=samples; O=target/samples
mkdir -p $O
export RUSTUP_TOOLCHAIN=1.77.2
try() { "$@" >/dev/null 2>&1; }
W="--target=wasm32-unknown-unknown -nostdlib -Wl,--no-entry -Wl,--export-all"
for o in O0 O2 Os; do
  [ -e $O/a-$o.wasm ] || try clang $W -$o $S/a.c -Wl,--allow-undefined -o $O/a-$o.wasm
  [ -e $O/b-$o.wasm ] || try clang $W -$o -fno-exceptions -fno-rtti $S/b.cpp -Wl,--allow-undefined -o $O/b-$o.wasm
done
[ -e $O/a-g.wasm ] || try clang $W -g -O1 $S/a.c -o $O/a-g.wasm
[ -e $O/a-strip.wasm ] || try clang $W -O1 -s $S/a.c -o $O/a-strip.wasm
[ -e $O/a-tail.wasm ] || try clang $W -O2 -mtail-call -mbulk-memory -mreference-types -msimd128 $S/a.c -o $O/a-tail.wasm
for o in 0 3; do
  for m in legacy v0; do
    x=""; [ $m = v0 ] && x="-C symbol-mangling-version=v0"
    [ -e $O/c-$o-$m.wasm ] || try rustc --edition 2021 --target wasm32-unknown-unknown -C opt-level=$o -C panic=abort $x $S/c.rs -o $O/c-$o-$m.wasm
  done
done
i=0
for t in x86_64 i386 aarch64 armv7 mips mips64el powerpc64 powerpc riscv64 riscv32; do
  for v in 2 3 4 5; do
    i=$((i + 1))
    o=$([ $((i % 2)) = 0 ] && echo O2 || echo O0)
    x=""; [ $v -ge 3 ] && [ $((i % 5)) = 0 ] && [ $t != i386 ] && x="-gdwarf64"
    [ $((i % 3)) = 0 ] && x="$x -fsplit-machine-functions"
    for s in a.c b.cpp; do
      f=$O/$t-$v-${s%.*}.elf
      [ -e $f ] || try clang --target=$t-unknown-linux-gnu -$o -gdwarf-$v $x -ffreestanding -nostdlib -fno-exceptions -fno-rtti -fuse-ld=lld -static $S/$s -o $f || try clang --target=$t-unknown-linux-gnu -$o -gdwarf-$v -ffreestanding -nostdlib -fno-exceptions -fno-rtti -fno-pic -fuse-ld=lld -static $S/$s -o $f
    done
  done
done
for v in 2 3 4 5; do
  for s in a.c b.cpp; do
    f=$O/gcc-$v-${s%.*}.elf
    [ -e $f ] || try gcc -gdwarf-$v -O2 -freorder-blocks-and-partition -ffreestanding -nostdlib -fno-exceptions -static $S/$s -o $f
    f=$O/gccz-$v-${s%.*}.elf
    [ -e $f ] || try gcc -gdwarf-$v -gz=zlib -O1 -ffreestanding -nostdlib -fno-exceptions -shared -fPIC $S/$s -o $f
  done
done
for o in 0 2; do
  [ -e $O/rs-$o.elf ] || try rustc --edition 2021 -g -C opt-level=$o -C panic=abort -C link-arg=-nostartfiles -C link-arg=-nostdlib -C link-arg=-static -C relocation-model=static $S/c.rs -o $O/rs-$o.elf
done
for s in a.c b.cpp; do
  f=$O/mingw-${s%.*}.exe
  [ -e $f ] || { try clang --target=x86_64-w64-windows-gnu -gdwarf-4 -O1 -ffreestanding -nostdlib -fno-exceptions -fno-rtti -c $S/$s -o $O/t.o && try ld.lld -m i386pep -e _start $O/t.o -o $f; }
done
[ -e $O/t.o ] && rm -f "$PWD/$O/t.o"
exit 0

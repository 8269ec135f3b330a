#!/bin/bash
# Validates the interpreters of harness/xisa.hpp: generated C programs compiled for each
# target and interpreted, compared with the same program compiled for the host.
# usage: run.sh SEED [FUNCTIONS]   (not part of any check)
here=$(cd "$(dirname "$0")" && pwd); seed=$1; N=${2:-150}; d=$(mktemp -d) || exit 2; trap 'rm -rf "$d"' EXIT; cd "$d" || exit 2
python3 "$here/gen.py" "$seed" "$N" > t.c || exit 2
gcc -O0 -w -DHOST -fno-strict-aliasing -fwrapv -c t.c -o h.o && gcc -O0 -w -DHOST -DBEHOST -fno-strict-aliasing -fwrapv -c t.c -o hb.o && g++ -O1 -w "$here/self.cpp" h.o hb.o -o self || exit 2
for t in aarch64 aarch64_be riscv64 powerpc64 powerpc64le s390x loongarch64 mips64el mips64; do [ -n "$ONLY" ] && [[ $t != $ONLY ]] && continue; for o in O0 O1 O2 Oz; do f=; case $t in aarch64*) f=-mgeneral-regs-only;; powerpc64) f="-mno-altivec -mno-vsx -mabi=elfv2";; powerpc64le) f="-mno-altivec -mno-vsx";; s390x) f=-march=z10;; riscv64) f=-mcmodel=medany;; loongarch64) f="-mabi=lp64s -msoft-float";; mips*) f="-mabi=64 -march=mips64r2 -fno-pic -mno-abicalls -G0";; esac
clang -target $t-linux-gnu -ffreestanding -w -fno-strict-aliasing -fwrapv -$o $f -c t.c -o $t.o && lld -flavor gnu --image-base=0x123456780000 -static -nostdlib -e _start $t.o -o ${t}__$o.elf; done; done
./self $N *.elf

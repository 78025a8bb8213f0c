#!/bin/bash
# build.sh SRC OUT: build the simulator around the lacc sources in SRC.
set -e
src=$1; out=$2
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
rm -rf "$out/tree"; mkdir "$out/tree"
cp -r "$src/src" "$src/include" "$src/configure" "$src/Makefile" "$out/tree/"
[ -d "$src/lib" ] && cp -r "$src/lib" "$out/tree/"
(cd "$out/tree" && sh ./configure CC=gcc --libdir="$src/lib" >/dev/null)
cd "$out/tree"
(make >../native.log 2>&1 && cp bin/lacc ../lacc || { cat ../native.log >&2; exit 1; }) &
native=$!
flags="-std=gnu89 -w -O1 -g -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks
    -fno-pic -fno-common -fno-stack-protector -U_FORTIFY_SOURCE -fcf-protection=none
    -fsanitize-coverage=trace-pc -Iinclude -include config.h -DAMALGAMATION -DLACC_SIM"
gcc $flags -c src/lacc.c -o ../lacc_raw.o &
lc=$!
# the same with chosen garbage in every uninitialised automatic variable
gcc $flags -ftrivial-auto-var-init=pattern -c src/lacc.c -o ../lacc_pattern.o &
lp=$!
gcc $flags -ftrivial-auto-var-init=zero -c src/lacc.c -o ../lacc_zero.o &
lz=$!
gcc -std=gnu99 -O1 -g -Wall -Wextra -Wno-unused-parameter -Wno-deprecated-declarations -fno-pic -fno-stack-protector -U_FORTIFY_SOURCE \
    -c "$here/psim.c" -o ../psim.o
wait $lc; wait $lp; wait $lz
cd ..
nm psim.o | awk '$2 ~ /[TBDC]/ && $3 ~ /^sim_/ {n=$3; sub(/^sim_/, "", n); print n, $3}' > syms
echo "main lacc_main" >> syms
for v in raw pattern zero; do
    x=-$v; [ $v = raw ] && x=
    objcopy --redefine-syms=syms --rename-section .data=lacc_data --rename-section .bss=lacc_bss lacc_$v.o lacc_sim$x.o
    gcc -static -no-pie -Wl,-Ttext-segment=0x10000000 -Wl,-z,noexecstack psim.o lacc_sim$x.o -o psim$x
done
wait $native

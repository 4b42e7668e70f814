#!/bin/bash
# Builds the engine (pass plugin, runtime, list of external symbols) into $1
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:?}
mkdir -p "$out"
cd "$here"
L=/usr/lib/llvm-18
g++ -O1 -shared -fPIC -std=c++17 -fno-rtti -w -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -I$L/include -D_GNU_SOURCE pass.cc -o "$out/vspass.so" &
p1=$!
g++ -O2 -g -std=c++17 -w -c expr.cc -o "$out/expr.o" &
p2=$!
g++ -O2 -g -std=c++17 -w -c rt.cc -o "$out/rt.o" &
p3=$!
wait $p1; wait $p2; wait $p3
# dynamic symbols of the libraries that are not encoded
for l in libstdc++.so.6 libc.so.6 libm.so.6 libgcc_s.so.1; do
    f=$(g++ -print-file-name=$l)
    nm -D --defined-only "$f" | awk '{print $NF}' | sed 's/@.*//'
done | sort -u > "$out/externals.txt"

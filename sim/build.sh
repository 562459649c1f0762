#!/bin/bash
# compiles the simulator's native parts into /verif/.build (idempotent, atomic)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${SIM_BUILD:-$here/../.build}"
mkdir -p "$out/gitbin"
tmp="$(mktemp -d "$out/tmp.XXXXXX")"
gcc -O2 -shared -fPIC -Wall -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -o "$tmp/shim.so" "$here/shim.c" -ldl
gcc -O2 -static -o "$tmp/git" "$here/fakegit.c" 2>/dev/null || gcc -O2 -o "$tmp/git" "$here/fakegit.c"
mv -f "$tmp/shim.so" "$out/shim.so"
mv -f "$tmp/git" "$out/gitbin/git"
cat "$here/shim.c" "$here/fakegit.c" | sha256sum | cut -c1-64 > "$tmp/stamp"
mv -f "$tmp/stamp" "$out/stamp"
rmdir "$tmp"

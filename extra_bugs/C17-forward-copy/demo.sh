#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -O0 -w -I_build/default/faest_128f -I_build/default -I. "$d/demo.c" _build/default/faest_128f/libfaest_128f.a -L_build/default -lfaest -lcrypto -Wl,-rpath,"$PWD/_build/default" -o "$t/demo" || exit 3
"$t/demo"

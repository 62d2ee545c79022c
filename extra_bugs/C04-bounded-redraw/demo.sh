#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -O1 -w -I_build/default -I. "$d/demo.c" -L_build/default -lfaest -lcrypto -lpthread -Wl,-rpath,"$PWD/_build/default" -o "$t/demo" || exit 3
"$t/demo"

#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g=_build/default
s="faest.c faest_aes.c aes.c fields.c vc.c vole.c universal_hashing.c random_oracle.c instances.c owf.c randomness.c compat.c sha3/KeccakHash.c sha3/KeccakSponge.c sha3/KeccakHashtimes4.c sha3/KeccakSpongetimes4.c sha3/opt64/KeccakP-1600-opt64.c sha3/opt64/KeccakP-1600-times4-on1.c"
f="-O1 -g -w -D_GNU_SOURCE -DNDEBUG -DFAEST_TESTS -DWITH_KECCAK_X4 -DHAVE_CONFIG_H -I$g -I. -Isha3 -Isha3/opt64"
gcc $f -DHAVE_OPENSSL "$d/demo.c" $s -lcrypto -o "$t/demo" || exit 3
"$t/demo"

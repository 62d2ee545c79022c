#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
int main(void) {
  static uint8_t pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], buf[CRYPTO_BYTES + 500], m[200], o[CRYPTO_BYTES + 500];
  unsigned long long n, k;
  if (crypto_sign_keypair(pk, sk)) return 3;
  for (int i = 0; i < 200; i++) m[i] = (uint8_t)(i * 5 + 1);
  memcpy(buf, m, 200);
  if (crypto_sign(buf + 16, &n, buf, 200, sk)) return 3; // 16 bytes further on
  if (crypto_sign_open(o, &k, buf + 16, n, pk)) return 3;
  return k != 200 || memcmp(o, m, 200);
}

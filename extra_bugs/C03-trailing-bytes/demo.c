#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "faest_128f.h"
#include "faest_128s.h"
#include "faest_192s.h"
int main(void) {
  static uint8_t pk[FAEST_128F_PUBLIC_KEY_SIZE], sk[FAEST_128F_PRIVATE_KEY_SIZE], sig[FAEST_128F_SIGNATURE_SIZE + 1];
  size_t len = sizeof sig;
  if (faest_128f_keygen(pk, sk) || faest_128f_sign(sk, sk, 3, sig, &len)) return 3;
  if (faest_128f_verify(pk, sk, 3, sig, len)) return 3;
  return faest_128f_verify(pk, sk, 3, sig, len + 1) == 0;
}

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "hash_shake.h"
int main(void) {
  static uint8_t in[168], a[32], b[32];
  for (int i = 0; i < 168; i++) in[i] = i;
  hash_context c;
  hash_init(&c, 128);
  hash_update(&c, in, 168);
  hash_final(&c);
  hash_squeeze(&c, a, 32);
  hash_init(&c, 128);
  hash_update(&c, in, 100);
  hash_update(&c, in + 100, 68);
  hash_final(&c);
  hash_squeeze(&c, b, 32);
  return memcmp(a, b, 32) != 0;
}

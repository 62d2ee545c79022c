#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "hash_shake.h"
int main(void) {
  static uint8_t in[4][10], out[4][600], one[600];
  for (int i = 0; i < 40; i++) in[i / 10][i % 10] = i;
  const uint8_t* pi[4] = {in[0], in[1], in[2], in[3]};
  uint8_t* po[4] = {out[0], out[1], out[2], out[3]};
  hash_context_x4 x;
  hash_init_x4(&x, 128);
  hash_update_x4(&x, pi, 10);
  hash_final_x4(&x);
  hash_squeeze_x4(&x, po, 600);
  for (int i = 0; i < 4; i++) {
    hash_context c;
    hash_init(&c, 128);
    hash_update(&c, in[i], 10);
    hash_final(&c);
    hash_squeeze(&c, one, 600);
    if (memcmp(one, out[i], 600)) return 1;
  }
  return 0;
}

#pragma once
#include <stddef.h>
#include <stdint.h>
struct compat_ops {
  const char* name;
  void* (*alloc)(size_t, size_t);
  void (*afree)(void*);
  int (*bcmp)(const void*, const void*, size_t);
  void (*bzero)(void*, size_t);
  uint8_t (*rotl8)(uint8_t, unsigned);
  uint8_t (*rotr8)(uint8_t, unsigned);
  uint32_t (*clz)(uint32_t);
  uint32_t (*ceil_log2)(uint32_t);
  uint8_t (*parity8)(uint8_t);
  int (*sub_overflow)(size_t, size_t, size_t*);
  uint16_t (*swap16)(uint16_t, int);
  uint32_t (*swap32)(uint32_t, int);
  uint64_t (*swap64)(uint64_t, int);
  void (*xor8)(const uint8_t*, const uint8_t*, uint8_t*, size_t);
  void (*mxor8)(const uint8_t*, const uint8_t*, uint8_t*, uint8_t, size_t);
  void (*residue)(const uint8_t* secret, size_t len); // copies the secret to a local object, uses it, clears it
};

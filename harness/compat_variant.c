// One variant of the portability helpers: compat.c and its headers compiled under the variant's macros.
#include "compat_pre.h"
#include "compat.c"
#include "utils.h"
#include "compat_ops.h"
static void* v_alloc(size_t a, size_t n) { return faest_aligned_alloc(a, n); }
static void v_free(void* p) { faest_aligned_free(p); }
static int v_bcmp(const void* a, const void* b, size_t n) { return faest_timingsafe_bcmp(a, b, n); }
static void v_bzero(void* p, size_t n) { faest_explicit_bzero(p, n); }
static uint8_t v_rotl8(uint8_t x, unsigned c) { return rotl8(x, c); }
static uint8_t v_rotr8(uint8_t x, unsigned c) { return rotr8(x, c); }
static uint32_t v_clz(uint32_t x) { return clz(x); }
static uint32_t v_ceil_log2(uint32_t x) { return ceil_log2(x); }
static uint8_t v_parity8(uint8_t x) { return parity8(x); }
static int v_sub(size_t a, size_t b, size_t* d) { return sub_overflow_size_t(a, b, d); }
static uint16_t v16(uint16_t x, int k) { return k == 0 ? htobe16(x) : k == 1 ? htole16(x) : k == 2 ? be16toh(x) : k == 3 ? le16toh(x) : bswap16(x); }
static uint32_t v32(uint32_t x, int k) { return k == 0 ? htobe32(x) : k == 1 ? htole32(x) : k == 2 ? be32toh(x) : k == 3 ? le32toh(x) : bswap32(x); }
static uint64_t v64(uint64_t x, int k) { return k == 0 ? htobe64(x) : k == 1 ? htole64(x) : k == 2 ? be64toh(x) : k == 3 ? le64toh(x) : bswap64(x); }
static void v_xor(const uint8_t* a, const uint8_t* b, uint8_t* o, size_t n) { xor_u8_array(a, b, o, n); }
static void v_mxor(const uint8_t* a, const uint8_t* b, uint8_t* o, uint8_t m, size_t n) { masked_xor_u8_array(a, b, o, m, n); }
extern void compat_sink(const void*, size_t);
extern void compat_copy(void*, const void*, size_t);
static void v_residue(const uint8_t* secret, size_t len) {
  uint8_t local[64];
  compat_copy(local, secret, len);
  compat_sink(local, len);
  faest_explicit_bzero(local, sizeof(local));
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
const struct compat_ops CAT(compat_, VNAME) = {STR(VNAME), v_alloc, v_free, v_bcmp, v_bzero, v_rotl8, v_rotr8, v_clz, v_ceil_log2,
                                               v_parity8, v_sub, v16, v32, v64, v_xor, v_mxor, v_residue};

// Portability helpers in every variant
#include "engine.hpp"
#include <algorithm>
#include <malloc.h>
#include <ucontext.h>
#include <errno.h>
extern "C" {
#include "compat_ops.h"
#define X(n) extern const struct compat_ops compat_##n;
#include "compat_list.h"
#undef X
static volatile uint8_t g_sink;
__attribute__((noinline)) void compat_sink(const void* p, size_t n) {
  for (size_t i = 0; i < n; i++) g_sink ^= ((const uint8_t*)p)[i];
}
// a block lies at a chosen multiple of 16 behind a 4096-byte boundary; freeing anything else is an error
static std::map<void*, void*> g_blocks; // block -> real block
static size_t g_place = ~(size_t)0;
static bool g_badfree;
void* compat_malloc(size_t n) {
  void* base = nullptr;
  if (posix_memalign(&base, 4096, n + 8192)) return nullptr;
  memset(base, 0xc3, n + 8192);
  void* p     = (char*)base + 16 * (g_place & 255);
  g_blocks[p] = base;
  return p;
}
void compat_free(void* p) {
  auto i = g_blocks.find(p);
  if (i != g_blocks.end()) {
    free(i->second);
    g_blocks.erase(i);
  } else if (p) {
    // memory of the aligned allocators of the C library; the variants that use them never call malloc
    for (auto& b : g_blocks)
      if (p >= (char*)b.second && p < (char*)b.first + 70000) {
        g_badfree = true;
        return;
      }
    free(p);
  }
}
__attribute__((noinline)) void compat_copy(void* d, const void* s, size_t n) {
  for (size_t i = 0; i < n; i++) ((volatile uint8_t*)d)[i] = ((const uint8_t*)s)[i];
}
}
using namespace pbt;
namespace {
const compat_ops* const V[] = {
#define X(n) &compat_##n,
#include "compat_list.h"
#undef X
};
const size_t NV = sizeof V / sizeof *V;
const compat_ops& pick_variant(Ctx& c) {
  const auto& v = *V[c.strat(NV)];
  c.label(v.name);
  return v;
}
} // namespace
PROP(C19_bytes,
     "every 8-bit value and rotation amount (exhaustive within each case: one systematic byte value x all amounts) and drawn byte arrays: "
     "rotl8, rotr8, parity8, xor_u8_array, masked_xor_u8_array of each variant equal their definitions; every case non-trivial") {
  const auto& v = pick_variant(c);
  u8 x = (u8)c.strat(256);
  c.note(std::string(v.name) + " byte " + std::to_string(x));
  for (unsigned k = 0; k < 32; k++) {
    unsigned s = k & 7;
    c.eqi(v.rotl8(x, k), (u8)((x << s) | (x >> ((8 - s) & 7) & (s ? 0xff : 0))), "rotl8 by " + std::to_string(k));
    c.eqi(v.rotr8(x, k), (u8)((x >> s) | (s ? x << (8 - s) : 0)), "rotr8 by " + std::to_string(k));
  }
  int pop = 0;
  for (int i = 0; i < 8; i++) pop += (x >> i) & 1;
  c.eqi(v.parity8(x), pop & 1, "parity8");
  size_t n = c.length(600);
  Bytes a = c.bytes(n), b = c.bytes(n), w(n);
  unsigned alias = (unsigned)c.draw(3);
  Buf ba(a, 0, 0), bb(b, 0, 0), bo(n, 0, 0);
  u8* o = alias == 0 ? bo.data() : alias == 1 ? ba.data() : bb.data();
  for (size_t i = 0; i < n; i++) w[i] = a[i] ^ b[i];
  v.xor8(ba.data(), bb.data(), o, n);
  c.eq(Bytes(o, o + n), w, "xor_u8_array");
  Buf ba2(a, 0, 0), bb2(b, 0, 0), bo2(n, 0, 0);
  o = alias == 0 ? bo2.data() : alias == 1 ? ba2.data() : bb2.data();
  for (size_t i = 0; i < n; i++) w[i] = a[i] ^ (x & 1 ? b[i] : 0);
  v.mxor8(ba2.data(), bb2.data(), o, x, n);
  c.eq(Bytes(o, o + n), w, "masked_xor_u8_array");
  c.nontrivial(hash_bytes(a.data(), n, hash_str(v.name, x)));
}
PROP(C19_words,
     "a 64-bit word (powers of two and neighbours, structured, random): clz, ceil_log2, byte-order conversions (all widths and "
     "directions), sub_overflow_size_t of each variant equal their definitions; every case non-trivial; distinct by variant and word") {
  const auto& v = pick_variant(c);
  u64 x;
  switch (c.draw(4)) {
  case 0: x = c.draw(300); break;
  case 1: x = ((u64)1 << c.draw(64)) + c.draw(3) - 1; break;
  case 2: x = (u64)0 - c.draw(300); break;
  default: x = c.draw(0);
  }
  u64 y = c.chance(1, 3) ? x + c.draw(3) - 1 : c.draw(0) >> c.draw(64);
  char b[64];
  snprintf(b, sizeof b, "%s %016llx %016llx", v.name, (unsigned long long)x, (unsigned long long)y);
  c.note(b);
  uint32_t w = (uint32_t)x;
  unsigned lz = 32;
  for (int i = 31; i >= 0; i--)
    if ((w >> i) & 1) { lz = 31 - i; break; }
  c.eqi(v.clz(w), lz, "clz");
  unsigned cl = 0;
  while (cl < 32 && ((u64)1 << cl) < w) cl++;
  c.eqi(v.ceil_log2(w), cl, "ceil_log2");
  for (int k = 0; k < 5; k++) {
    bool sw = k == 0 || k == 2 || k == 4; // little-endian machine
    u64 r   = 0;
    for (int i = 0; i < 8; i++) r |= (u64)((x >> (8 * i)) & 0xff) << (8 * (7 - i));
    static const char* nm[] = {"htobe", "htole", "betoh", "letoh", "bswap"};
    c.require(v.swap64(x, k) == (sw ? r : x), std::string(nm[k]) + "64");
    c.require(v.swap32(w, k) == (sw ? (uint32_t)(((w & 0xff) << 24) | ((w & 0xff00) << 8) | ((w >> 8) & 0xff00) | (w >> 24)) : w), std::string(nm[k]) + "32");
    uint16_t h = (uint16_t)x;
    c.require(v.swap16(h, k) == (sw ? (uint16_t)((h << 8) | (h >> 8)) : h), std::string(nm[k]) + "16");
  }
  size_t d = 0x1234;
  int o = v.sub_overflow((size_t)x, (size_t)y, &d);
  c.require((o != 0) == (x < y) && d == (size_t)(x - y), "sub_overflow_size_t");
  c.nontrivial(hash_str(b));
}
PROP(C19_memory,
     "drawn contents and lengths (0-2000): timing-safe comparison is zero exactly for equal ranges (equal, differing in one bit anywhere, "
     "unrelated), secure zeroing clears exactly the range, also of a dying local object; guard pages and misalignment; every case non-trivial") {
  const auto& v = pick_variant(c);
  size_t n = c.length(2000);
  Bytes a = c.bytes(n), b(a);
  unsigned k = (unsigned)c.draw(4);
  if (n) {
    if (k == 1) b[c.draw(n)] ^= (u8)(1 << c.draw(8));
    if (k == 2) b[n - 1] ^= (u8)c.range(1, 255);
    if (k == 3) b = c.bytes(n);
  }
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(16);
  c.note(std::string(v.name) + " n=" + std::to_string(n) + " kind " + std::to_string(k));
  Buf ba(a, mode, mis), bb(b, mode, mis);
  c.require((v.bcmp(ba.data(), bb.data(), n) == 0) == (a == b), "timing-safe comparison");
  c.require(v.bcmp(ba.data(), ba.data(), n) == 0, "comparison with itself");
  size_t z = c.draw(n + 1), off = c.draw(n - z + 1);
  v.bzero(ba.data() + off, z);
  std::fill(a.begin() + off, a.begin() + off + z, 0);
  c.eq(ba.get(), a, "buffer after zeroing [" + std::to_string(off) + "," + std::to_string(off + z) + ")");
  c.require(ba.intact() && bb.get() == b && bb.intact(), "zeroing or comparison changed something else");
  c.nontrivial(hash_bytes(b.data(), n, hash_str(v.name, z * 4096 + off)));
}
namespace {
const compat_ops* cv;
Bytes secret;
ucontext_t back, inner;
void on_stack() { cv->residue(secret.data(), secret.size()); }
} // namespace
PROP(C19_residue,
     "a random 32-64 byte secret is copied to a local object on a private stack, used, cleared with the secure zeroing function and left; "
     "no 8-byte piece of it may remain on that stack; every case non-trivial; distinct by variant and secret") {
  cv     = &pick_variant(c);
  secret = c.random_bytes(c.range(32, 64));
  c.note(std::string(cv->name) + " secret " + hex(secret, 8));
  static std::vector<u8> st(1 << 16);
  std::fill(st.begin(), st.end(), 0x5c);
  getcontext(&inner);
  inner.uc_stack.ss_sp   = st.data();
  inner.uc_stack.ss_size = st.size();
  inner.uc_link          = &back;
  makecontext(&inner, on_stack, 0);
  swapcontext(&back, &inner);
  for (size_t i = 0; i + 8 <= secret.size(); i++)
    for (size_t j = 0; j + 8 <= st.size(); j++)
      if (st[j] == secret[i] && !memcmp(&st[j], &secret[i], 8)) c.fail("8 bytes of a cleared local object remain at stack offset " + std::to_string(j));
  c.nontrivial(hash_bytes(secret.data(), secret.size(), hash_str(cv->name)));
}
PROP(C19_alloc,
     "2-12 aligned allocations with drawn power-of-two alignment (1-128, in the generic fallback up to 1024, where above 128 it may refuse) and size (a multiple of it, 0 to 64 kB), "
     "freed in drawn order: each result is aligned, writable over its whole size, disjoint from the others, and keeps its contents; the fallback "
     "implementations refuse alignments that are no power of two and sizes that are no multiple; every case non-trivial") {
  const auto& v = pick_variant(c);
  struct Blk { u8* p; size_t n; u8 fill; };
  std::vector<Blk> bl;
  std::string d(v.name);
  int n = (int)c.range(2, 12);
  u64 h        = hash_str(v.name);
  bool generic = !strncmp(v.name, "generic", 7) || !strncmp(v.name, "nobuiltin", 9);
  g_badfree    = false;
  while (n--) {
    if (!bl.empty() && c.chance(1, 4)) {
      size_t i = c.draw(bl.size());
      for (size_t k = 0; k < bl[i].n; k++) c.require(bl[i].p[k] == bl[i].fill, "contents of an allocation changed: " + d);
      v.afree(bl[i].p);
      bl.erase(bl.begin() + i);
      d += " free";
      continue;
    }
    // the block malloc gives the generic fallback: anywhere, or well aligned itself
    g_place   = c.draw(3) ? c.draw(256) : c.draw(2) ? 0 : 16 * c.draw(16);
    size_t al = (size_t)1 << (c.chance(1, 4) ? c.range(8, 10) : c.draw(8)), sz = al * (c.chance(1, 3) ? c.draw(65536 / al + 1) : c.draw(20));
    d += " " + std::to_string(al) + ":" + std::to_string(sz);
    c.note(d);
    h = mix64(h ^ (al * 1000003 + sz));
    u8* p = (u8*)v.alloc(al, sz);
    if (!p) {
      c.require(sz == 0 || (al > 128 && generic), "allocation failed: " + d);
      continue;
    }
    c.require(((uintptr_t)p & (al - 1)) == 0, "result not aligned: " + d);
    for (auto& x : bl) c.require(p + sz <= x.p || x.p + x.n <= p || !sz || !x.n, "allocations overlap: " + d);
    u8 f = (u8)c.draw(256);
    memset(p, f, sz);
    bl.push_back({p, sz, f});
  }
  for (auto& x : bl)
    for (size_t k = 0; k < x.n; k++) c.require(x.p[k] == x.fill, "contents of an allocation changed: " + d);
  for (auto& x : bl) v.afree(x.p);
  v.afree(nullptr);
  bool left = !g_blocks.empty();
  for (auto& b : g_blocks) free(b.second);
  g_blocks.clear();
  c.require(!g_badfree, "a pointer was freed that malloc never returned: " + d);
  c.require(!left, "a block was never freed: " + d);
  if (!strstr(v.name, "native")) {
    size_t al = (size_t)1 << c.draw(8);
    errno = 0;
    c.require(v.alloc(3 * al, 3 * al * 4) == nullptr, "alignment " + std::to_string(3 * al) + " accepted");
    if (al > 1) c.require(v.alloc(al, al * 5 + c.range(1, al - 1)) == nullptr, "size that is no multiple of the alignment accepted");
  }
  c.nontrivial(h);
}

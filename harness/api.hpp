// The public functions of every parameter set, generators for their arguments, and the stand-in for
// the operating system's random source.
#pragma once
#include "engine.hpp"
#include "model.hpp"
#include <errno.h>
#include <sys/random.h>
#define FAEST_SETS(X)                                                                                                  \
  X(128s, 128S) X(128f, 128F) X(192s, 192S) X(192f, 192F) X(256s, 256S) X(256f, 256F)                                    \
  X(em_128s, EM_128S) X(em_128f, EM_128F) X(em_192s, EM_192S) X(em_192f, EM_192F) X(em_256s, EM_256S) X(em_256f, EM_256F)
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"

using pbt::Buf;
using pbt::Bytes;
using pbt::Ctx;
using pbt::hex;
using pbt::u64;
using pbt::u8;

struct Api {
  const char* name;
  size_t pk, sk, sig;
  int (*keygen)(u8*, u8*);
  int (*sign)(const u8*, const u8*, size_t, u8*, size_t*);
  int (*signr)(const u8*, const u8*, size_t, const u8*, size_t, u8*, size_t*);
  int (*verify)(const u8*, const u8*, size_t, const u8*, size_t);
  int (*validate)(const u8*, const u8*);
  void (*clear)(u8*);
};
inline const Api& api(int id) { // 1..12
#define X(l, u)                                                                                                        \
  {#l, FAEST_##u##_PUBLIC_KEY_SIZE, FAEST_##u##_PRIVATE_KEY_SIZE, FAEST_##u##_SIGNATURE_SIZE, faest_##l##_keygen,        \
   faest_##l##_sign, faest_##l##_sign_with_randomness, faest_##l##_verify, faest_##l##_validate_keypair,                 \
   faest_##l##_clear_private_key},
  static const Api t[12] = {FAEST_SETS(X)};
#undef X
  return t[id - 1];
}

// ---------------------------------------------------------------- random source stand-in
struct RngFeed {
  std::function<ssize_t(u8*, size_t)> fn; // returns bytes delivered, or -1 with errno
  std::vector<Bytes> log;                 // what was delivered
  u64 ctr = 0;
  bool nolog = false;
  void reset() {
    fn = nullptr;
    nolog = false;
    log.clear();
    ctr = 0x1234;
  }
  ssize_t get(u8* b, size_t n) {
    if (fn) {
      ssize_t r = fn(b, n);
      if (r > 0 && !nolog) log.emplace_back(b, b + r);
      return r;
    }
    pbt::Rng r(ctr++);
    for (size_t i = 0; i < n; i++) b[i] = (u8)r.next();
    if (!nolog) log.emplace_back(b, b + n);
    return (ssize_t)n;
  }
  Bytes all() const {
    Bytes r;
    for (auto& l : log) r.insert(r.end(), l.begin(), l.end());
    return r;
  }
};
inline thread_local RngFeed g_feed;
#ifndef NO_RNG_STANDIN
extern "C" {
__attribute__((visibility("default"))) ssize_t getrandom(void* b, size_t n, unsigned) { return g_feed.get((u8*)b, n); }
__attribute__((visibility("default"))) int getentropy(void* b, size_t n) {
  return g_feed.get((u8*)b, n) == (ssize_t)n ? 0 : -1;
}
}
#endif
inline void feed_reset() { g_feed.reset(); }
struct InstallReset {
  InstallReset() { pbt::g_reset = feed_reset; }
};
inline InstallReset install_reset;

// ---------------------------------------------------------------- generators
// systematic choice of the parameter set; fast sets come up twice as often
inline int pick_set(Ctx& c, bool slow = true) {
  static const int order[18] = {8, 2, 10, 4, 12, 6, 7, 1, 9, 8, 2, 10, 4, 12, 6, 3, 11, 5};
  static const int fast[6]   = {8, 2, 10, 4, 12, 6};
  return slow ? order[c.strat(18)] : fast[c.strat(6)];
}
// uniform over the twelve sets (for cheap operations)
inline int pick_set12(Ctx& c) { return 1 + (int)((c.strat(12) + 7) % 12); }

// n bytes of a shape that careless zero tests confuse with zero bytes (or miss): single bits, sign bits, borrow chains,
// repeated and mixed special values, in the whole string or in a window, optionally with one or more true zeros
inline Bytes special_bytes(Ctx& c, size_t n, bool zeros) {
  static const u8 sp[] = {0x80, 0x40, 0xc0, 0x01, 0xff, 0x7f, 0xfe, 0x81, 0x08, 0x10, 0x55, 0xaa, 0x1b, 0x63, 0x52, 0x02};
  Bytes b(n);
  pbt::Rng r(c.draw(0));
  for (auto& x : b) do x = (u8)r.next(); while (!x);
  size_t w = c.pick<size_t>({n, 4, 8, 16, 2, 3}), at = 0;
  if (w > n) w = n;
  if (w < n) at = w == 4 || w == 8 || w == 16 ? w * c.draw(n / w) : c.draw(n - w + 1);
  unsigned kind = (unsigned)c.draw(4);
  u8 v = sp[c.draw(sizeof sp)], v2 = sp[c.draw(sizeof sp)];
  for (size_t i = at; i < at + w; i++)
    switch (kind) {
    case 0: b[i] = v; break;
    case 1: b[i] = r.next() & 1 ? v : v2; break;
    case 2: b[i] = (u8)(1u << (r.next() & 7)); break;
    default: b[i] = sp[r.next() % sizeof sp];
    }
  if (zeros) {
    unsigned k = (unsigned)c.pick<int>({1, 2, 2, 3, 4, (int)w});
    while (k--) b[at + c.draw(w)] = 0;
  }
  return b;
}
// private key such that the S-box inputs of a chosen schedule word or encryption round have a special shape
inline Bytes shaped_sk(Ctx& c, const ref::Params& p, bool zeros) {
  const int Nk = p.Nk(), Nb = p.Nb();
  pbt::Rng r(c.draw(0));
  Bytes in(p.owf_in()), key(p.LB());
  for (auto& x : in) x = (u8)r.next();
  for (auto& x : key) x = (u8)r.next();
  unsigned kind = (unsigned)c.draw(4);
  if (kind == 0 && p.Ske()) {
    int idx = (int)c.draw(p.Ske() / 4), k = Nk, seen = -1;
    for (;; k++)
      if (ref::Rijndael::sboxed(Nk, k) && ++seen == idx) break;
    std::vector<std::array<u8, 4>> win((size_t)Nk);
    for (auto& w : win)
      for (auto& x : w) x = (u8)r.next();
    Bytes s = special_bytes(c, 4, zeros);
    memcpy(win[Nk - 1].data(), s.data(), 4);
    ref::Rijndael::invert_schedule(win, k - Nk, Nk, key.data());
  } else {
    unsigned blocks = (unsigned)p.owf_in() / (4 * Nb), rd = kind == 1 ? 1 : kind == 2 ? (unsigned)p.R() : (unsigned)c.range(1, p.R());
    for (unsigned b = 0; b < (p.em ? 1u : blocks); b++) {
      if (b && c.chance(1, 2)) continue;
      Bytes s = special_bytes(c, 4 * Nb, zeros);
      if (p.em) ref::Rijndael(in.data(), Nk, Nb).invert_from(s.data(), (int)rd, key.data());
      else ref::Rijndael(key.data(), Nk, 4).invert_from(s.data(), (int)rd, &in[16 * b]);
    }
  }
  Bytes sk(in);
  sk.insert(sk.end(), key.begin(), key.end());
  return sk;
}
// private key whose one-way function has a special output (all zero, structured)
inline Bytes special_output_sk(Ctx& c, const ref::Params& p) {
  const int Nk = p.Nk(), Nb = p.Nb();
  pbt::Rng r(c.draw(0));
  Bytes in(p.owf_in()), key(p.LB()), out = c.bytes(p.owf_in());
  for (auto& x : in) x = (u8)r.next();
  for (auto& x : key) x = (u8)r.next();
  unsigned blocks = (unsigned)p.owf_in() / (4 * Nb);
  auto last = [&](const ref::Rijndael& ci, const u8* ct, u8* pt) { // decrypt
    u8 st[32];
    memcpy(st, ct, 4 * Nb);
    ci.addkey(st, ci.R);
    ci.unshiftrows(st);
    for (int i = 0; i < 4 * Nb; i++) st[i] = ref::SB().is[st[i]];
    ci.invert_from(st, ci.R, pt);
  };
  if (p.em) { // in = Rijndael key; output = cipher(key) ^ key: a special cipher output instead
    last(ref::Rijndael(in.data(), Nk, Nb), out.data(), key.data());
  } else
    for (unsigned b = 0; b < blocks; b++) last(ref::Rijndael(key.data(), Nk, 4), &out[16 * b], &in[16 * b]);
  Bytes sk(in);
  sk.insert(sk.end(), key.begin(), key.end());
  return sk;
}
inline Bytes usable_key(Ctx& c, const ref::Params& p, bool structured = true) {
  if (structured && c.chance(1, 3)) {
    bool shaped = c.chance(2, 3);
    for (int t = 0; t < 40; t++) {
      Bytes sk = shaped ? shaped_sk(c, p, false) : special_output_sk(c, p);
      if (ref::owf_sk(p, sk.data()).usable()) return sk;
    }
  }
  Bytes in = structured ? c.bytes(p.owf_in()) : c.random_bytes(p.owf_in());
  Bytes k  = structured ? c.bytes(p.LB()) : c.random_bytes(p.LB());
  pbt::Rng r(c.draw(0));
  for (int t = 0;; t++) {
    if (ref::owf(p, k.data(), in.data()).usable()) break;
    for (auto& x : k) x = (u8)r.next();
    if (t > 64)
      for (auto& x : in) x = (u8)r.next();
  }
  Bytes sk(in);
  sk.insert(sk.end(), k.begin(), k.end());
  return sk;
}
struct Rho {
  Bytes b;
  bool null = true;
  const u8* ptr() const { return null ? nullptr : b.data(); }
  std::string str() const { return null ? "null" : std::to_string(b.size()); }
};
// a length such that pre + length + 1 hits or just misses a sponge block boundary
inline size_t block_len(Ctx& c, size_t rate, size_t pre, unsigned blocks) {
  long n = (long)(rate * c.range(1, blocks)) - (long)pre - 1 + (long)c.draw(4) - 1;
  return n < 0 ? c.draw(4) : (size_t)n;
}
// lengths around powers of two
inline size_t pow_len(Ctx& c, unsigned lo, unsigned hi) { return ((size_t)1 << c.range(lo, hi)) - 2 + c.draw(5); }
inline Rho gen_rho(Ctx& c, const ref::Params& p) {
  Rho r;
  unsigned k = (unsigned)c.draw(9);
  r.null     = k == 0;
  switch (k) {
  case 0:
  case 1: break;
  case 2: r.b = c.bytes(c.range(1, p.LB())); break;
  case 3:
  case 4: r.b = c.bytes(p.LB()); break;
  case 5: r.b = c.bytes(c.range(p.LB() + 1, 3 * p.LB())); break;
  case 6: r.b = c.bytes(block_len(c, p.lambda == 128 ? 168 : 136, 3 * p.LB(), 4)); break;
  case 7: r.b = c.bytes(c.length(700)); break;
  default: r.b = c.bytes(pow_len(c, 3, 17));
  }
  if (!r.null) r.b.reserve(1); // never a null pointer for the non-null case
  return r;
}
// exact multiples of powers of two, and one off
inline size_t multiple_len(Ctx& c, unsigned lo, unsigned hi) {
  return c.pick<size_t>({1, 2, 3, 1, 5, 7}) * ((size_t)1 << c.range(lo, hi)) - (c.chance(1, 3) ? 1 : 0) + (c.chance(1, 4) ? 1 : 0);
}
inline Bytes gen_msg(Ctx& c, size_t max = 1200) {
  size_t n;
  switch (c.draw(16)) {
  case 15: n = c.draw(120000); break;
  case 14: n = multiple_len(c, 3, 16); break;
  case 13:
  case 12: n = pow_len(c, 3, 17); break;
  case 11:
  case 10: n = block_len(c, c.pick<size_t>({168, 136}), c.pick<size_t>({32, 48, 64}), 6); break;
  default: n = c.length(max);
  }
  return c.bytes(n);
}
inline const u8* nz(const Bytes& b) { // non-null pointer even for empty data
  static const u8 z = 0;
  return b.empty() ? &z : b.data();
}

// Primitives: ciphers, one-way functions, seed expander, hashing, field arithmetic, universal hashes.
#include "keys.hpp"
extern "C" {
#include "aes.h"
#include "owf.h"
#include "fields.h"
#include "random_oracle.h"
#include "universal_hashing.h"
}

// ------------------------------------------------------------------------------------------- C10
namespace {
struct Cipher {
  const char* name;
  int nk, nb;
  int (*init)(aes_round_keys_t*, const u8*);
  int (*enc)(const aes_round_keys_t*, const u8*, u8*);
};
const Cipher ciphers[5] = {{"aes128", 4, 4, aes128_init_round_keys, aes128_encrypt_block},
                           {"aes192", 6, 4, aes192_init_round_keys, aes192_encrypt_block},
                           {"aes256", 8, 4, aes256_init_round_keys, aes256_encrypt_block},
                           {"rijndael192", 6, 6, rijndael192_init_round_keys, rijndael192_encrypt_block},
                           {"rijndael256", 8, 8, rijndael256_init_round_keys, rijndael256_encrypt_block}};
// a key whose schedule has a zero S-box input in byte `byte` of the idx-th substituted word
Bytes key_zero_schedule(Ctx& c, int Nk, int Nb, unsigned place, const u8* word = nullptr) {
  pbt::Rng r(c.draw(0));
  int R = ref::Rijndael::rounds(Nk, Nb), nw = Nb * (R + 1), idx = (int)place / 4, k = Nk, seen = -1;
  for (; k < nw; k++)
    if (ref::Rijndael::sboxed(Nk, k) && ++seen == idx) break;
  std::vector<std::array<u8, 4>> win((size_t)Nk);
  for (auto& w : win)
    for (auto& b : w) b = (u8)r.next();
  win[Nk - 1][place % 4] = 0;
  if (word) memcpy(win[Nk - 1].data(), word, 4);
  Bytes key(4 * Nk);
  ref::Rijndael::invert_schedule(win, k - Nk, Nk, key.data());
  return key;
}
int sched_words(int Nk, int Nb) {
  int n = 0;
  for (int k = Nk; k < Nb * (ref::Rijndael::rounds(Nk, Nb) + 1); k++) n += ref::Rijndael::sboxed(Nk, k);
  return n;
}
} // namespace
PROP(C10_cipher,
     "a cipher (systematic), a key and a block are drawn: structured, random, or built by inverting schedule or rounds so that one "
     "chosen S-box input (systematic over all of them) is zero or a chosen word or state has special bytes; all round key bytes, the ciphertext and both zero reports must equal "
     "the model's; buffers end at guard pages; non-trivial = every case; distinct by cipher, key and block") {
  const Cipher& ci = ciphers[c.strat(5)];
  const int R = ref::Rijndael::rounds(ci.nk, ci.nb), bs = 4 * ci.nb, nsk = 4 * sched_words(ci.nk, ci.nb), nenc = bs * R;
  unsigned kind = (unsigned)c.strat(5);
  unsigned place = (unsigned)c.strat((u64)nsk + nenc);
  Bytes key, blk;
  const char* d = "arbitrary";
  if (kind == 0) {
    key = c.bytes(4 * ci.nk);
    blk = c.bytes(bs);
  } else if (kind == 1) {
    key = c.random_bytes(4 * ci.nk);
    blk = c.bytes(bs);
  } else if (kind == 4) { // special shapes at one schedule word or one round
    key = c.random_bytes(4 * ci.nk);
    blk = c.random_bytes(bs);
    if ((int)place < nsk) {
      Bytes s = special_bytes(c, 4, c.chance(1, 3));
      key     = key_zero_schedule(c, ci.nk, ci.nb, place, s.data());
    } else ref::Rijndael(key.data(), ci.nk, ci.nb).invert_from(special_bytes(c, bs, c.chance(1, 3)).data(), (int)((place - nsk) / bs) + 1, blk.data());
    d = "special shape";
  } else if ((int)place < nsk) {
    key = key_zero_schedule(c, ci.nk, ci.nb, place);
    blk = c.random_bytes(bs);
    d   = "zero in key schedule";
  } else {
    unsigned s = place - nsk;
    key        = c.random_bytes(4 * ci.nk);
    ref::Rijndael m(key.data(), ci.nk, ci.nb);
    Bytes st = c.random_bytes(bs);
    for (auto& b : st) b |= (b == 0);
    st[s % bs] = 0;
    blk.resize(bs);
    m.invert_from(st.data(), (int)(s / bs) + 1, blk.data());
    d = "zero in encryption";
  }
  ref::Rijndael m(key.data(), ci.nk, ci.nb);
  Bytes want(bs);
  int z = m.encrypt(blk.data(), want.data());
  c.note(std::string(ci.name) + " " + d + " key=" + hex(key, 32) + " block=" + hex(blk, 32));
  c.label(std::string(ci.name) + (m.zeros_ks || z ? " zero" : " no zero"));
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(8);
  Buf bk(key, mode, mis), bb(blk, mode, mis), bo(bs, mode, mis);
  aes_round_keys_t rk;
  memset(&rk, 0xcc, sizeof rk);
  int r1 = ci.init(&rk, bk.data());
  c.require((r1 != 0) == (m.zeros_ks > 0), "key schedule reports " + std::to_string(r1) + ", zero S-box inputs: " + std::to_string(m.zeros_ks));
  for (int w = 0; w < ci.nb * (R + 1); w++)
    c.eq(&rk.round_keys[w / ci.nb][w % ci.nb][0], m.w[w].data(), 4, "round key word " + std::to_string(w));
  int r2 = ci.enc(&rk, bb.data(), bo.data());
  c.eq(bo.get(), want, "ciphertext");
  c.require((r2 != 0) == (z > 0), "encryption reports " + std::to_string(r2) + ", zero S-box inputs: " + std::to_string(z));
  c.require(bo.intact() && bk.intact() && bb.intact(), "wrote outside its buffers");
  c.eq(bb.get(), blk, "plaintext buffer");
  aes_round_keys_t rk2;
  memset(&rk2, 0x33, sizeof rk2);
  c.require((expand_key(&rk2, bk.data(), ci.nk, ci.nb, R) != 0) == (m.zeros_ks > 0), "expand_key zero report");
  for (int w = 0; w < ci.nb * (R + 1); w++)
    c.eq(&rk2.round_keys[w / ci.nb][w % ci.nb][0], m.w[w].data(), 4, "expand_key word " + std::to_string(w));
  c.nontrivial(pbt::hash_bytes(key.data(), key.size(), pbt::hash_bytes(blk.data(), blk.size(), (u64)ci.nk * 16 + ci.nb)));
}
PROP(C10_owf,
     "a one-way function (systematic), a key and an input: structured, random, or exactly one zero S-box input at a systematic place; "
     "output and usability must equal the model's; guard pages around all buffers; non-trivial = every case; distinct by arguments") {
  typedef bool (*Owf)(const u8*, const u8*, u8*);
  static const struct { const char* n; int set; Owf f; } fs[6] = {
      {"owf_128", 2, owf_128}, {"owf_192", 4, owf_192}, {"owf_256", 6, owf_256},
      {"owf_em_128", 8, owf_em_128}, {"owf_em_192", 10, owf_em_192}, {"owf_em_256", 12, owf_em_256}};
  auto& f        = fs[c.strat(6)];
  const auto& p  = ref::param(f.set);
  unsigned kind  = (unsigned)c.strat(4);
  unsigned place = (unsigned)c.strat(num_places(p));
  Bytes sk       = kind == 3 ? shaped_sk(c, p, c.chance(1, 3)) : kind == 0 ? c.bytes(p.sk()) : kind == 1 ? c.random_bytes(p.sk()) : one_zero_key(c, p, place);
  Bytes in(sk.begin(), sk.begin() + p.owf_in()), key(sk.begin() + p.owf_in(), sk.end());
  auto o = ref::owf(p, key.data(), in.data());
  c.note(std::string(f.n) + " in=" + hex(in, 32) + " key=" + hex(key, 32) + " zeros=" + std::to_string(o.zeros));
  c.label(std::string(f.n) + (o.usable() ? " usable" : " unusable"));
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(8);
  Buf bk(key, mode, mis), bi(in, mode, mis), bo(p.owf_in(), mode, mis);
  bool r = f.f(bk.data(), bi.data(), bo.data());
  c.eqi(r, o.usable(), "usability");
  c.eq(bo.get(), o.out, "output");
  c.require(bo.intact() && bk.get() == key && bi.get() == in, "buffers other than the output changed");
  c.nontrivial(pbt::hash_bytes(sk.data(), sk.size(), f.set));
}
namespace {
Bytes gen_iv(Ctx& c) {
  Bytes iv = c.bytes(16);
  if (c.chance(1, 3)) { // close to a carry or to the wrap-around
    unsigned t = (unsigned)c.draw(17);
    for (unsigned i = 16 - t; i < 16; i++) iv[i] = 0xff;
    if (t) iv[15] = (u8)(0xff - c.draw(40));
  }
  return iv;
}
} // namespace
PROP(C10_prg,
     "key, IV (a third of them few steps before a carry across 1-16 bytes) and output length (0, around multiples of 16, the lengths the "
     "scheme uses, anything to 6000) are drawn; output must equal AES-CTR by the model, nothing outside it may change; non-trivial = "
     "more than one block; distinct by arguments") {
  static const int lam[3] = {128, 192, 256};
  int l     = lam[c.strat(3)];
  Bytes key = c.bytes(l / 8), iv = gen_iv(c);
  size_t n  = c.chance(1, 4) ? (size_t)ref::param((int)c.range(1, 12)).LH() : c.length(c.chance(1, 8) ? 6000 : 400, {16, 32, 48, 64});
  c.note("prg" + std::to_string(l) + " n=" + std::to_string(n) + " iv=" + hex(iv) + " key=" + hex(key, 32));
  Bytes want    = ref::prg(l, key.data(), iv.data(), n);
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(8);
  Buf bk(key, mode, mis), bi(iv, mode, mis), bo(n, mode, mis);
  prg(bk.data(), bi.data(), bo.data(), (unsigned)l, n);
  c.eq(bo.get(), want, "output");
  c.require(bo.intact(), "wrote outside the output");
  c.require(bi.get() == iv && bk.get() == key, "inputs changed");
  Bytes next(iv);
  for (int i = 15; i >= 0; i--)
    if (++next[i]) break;
  aes_increment_iv(bi.data());
  c.eq(bi.get(), next, "incremented IV");
  c.require(bi.intact(), "increment wrote outside the IV");
  if (n > 16) c.nontrivial(pbt::hash_bytes(key.data(), key.size(), pbt::hash_bytes(iv.data(), 16, n)));
}

// ------------------------------------------------------------------------------------------- C11
namespace {
std::vector<size_t> splits(Ctx& c, size_t n) { // pieces summing to n, some empty
  std::vector<size_t> v;
  size_t left = n;
  while (left && v.size() < 40) {
    size_t k;
    switch (c.draw(5)) {
    case 0: k = left; break;
    case 1: k = c.draw(9); break;
    case 2: { size_t r = c.pick({(size_t)136, (size_t)168, (size_t)8, (size_t)272, (size_t)336}); k = r + c.draw(3); if (k) k--; break; }
    case 3: k = c.draw(left + 1); break;
    default: k = 1; break;
    }
    if (k > left) k = left;
    v.push_back(k);
    left -= k;
  }
  if (left) v.push_back(left);
  if (c.chance(1, 4)) v.insert(v.begin() + c.draw(v.size() + 1), 0);
  return v;
}
size_t hash_len(Ctx& c) { return c.chance(1, 60) ? c.draw(60000) : c.length(1400, {136, 168, 8, 272, 336}); }
} // namespace
PROP(C11_hash,
     "security level, input (lengths around the sponge rates, up to 60 kB) and its split into 1-40 updates (with empty and rate-sized "
     "pieces, 16-bit updates, prefixed start), output length and its split into squeezes are drawn; result must equal one-shot SHAKE; "
     "input pieces at odd addresses next to guard pages; non-trivial = more than one update or squeeze, or more than one block; "
     "distinct by input, split and output length") {
  static const int lam[3] = {128, 192, 256};
  int l        = lam[c.strat(3)];
  int bits     = l == 128 ? 128 : 256;
  Bytes in     = c.bytes(hash_len(c));
  bool pre     = c.chance(1, 4);
  auto ins     = splits(c, in.size());
  size_t n     = hash_len(c);
  auto outs    = splits(c, n);
  unsigned mode = (unsigned)c.draw(3);
  hash_context h;
  memset(&h, 0xa7, sizeof h);
  ref::Shake m(bits);
  size_t off = 0;
  std::string d;
  if (pre) {
    u8 px = (u8)c.draw(256);
    hash_init_prefix(&h, (unsigned)l, px);
    m.absorb(&px, 1);
  } else hash_init(&h, (unsigned)l);
  for (size_t k : ins) {
    if (c.chance(1, 10)) {
      unsigned v = (unsigned)c.draw(65536);
      hash_update_uint16_le(&h, (uint16_t)v);
      u8 le[2] = {(u8)v, (u8)(v >> 8)};
      m.absorb(le, 2);
    }
    Bytes part(in.begin() + off, in.begin() + off + k);
    Buf b(part, k > 20000 ? 2 : mode, (unsigned)(off % 8));
    hash_update(&h, b.data(), k);
    m.absorb(part);
    off += k;
  }
  hash_final(&h);
  for (size_t k : outs) {
    Buf b(k, k > 20000 ? 2 : mode, (unsigned)(k % 8));
    hash_squeeze(&h, b.data(), k);
    c.eq(b.get(), m.out(k), "squeezed output");
    c.require(b.intact(), "squeeze wrote outside its buffer");
  }
  hash_clear(&h);
  c.note("shake" + std::to_string(bits) + " in=" + std::to_string(in.size()) + "/" + std::to_string(ins.size()) + " updates out=" +
         std::to_string(n) + "/" + std::to_string(outs.size()) + " squeezes");
  c.label(ins.size() > 1 ? "several updates" : "one update");
  if (ins.size() > 1 || outs.size() > 1 || in.size() > 168) {
    u64 hh = pbt::hash_bytes(in.data(), in.size(), n);
    for (size_t k : ins) hh = pbt::mix64(hh ^ k);
    for (size_t k : outs) hh = pbt::mix64(hh + k);
    c.nontrivial(hh);
  }
}
PROP(C11_x4,
     "as C11_hash with four different inputs of equal length given to the four-way variant through all of its update and squeeze "
     "functions; each lane must equal single SHAKE of its own input; non-trivial = all; distinct by inputs, split and output length") {
  static const int lam[3] = {128, 192, 256};
  int l     = lam[c.strat(3)];
  int bits  = l == 128 ? 128 : 256;
  size_t len = c.chance(1, 100) ? c.draw(20000) : c.length(900, {136, 168, 8, 272, 336});
  Bytes in[4];
  for (auto& x : in) x = c.bytes(len);
  auto ins   = splits(c, len);
  size_t n   = c.length(900, {136, 168, 8, 16, 24, 32, 64});
  auto outs  = splits(c, n);
  unsigned mode = (unsigned)c.draw(3);
  hash_context_x4 h;
  memset(&h, 0xa7, sizeof h);
  ref::Shake m[4] = {ref::Shake(bits), ref::Shake(bits), ref::Shake(bits), ref::Shake(bits)};
  if (c.chance(1, 4)) {
    u8 px = (u8)c.draw(256);
    hash_init_prefix_x4(&h, (unsigned)l, px);
    for (auto& x : m) x.absorb(&px, 1);
  } else hash_init_x4(&h, (unsigned)l);
  size_t off = 0;
  for (size_t k : ins) {
    unsigned how = (unsigned)c.draw(6);
    if (how == 3) {
      unsigned v = (unsigned)c.draw(65536);
      hash_update_x4_uint16_le(&h, (uint16_t)v);
      u8 le[2] = {(u8)v, (u8)(v >> 8)};
      for (auto& x : m) x.absorb(le, 2);
    } else if (how == 4) {
      uint16_t v[4];
      for (auto& x : v) x = (uint16_t)c.draw(65536);
      hash_update_x4_uint16s_le(&h, v);
      for (int i = 0; i < 4; i++) {
        u8 le[2] = {(u8)v[i], (u8)(v[i] >> 8)};
        m[i].absorb(le, 2);
      }
    }
    Buf b0(Bytes(in[0].begin() + off, in[0].begin() + off + k), mode, 1), b1(Bytes(in[1].begin() + off, in[1].begin() + off + k), mode, 0),
        b2(Bytes(in[2].begin() + off, in[2].begin() + off + k), mode, 3), b3(Bytes(in[3].begin() + off, in[3].begin() + off + k), mode, 4);
    const u8* ptr[4] = {b0.data(), b1.data(), b2.data(), b3.data()};
    if (how == 2) {
      hash_update_x4_1(&h, ptr[1], k);
      for (auto& x : m) x.absorb(ptr[1], k);
    } else {
      if (how == 1) hash_update_x4_4(&h, ptr[0], ptr[1], ptr[2], ptr[3], k);
      else hash_update_x4(&h, ptr, k);
      for (int i = 0; i < 4; i++) m[i].absorb(ptr[i], k);
    }
    off += k;
  }
  hash_final_x4(&h);
  for (size_t k : outs) {
    Buf b0(k, mode, 1), b1(k, mode, 0), b2(k, mode, 3), b3(k, mode, 5);
    Buf* b[4]  = {&b0, &b1, &b2, &b3};
    u8* ptr[4] = {b0.data(), b1.data(), b2.data(), b3.data()};
    if (c.draw(2)) hash_squeeze_x4_4(&h, ptr[0], ptr[1], ptr[2], ptr[3], k);
    else hash_squeeze_x4(&h, ptr, k);
    for (int i = 0; i < 4; i++) {
      c.eq(b[i]->get(), m[i].out(k), "lane " + std::to_string(i));
      c.require(b[i]->intact(), "squeeze wrote outside its buffer");
    }
  }
  hash_clear_x4(&h);
  c.note("shake" + std::to_string(bits) + "x4 in=" + std::to_string(len) + "/" + std::to_string(ins.size()) + " out=" + std::to_string(n) + "/" +
         std::to_string(outs.size()));
  u64 hh = n;
  for (auto& x : in) hh = pbt::hash_bytes(x.data(), x.size(), hh);
  for (size_t k : ins) hh = pbt::mix64(hh ^ k);
  c.nontrivial(hh);
}
PROP(C11_oracles,
     "one of H0-H3 or four-way H0 (systematic), level, input and split are drawn; output parts must equal SHAKE(input || own domain byte); "
     "for one common input the four oracles must differ pairwise; non-trivial = all; distinct by oracle, input and output length") {
  static const int lam[3] = {128, 192, 256};
  int l        = lam[c.strat(3)];
  unsigned w   = (unsigned)c.strat(6);
  Bytes in     = c.bytes(hash_len(c) % 4000);
  auto ins     = splits(c, in.size());
  size_t n     = c.length(200, {16, 24, 32, 48, 64}), n2 = c.length(200, {16, 24, 32, 48, 64});
  unsigned mode = (unsigned)c.draw(3);
  Buf o1(n, mode, 1), o2(w == 3 ? 16 : n2, mode, 0);
  c.note("H" + std::to_string(w) + " lambda=" + std::to_string(l) + " in=" + std::to_string(in.size()) + " out=" + std::to_string(n));
  c.label("H" + std::to_string(w));
  size_t off = 0;
  if (w == 4) { // four-way H0
    Bytes y[4];
    for (auto& x : y) x = c.bytes(in.size());
    H0_context_x4_t h;
    H0_x4_init(&h, (unsigned)l);
    for (size_t k : ins) {
      H0_x4_update(&h, nz(y[0]) + off, nz(y[1]) + off, nz(y[2]) + off, nz(y[3]) + off, k);
      off += k;
    }
    Buf s0(n, mode, 1), s1(n, mode, 2), s2(n, mode, 0), s3(n, mode, 5), c0(n2, mode, 1), c1(n2, mode, 3), c2(n2, mode, 0), c3(n2, mode, 7);
    H0_x4_final(&h, s0.data(), s1.data(), s2.data(), s3.data(), n, c0.data(), c1.data(), c2.data(), c3.data(), n2);
    Buf *S[4] = {&s0, &s1, &s2, &s3}, *C[4] = {&c0, &c1, &c2, &c3};
    for (int i = 0; i < 4; i++) {
      ref::RO m(l, 0);
      m.in(y[i]);
      c.eq(S[i]->get(), m.out(n), "H0_x4 seed lane " + std::to_string(i));
      c.eq(C[i]->get(), m.out(n2), "H0_x4 commitment lane " + std::to_string(i));
      c.require(S[i]->intact() && C[i]->intact(), "wrote outside the outputs");
    }
    c.nontrivial(pbt::hash_bytes(y[0].data(), y[0].size(), n * 1000 + n2));
    return;
  }
  if (w == 5) { // pairwise different on one input
    Bytes r[4];
    for (int i = 0; i < 4; i++) {
      r[i].resize(32);
      u8 iv[16], dump[1];
      hash_context h;
      switch (i) {
      case 0: H0_init(&h, (unsigned)l); H0_update(&h, nz(in), in.size()); H0_final(&h, r[i].data(), 32, dump, 0); break;
      case 1: H1_init(&h, (unsigned)l); H1_update(&h, nz(in), in.size()); H1_final(&h, r[i].data(), 32); break;
      case 2: H2_init(&h, (unsigned)l); H2_update(&h, nz(in), in.size()); H2_final(&h, r[i].data(), 32); break;
      default: H3_init(&h, (unsigned)l); H3_update(&h, nz(in), in.size()); H3_final(&h, r[i].data(), 32, iv);
      }
    }
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < i; j++) c.require(r[i] != r[j], "H" + std::to_string(i) + " and H" + std::to_string(j) + " agree");
    c.nontrivial(pbt::hash_bytes(in.data(), in.size(), 77));
    return;
  }
  hash_context h;
  memset(&h, 0x5c, sizeof h);
  void (*init[4])(hash_context*, unsigned)            = {H0_init, H1_init, H2_init, H3_init};
  void (*upd[4])(hash_context*, const u8*, size_t)    = {H0_update, H1_update, H2_update, H3_update};
  init[w](&h, (unsigned)l);
  for (size_t k : ins) {
    Buf b(Bytes(in.begin() + off, in.begin() + off + k), mode, (unsigned)(off % 8));
    upd[w](&h, b.data(), k);
    off += k;
  }
  ref::RO m(l, (int)w);
  m.in(in);
  switch (w) {
  case 0: H0_final(&h, o1.data(), n, o2.data(), n2); break;
  case 1: H1_final(&h, o1.data(), n); break;
  case 2: H2_final(&h, o1.data(), n); break;
  default: H3_final(&h, o1.data(), n, o2.data());
  }
  c.eq(o1.get(), m.out(n), "first output");
  if (w == 0 || w == 3) c.eq(o2.get(), m.out(o2.size()), "second output");
  c.require(o1.intact() && o2.intact(), "wrote outside the outputs");
  c.nontrivial(pbt::hash_bytes(in.data(), in.size(), w * 100000 + n * 300 + n2));
}

// ------------------------------------------------------------------------------------------- C12
PROP(C12_bf8,
     "exhaustive: each case takes one left operand (systematic) and multiplies it by all 256 right operands; inversion, addition, bit "
     "conversion and the inverse law are checked for each operand; every case non-trivial; distinct by operand") {
  u8 a = (u8)c.strat(256);
  for (int b = 0; b < 256; b++) {
    c.eqi(bf8_mul(a, (u8)b), ref::gf8_mul(a, (u8)b), "bf8_mul(" + std::to_string(a) + "," + std::to_string(b) + ")");
    c.eqi(bf8_add(a, (u8)b), a ^ b, "bf8_add");
  }
  c.eqi(bf8_inv(a), ref::SB().inv[a], "bf8_inv(" + std::to_string(a) + ")");
  c.eqi(bf8_from_bit(a), a & 1, "bf8_from_bit");
  c.eqi(bf8_mul(a, bf8_inv(a)), a != 0, "a * inv(a)");
  c.eqi(bf8_one(), 1, "one");
  c.eqi(bf8_zero(), 0, "zero");
  u8 s = 0x5a;
  bf8_store(&s, a);
  c.eqi(bf8_load(&s), a, "load/store");
  c.note("operand " + std::to_string(a));
  c.nontrivial((u64)a);
}
namespace {
template <int W> struct F;
template <> struct F<1> {
  using T = bf64_t;
  static T load(const u8* p) { return bf64_load(p); }
  static void store(u8* p, T v) { bf64_store(p, v); }
  static T add(T a, T b) { return bf64_add(a, b); }
  static T mul(T a, T b) { return bf64_mul(a, b); }
};
#define FIELD(W_, N)                                                                                                   \
  template <> struct F<W_> {                                                                                           \
    using T = bf##N##_t;                                                                                               \
    static T load(const u8* p) { return bf##N##_load(p); }                                                             \
    static void store(u8* p, T v) { bf##N##_store(p, v); }                                                             \
    static T add(T a, T b) { return bf##N##_add(a, b); }                                                               \
    static T mul(T a, T b) { return bf##N##_mul(a, b); }                                                               \
    static T mul64(T a, bf64_t b) { return bf##N##_mul_64(a, b); }                                                     \
    static T mulbit(T a, u8 b) { return bf##N##_mul_bit(a, b); }                                                       \
    static T combine(const T* x) { return bf##N##_byte_combine(x); }                                                   \
    static T combine_bits(u8 x) { return bf##N##_byte_combine_bits(x); }                                               \
    static T sum(const T* x) { return bf##N##_sum_poly(x); }                                                           \
    static T from64(bf64_t x) { return bf##N##_from_bf64(x); }                                                         \
    static T from8(u8 x) { return bf##N##_from_bf8(x); }                                                               \
    static T frombit(u8 x) { return bf##N##_from_bit(x); }                                                             \
    static T zero() { return bf##N##_zero(); }                                                                         \
    static T one() { return bf##N##_one(); }                                                                           \
    static void zk_init(zk_hash_##N##_ctx* c, const u8* sd) { zk_hash_##N##_init(c, sd); }                             \
    static void zk_update(zk_hash_##N##_ctx* c, T v) { zk_hash_##N##_update(c, v); }                                   \
    static void zk_fin(u8* h, zk_hash_##N##_ctx* c, T v) { zk_hash_##N##_finalize(h, c, v); }                          \
    static void zk_hash(u8* h, const u8* sd, const T* x, unsigned n) { zk_hash_##N(h, sd, x, n); }                     \
    static void vh(u8* h, const u8* sd, const u8* x, unsigned ell) { vole_hash_##N(h, sd, x, ell); }                   \
    using Zk = zk_hash_##N##_ctx;                                                                                      \
  };
FIELD(2, 128) FIELD(3, 192) FIELD(4, 256)

template <int W> struct Val {
  alignas(32) typename F<W>::T lib;
  ref::GF<W> mod;
};
template <int W> Bytes lib_bytes(Ctx& c, typename F<W>::T v, unsigned mode = 0) {
  Buf b(8 * W, mode);
  F<W>::store(b.data(), v);
  c.require(b.intact(), "store wrote outside " + std::to_string(8 * W) + " bytes");
  return b.get();
}
// every half word on its own: two bits of `how` choose kept, zero, all ones or a single bit
inline void mask_words(Bytes& b, u64 how, u64 seed) {
  pbt::Rng r(seed);
  for (size_t i = 0; i * 4 < b.size(); i++, how >>= 2)
    if ((how & 3) == 1) memset(&b[4 * i], 0, 4);
    else if ((how & 3) == 2) memset(&b[4 * i], 0xff, 4);
    else if ((how & 3) == 3) memset(&b[4 * i], 0, 4), b[4 * i + r.next() % 4] = (u8)(1 << (r.next() % 8));
}
template <int W> Val<W> gen_elem(Ctx& c) {
  Val<W> v;
  Bytes b = c.bytes(8 * W);
  if (c.chance(1, 5)) { // sparse: few bits, often near word ends
    std::fill(b.begin(), b.end(), 0);
    unsigned m = (unsigned)c.range(1, 4);
    while (m--) {
      size_t bit = c.pick({c.draw(64 * W), 64 * (u64)c.range(1, W) - 1, 64 * (u64)c.draw(W), (u64)64 * W - 1 - c.draw(12)});
      b[bit / 8] ^= (u8)(1 << (bit % 8));
    }
  }
  if (W > 1 && c.chance(1, 4)) mask_words(b, c.draw(1u << (4 * W)), c.draw(0));
  Buf buf(b, (unsigned)c.draw(3), (unsigned)c.draw(8));
  v.lib = F<W>::load(buf.data());
  v.mod = ref::GF<W>::load(b.data());
  return v;
}
template <int W> void chk(Ctx& c, typename F<W>::T got, const ref::GF<W>& want, const std::string& what) {
  c.eq(lib_bytes<W>(c, got, 0), want.str(), what);
}
template <int W> void field_ops(Ctx& c) {
  using L = F<W>;
  Val<W> a = gen_elem<W>(c), b = gen_elem<W>(c), d = gen_elem<W>(c);
  c.note("GF(2^" + std::to_string(64 * W) + ") a=" + hex(a.mod.str(), 32) + " b=" + hex(b.mod.str(), 32));
  c.label("GF(2^" + std::to_string(64 * W) + ")");
  chk<W>(c, a.lib, a.mod, "load/store");
  chk<W>(c, L::mul(a.lib, b.lib), a.mod * b.mod, "mul");
  chk<W>(c, L::mul(b.lib, a.lib), a.mod * b.mod, "mul (exchanged)");
  chk<W>(c, L::add(a.lib, b.lib), a.mod + b.mod, "add");
  chk<W>(c, L::mul(L::mul(a.lib, b.lib), d.lib), a.mod * (b.mod * d.mod), "associativity");
  chk<W>(c, L::mul(L::add(a.lib, b.lib), d.lib), a.mod * d.mod + b.mod * d.mod, "distributivity");
  if (c.chance(1, 50)) c.require(a.mod.mul_slow(b.mod) == a.mod * b.mod, "model self check");
  if constexpr (W > 1) {
    u64 s = 0;
    Bytes sb = c.bytes(8);
    for (int i = 0; i < 8; i++) s |= (u64)sb[i] << (8 * i);
    ref::GF<W> se = ref::GF<W>::zero();
    se.v[0] = s;
    chk<W>(c, L::mul64(a.lib, s), a.mod * se, "mul_64");
    chk<W>(c, L::from64(s), se, "from_bf64");
    u8 x = (u8)c.draw(256);
    se.v[0] = x;
    chk<W>(c, L::from8(x), se, "from_bf8");
    se.v[0] = x & 1;
    chk<W>(c, L::frombit(x), se, "from_bit");
    chk<W>(c, L::mulbit(a.lib, x & 1), (x & 1) ? a.mod : ref::GF<W>::zero(), "mul_bit");
    chk<W>(c, L::zero(), ref::GF<W>::zero(), "zero");
    chk<W>(c, L::one(), ref::GF<W>::one(), "one");
  } else {
    chk<W>(c, bf64_zero(), ref::GF<1>::zero(), "zero");
    chk<W>(c, bf64_one(), ref::GF<1>::one(), "one");
    u8 x = (u8)c.draw(256);
    c.eqi((long long)bf64_from_bit(x), x & 1, "from_bit");
  }
  Bytes k = a.mod.str(), k2 = b.mod.str();
  c.nontrivial(pbt::hash_bytes(k.data(), k.size(), pbt::hash_bytes(k2.data(), k2.size(), W)));
}
template <int W> void embed_ops(Ctx& c) {
  using L = F<W>;
  u8 x = (u8)c.strat(256), y = (u8)c.draw(256);
  c.note("GF(2^" + std::to_string(64 * W) + ") byte " + std::to_string(x) + "," + std::to_string(y));
  chk<W>(c, L::combine_bits(x), ref::GF<W>::embed(x), "byte_combine_bits");
  chk<W>(c, L::mul(L::combine_bits(x), L::combine_bits(y)), ref::GF<W>::embed(ref::gf8_mul(x, y)), "homomorphism (product)");
  chk<W>(c, L::add(L::combine_bits(x), L::combine_bits(y)), ref::GF<W>::embed(x ^ y), "homomorphism (sum)");
  alignas(32) typename L::T e[8];
  ref::GF<W> want = ref::GF<W>::zero();
  for (int i = 0; i < 8; i++) {
    Val<W> v = gen_elem<W>(c);
    e[i]     = v.lib;
    want += v.mod * ref::GF<W>::alphas()[i];
  }
  chk<W>(c, L::combine(e), want, "byte_combine");
  for (int i = 0; i < 8; i++) e[i] = L::frombit(x >> i);
  chk<W>(c, L::combine(e), ref::GF<W>::embed(x), "byte_combine of bits");
  Bytes k = want.str();
  c.nontrivial(pbt::hash_bytes(k.data(), k.size(), W * 65536 + x * 256 + y));
}
template <int W> void sum_ops(Ctx& c) {
  using L = F<W>;
  struct alignas(32) Arr { typename L::T x[64 * W]; };
  std::vector<ref::GF<W>> m((size_t)64 * W);
  static Arr arr;
  unsigned kind = (unsigned)c.draw(6);
  u64 one       = c.draw(64 * W);
  pbt::Rng r(c.draw(0));
  // kind 5: only some elements at the two ends and one in between are not zero
  u64 ends = c.draw(256), word = c.draw(2 * W + 1);
  for (int i = 0; i < 64 * W; i++) {
    Bytes b(8 * W, 0);
    if (kind == 0 || (kind == 1 && (u64)i == one)) for (auto& x : b) x = (u8)r.next();
    if (kind == 2) b[0] = (u8)(r.next() & 1);
    if (kind == 3) memset(b.data(), (u64)i >= one ? 0xff : 0, b.size());
    bool end = i < 4 ? (ends >> i) & 1 : i >= 64 * W - 4 ? (ends >> (i - 64 * W + 8)) & 1 : (u64)i == one;
    if (kind == 4 || (kind == 5 && end)) {
      for (auto& x : b) x = (u8)r.next();
      u64 how = 0; // word < 2W: only that half word is not zero
      for (int k = 0; k < 2 * W; k++) how |= (u64)(word < (u64)2 * W ? (u64)k != word : r.next() % 4) << (2 * k);
      mask_words(b, how, r.next());
    }
    arr.x[i] = L::load(b.data());
    m[i]     = ref::GF<W>::load(b.data());
  }
  ref::GF<W> want = ref::sum_poly<W>(m.data());
  chk<W>(c, L::sum(arr.x), want, "sum_poly");
  c.note("sum over GF(2^" + std::to_string(64 * W) + ") kind " + std::to_string(kind));
  Bytes k = want.str();
  c.nontrivial(pbt::hash_bytes(k.data(), k.size(), W * 10 + kind));
}
// expressions: several operations on registers, compared only at the end (unnormalised lanes show up)
template <int W> void expr_ops(Ctx& c) {
  using L = F<W>;
  Val<W> r[4];
  for (auto& v : r) v = gen_elem<W>(c);
  unsigned n = (unsigned)c.range(1, 14);
  std::string d;
  for (unsigned i = 0; i < n; i++) {
    unsigned x = (unsigned)c.draw(4), y = (unsigned)c.draw(4), op = (unsigned)c.draw(W > 1 ? 6 : 3), t = (unsigned)c.draw(4);
    d += "r" + std::to_string(t) + "=op" + std::to_string(op) + "(r" + std::to_string(x) + ",r" + std::to_string(y) + ");";
    Val<W> v;
    if (op == 0) { v.lib = L::mul(r[x].lib, r[y].lib); v.mod = r[x].mod * r[y].mod; }
    else if (op == 1) { v.lib = L::add(r[x].lib, r[y].lib); v.mod = r[x].mod + r[y].mod; }
    else if (op == 2) { Bytes b = lib_bytes<W>(c, r[x].lib); v.lib = L::load(b.data()); v.mod = r[x].mod; }
    if constexpr (W > 1) {
      if (op == 3) { u64 s = c.draw(0); ref::GF<W> e = ref::GF<W>::zero(); e.v[0] = s; v.lib = L::mul64(r[x].lib, s); v.mod = r[x].mod * e; }
      if (op == 4) { u8 b = (u8)c.draw(2); v.lib = L::mulbit(r[x].lib, b); v.mod = b ? r[x].mod : ref::GF<W>::zero(); }
      if (op == 5) { alignas(32) typename L::T e[8]; v.mod = ref::GF<W>::zero();
        for (int j = 0; j < 8; j++) { e[j] = r[(x + j * y) % 4].lib; v.mod += r[(x + j * y) % 4].mod * ref::GF<W>::alphas()[j]; }
        v.lib = L::combine(e); }
    }
    r[t] = v;
  }
  c.note("GF(2^" + std::to_string(64 * W) + ") " + d);
  for (int i = 0; i < 4; i++) chk<W>(c, r[i].lib, r[i].mod, "register " + std::to_string(i));
  u64 h = W;
  for (int i = 0; i < 4; i++) { Bytes k = r[i].mod.str(); h = pbt::hash_bytes(k.data(), k.size(), h); }
  c.nontrivial(h);
}
} // namespace
PROP(C12_fields,
     "field (systematic over 2^64, 2^128, 2^192, 2^256) and three operands (structured, sparse near word boundaries, random) are drawn; "
     "all operations and the field laws are compared with the model; loads and stores run against guard pages; every case non-trivial; "
     "distinct by operands") {
  switch (c.strat(4)) {
  case 0: field_ops<1>(c); break;
  case 1: field_ops<2>(c); break;
  case 2: field_ops<3>(c); break;
  default: field_ops<4>(c);
  }
}
PROP(C12_expr,
     "a program of 1-14 field operations over four registers is drawn and executed by library and model; registers are compared at the "
     "end, so a result that is only wrong as an operand of a later operation shows; every case non-trivial; distinct by final registers") {
  switch (c.strat(4)) {
  case 0: expr_ops<1>(c); break;
  case 1: expr_ops<2>(c); break;
  case 2: expr_ops<3>(c); break;
  default: expr_ops<4>(c);
  }
}
PROP(C12_embed,
     "field and byte (systematic over all 256) with a second drawn byte and eight drawn elements: embedding of bytes, its homomorphism "
     "laws and byte_combine are compared with the model; every case non-trivial; distinct by operands") {
  switch (c.strat(3)) {
  case 0: embed_ops<2>(c); break;
  case 1: embed_ops<3>(c); break;
  default: embed_ops<4>(c);
  }
}
PROP(C12_sum,
     "field and lambda elements (random, single nonzero, bits, block of ones) are drawn; polynomial summation is compared with the model's "
     "Horner evaluation; every case non-trivial; distinct by result") {
  switch (c.strat(3)) {
  case 0: sum_ops<2>(c); break;
  case 1: sum_ops<3>(c); break;
  default: sum_ops<4>(c);
  }
}

// ------------------------------------------------------------------------------------------- C13
namespace {
template <int W> void vole_hash_case(Ctx& c) {
  const int lam = 64 * W, LB = 8 * W;
  // the scheme's own lengths, any multiple of 8 bits, multiples of lambda
  unsigned ell;
  switch (c.draw(4)) {
  case 0: ell = 8 * (unsigned)c.draw(40); break;
  case 1: ell = (unsigned)lam * (unsigned)c.draw(30); break;
  case 2: { const auto& p = ref::param((int)c.range(1, 12)); ell = (unsigned)p.ell(); break; }
  default: ell = 8 * (unsigned)c.draw(700);
  }
  Bytes sd = c.bytes(5 * LB + 8);
  size_t n = ell / 8 + LB + LB + 2;
  Bytes x  = c.bytes(n);
  c.note("vole_hash_" + std::to_string(lam) + " ell=" + std::to_string(ell) + " sd=" + hex(sd) + " x=" + hex(x));
  c.label(std::to_string(lam) + (ell % lam ? " ell not multiple of lambda" : " ell multiple of lambda"));
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(8);
  Buf bs(sd, mode, mis), bx(x, mode, mis), bh(LB + 2, mode, mis);
  F<W>::vh(bh.data(), bs.data(), bx.data(), ell);
  Bytes want = ref::vole_hash<W>(sd.data(), x.data(), ell);
  c.eq(bh.get(), want, "vole_hash_" + std::to_string(lam));
  c.require(bh.intact(), "wrote outside its " + std::to_string(LB + 2) + " bytes");
  c.require(bx.get() == x && bs.get() == sd, "inputs changed");
  Bytes h2(LB + 2);
  vole_hash(h2.data(), bs.data(), bx.data(), ell, lam);
  c.eq(h2, want, "vole_hash dispatch");
  // linearity
  Bytes y = c.bytes(n), xy(n), hy(LB + 2), hxy(LB + 2);
  for (size_t i = 0; i < n; i++) xy[i] = x[i] ^ y[i];
  F<W>::vh(hy.data(), sd.data(), y.data(), ell);
  F<W>::vh(hxy.data(), sd.data(), xy.data(), ell);
  for (int i = 0; i < LB + 2; i++) hy[i] ^= want[i];
  c.eq(hxy, hy, "linearity");
  c.nontrivial(pbt::hash_bytes(x.data(), n, pbt::hash_bytes(sd.data(), sd.size(), ell * 8 + W)));
}
template <int W> void zk_hash_case(Ctx& c) {
  using L = F<W>;
  const int LB = 8 * W;
  unsigned n = c.chance(1, 10) ? (unsigned)c.draw(1200) : (unsigned)c.draw(40);
  Bytes sd = c.bytes(3 * LB + 8);
  struct alignas(32) E { typename L::T v; };
  std::vector<E> x(n + 1);
  ref::ZkHash<W> m(sd.data());
  unsigned kind = (unsigned)c.draw(4);
  pbt::Rng r(c.draw(0));
  u64 only = c.draw(n + 1);
  for (unsigned i = 0; i <= n; i++) {
    Bytes b(LB, 0);
    if (kind == 0 || kind == 3 || (kind == 1 && i == only)) for (auto& q : b) q = (u8)r.next();
    if (kind == 2) b[r.next() % LB] = (u8)(1 << (r.next() % 8));
    x[i].v = L::load(b.data());
    if (i < n) m.update(ref::GF<W>::load(b.data()));
    else {
      Bytes want = m.fin(ref::GF<W>::load(b.data())).str();
      unsigned mode = (unsigned)c.draw(3);
      Buf bs(sd, mode, 0), bh(LB, mode, 1);
      // contiguous array of elements for the one-shot form
      std::vector<E> copy(x);
      typename L::T* arr = (typename L::T*)aligned_alloc(32, ((n + 1) * sizeof(typename L::T) + 31) / 32 * 32);
      for (unsigned k = 0; k <= n; k++) arr[k] = copy[k].v;
      L::zk_hash(bh.data(), bs.data(), arr, n);
      free(arr);
      c.eq(bh.get(), want, "zk_hash one-shot, " + std::to_string(n) + " elements");
      c.require(bh.intact(), "wrote outside its output");
      alignas(32) typename L::Zk z, z2;
      memset((void*)&z, 0x3c, sizeof z);
      L::zk_init(&z, bs.data());
      for (unsigned k = 0; k < n; k++) L::zk_update(&z, x[k].v);
      Bytes h(LB);
      L::zk_fin(h.data(), &z, x[n].v);
      c.eq(h, want, "zk_hash streaming, " + std::to_string(n) + " elements");
      // linearity in the elements: hash(x) + hash(y) = hash(x+y), with y all equal to x[only]
      L::zk_init(&z, bs.data());
      L::zk_init(&z2, bs.data());
      for (unsigned k = 0; k < n; k++) {
        L::zk_update(&z, x[only].v);
        L::zk_update(&z2, L::add(x[k].v, x[only].v));
      }
      Bytes h1(LB), h2(LB);
      L::zk_fin(h1.data(), &z, x[only].v);
      L::zk_fin(h2.data(), &z2, L::add(x[n].v, x[only].v));
      for (int k = 0; k < LB; k++) h1[k] ^= h[k];
      c.eq(h2, h1, "linearity");
      c.nontrivial(pbt::hash_bytes(want.data(), LB, pbt::hash_bytes(sd.data(), sd.size(), n)));
    }
  }
  c.note("zk_hash_" + std::to_string(64 * W) + " n=" + std::to_string(n) + " sd=" + hex(sd));
  c.label("zk_hash_" + std::to_string(64 * W));
}
} // namespace
PROP(C13_vole_hash,
     "level (systematic), seed, input and bit length (any multiple of 8 to 5600, multiples of lambda, the scheme's lengths) are drawn; the "
     "hash must equal the polynomial definition, be linear, and touch exactly its bytes (guard pages); every case non-trivial; distinct "
     "by seed, input and length") {
  switch (c.strat(3)) {
  case 0: vole_hash_case<2>(c); break;
  case 1: vole_hash_case<3>(c); break;
  default: vole_hash_case<4>(c);
  }
}
PROP(C13_zk_hash,
     "level (systematic), seed and 0-1200 elements (random, single nonzero, single bits) are drawn; one-shot and streaming form must equal "
     "the polynomial definition and be linear; every case non-trivial; distinct by result, seed and count") {
  switch (c.strat(3)) {
  case 0: zk_hash_case<2>(c); break;
  case 1: zk_hash_case<3>(c); break;
  default: zk_hash_case<4>(c);
  }
}

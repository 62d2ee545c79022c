// Construction of one-way-function inputs with chosen S-box behaviour.
#pragma once
#include "api.hpp"

// private key whose one-way function has exactly one zero S-box input, at a chosen place;
// place < Ske: key schedule S-box, otherwise S-box (place - Ske) of the encryption(s)
inline Bytes one_zero_key(Ctx& c, const ref::Params& p, unsigned place, std::string* what = nullptr) {
  pbt::Rng r(c.draw(0));
  auto rnd = [&](u8* b, size_t n, bool nonzero = false) {
    for (size_t i = 0; i < n; i++) do b[i] = (u8)r.next(); while (nonzero && !b[i]);
  };
  Bytes in(p.owf_in()), key(p.LB());
  const int Nk = p.Nk(), Nb = p.Nb();
  for (int t = 0;; t++) {
    if (t > 100000) throw pbt::Discard();
    if ((int)place < p.Ske()) {
      int idx = (int)place / 4, byte = (int)place % 4, k = Nk, seen = -1;
      for (;; k++)
        if (ref::Rijndael::sboxed(Nk, k) && ++seen == idx) break;
      std::vector<std::array<u8, 4>> win((size_t)Nk);
      for (auto& w : win) rnd(w.data(), 4);
      win[Nk - 1][byte] = 0; // word k-1
      ref::Rijndael::invert_schedule(win, k - Nk, Nk, key.data());
      rnd(in.data(), in.size());
      if (what) *what = "key schedule word " + std::to_string(k) + " byte " + std::to_string(byte);
    } else {
      unsigned s = place - p.Ske(), per = 4 * Nb * p.R(), blk = s / per, rd = (s % per) / (4 * Nb) + 1, byte = s % (4 * Nb);
      u8 st[32];
      rnd(st, 4 * Nb, true);
      st[byte] = 0;
      if (p.em) {
        rnd(in.data(), in.size());
        ref::Rijndael ci(in.data(), Nk, Nb);
        ci.invert_from(st, (int)rd, key.data());
      } else {
        rnd(key.data(), key.size());
        ref::Rijndael ci(key.data(), Nk, 4);
        if (ci.zeros_ks) continue;
        rnd(in.data(), in.size());
        ci.invert_from(st, (int)rd, &in[16 * blk]);
      }
      if (what) *what = "block " + std::to_string(blk) + " round " + std::to_string(rd) + " byte " + std::to_string(byte);
    }
    if (ref::owf(p, key.data(), in.data()).zeros == 1) break;
  }
  Bytes sk(in);
  sk.insert(sk.end(), key.begin(), key.end());
  return sk;
}
inline unsigned num_places(const ref::Params& p) { return p.Ske() + p.Senc() * p.beta(); }
inline bool contains(const Bytes& hay, const u8* n, size_t len) {
  if (hay.size() < len) return false;
  for (size_t i = 0; i + len <= hay.size(); i++)
    if (!memcmp(&hay[i], n, len)) return true;
  return false;
}

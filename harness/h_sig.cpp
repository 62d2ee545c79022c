#include "api.hpp"
#include <algorithm>
#include <thread>

// ------------------------------------------------------------------------------------------- C01
PROP(C01_complete,
     "a key (structured or random), message (length 0.. incl. hash block boundaries, rarely up to 120 kB) and rho "
     "(null/empty/short/exact/long) are drawn; sign or sign_with_randomness must return 0, report the published size, "
     "and verify must accept, with buffers at drawn misalignments; a case counts when it signed and verified; distinct "
     "by set, key, message and signature") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  Bytes sk = usable_key(c, p), pk = ref::pk_of_sk(p, sk.data());
  Bytes m   = gen_msg(c);
  Rho rho   = gen_rho(c, p);
  bool rnd  = c.chance(1, 4);
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(16);
  size_t extra  = c.pick<size_t>({0, 1, 7, 4096});
  bool nullmsg  = m.empty() && c.chance(1, 2);
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " rho=" + (rnd ? "drawn" : rho.str()) +
         " sk=" + hex(sk) + " mis=" + std::to_string(mis));
  c.label(std::string("set ") + p.name);
  c.label(m.empty() ? "empty message" : "non-empty message");
  c.label(rnd ? "sign" : rho.null ? "rho null" : rho.b.empty() ? "rho empty" : "rho given");
  Buf bsk(sk, mode, mis), bpk(pk, mode, mis), bm(m, mode, mis), sig(a.sig + extra, mode, mis), brho(rho.b, mode, mis);
  size_t len = a.sig + extra;
  const u8* mp = nullmsg ? nullptr : bm.data();
  if (rnd) {
    pbt::Rng r(c.draw(0));
    g_feed.fn = [r](u8* b, size_t n) mutable {
      for (size_t i = 0; i < n; i++) b[i] = (u8)r.next();
      return (ssize_t)n;
    };
    c.eqi(a.sign(bsk.data(), mp, m.size(), sig.data(), &len), 0, "sign result");
  } else {
    c.eqi(a.signr(bsk.data(), mp, m.size(), rho.null ? nullptr : brho.data(), rho.b.size(), sig.data(), &len), 0,
          "sign_with_randomness result");
  }
  c.eqi((long long)len, (long long)p.sig(), "reported signature length");
  c.eqi(a.verify(bpk.data(), mp, m.size(), sig.data(), len), 0, "verify result");
  c.nontrivial(pbt::hash_bytes(sig.data(), a.sig) ^ p.id);
}

PROP(C01_many,
     "long runs: one key and message are signed under a row of different additional randomness, so that the values that "
     "cannot be chosen (challenges, hidden indices, corrections) take each of their rare forms; every signature must verify; a "
     "case counts when the whole row verified; distinct by the last signature") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  Bytes sk = usable_key(c, p), pk = ref::pk_of_sk(p, sk.data());
  Bytes m   = c.bytes((size_t)c.draw(200));
  u64 first = c.draw(0);
  unsigned n = (unsigned)c.range(1, p.name[strlen(p.name) - 1] == 'f' || p.name[strlen(p.name) - 1] == 'F' ? 48 : 8);
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " first=" + std::to_string(first) + " n=" + std::to_string(n) + " sk=" + hex(sk));
  c.label(std::string("set ") + p.name);
  Bytes sig(a.sig);
  for (unsigned i = 0; i < n; i++) {
    u8 rho[8];
    for (int k = 0; k < 8; k++) rho[k] = (u8)((first + i) >> (8 * k));
    size_t len = a.sig;
    c.eqi(a.signr(sk.data(), m.data(), m.size(), rho, 8, sig.data(), &len), 0, "sign result, signature " + std::to_string(i));
    c.eqi((long long)len, (long long)p.sig(), "reported signature length");
    c.eqi(a.verify(pk.data(), m.data(), m.size(), sig.data(), len), 0, "verify result, signature " + std::to_string(i));
    const u8* ch = &sig[a.sig - 16 - p.LB()];
    for (int k = 0; k < p.LB(); k++) {
      if (ch[k] == 0) c.label("signatures with a zero byte in the challenge");
      if (ch[k] == 0xff) c.label("signatures with a byte 0xff in the challenge");
      if (k && !ch[k] && !ch[k - 1]) c.label("signatures with two zero bytes in the challenge");
    }
    c.label("signatures");
  }
  c.nontrivial(pbt::hash_bytes(sig.data(), a.sig) ^ p.id);
}

// ------------------------------------------------------------------------------------------- C02
PROP(C02_bytes,
     "drawn key, message and rho are signed by the library and by the reference model (independent implementation of the "
     "specification); all signature bytes must agree; a case counts when the bytes were compared; distinct by signature") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  Bytes sk = usable_key(c, p);
  Bytes m  = gen_msg(c);
  Rho rho  = gen_rho(c, p);
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " rho=" + rho.str() + " sk=" + hex(sk));
  c.label(std::string("set ") + p.name);
  c.label(rho.null ? "rho null" : rho.b.empty() ? "rho empty" : (int)rho.b.size() == p.LB() ? "rho lambda" : "rho other length");
  Bytes sig(a.sig, 0x5a);
  size_t len = a.sig;
  c.eqi(a.signr(sk.data(), m.data(), m.size(), rho.null ? nullptr : nz(rho.b), rho.b.size(), sig.data(), &len), 0, "sign result");
  Bytes want = ref::sign(p, sk.data(), m.data(), m.size(), rho.b.data(), rho.b.size());
  c.eq(sig, want, "signature bytes");
  c.nontrivial(pbt::hash_bytes(sig.data(), a.sig) ^ p.id);
}

// ---------------------------------------------------------------- very long messages
namespace {
// mostly zero bytes, without memory of their own: only written pages are backed
struct Huge {
  u8* p;
  size_t n;
  explicit Huge(size_t n_) : n(n_) {
    p = (u8*)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw pbt::Discard();
    madvise(p, n + 4096, MADV_NOHUGEPAGE);
  }
  ~Huge() { munmap(p, n + 4096); }
};
// lengths around the limits of narrower integer types, counted in bytes and in bits
size_t huge_len(Ctx& c) {
  static const u64 base[8] = {1ULL << 32, 1ULL << 31, 1ULL << 29, 1ULL << 28, 1ULL << 24, 1ULL << 23, 1ULL << 20, 1ULL << 16};
  size_t b = base[c.strat(8)];
  return c.chance(1, 2) ? b - 130 + c.draw(400) : b - 1 + c.draw(3); // both sides of the limit, or at it
}
void fill(Ctx& c, Huge& h) {
  Bytes x = c.random_bytes(64);
  for (size_t i = 0; i < x.size(); i++) h.p[i < 32 ? i : h.n - 1 - (i - 32)] = x[i];
  for (int i = 0; i < 3; i++) h.p[c.draw(h.n)] ^= (u8)c.range(1, 255);
}
} // namespace
PROP(C02_huge,
     "a message longer than 2^16, 2^20, 2^23, 2^24, 2^28, 2^29, 2^31 or 2^32 bytes (systematic, minus 130 to plus 270; mostly zero bytes) is signed by "
     "library and reference model with a fast parameter set; all signature bytes must agree; distinct by signature") {
  size_t n      = huge_len(c);
  const auto& p = ref::param(c.pick<int>({2, 8}));
  const Api& a  = api(p.id);
  Huge m(n);
  fill(c, m);
  Bytes sk = usable_key(c, p), want, rho = c.bytes(p.LB());
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(n) + " sk=" + hex(sk));
  c.label("length 2^" + std::to_string((int)log2((double)n)));
  std::thread t([&] { want = ref::sign(p, sk.data(), m.p, n, rho.data(), rho.size()); });
  Bytes sig(a.sig, 0x5a);
  size_t len = a.sig;
  int r      = a.signr(sk.data(), m.p, n, rho.data(), rho.size(), sig.data(), &len);
  t.join();
  c.eqi(r, 0, "sign result");
  c.eq(sig, want, "signature bytes for a message of " + std::to_string(n) + " bytes");
  c.nontrivial(pbt::hash_bytes(sig.data(), a.sig) ^ p.id);
}
PROP(C03_huge,
     "the reference model signs a message; the library verifies it with another message: one whose length is larger by 2^16 .. 2^32 "
     "(systematic) but has the same first bytes, must reject it; and for the smaller of these sizes a model signature on the long message "
     "must be accepted; distinct by signature and length") {
  size_t n = huge_len(c) + 130, k = 0;
  while (n >> (k + 1)) k++;
  size_t shortn = n - ((size_t)1 << k);
  const auto& p = ref::param(c.pick<int>({2, 8}));
  const Api& a  = api(p.id);
  Huge m(n);
  fill(c, m);
  Bytes sk = usable_key(c, p), pk = ref::pk_of_sk(p, sk.data()), rho = c.bytes(p.LB());
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(shortn) + " and " + std::to_string(n) + " sk=" + hex(sk));
  c.label("length 2^" + std::to_string(k));
  Bytes s = ref::sign(p, sk.data(), m.p, shortn, rho.data(), rho.size());
  c.require(a.verify(pk.data(), m.p, n, s.data(), s.size()) != 0,
            "signature on a message of " + std::to_string(shortn) + " bytes accepted for one of " + std::to_string(n));
  if (k < 27) {
    Bytes l = ref::sign(p, sk.data(), m.p, n, rho.data(), rho.size());
    c.require(a.verify(pk.data(), m.p, n, l.data(), l.size()) == 0, "signature on a message of " + std::to_string(n) + " bytes refused");
    c.require(a.verify(pk.data(), m.p, shortn, l.data(), l.size()) != 0, "accepted for the shortened message");
  }
  c.nontrivial(pbt::hash_bytes(s.data(), s.size()) ^ n);
}

// ---------------------------------------------------------------- lengths of medium size, enumerated
namespace {
// {1,2,3,5,7,9} * 2^k + {0,-1,1} for k = 3..20, then decimal and page-sized round numbers
size_t round_len(Ctx& c) {
  static const size_t f[] = {1, 3, 2, 5, 7, 9}, dec[] = {1000, 10000, 100000, 1000000, 4096 * 3, 12288, 65535 * 2, 1500, 9000, 168 * 400, 136 * 500, 200 * 64};
  size_t k = c.strat(18), o = c.strat(3), n;
  if (c.chance(1, 8)) n = c.pick(std::vector<size_t>(dec, dec + 12));
  else n = f[c.draw(6)] << (20 - k);
  if (n > (1u << 21)) n = (size_t)1 << (20 - k);
  return n + o - (o == 2 ? 3 : 0); // 0, +1, -1
}
} // namespace
PROP(C02_lengths,
     "message lengths {1,2,3,5,7,9}*2^k (k = 3..20 systematic) and decimal round numbers, each with one byte more and less, are signed by "
     "library and reference model with the six fast sets; all signature bytes must agree; distinct by signature") {
  size_t n      = round_len(c);
  static const int sets[6] = {2, 8, 4, 10, 6, 12};
  const auto& p = ref::param(sets[c.strat(6)]);
  const Api& a  = api(p.id);
  Bytes m = c.chance(1, 4) ? c.bytes(n) : c.random_bytes(n), sk = usable_key(c, p), rho = c.bytes(p.LB());
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(n) + " sk=" + hex(sk));
  c.label("length 2^" + std::to_string((int)log2((double)n)));
  Bytes sig(a.sig, 0x5a);
  size_t len = a.sig;
  c.eqi(a.signr(sk.data(), m.data(), n, rho.data(), rho.size(), sig.data(), &len), 0, "sign result");
  c.eq(sig, ref::sign(p, sk.data(), m.data(), n, rho.data(), rho.size()), "signature bytes for a message of " + std::to_string(n) + " bytes");
  c.nontrivial(pbt::hash_bytes(sig.data(), a.sig) ^ p.id);
}
PROP(C03_lengths,
     "a model signature on a message of one of the lengths of C02_lengths must be accepted, and refused when one byte at a drawn place "
     "(first, last, in the last block, at multiples of powers of two, anywhere) differs or the message is one byte shorter or longer; "
     "distinct by signature and changes") {
  size_t n      = round_len(c);
  static const int sets[6] = {2, 8, 4, 10, 6, 12};
  const auto& p = ref::param(sets[c.strat(6)]);
  const Api& a  = api(p.id);
  Bytes m = c.chance(1, 4) ? c.bytes(n) : c.random_bytes(n), sk = usable_key(c, p), rho = c.bytes(p.LB()), pk = ref::pk_of_sk(p, sk.data());
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(n) + " sk=" + hex(sk));
  c.label("length 2^" + std::to_string((int)log2((double)n)));
  Bytes s = ref::sign(p, sk.data(), m.data(), n, rho.data(), rho.size());
  c.require(a.verify(pk.data(), m.data(), n, s.data(), s.size()) == 0, "signature on a message of " + std::to_string(n) + " bytes refused");
  u64 h = pbt::hash_bytes(s.data(), s.size());
  for (int i = 0; i < 6; i++) {
    size_t o;
    switch (i) {
    case 0: o = n - 1; break;
    case 1: o = 0; break;
    case 2: o = n - 1 - c.draw(std::min<size_t>(n, 200)); break;
    case 3: o = c.draw(n); break;
    default: { size_t u = (size_t)1 << c.range(3, 20); o = u < n ? u * c.range(1, (n - 1) / u) - (c.chance(1, 2) ? 1 : 0) : c.draw(n); }
    }
    u8 d = (u8)(1u << c.draw(8));
    m[o] ^= d;
    c.require(a.verify(pk.data(), m.data(), n, s.data(), s.size()) != 0,
              "signature on a message of " + std::to_string(n) + " bytes accepted although byte " + std::to_string(o) + " of the message differs");
    m[o] ^= d;
    h = h * 31 + o;
  }
  c.require(a.verify(pk.data(), m.data(), n - 1, s.data(), s.size()) != 0, "accepted without the last byte of the message (" + std::to_string(n) + " bytes)");
  c.require(a.verify(pk.data(), m.data() + 1, n - 1, s.data(), s.size()) != 0, "accepted without the first byte of the message (" + std::to_string(n) + " bytes)");
  m.push_back((u8)c.pick<int>({0, 0x1f, 0x80, 1, 2}));
  c.require(a.verify(pk.data(), m.data(), n + 1, s.data(), s.size()) != 0, "accepted with one more byte (" + std::to_string(n) + " bytes)");
  c.nontrivial(h);
}

// ------------------------------------------------------------------------------------------- C03
namespace {
struct Base {
  const ref::Params& p;
  Bytes sk, pk, m, rho, sig;
};
const char* region(const ref::Params& p, size_t off) {
  if (off < p.off_ut()) return "correction";
  if (off < p.off_d()) return "u tilde";
  if (off < p.off_at()) return "d";
  if (off < p.off_open(0)) return "a tilde";
  if (off >= p.off_iv()) return "iv";
  if (off >= p.off_ch3()) return "chall_3";
  for (int i = 0; i < p.tau; i++)
    if (off >= p.off_com(i) && off < p.off_open(i + 1)) return "leaf commitment";
  return "opening node";
}
// offset inside a region chosen first, so small regions are hit as often as large ones
size_t pick_offset(Ctx& c, const ref::Params& p) {
  switch (c.draw(9)) {
  case 0: return p.off_ch3() + c.draw(p.LB());
  case 1: return p.off_iv() + c.draw(16);
  case 2: return p.off_at() + c.draw(p.LB());
  case 3: return p.off_ut() + c.draw(p.LB() + 2);
  case 4: return p.off_d() + c.draw(p.ell() / 8);
  case 5: return c.draw(p.off_ut());
  case 6: { int i = (int)c.draw(p.tau); return p.off_open(i) + c.draw((size_t)p.depth(i) * p.LB()); }
  case 7: { int i = (int)c.draw(p.tau); return p.off_com(i) + c.draw(2 * p.LB()); }
  default: return c.draw(p.sig());
  }
}
void verdict(Ctx& c, const ref::Params& p, const Bytes& pk, const Bytes& m, const Bytes& sig, const std::string& what) {
  bool want = ref::verify(p, pk.data(), m.data(), m.size(), sig.data(), sig.size());
  Buf bs(sig, 0), bm(m, 0);
  int r = api(p.id).verify(pk.data(), m.empty() ? nullptr : bm.data(), m.size(), bs.data(), sig.size());
  c.require((r == 0) == want, what + ": verify returned " + std::to_string(r) + ", specification " + (want ? "accepts" : "rejects"));
  c.label(want ? "accepted" : "rejected");
  c.nontrivial(pbt::hash_bytes(sig.data(), sig.size(), pbt::hash_bytes(m.data(), m.size(), pbt::hash_bytes(pk.data(), pk.size()))));
}
} // namespace

PROP(C03_mutations,
     "from a signature made by the reference model, 1-4 variants are drawn (bit/byte changes in a chosen component, exchanged "
     "openings, other message, other public key, spliced signatures, wrong length, other set's signature, garbage) and the "
     "verdict of verify must equal the reference verification's; every compared verdict is a non-trivial case; distinct by "
     "(public key, message, signature)") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  Bytes sk = usable_key(c, p), pk = ref::pk_of_sk(p, sk.data()), m = c.bytes(c.length(300));
  Bytes rho = c.bytes(c.pick<size_t>({0, 16, 32}));
  Bytes sig = ref::sign(p, sk.data(), m.data(), m.size(), rho.data(), rho.size());
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " sk=" + hex(sk));
  c.label(std::string("set ") + p.name);
  verdict(c, p, pk, m, sig, "honest signature");
  int n = (int)c.range(1, p.tau > 22 || p.lambda == 128 ? 4 : 2);
  while (n--) {
    Bytes s(sig), mm(m), pp(pk);
    std::string what;
    switch (c.draw(12)) {
    case 0:
    case 1:
    case 2: { // single bit
      size_t o = pick_offset(c, p);
      int b = (int)c.draw(8);
      s[o] ^= (u8)(1 << b);
      what = std::string("bit flip in ") + region(p, o) + " at byte " + std::to_string(o);
      break;
    }
    case 3: { // range overwritten
      size_t o = pick_offset(c, p), l = c.range(1, std::min<size_t>(64, s.size() - o));
      Bytes r = c.bytes(l);
      memcpy(&s[o], r.data(), l);
      what = std::string("overwritten range in ") + region(p, o);
      break;
    }
    case 4: { // same difference applied twice (cancelling changes)
      size_t o = pick_offset(c, p), q = pick_offset(c, p);
      u8 d = (u8)c.range(1, 255);
      s[o] ^= d;
      s[q] ^= d;
      what = std::string("paired change in ") + region(p, o) + " and " + region(p, q);
      break;
    }
    case 5: { // exchange two openings / corrections of equal size
      int i = (int)c.draw(p.tau), j = (int)c.draw(p.tau);
      if (c.chance(1, 2) && i && j) {
        std::swap_ranges(s.begin() + (i - 1) * p.LH(), s.begin() + i * p.LH(), s.begin() + (j - 1) * p.LH());
        what = "exchanged corrections";
      } else if (p.depth(i) == p.depth(j)) {
        std::swap_ranges(s.begin() + p.off_open(i), s.begin() + p.off_open(i + 1), s.begin() + p.off_open(j));
        what = "exchanged openings";
      } else {
        std::swap_ranges(s.begin() + p.off_com(i), s.begin() + p.off_open(i + 1), s.begin() + p.off_com(j));
        what = "exchanged leaf commitments";
      }
      break;
    }
    case 6: { // message
      switch (c.draw(4)) {
      case 0: mm.push_back((u8)c.draw(256)); break;
      case 1: if (!mm.empty()) mm.pop_back(); break;
      case 2: if (!mm.empty()) mm[c.draw(mm.size())] ^= (u8)(1 << c.draw(8)); break;
      default: mm.insert(mm.begin(), 0);
      }
      what = "other message";
      break;
    }
    case 7: { // public key
      pp[c.draw(pp.size())] ^= (u8)(1 << c.draw(8));
      what = "other public key";
      break;
    }
    case 8: { // splice with a signature on the same message (other rho)
      Bytes r2(rho);
      r2.push_back(1);
      Bytes s2 = ref::sign(p, sk.data(), m.data(), m.size(), r2.data(), r2.size());
      size_t cuts[] = {p.off_ut(), p.off_d(), p.off_at(), p.off_open(0), p.off_ch3(), p.off_iv(), p.off_open((int)c.draw(p.tau))};
      size_t o = cuts[c.draw(7)];
      memcpy(&s[o], &s2[o], s.size() - o);
      what = "splice of two signatures at " + std::to_string(o);
      break;
    }
    case 9: { // length
      switch (c.draw(4)) {
      case 0: s.pop_back(); break;
      case 1: s.push_back(0); break;
      case 2: s.resize(c.draw(s.size())); break;
      default: s.resize(ref::param(1 + (int)c.draw(12)).sig(), 0);
      }
      what = "wrong length";
      break;
    }
    case 10: { // signature of another set with the same size of key material, padded or cut
      const auto& q = ref::param(1 + (int)c.draw(12));
      if (q.id != p.id && (q.tau > 22 || q.lambda == 128)) {
        Bytes k2 = usable_key(c, q);
        s = ref::sign(q, k2.data(), m.data(), m.size(), nullptr, 0);
        s.resize(p.sig(), 0);
      } else std::reverse(s.begin(), s.end());
      what = "signature of another set";
      break;
    }
    default: {
      s = c.bytes(p.sig());
      what = "arbitrary bytes";
    }
    }
    c.note("| " + what);
    c.label(what.substr(0, what.find(" at ")));
    (void)a;
    verdict(c, p, pp, mm, s, what);
  }
}

PROP(C03_forgeries,
     "a dishonest signer, simulated by the reference model, opens at a challenge that differs from the derived one in a single "
     "systematically enumerated bit (or several), or proves a wrong witness, or claims another one-way-function output, or sends "
     "other proof elements, or follows the specification from an IV, root seed or per-repetition seeds of its own choice (structured, equal, "
     "IVs shortly before a carry; half of these then with one bit changed); verify must agree with the reference verification; every compared verdict is a non-trivial case") {
  const auto& p = ref::param(pick_set(c, c.thorough));
  Bytes sk = usable_key(c, p), pk = ref::pk_of_sk(p, sk.data()), m = c.bytes(c.length(100));
  ref::SignTweaks tw;
  std::string what;
  unsigned kind = (unsigned)c.strat(11);
  int flip      = 0;
  if (kind < 5) {
    unsigned bit = (unsigned)c.strat(256) % p.lambda;
    tw.open_xor.assign(p.LB(), 0);
    tw.open_xor[bit / 8] |= (u8)(1 << (bit % 8));
    if (kind == 4) {
      unsigned b2 = (unsigned)c.draw(p.lambda);
      tw.open_xor[b2 / 8] ^= (u8)(1 << (b2 % 8));
    }
    what = "opened at a challenge differing in bit " + std::to_string(bit);
    c.label(kind == 4 ? "two challenge bits" : "one challenge bit");
  } else if (kind == 5) {
    tw.witness = ref::extend_witness(p, sk.data() + p.owf_in(), sk.data());
    size_t b   = c.draw(tw.witness.size() * 8);
    tw.witness[b / 8] ^= (u8)(1 << (b % 8));
    what = "wrong witness bit " + std::to_string(b);
    c.label("wrong witness");
  } else if (kind == 6) {
    tw.pk_out.assign(pk.begin() + p.owf_in(), pk.end());
    size_t b = c.draw(tw.pk_out.size() * 8);
    tw.pk_out[b / 8] ^= (u8)(1 << (b % 8));
    memcpy(&pk[p.owf_in()], tw.pk_out.data(), tw.pk_out.size());
    what = "claimed output differs in bit " + std::to_string(b);
    c.label("wrong output");
  } else if (kind >= 8) {
    Bytes iv = c.bytes(16), root = c.bytes(p.LB()), roots = c.bytes((size_t)p.tau * p.LB());
    unsigned equal = (unsigned)c.draw(3), choose = kind == 8 ? 1u << 3 : kind == 9 ? 1u << 4 : (unsigned)c.range(1, 7) << 2;
    if (c.chance(1, 2)) {
      int ones = (int)c.range(1, 16);
      for (int i = 16 - ones; i < 16; i++) iv[i] = 0xff;
      for (u64 i = c.draw(c.pick<u64>({4, 100})); i; i--)
        for (int k = 15; k >= 0 && !iv[k]--; k--) {}
    }
    if (equal)
      for (int i = 1; i < p.tau; i++)
        if (equal == 2 || i % 2) memcpy(&roots[(size_t)i * p.LB()], &roots[0], p.LB());
    tw.stage = [=](int st, Bytes& x) {
      if (st == 2 && (choose & 4)) x = root;
      if (st == 3 && (choose & 8)) x = iv;
      if (st == 4 && (choose & 16)) x = roots;
    };
    flip = (int)c.draw(2);
    what = std::string("chosen") + (choose & 4 ? " root=" + hex(root) : "") + (choose & 8 ? " iv=" + hex(iv) : "") + (choose & 16 ? " repetition seeds" : "");
    c.label("chosen seeds or IV");
  } else {
    int which = (int)c.draw(2);
    size_t b  = c.draw(p.lambda);
    tw.stage  = [=](int st, Bytes& x) {
      if (st == which) x[b / 8] ^= (u8)(1 << (b % 8));
    };
    what = which ? "wrong b tilde" : "wrong a tilde";
    c.label("wrong proof element");
  }
  c.note(std::string("set=") + p.name + " " + what);
  c.label(std::string("set ") + p.name);
  Bytes sig = ref::sign(p, sk.data(), m.data(), m.size(), nullptr, 0, &tw);
  if (flip) {
    size_t b = c.draw(sig.size() * 8);
    sig[b / 8] ^= (u8)(1 << (b % 8));
    what += " and bit " + std::to_string(b) + " changed";
  }
  bool want = ref::verify(p, pk.data(), m.data(), m.size(), sig.data(), sig.size());
  int r     = api(p.id).verify(pk.data(), nz(m), m.size(), sig.data(), sig.size());
  c.require((r == 0) == want, what + ": verify returned " + std::to_string(r) + ", specification " + (want ? "accepts" : "rejects"));
  c.label(want ? "accepted" : "rejected");
  c.nontrivial(pbt::hash_bytes(sig.data(), sig.size()));
}

// Several builds of the library in one process, compared with each other.
#include "api.hpp"
#include "keys.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <memory>
#ifndef API_ONLY
extern "C" {
#include "instances.h"
#include "vc.h"
}
#endif
namespace {
struct Build {
  std::string name;
  void* h;
  template <class T> T sym(const char* n) const { return (T)dlsym(h, n); }
};
std::vector<Build>& builds() {
  static std::vector<Build> b;
  if (b.empty()) {
    std::string s(getenv("VERIF_SOS") ? getenv("VERIF_SOS") : "");
    size_t i = 0;
    while (i < s.size()) {
      size_t e = s.find(',', i), q = s.find('=', i);
      if (e == std::string::npos) e = s.size();
      std::string path = s.substr(q + 1, e - q - 1);
      void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) {
        fprintf(stderr, "%s\n", dlerror());
        _exit(2);
      }
      b.push_back({s.substr(i, q - i), h});
      i = e + 1;
    }
    if (b.size() < 2) _exit(2);
  }
  return b;
}
Api api_of(const Build& b, int id) {
  const auto& p = ref::param(id);
  std::string pre = std::string("faest_") + p.name + "_";
  auto f = [&](const char* n) {
    void* s = dlsym(b.h, (pre + n).c_str());
    if (!s) throw pbt::Fail{b.name + ": no symbol " + pre + n};
    return s;
  };
  Api a;
  a.name = p.name;
  a.pk = p.pk(), a.sk = p.sk(), a.sig = p.sig();
  a.keygen   = (decltype(a.keygen))f("keygen");
  a.sign     = (decltype(a.sign))f("sign");
  a.signr    = (decltype(a.signr))f("sign_with_randomness");
  a.verify   = (decltype(a.verify))f("verify");
  a.validate = (decltype(a.validate))f("validate_keypair");
  a.clear    = (decltype(a.clear))f("clear_private_key");
  return a;
}
// the reference build and 1..k others
std::vector<const Build*> choose(Ctx& c, size_t k) {
  auto& b = builds();
  std::vector<const Build*> r{&b[0]};
  size_t first = c.strat(b.size() - 1);
  for (size_t i = 0; i < k && i < b.size() - 1; i++) r.push_back(&b[1 + (first + i * 3) % (b.size() - 1)]);
  std::sort(r.begin() + 1, r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  for (size_t i = 1; i < r.size(); i++) c.label("build " + r[i]->name);
  return r;
}
std::vector<int> sets() { // allowed parameter sets
  std::vector<int> v;
  std::string s(getenv("VERIF_SETS") ? getenv("VERIF_SETS") : "");
  for (size_t i = 0; i < s.size();) {
    v.push_back(atoi(s.c_str() + i));
    i = s.find(',', i);
    if (i == std::string::npos) break;
    i++;
  }
  return v;
}
} // namespace
PROP(C09_calls,
     "2-4 builds of the library (the default one and others, systematically rotated) get the same arguments: key generation from a drawn "
     "stream (with unusable draws), signing (rho null, empty, short, long; usable and unusable keys), randomised signing, validation of "
     "matching and altered pairs, verification of the signature and of an altered one; every output byte, length and verdict must agree; "
     "every case non-trivial; distinct by build choice, set and signature") {
  auto sel = choose(c, c.range(1, 3));
  auto al  = sets();
  int id   = al.empty() ? pick_set(c) : al[c.strat(al.size())];
  const auto& p = ref::param(id);
  u64 feed  = c.draw(0);
  unsigned zeros = (unsigned)c.draw(3);
  Bytes sk = c.chance(1, 8) ? c.bytes(p.sk()) : usable_key(c, p);
  Bytes m = gen_msg(c);
  Rho rho = gen_rho(c, p);
  Bytes pk = ref::pk_of_sk(p, sk.data()), pk2(pk);
  pk2[c.draw(pk2.size())] ^= (u8)(1 << c.draw(8));
  bool rnd = c.chance(1, 4);
  Bytes s0, bad;
  std::string d = std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " rho=" + (rnd ? "drawn" : rho.str()) + " sk=" + hex(sk, 64) + " builds=";
  for (auto b : sel) d += b->name + " ";
  c.note(d);
  c.label(std::string("set ") + p.name);
  size_t o = c.draw(p.sig());
  u8 x     = (u8)c.range(1, 255);
  struct R { bool fed; int kg, sg, v1, v2, vd1, vd2; Bytes pk, sk, sig, clr; size_t len; } first{};
  u64 h = 0;
  for (size_t i = 0; i < sel.size(); i++) {
    Api a = api_of(*sel[i], id);
    R r{};
    bool fed = false; // builds that do not use getrandom draw their own randomness
    auto install = [&] {
      pbt::Rng g(feed);
      unsigned z = zeros;
      g_feed.fn = [g, z, &fed](u8* b, size_t n) mutable {
        fed = true;
        for (size_t k = 0; k < n; k++) b[k] = z ? 0 : (u8)g.next();
        if (z) z--;
        return (ssize_t)n;
      };
    };
    r.pk.assign(a.pk, 0), r.sk.assign(a.sk, 0), r.sig.assign(a.sig, 0x11);
    install();
    r.kg  = a.keygen(r.pk.data(), r.sk.data());
    r.fed = fed;
    install();
    r.len = a.sig;
    r.sg  = rnd && fed ? a.sign(sk.data(), nz(m), m.size(), r.sig.data(), &r.len)
                : a.signr(sk.data(), nz(m), m.size(), rho.null ? nullptr : nz(rho.b), rho.b.size(), r.sig.data(), &r.len);
    g_feed.fn = nullptr;
    Bytes t   = i ? first.sig : r.sig;
    r.v1      = a.verify(pk.data(), nz(m), m.size(), t.data(), t.size()) != 0;
    t[o] ^= x;
    r.v2  = a.verify(pk.data(), nz(m), m.size(), t.data(), t.size()) != 0;
    r.vd1 = a.validate(pk.data(), sk.data()) != 0;
    r.vd2 = a.validate(pk2.data(), sk.data()) != 0;
    r.clr = sk;
    a.clear(r.clr.data());
    if (!i) {
      first = r;
      continue;
    }
    std::string w = sel[i]->name + " against " + sel[0]->name + ": ";
    c.eqi(r.kg, first.kg, w + "keygen result");
    if (r.fed && first.fed) {
      c.eq(r.sk, first.sk, w + "generated private key");
      c.eq(r.pk, first.pk, w + "generated public key");
    } else {
      c.eq(r.pk, ref::pk_of_sk(p, r.sk.data()), w + "public key generated for its private key");
    }
    c.eqi(r.sg != 0, first.sg != 0, w + "sign result");
    c.eqi((long long)r.len, (long long)first.len, w + "signature length");
    if (!rnd || (r.fed && first.fed)) c.eq(r.sig, first.sig, w + "signature");
    c.eqi(r.v1, first.v1, w + "verdict on the signature");
    c.eqi(r.v2, first.v2, w + "verdict on the signature with byte " + std::to_string(o) + " changed");
    c.eqi(r.vd1, first.vd1, w + "validate_keypair");
    c.eqi(r.vd2, first.vd2, w + "validate_keypair with another public key");
    c.eq(r.clr, first.clr, w + "clear_private_key");
    h = pbt::hash_str(w, h);
  }
  c.nontrivial(pbt::hash_bytes(first.sig.data(), first.sig.size(), h));
}
#ifndef API_ONLY
PROP(C09_prims,
     "the default build and 1-3 others get the same arguments for one internal primitive with byte-string results (systematic: one-way "
     "functions, seed expander, random oracles, vole_hash, ConvertToVole, vector commitment and opening, witness extension, challenge "
     "decoding): results must agree; primitives a build does not export are skipped; non-trivial = compared in at least two builds; "
     "distinct by primitive, builds and result") {
  auto sel      = choose(c, c.range(1, 3));
  const auto& p = ref::param(pick_set12(c));
  unsigned op   = (unsigned)c.strat(9);
  u64 seed      = c.draw(0);
  Bytes key = c.bytes(32), in = c.bytes(32), iv = c.bytes(16), data = c.bytes(c.length(3000));
  size_t outlen = c.length(2000), split = c.draw(data.size() + 1);
  unsigned depth = (unsigned)c.range(1, 8), leaf = (unsigned)c.draw((u64)1 << depth), xo = (unsigned)c.draw(3);
  Bytes sd = c.bytes(5 * 32 + 8), x((size_t)p.ellhat() / 8 + 64), usk = usable_key(c, p);
  pbt::Rng r(seed);
  for (auto& b : x) b = (u8)r.next();
  static const char* on[] = {"owf", "prg", "H1", "H2", "H3", "vole_hash", "ConvertToVole", "vector commitment", "witness"};
  Bytes first;
  int done = 0;
  std::string nm;
  u64 h = 0;
  for (auto b : sel) {
    Bytes res;
    auto ps = b->sym<faest_paramset_t (*)(faest_paramid_t)>("faest_get_paramset");
    if (!ps) continue;
    faest_paramset_t P = ps((faest_paramid_t)p.id);
    bool have = false;
    switch (op) {
    case 0: {
      std::string s = std::string("owf_") + (p.em ? "em_" : "") + std::to_string(p.lambda);
      auto f = b->sym<bool (*)(const u8*, const u8*, u8*)>(s.c_str());
      if (!(have = f)) break;
      res.assign(64, 0);
      res[63] = f(key.data(), in.data(), res.data());
      break;
    }
    case 1: {
      auto f = b->sym<void (*)(const u8*, const u8*, u8*, unsigned, size_t)>("prg");
      if (!(have = f)) break;
      res.assign(outlen + 32, 0);
      if (xo == 1) std::fill(iv.begin() + 4, iv.end(), 0xff);
      f(key.data(), iv.data(), res.data(), (unsigned)p.lambda, outlen);
      break;
    }
    case 2:
    case 3:
    case 4: {
      std::string H = std::string("H") + std::to_string(op - 1);
      auto ini = b->sym<void (*)(void*, unsigned)>((H + "_init").c_str());
      auto upd = b->sym<void (*)(void*, const u8*, size_t)>((H + "_update").c_str());
      auto fin = b->sym<void (*)(void*, u8*, size_t, u8*)>((H + "_final").c_str());
      if (!(have = ini && upd && fin)) break;
      alignas(64) static u8 ctx[8192];
      memset(ctx, (int)seed, sizeof ctx);
      ini(ctx, (unsigned)p.lambda);
      upd(ctx, data.data(), split);
      upd(ctx, data.data() + split, data.size() - split);
      res.assign(outlen + 16, 0);
      fin(ctx, res.data(), outlen, res.data() + outlen);
      break;
    }
    case 5: {
      auto f = b->sym<void (*)(u8*, const u8*, const u8*, unsigned, uint32_t)>("vole_hash");
      if (!(have = f)) break;
      res.assign(40, 0);
      f(res.data(), sd.data(), x.data(), (unsigned)p.ell(), (uint32_t)p.lambda);
      break;
    }
    case 6: {
      auto f = b->sym<void (*)(const u8*, const u8*, bool, unsigned, unsigned, unsigned, u8*, u8*)>("ConvertToVole");
      if (!(have = f)) break;
      Bytes seeds(((size_t)1 << depth) * p.LB());
      pbt::Rng q(seed);
      for (auto& z : seeds) z = (u8)q.next();
      size_t ol = 16 + outlen % 300;
      res.assign(ol * (depth + 1), 0);
      f(iv.data(), seeds.data(), xo == 1, (unsigned)p.lambda, depth, (unsigned)ol, xo == 1 ? nullptr : res.data(), res.data() + ol);
      break;
    }
    case 7: {
      auto vcf = b->sym<void (*)(const u8*, const u8*, const faest_paramset_t*, uint32_t, vec_com_t*, uint32_t)>("vector_commitment");
      auto vo  = b->sym<void (*)(const u8*, const u8*, const u8*, u8*, u8*, uint32_t, uint32_t)>("vector_open");
      auto vcl = b->sym<void (*)(vec_com_t*)>("vec_com_clear");
      if (!(have = vcf && vo && vcl)) break;
      vec_com_t vc;
      memset(&vc, 0, sizeof vc);
      vcf(key.data(), iv.data(), &P, (uint32_t)p.lambda, &vc, depth);
      size_t L = (size_t)1 << depth;
      res.assign(vc.h, vc.h + 2 * p.LB());
      res.insert(res.end(), vc.com, vc.com + L * 2 * p.LB());
      res.insert(res.end(), vc.sd, vc.sd + L * p.LB());
      Bytes bits(depth), pd(depth * p.LB()), cj(2 * p.LB());
      for (unsigned i = 0; i < depth; i++) bits[i] = (leaf >> i) & 1;
      vo(vc.k, vc.com, bits.data(), pd.data(), cj.data(), depth, (uint32_t)p.LB());
      res.insert(res.end(), pd.begin(), pd.end());
      res.insert(res.end(), cj.begin(), cj.end());
      vcl(&vc);
      break;
    }
    default: {
      auto f = b->sym<u8* (*)(const u8*, const u8*, const faest_paramset_t*)>("aes_extend_witness");
      if (!(have = f)) break;
      u8* w = f(usk.data() + p.owf_in(), usk.data(), &P);
      res.assign(w, w + p.ell() / 8);
      free(w);
    }
    }
    if (!have) continue;
    if (!done) first = res, nm = b->name;
    else c.eq(res, first, std::string(on[op]) + " of set " + p.name + ", " + b->name + " against " + nm);
    h = pbt::hash_str(b->name, h);
    done++;
  }
  c.note(std::string(on[op]) + " set=" + p.name + " key=" + hex(key, 32) + " outlen=" + std::to_string(outlen));
  c.label(on[op]);
  if (done > 1) c.nontrivial(pbt::hash_bytes(first.data(), first.size(), h ^ op));
}
#endif

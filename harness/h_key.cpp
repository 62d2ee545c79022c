#include "keys.hpp"

// ------------------------------------------------------------------------------------------- C04
PROP(C04_keygen,
     "the random source delivers a drawn stream: 0-12 unusable private keys (all zero, structured, or exactly one zero S-box input "
     "at a chosen place; sometimes one of them repeated up to 1000, rarely 70000 times) followed by usable ones; the returned pair must be usable by the model, pk its image, accepted by "
     "validate_keypair, inside its buffers, and both halves of sk must be bytes delivered during this call; non-trivial = at least "
     "one unusable draw was discarded or the draw was structured; distinct by key pair") {
  const auto& p = ref::param(pick_set12(c));
  const Api& a  = api(p.id);
  c.eqi((long long)a.pk, (long long)p.pk(), "public key size");
  c.eqi((long long)a.sk, (long long)p.sk(), "private key size");
  Bytes stream;
  unsigned bad = (unsigned)c.draw(13);
  for (unsigned i = 0; i < bad; i++) {
    Bytes cand;
    std::string w;
    switch (c.draw(4)) {
    case 0: cand.assign(a.sk, 0); break;
    case 1: cand = c.bytes(a.sk); break; // may happen to be usable
    case 2: cand = shaped_sk(c, p, c.chance(1, 2)); break; // may happen to be usable
    default: cand = one_zero_key(c, p, (unsigned)c.draw(num_places(p)));
    }
    stream.insert(stream.end(), cand.begin(), cand.end());
  }
  size_t repeat = 0; // the same unusable key again and again
  Bytes again;
  if (c.chance(1, 40)) {
    repeat = c.chance(1, 30) ? c.range(60000, 70000) : c.chance(1, 2) ? c.range(13, 300) : c.range(250, 1100);
    again  = c.chance(1, 2) ? Bytes(a.sk, 0) : one_zero_key(c, p, (unsigned)c.draw(num_places(p)));
    bad += (unsigned)repeat;
  }
  bool structured = c.chance(1, 4);
  Bytes good = usable_key(c, p, structured);
  stream.insert(stream.end(), good.begin(), good.end());
  unsigned chunk = 0;
  size_t pos = 0;
  pbt::Rng tail(c.draw(0));
  g_feed.fn = [&](u8* b, size_t n) {
    size_t rep = repeat * a.sk;
    for (size_t i = 0; i < n; i++, pos++)
      b[i] = pos < rep ? again[pos % a.sk] : pos - rep < stream.size() ? stream[pos - rep] : (u8)tail.next();
    g_feed.nolog = pos + 2 * a.sk < rep;
    chunk++;
    return (ssize_t)n;
  };
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(16);
  Buf pk(a.pk, mode, mis), sk(a.sk, mode, mis);
  c.note(std::string("set=") + p.name + " unusable draws=" + std::to_string(bad));
  c.label(std::string("set ") + p.name);
  c.label("unusable draws before: " + (bad > 1000 ? "1000+" : bad > 255 ? "256+" : bad > 64 ? "65+" : bad > 12 ? "13+" : bad > 3 ? "4+" : std::to_string(bad)));
  c.eqi(a.keygen(pk.data(), sk.data()), 0, "keygen result");
  g_feed.fn = nullptr;
  c.require(pk.intact() && sk.intact(), "keygen wrote outside its buffers");
  auto o = ref::owf_sk(p, sk.data());
  c.require(o.usable(), "keygen returned a private key with " + std::to_string(o.zeros) + " zero S-box inputs: " + hex(sk.get(), 64));
  c.eq(pk.get(), ref::pk_of_sk(p, sk.data()), "public key");
  c.eqi(a.validate(pk.data(), sk.data()), 0, "validate_keypair on the generated pair");
  Bytes all = g_feed.all();
  c.require(contains(all, sk.data(), p.owf_in()) && contains(all, sk.data() + p.owf_in(), p.LB()),
            "private key holds bytes the random source did not deliver: " + hex(sk.get(), 64));
  if (bad || structured) c.nontrivial(pbt::hash_bytes(sk.data(), a.sk) ^ p.id);
}

// ------------------------------------------------------------------------------------------- C05
PROP(C05_positions,
     "for each set, each S-box of the one-way function in turn (systematic) a key is constructed by inverting cipher or key "
     "schedule so that exactly this S-box has a zero input; validate_keypair must return nonzero for the key and its image, and "
     "both signing calls must fail; every case is non-trivial; distinct by set, place and key") {
  // enumerate all (set, place) pairs
  static unsigned start[14];
  if (!start[13])
    for (int i = 1; i <= 12; i++) start[i + 1] = start[i] + num_places(ref::param(i));
  unsigned g = (unsigned)c.strat(start[13]);
  int id     = 1;
  while (g >= start[id + 1]) id++;
  const auto& p  = ref::param(id);
  const Api& a   = api(id);
  unsigned place = g - start[id];
  std::string what;
  Bytes sk = one_zero_key(c, p, place, &what), pk = ref::pk_of_sk(p, sk.data());
  c.note(std::string("set=") + p.name + " zero S-box input at " + what + " sk=" + hex(sk, 64));
  c.label(std::string("set ") + p.name);
  c.label((int)place < p.Ske() ? "key schedule" : "encryption");
  c.require(a.validate(pk.data(), sk.data()) != 0, "validate_keypair accepts an unusable key: zero at " + what);
  size_t cap = a.sig + c.pick<size_t>({0, 1, 100});
  Bytes sig(cap, 0x77);
  Bytes before(sig);
  size_t len = cap;
  c.require(a.signr(sk.data(), nz({}), 0, nullptr, 0, sig.data(), &len) != 0, "sign_with_randomness accepts an unusable key: zero at " + what);
  c.eqi((long long)len, (long long)cap, "signature length after refusal");
  c.eq(sig, before, "signature buffer after refusal");
  c.require(a.sign(sk.data(), nz({}), 0, sig.data(), &len) != 0, "sign accepts an unusable key: zero at " + what);
  c.eqi((long long)len, (long long)cap, "signature length after refusal");
  c.eq(sig, before, "signature buffer after refusal");
  c.nontrivial(pbt::hash_bytes(sk.data(), sk.size()) ^ g);
}
PROP(C05_validate,
     "key pairs are drawn: structured/random private key, public key = image, image with one changed bit (systematic), image of another "
     "key, arbitrary, or input part exchanged; validate_keypair must return 0 exactly when the model finds the key usable and the "
     "public key its image; non-trivial = usable key; distinct by pair") {
  int id        = pick_set12(c);
  const auto& p = ref::param(id);
  const Api& a  = api(id);
  unsigned kind = (unsigned)c.strat(6);
  Bytes sk;
  if (kind == 0) {
    // arbitrary, or S-box inputs of special shapes, with zeros at several places
    sk = c.chance(1, 2) ? shaped_sk(c, p, c.chance(2, 3)) : c.bytes(a.sk);
  } else sk = usable_key(c, p);
  auto o   = ref::owf_sk(p, sk.data());
  Bytes pk = ref::pk_of_sk(p, sk.data());
  const char* k = "image";
  if (kind == 2 || kind == 3) {
    size_t bit = c.strat(512) % (8 * a.pk);
    pk[bit / 8] ^= (u8)(1 << (bit % 8));
    k = "one public key bit changed";
  } else if (kind == 4) {
    switch (c.draw(4)) {
    case 0: pk = c.bytes(a.pk); k = "arbitrary public key"; break;
    case 1: { Bytes s2 = usable_key(c, p, false); pk = ref::pk_of_sk(p, s2.data()); k = "other key's public key"; break; }
    case 2: std::rotate(pk.begin(), pk.begin() + p.owf_in(), pk.end()); k = "halves exchanged"; break;
    default: { Bytes d = c.bytes(a.pk); for (size_t i = 0; i < a.pk; i++) pk[i] ^= d[i]; k = "difference pattern"; }
    }
  } else if (kind == 5) {
    size_t bit = c.draw(8 * a.sk);
    sk[bit / 8] ^= (u8)(1 << (bit % 8));
    o = ref::owf_sk(p, sk.data());
    k = "one private key bit changed";
  }
  bool want = o.usable() && pk == ref::pk_of_sk(p, sk.data());
  c.note(std::string("set=") + p.name + " " + k + " sk=" + hex(sk) + " pk=" + hex(pk));
  c.label(std::string(k) + (want ? ": valid" : o.usable() ? ": mismatch" : ": unusable"));
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(16);
  Buf bs(sk, mode, mis), bp(pk, mode, mis);
  int r = a.validate(bp.data(), bs.data());
  c.require((r == 0) == want, std::string("validate_keypair returned ") + std::to_string(r) + " for " + k + ", expected " +
                                  (want ? "0" : "nonzero") + " (zero S-box inputs: " + std::to_string(o.zeros) + ")");
  if (o.usable()) c.nontrivial(pbt::hash_bytes(pk.data(), pk.size(), pbt::hash_bytes(sk.data(), sk.size())));
}
PROP(C05_sign,
     "structured and random private keys (usable or not) are signed with: the call must succeed exactly for usable keys; "
     "non-trivial = every case; distinct by key") {
  const auto& p = ref::param(pick_set(c, false));
  const Api& a  = api(p.id);
  Bytes sk      = c.chance(1, 3) ? usable_key(c, p) : c.chance(1, 2) ? shaped_sk(c, p, c.chance(1, 2)) : c.bytes(a.sk);
  auto o        = ref::owf_sk(p, sk.data());
  if (!o.usable() && c.draw(4)) { // mostly keys with few zeros
    sk = c.random_bytes(a.sk);
    o  = ref::owf_sk(p, sk.data());
  }
  c.note(std::string("set=") + p.name + " zeros=" + std::to_string(o.zeros) + " sk=" + hex(sk, 64));
  c.label(o.usable() ? "usable" : o.zeros == 1 ? "one zero" : "several zeros");
  size_t cap = a.sig + c.pick<size_t>({0, 1, 1000});
  Bytes sig(cap, 0x77);
  size_t len = cap;
  Bytes m    = c.bytes(c.length(64));
  int r      = c.chance(1, 2) ? a.sign(sk.data(), nz(m), m.size(), sig.data(), &len)
                              : a.signr(sk.data(), nz(m), m.size(), nullptr, 0, sig.data(), &len);
  c.require((r == 0) == o.usable(), "signing returned " + std::to_string(r) + " for a key with " + std::to_string(o.zeros) + " zero S-box inputs");
  c.eqi((long long)len, (long long)(r ? cap : a.sig), r ? "signature length after refusal" : "signature length");
  if (r) c.eq(sig, Bytes(cap, 0x77), "signature buffer after refusal");
  c.nontrivial(pbt::hash_bytes(sk.data(), sk.size()) ^ p.id);
}

// ------------------------------------------------------------------------------------------- C18
namespace {
// a scripted random source: each request is served, cut short, or refused
struct Script {
  std::vector<int> op; // 0 = full, 1 = error, 2 = short
  std::vector<int> err;
  unsigned i = 0;
  bool fail_after = true; // what happens after the script: persistent failure or full service
  bool failed = false;
  pbt::Rng r;
  u8 last = 0;
  std::function<void(u8*, size_t)> fill;
  explicit Script(u64 s) : r(s) {}
  ssize_t operator()(u8* b, size_t n) {
    int o = i < op.size() ? op[i] : fail_after ? 1 : 0;
    int e = i < err.size() ? err[i] : EIO;
    i++;
    if (i > 10000) {
      fprintf(stderr, "random source asked 10000 times in one call\n");
      _exit(97);
    }
    if (o == 1) {
      failed = true;
      errno  = e;
      return -1;
    }
    size_t m = o == 2 && n ? r.next() % n : n;
    if (o == 2) failed = true;
    if (fill) fill(b, m);
    else
      for (size_t k = 0; k < m; k++) b[k] = (u8)r.next();
    return (ssize_t)m;
  }
};
} // namespace
PROP(C18_faults,
     "key generation, sign (and sign_with_randomness, which must not be affected) run against a scripted random source: 0-3 served "
     "requests (unusable keys, to force redraws), then an error with a drawn errno, a short delivery, or both, after which the source "
     "stays broken or recovers; a result of 0 is allowed only if every random byte used was delivered (checked by delivered-byte search "
     "and by the reference model), a broken source must give a nonzero code; non-trivial = a request failed; distinct by script") {
  unsigned op   = (unsigned)c.strat(3);
  const auto& p = ref::param(op == 0 ? pick_set12(c) : pick_set(c, false));
  const Api& a  = api(p.id);
  Bytes sk      = usable_key(c, p, false);
  unsigned served = op == 0 ? (unsigned)c.draw(4) : 0;
  Bytes unusable  = op == 0 ? one_zero_key(c, p, (unsigned)c.draw(num_places(p))) : Bytes();
  Script s(c.draw(0));
  std::string d;
  for (unsigned i = 0; i < served; i++) s.op.push_back(0), d += "full,";
  unsigned faults = (unsigned)c.range(1, 3);
  for (unsigned i = 0; i < faults; i++) {
    s.op.push_back(c.chance(1, 2) ? 2 : 1);
    d += s.op.back() == 1 ? "error," : "short,";
  }
  for (unsigned i = 0; i < s.op.size(); i++) s.err.push_back(c.pick({EIO, EAGAIN, EINTR, ENOSYS, EFAULT}));
  s.fail_after = !c.chance(1, 3);
  d += s.fail_after ? "broken" : "recovers";
  unsigned given = 0;
  s.fill = [&](u8* b, size_t n) {
    if (op == 0 && s.i <= served && !s.failed)
      for (size_t k = 0; k < n; k++) b[k] = unusable[given++ % unusable.size()];
    else
      for (size_t k = 0; k < n; k++) b[k] = (u8)s.r.next();
  };
  g_feed.fn = [&](u8* b, size_t n) { return s(b, n); };
  c.note(std::string("set=") + p.name + " " + (op == 0 ? "keygen" : op == 1 ? "sign" : "sign_with_randomness") + " source=" + d);
  c.label(op == 0 ? "keygen" : op == 1 ? "sign" : "sign_with_randomness");
  Bytes m = c.bytes(c.length(64));
  if (op == 0) {
    Bytes pk(a.pk, 0x11), k(a.sk, 0x22);
    int r = a.keygen(pk.data(), k.data());
    if (r == 0) {
      Bytes all = g_feed.all();
      c.require(!s.fail_after || !s.failed, "keygen returned 0 although the random source failed (" + d + ")");
      c.require(contains(all, k.data(), p.owf_in()) && contains(all, k.data() + p.owf_in(), p.LB()),
                "keygen returned 0 with a private key holding undelivered bytes (" + d + "): " + hex(k, 64));
      c.require(ref::owf_sk(p, k.data()).usable() && pk == ref::pk_of_sk(p, k.data()), "keygen returned 0 with an invalid pair");
    }
    if (s.failed) c.nontrivial(pbt::hash_str(d, s.r.s ^ p.id));
  } else {
    Bytes sig(a.sig, 0x77);
    size_t len = a.sig;
    int r;
    if (op == 1) {
      r = a.sign(sk.data(), nz(m), m.size(), sig.data(), &len);
      if (r == 0) {
        c.require(!s.fail_after || !s.failed, "sign returned 0 although the random source failed (" + d + ")");
        Bytes all = g_feed.all();
        bool ok   = false;
        for (size_t o = 0; !ok && o + p.LB() <= all.size() && o < 64; o++)
          ok = ref::sign(p, sk.data(), m.data(), m.size(), &all[o], p.LB()) == sig;
        c.require(ok, "sign returned 0 with randomness that was not delivered (" + d + ")");
      }
      if (s.failed) c.nontrivial(pbt::hash_str(d, s.r.s ^ p.id));
    } else {
      Bytes rho = c.bytes(p.LB());
      r         = a.signr(sk.data(), nz(m), m.size(), rho.data(), rho.size(), sig.data(), &len);
      c.eqi(r, 0, "sign_with_randomness result with a broken random source");
      c.eqi(a.verify(ref::pk_of_sk(p, sk.data()).data(), nz(m), m.size(), sig.data(), len), 0, "verify with a broken random source");
      c.nontrivial(pbt::hash_bytes(sig.data(), 64));
    }
  }
  g_feed.fn = nullptr;
}

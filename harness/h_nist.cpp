// The NIST signed-message API
#include "nist.hpp"
#include <algorithm>

PROP(C17_roundtrip,
     "a key (generated through the NIST API or constructed), a message (any length incl. 0, rarely up to 120 kB) and a buffer arrangement "
     "(separate, in place for signing, in place for opening, both, signed message placed inside the same buffer at an overlap) are drawn: "
     "crypto_sign must give message || valid signature and the exact length, crypto_sign_open must return the same message and length, "
     "nothing is written outside the buffers; every case non-trivial; distinct by set, signed message and arrangement") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  Nist N        = nist(p.id);
  Bytes sk, pk;
  if (c.chance(1, 4)) {
    sk.resize(a.sk), pk.resize(a.pk);
    c.eqi(N.keypair(pk.data(), sk.data()), 0, "crypto_sign_keypair");
    c.eq(pk, ref::pk_of_sk(p, sk.data()), "public key");
  } else sk = usable_key(c, p), pk = ref::pk_of_sk(p, sk.data());
  Bytes m = gen_msg(c);
  unsigned inplace = (unsigned)c.draw(4), mis = (unsigned)c.draw(16);
  // overlapping but not coincident: the message begins before or behind the signed message, little or much
  size_t shift = inplace && c.chance(1, 2) ? (c.chance(1, 2) ? c.range(1, 40) : c.draw(m.size() + 32)) : 0;
  bool before  = shift && c.draw(2);
  static const char* an[] = {"separate", "sign in place", "open in place", "both in place"};
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " " + an[inplace] + " shift=" + (before ? "-" : "") + std::to_string(shift) + " sk=" + hex(sk));
  c.label(std::string("set ") + p.name);
  c.label(std::string(an[inplace]) + (shift ? before ? " (overlap, message first)" : " (overlap)" : ""));
  // the buffer leaves room for a shifted source or destination
  Buf area(m.size() + a.sig + shift, c.draw(2), mis), mb(m, c.draw(3), mis), out(m.size(), c.draw(3), mis);
  size_t total = m.size() + a.sig + shift, smo = before ? shift : 0, mo = before ? 0 : shift;
  Bytes junk = c.bytes(64);
  for (size_t i = 0; i < total; i++) area.data()[i] = junk[i % 64];
  u8* sm = area.data() + smo;
  unsigned long long smlen = 77, mlen = 88;
  const u8* src = mb.data();
  if (inplace & 1) {
    src = area.data() + mo;
    if (!m.empty()) memcpy(area.data() + mo, m.data(), m.size());
  }
  auto outside = [&](const Bytes& was, size_t from, size_t n, const char* who) { // nothing but [from, from + n) changed
    for (size_t i = 0; i < total; i++)
      if ((i < from || i >= from + n) && area.data()[i] != was[i]) c.require(false, std::string(who) + " wrote outside its output");
  };
  Bytes was(area.data(), area.data() + total);
  c.eqi(N.sign(sm, &smlen, m.empty() && !(inplace & 1) && c.chance(1, 2) ? out.data() : src, m.size(), sk.data()), 0, "crypto_sign result");
  c.eqi((long long)smlen, (long long)(m.size() + a.sig), "signed message length");
  c.eq(Bytes(sm, sm + m.size()), m, "message part of the signed message");
  c.eqi(a.verify(pk.data(), sm, m.size(), sm + m.size(), a.sig), 0, "signature part of the signed message");
  c.require(area.intact() && mb.get() == m && mb.intact(), "crypto_sign wrote elsewhere");
  outside(was, smo, smlen, "crypto_sign");
  Bytes smv(sm, sm + smlen);
  size_t dsto = before || shift <= a.sig ? mo : smo;
  u8* dst     = inplace & 2 ? area.data() + dsto : out.data();
  Buf bpk(pk, 0);
  bpk.protect();
  was.assign(area.data(), area.data() + total);
  c.eqi(N.open(dst, &mlen, sm, smlen, bpk.data()), 0, "crypto_sign_open result");
  c.eqi((long long)mlen, (long long)m.size(), "opened message length");
  c.eq(Bytes(dst, dst + m.size()), m, "opened message");
  c.require(area.intact() && out.intact(), "crypto_sign_open wrote outside its buffer");
  outside(was, dsto, inplace & 2 ? m.size() : 0, "crypto_sign_open");
  c.nontrivial(pbt::hash_bytes(smv.data(), smv.size(), p.id * 4 + inplace));
}
PROP(C17_reject,
     "from a signed message made by the reference signer, variants are drawn: every truncation kind, extension, change in the message part "
     "or in a chosen signature component, message shifted against the signature, other key, other set's signed message, arbitrary bytes; "
     "crypto_sign_open must accept exactly what the reference verification accepts, and on rejection return nonzero without putting the "
     "message into the output buffer; every case non-trivial; distinct by signed message and key") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  Nist N        = nist(p.id);
  Bytes sk = usable_key(c, p), pk = ref::pk_of_sk(p, sk.data());
  Bytes m   = c.bytes(c.length(300));
  Bytes sig(a.sig);
  size_t len = a.sig;
  c.eqi(a.signr(sk.data(), nz(m), m.size(), nullptr, 0, sig.data(), &len), 0, "sign");
  int n = (int)c.range(1, 4);
  while (n--) {
    Bytes sm(m), k(pk);
    sm.insert(sm.end(), sig.begin(), sig.end());
    std::string what;
    unsigned kind = (unsigned)c.draw(10);
    switch (kind) {
    case 0: sm.resize(c.draw(a.sig)), what = "shorter than a signature"; break;
    case 1: sm.resize(sm.size() - 1 - c.draw(std::min<size_t>(sm.size(), 40))), what = "truncated"; break;
    case 2: sm.resize(a.sig - 1 - c.draw(4)), what = "just shorter than a signature"; break;
    case 3: { Bytes e = c.bytes(c.range(1, 40)); sm.insert(sm.end(), e.begin(), e.end()); what = "extended"; break; }
    case 4: if (!m.empty()) { sm[c.draw(m.size())] ^= (u8)(1 << c.draw(8)); what = "message changed"; break; } // fallthrough
    case 5: { size_t o = m.size() + c.draw(a.sig); sm[o] ^= (u8)(1 << c.draw(8)); what = "signature changed"; break; }
    case 6: {
      size_t o = m.size() + (c.draw(2) ? p.off_ch3() + c.draw(p.LB() + 16) : c.draw(2) ? p.off_at() + c.draw(p.LB()) : p.off_ut() + c.draw(p.LB()));
      sm[o] ^= (u8)(1 << c.draw(8));
      what = "small component changed";
      break;
    }
    case 7: sm.insert(sm.begin() + c.draw(m.size() + 1), (u8)c.draw(256)), what = "byte inserted into the message"; break;
    case 8: k[c.draw(k.size())] ^= (u8)(1 << c.draw(8)), what = "other key"; break;
    default: sm = c.bytes(c.range(0, a.sig + 100)), what = "arbitrary bytes";
    }
    c.note(std::string("| ") + p.name + " mlen=" + std::to_string(m.size()) + " " + what);
    c.label(what);
    bool want = sm.size() >= a.sig && ref::verify(p, k.data(), sm.data(), sm.size() - a.sig, sm.data() + sm.size() - a.sig, a.sig);
    size_t room = sm.size() >= a.sig ? sm.size() - a.sig : 0;
    bool same   = c.chance(1, 4);
    Buf out(room, 0), in(sm, 0);
    unsigned long long mlen = 0xdeadbeef;
    int r = N.open(same ? in.data() : out.data(), &mlen, in.data(), sm.size(), k.data());
    c.require((r == 0) == want, what + ": crypto_sign_open returned " + std::to_string(r) + ", specification " + (want ? "accepts" : "rejects"));
    c.require(out.intact() && in.intact(), what + ": wrote outside its buffers");
    if (!want && !same && room >= 8)
      c.require(memcmp(out.data(), sm.data(), room) != 0, what + ": rejected message delivered");
    c.nontrivial(pbt::hash_bytes(sm.data(), sm.size(), pbt::hash_bytes(k.data(), k.size())));
  }
}

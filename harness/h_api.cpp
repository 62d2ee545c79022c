// Argument checks, outputs, histories, threads, key clearing, parameter tables.
#include "keys.hpp"
#include <algorithm>
#include <atomic>
#include <memory>
#include <thread>
#ifndef API_ONLY
extern "C" {
#include "instances.h"
}
#endif

// ------------------------------------------------------------------------------------------- C06
namespace {
size_t wrong_length(Ctx& c, size_t want) { // any length but the published one
  switch (c.draw(10)) {
  case 0: return 0;
  case 1: return want - 1;
  case 2: return want + 1;
  case 3: return c.draw(want);
  case 4: return want + 1 + c.draw(100000);
  case 5: return (size_t)ref::param(1 + (int)c.draw(12)).sig();
  case 6: return SIZE_MAX - c.draw(3);
  case 7: return want + ((size_t)1 << c.pick({16, 31, 32, 33, 48, 63}));
  case 8: return (size_t)0 - want;
  default: return want ^ ((size_t)1 << c.draw(64));
  }
}
} // namespace
PROP(C06_refused,
     "one public function (systematic, every set) is called with one or more mandatory pointers NULL, a signature buffer length below "
     "the published size, a null rho with non-zero length, an unusable private key (with any sufficient capacity), or a signature length other than the published one (off by one, other sets' "
     "sizes, equal modulo 2^16, 2^31, 2^32 or 2^63, huge); inputs are read-only guard-paged buffers, outputs canary-filled; the call must return "
     "nonzero, leave every output byte and the length as they were; every case non-trivial; distinct by arguments") {
  const auto& p = ref::param(pick_set12(c));
  const Api& a  = api(p.id);
  unsigned op   = (unsigned)c.strat(5);
  unsigned mis  = (unsigned)c.draw(16);
  Bytes vsk, vpk;
  if (c.chance(1, 2)) vsk = usable_key(c, p), vpk = ref::pk_of_sk(p, vsk.data());
  else vsk = c.bytes(a.sk), vpk = c.bytes(a.pk);
  Buf sk(vsk, 0), pk(vpk, 0), msg(c.bytes(c.length(100)), 0), rho(c.bytes(p.LB()), 0);
  Buf osk(a.sk, 0, mis), opk(a.pk, 0, mis), sig(a.sig, c.draw(2), mis);
  sk.protect(), pk.protect(), msg.protect(), rho.protect();
  const u8* mp = msg.size() ? msg.data() : nullptr;
  std::string d;
  int r = 0;
  size_t len = a.sig, before;
  static const char* on[] = {"keygen", "validate_keypair", "sign", "sign_with_randomness", "verify"};
  switch (op) {
  case 0: {
    unsigned k = (unsigned)c.range(1, 3);
    d = std::string(k & 1 ? "pk=NULL " : "") + (k & 2 ? "sk=NULL" : "");
    c.note(std::string("set=") + p.name + " keygen " + d);
    r = a.keygen(k & 1 ? nullptr : opk.data(), k & 2 ? nullptr : osk.data());
    break;
  }
  case 1: {
    unsigned k = (unsigned)c.range(1, 3);
    d = std::string(k & 1 ? "pk=NULL " : "") + (k & 2 ? "sk=NULL" : "");
    c.note(std::string("set=") + p.name + " validate_keypair " + d);
    r = a.validate(k & 1 ? nullptr : pk.data(), k & 2 ? nullptr : sk.data());
    break;
  }
  case 2:
  case 3: {
    unsigned k = (unsigned)c.range(1, op == 2 ? 4 : 5);
    if (c.chance(1, 4)) k |= 8;
    if (c.chance(1, 4)) k = 6; // nothing wrong but the key
    Bytes usk = shaped_sk(c, p, true);
    Buf bad(ref::owf_sk(p, usk.data()).usable() ? Bytes(a.sk, 0) : usk, 0);
    bad.protect();
    const u8* skp = sk.data();
    u8* sp        = sig.data();
    size_t* lp    = &len;
    const u8* rp  = c.chance(1, 2) ? rho.data() : nullptr;
    size_t rl     = rp ? c.draw(rho.size() + 1) : 0;
    switch (k & 7) {
    case 1: skp = nullptr, d = "sk=NULL"; break;
    case 2: sp = nullptr, d = "signature=NULL"; break;
    case 3: lp = nullptr, d = "length=NULL"; break;
    case 4: len = c.chance(1, 2) ? a.sig - 1 - c.draw(16) : c.draw(a.sig), d = "capacity " + std::to_string(len); break;
    case 6: skp = bad.data(), len = a.sig + c.pick<size_t>({0, 1, 100, 70000, SIZE_MAX - a.sig}), d = "unusable key, capacity " + std::to_string(len); break;
    default: rp = nullptr, rl = c.chance(1, 4) ? SIZE_MAX : c.range(1, 64), d = "rho=NULL length " + std::to_string(rl);
    }
    if (k & 8) {
      if (c.draw(2)) sp = nullptr, d += " signature=NULL";
      else if (lp) len = c.draw(a.sig), d += " capacity " + std::to_string(len);
    }
    c.note(std::string("set=") + p.name + " " + on[op] + " " + d);
    before = len;
    r = op == 2 ? a.sign(skp, mp, msg.size(), sp, lp) : a.signr(skp, mp, msg.size(), rp, rl, sp, lp);
    c.require(len == before, std::string(on[op]) + " with " + d + " changed the reported length from " + std::to_string(before) + " to " + std::to_string(len));
    break;
  }
  default: {
    unsigned k    = (unsigned)c.draw(5);
    Buf vsig(c.bytes(a.sig), 0);
    vsig.protect();
    const u8* pp = pk.data();
    const u8* sp = vsig.data();
    if (k == 1) pp = nullptr, d = "pk=NULL";
    else if (k == 2) sp = nullptr, d = "signature=NULL";
    else {
      do len = wrong_length(c, a.sig); while (len == a.sig);
      d = "signature length " + std::to_string(len);
    }
    c.note(std::string("set=") + p.name + " verify " + d);
    r = a.verify(pp, mp, msg.size(), sp, len);
  }
  }
  c.label(std::string("set ") + p.name);
  c.label(std::string(on[op]) + " " + d.substr(0, d.find_first_of("0123456789")));
  c.require(r != 0, std::string(on[op]) + " with " + d + " returned 0");
  c.require(sig.intact() && sig.body_is_canary(), std::string(on[op]) + " with " + d + " wrote to the signature buffer");
  c.require(opk.intact() && opk.body_is_canary() && osk.intact() && osk.body_is_canary(), std::string(on[op]) + " with " + d + " wrote to a key buffer");
  c.nontrivial(pbt::hash_str(d + on[op], pbt::hash_bytes(vsk.data(), vsk.size(), p.id * 16 + mis)));
}
PROP(C06_outputs,
     "accepted and rejected calls of every function with all inputs in read-only, guard-paged memory and outputs between canaries or "
     "guard pages, with spare capacity (none, one byte, pages, claimed up to SIZE_MAX): exactly the published number of bytes is written, "
     "the length becomes the published size, nothing else changes; every case non-trivial; distinct by signature") {
  const auto& p = ref::param(pick_set(c));
  const Api& a  = api(p.id);
  Bytes vsk = usable_key(c, p), vpk = ref::pk_of_sk(p, vsk.data());
  Bytes m  = c.bytes(c.length(400));
  Rho rho  = gen_rho(c, p);
  unsigned mis = (unsigned)c.draw(16);
  Buf sk(vsk, c.draw(2)), pk(vpk, c.draw(2)), msg(m, c.draw(2)), br(rho.b, 0);
  sk.protect(), pk.protect(), msg.protect(), br.protect();
  size_t extra = c.pick<size_t>({0, 1, 15, 16, 4096, 10000});
  Buf sig(a.sig + extra, c.draw(3), mis);
  size_t len = a.sig + extra, claimed = c.chance(1, 8) ? c.pick<size_t>({SIZE_MAX, SIZE_MAX / 2 + 1, ((size_t)1 << 32) + a.sig - 1, ((size_t)1 << 32), (size_t)1 << 31}) : len;
  len = claimed;
  const u8* mp = m.empty() && c.chance(1, 2) ? nullptr : msg.data();
  bool drawn   = c.chance(1, 3);
  c.note(std::string("set=") + p.name + " mlen=" + std::to_string(m.size()) + " rho=" + (drawn ? "drawn" : rho.str()) + " capacity=" + std::to_string(claimed));
  c.label(std::string("set ") + p.name);
  int r = drawn ? a.sign(sk.data(), mp, m.size(), sig.data(), &len)
                : a.signr(sk.data(), mp, m.size(), rho.null ? nullptr : br.data(), rho.b.size(), sig.data(), &len);
  c.eqi(r, 0, "sign result");
  c.eqi((long long)len, (long long)a.sig, "reported length");
  c.require(sig.intact() && sig.body_is_canary(a.sig), "signing wrote beyond the signature");
  c.require(sk.get() == vsk && msg.get() == m && br.get() == rho.b, "signing changed an input");
  // the last bytes really were written (a canary that survives by chance has probability 2^-64)
  bool last = false;
  Buf fresh(a.sig, 0);
  for (size_t i = a.sig - 8; i < a.sig; i++) last |= sig.data()[i] != fresh.data()[i];
  c.require(last, "the last bytes of the signature were not written");
  Buf vs(Bytes(sig.data(), sig.data() + a.sig), 0);
  if (c.chance(1, 2)) vs.data()[c.draw(a.sig)] ^= (u8)c.range(1, 255);
  Bytes vcopy = vs.get();
  vs.protect();
  r = a.verify(pk.data(), mp, m.size(), vs.data(), a.sig);
  c.label(r ? "verify rejected" : "verify accepted");
  c.require(vs.get() == vcopy && vs.intact() && pk.get() == vpk && msg.get() == m, "verification changed an input");
  c.eqi(a.validate(pk.data(), sk.data()), 0, "validate_keypair");
  Buf ok(a.pk, c.draw(3), mis), os(a.sk, c.draw(3), mis);
  c.eqi(a.keygen(ok.data(), os.data()), 0, "keygen");
  c.require(ok.intact() && os.intact(), "keygen wrote outside its buffers");
  c.nontrivial(pbt::hash_bytes(vcopy.data(), vcopy.size(), p.id));
}

// ------------------------------------------------------------------------------------------- C08
namespace {
struct Job { // one call with its expected result
  int set = 0, op = 0; // op 0 sign, 1 verify good, 2 verify bad, 3 validate, 4 validate mismatch, 5 keygen, 6 refused sign, 7 sign with unusable key
  Bytes sk, pk, m, rho, sig, extra;
  u64 feed = 0;
  std::string str() const {
    static const char* n[] = {"sign", "verify", "verify tampered", "validate", "validate other", "keygen", "refused sign", "sign unusable", "sign drawn"};
    return std::string(ref::param(set).name) + ":" + n[op];
  }
};
struct View { // arguments somewhere else
  const u8* p;
  size_t n;
  const u8* data() const { return p; }
  size_t size() const { return n; }
  bool empty() const { return !n; }
};
struct ViewJob {
  int set, op;
  View sk, pk, m, rho, sig, extra;
  u64 feed;
};
void fill_feed(u64 seed) {
  pbt::Rng r(seed);
  g_feed.fn = [r](u8* b, size_t n) mutable {
    for (size_t i = 0; i < n; i++) b[i] = (u8)r.next();
    return (ssize_t)n;
  };
}
Bytes keygen_expect(const ref::Params& p, u64 seed) { // sk the documented procedure draws
  pbt::Rng r(seed);
  Bytes sk(p.sk());
  do
    for (auto& x : sk) x = (u8)r.next();
  while (!ref::owf_sk(p, sk.data()).usable());
  return sk;
}
void tamper(Ctx& c, Job& j) { // what a caller changes in place between two verifications
  j.op = 2;
  switch (c.draw(4)) {
  case 1:
    if (!j.m.empty()) {
      j.m[c.draw(j.m.size())] ^= (u8)(1 << c.draw(8));
      break;
    }
    [[fallthrough]];
  case 2: j.pk[c.draw(j.pk.size())] ^= (u8)(1 << c.draw(8)); break;
  case 3:
    if (!j.m.empty()) {
      j.m.pop_back();
      break;
    }
    [[fallthrough]];
  default: j.sig[c.draw(j.sig.size())] ^= (u8)(1 << c.draw(8));
  }
}
Job make_job(Ctx& c, const std::vector<Job>& base, bool slow) {
  Job j = base[c.draw(base.size())];
  (void)slow;
  switch (c.draw(9)) {
  case 0: j.op = 1; break;
  case 1: j.op = 0; break;
  case 2:
    tamper(c, j);
    break;
  case 3: j.op = 3; break;
  case 4:
    j.op = 4;
    j.pk[c.draw(j.pk.size())] ^= (u8)(1 << c.draw(8));
    break;
  case 5:
    j.op   = 5;
    j.feed = c.draw(0);
    break;
  case 6: j.op = 6; break;
  case 7: j.op = 7; break;
  default: j.op = 8, j.feed = c.draw(1u << 20); break;
  }
  return j;
}
// a copy of the job whose arguments lie at the same addresses as those of every other job in the arena
struct Arena {
  std::vector<u8> sk, pk, m, rho, sig;
  Arena() : sk(64), pk(64), m(16384), rho(4096), sig(70000) {}
  ViewJob place(const Job& j) {
    auto put = [](std::vector<u8>& d, const Bytes& b) {
      if (d.size() < b.size()) d.resize(b.size());
      if (!b.empty()) memcpy(d.data(), b.data(), b.size());
      return View{d.data(), b.size()};
    };
    return {j.set, j.op, put(sk, j.sk), put(pk, j.pk), put(m, j.m), put(rho, j.rho), put(sig, j.sig), View{j.extra.data(), j.extra.size()}, j.feed};
  }
};
using ::nz;
const u8* nz(const View& v) { return v.p; }
// runs one call in the given output buffer; empty string = as expected
template <class J> std::string run_job(const J& j, u8* out) {
  const auto& p = ref::param(j.set);
  const Api& a  = api(j.set);
  switch (j.op) {
  case 0: {
    size_t len = a.sig;
    int r = a.signr(j.sk.data(), nz(j.m), j.m.size(), nz(j.rho), j.rho.size(), out, &len);
    if (r || len != a.sig) return "sign returned " + std::to_string(r);
    if (memcmp(out, j.sig.data(), a.sig)) return "sign gave other bytes than before";
    return "";
  }
  case 1: {
    int r = a.verify(j.pk.data(), nz(j.m), j.m.size(), j.sig.data(), j.sig.size());
    return r ? "verify rejected a valid signature with " + std::to_string(r) : "";
  }
  case 2: {
    int r = a.verify(j.pk.data(), nz(j.m), j.m.size(), j.sig.data(), j.sig.size());
    return r ? "" : "verify accepted a tampered signature";
  }
  case 3: return a.validate(j.pk.data(), j.sk.data()) ? "validate refused a matching pair" : "";
  case 4: return a.validate(j.pk.data(), j.sk.data()) ? "" : "validate accepted a mismatch";
  case 5: {
    fill_feed(j.feed);
    int r = a.keygen(out, out + a.pk);
    g_feed.fn = nullptr;
    if (r) return "keygen returned " + std::to_string(r);
    Bytes e = keygen_expect(p, j.feed);
    if (memcmp(out + a.pk, e.data(), a.sk)) return "keygen gave another private key";
    if (memcmp(out, ref::pk_of_sk(p, e.data()).data(), a.pk)) return "keygen gave another public key";
    return "";
  }
  case 6: {
    size_t len = a.sig - 1;
    return a.signr(j.sk.data(), nz(j.m), j.m.size(), nullptr, 0, out, &len) ? "" : "undersized sign succeeded";
  }
  case 7: {
    size_t len = a.sig;
    Bytes z(a.sk, 0);
    return a.signr(z.data(), nz(j.m), j.m.size(), nullptr, 0, out, &len) ? "" : "sign with the all-zero key succeeded";
  }
  default: {
    size_t len = a.sig;
    fill_feed(j.feed);
    int r = a.sign(j.sk.data(), nz(j.m), j.m.size(), out, &len);
    g_feed.fn = nullptr;
    if (r) return "sign (drawn) returned " + std::to_string(r);
    if (!j.extra.empty() && memcmp(out, j.extra.data(), a.sig)) return "sign with the same drawn bytes gave another signature";
    return "";
  }
  }
}
// the same value, or one that differs from it as little as possible (a cache keyed by part of it would confuse them)
Bytes related(Ctx& c, Bytes x) {
  switch (c.draw(6)) {
  case 0: break;
  case 1: if (!x.empty()) x.back() ^= (u8)c.range(1, 255); break;
  case 2: if (!x.empty()) x.front() ^= (u8)c.range(1, 255); break;
  case 3: if (!x.empty()) x[c.draw(x.size())] ^= (u8)(1u << c.draw(8)); break;
  case 4: x.push_back((u8)c.draw(2)); break;
  default: if (!x.empty()) std::swap(x[c.draw(x.size())], x[c.draw(x.size())]);
  }
  return x;
}
Bytes related_key(Ctx& c, const ref::Params& p, const Bytes& from, const Bytes& other) {
  Bytes r(other);
  pbt::Rng g(c.draw(0));
  unsigned kind = (unsigned)c.draw(8), at = (unsigned)c.draw(p.sk());
  if (kind == 0) return r; // unrelated
  for (int t = 0; t < 200; t++) {
    for (size_t i = 0; i < r.size() && i < from.size(); i++) r[i] = from[i];
    size_t in = p.owf_in();
    auto rnd = [&](size_t a, size_t b) { for (size_t i = a; i < b && i < r.size(); i++) r[i] = (u8)g.next(); };
    switch (kind) {
    case 1: break;                                  // the same bytes (also for another set)
    case 2: rnd(in, r.size()); break;               // same one-way function input
    case 3: rnd(0, in); break;                      // same secret
    case 4: rnd(16, in); break;                     // same first block of the input
    case 5: rnd(at, at + 1); break;                 // one byte
    case 6: rnd(in - 4, in); break;                 // last bytes of the input
    default: rnd(r.size() - 4, r.size());           // last bytes of the secret
    }
    if (ref::owf_sk(p, r.data()).usable()) return r;
    if (kind == 1) return other;
  }
  return other;
}
std::vector<Job> make_base(Ctx& c, int n, bool slow) {
  std::vector<Job> base;
  for (int i = 0; i < n; i++) {
    Job j;
    j.set = i && c.chance(1, 3) ? base[c.draw(base.size())].set : pick_set(c, slow && i == 0);
    const auto& p = ref::param(j.set);
    j.sk  = usable_key(c, p);
    if (i) j.sk = related_key(c, p, base[c.draw(base.size())].sk, j.sk);
    j.pk  = ref::pk_of_sk(p, j.sk.data());
    j.m   = i && c.chance(1, 2) ? related(c, base.back().m) : c.bytes(c.chance(1, 3) ? c.range(500, 9000) : c.length(200));
    j.rho = i && c.chance(1, 2) ? related(c, base.back().rho) : c.bytes(c.pick<size_t>({0, 8, 16, 24, 32}));
    j.sig = ref::sign(p, j.sk.data(), j.m.data(), j.m.size(), j.rho.data(), j.rho.size());
    base.push_back(j);
  }
  return base;
}
} // namespace
PROP(C08_history,
     "a history of 6-14 calls over 1-3 (set, key, message, rho) combinations, unrelated or differing as little as possible (one byte, one half, "
     "only the set), arguments at fresh or always the same addresses - signing, verification of valid signatures and with a changed signature, message or key, "
     "key validation, key generation and randomised signing from a given stream, refused calls - all into one reused, never cleaned "
     "output buffer at drawn offsets, with repetitions; each result must equal the reference model's for its arguments; "
     "non-trivial = at least two signatures or verdicts preceded by other calls; distinct by history") {
  auto base = make_base(c, (int)c.range(1, 3), true);
  int n     = (int)c.range(6, 14);
  std::vector<u8> scratch(70000);
  std::vector<Job> done;
  bool fixed = c.chance(1, 2);
  Arena arena;
  Bytes junk = c.bytes(256);
  for (size_t i = 0; i < scratch.size(); i++) scratch[i] = junk[i % 256];
  u64 h = 0;
  int heavy = 0;
  std::string d;
  for (int i = 0; i < n; i++) {
    Job j = !done.empty() && c.chance(1, 3) ? done[c.draw(done.size())] : make_job(c, base, true);
    if (!done.empty() && done.back().op <= 1 && c.chance(1, 3)) { // right after a use of the valid values
      j = done.back();
      tamper(c, j);
    }
    if (j.op == 8 && j.extra.empty()) {
      // first time: the model says what the bytes are
      const auto& p = ref::param(j.set);
      pbt::Rng r(j.feed);
      Bytes rho(p.LB());
      for (auto& x : rho) x = (u8)r.next();
      j.extra = ref::sign(p, j.sk.data(), j.m.data(), j.m.size(), rho.data(), rho.size());
    }
    if (j.op == 2) {
      const auto& p = ref::param(j.set);
      if (ref::verify(p, j.pk.data(), j.m.data(), j.m.size(), j.sig.data(), j.sig.size())) j.op = 1;
    }
    d += j.str() + " ";
    u8* out       = scratch.data() + (fixed ? 0 : c.draw(64));
    std::string e = fixed ? run_job(arena.place(j), out) : run_job(j, out);
    c.require(e.empty(), "call " + std::to_string(i) + " of history [" + d + "]: " + e);
    heavy += j.op <= 2 || j.op == 8;
    h = pbt::hash_str(j.str(), h ^ pbt::hash_bytes(j.sk.data(), j.sk.size()));
    done.push_back(j);
  }
  c.note(d);
  c.label(std::to_string(base.size()) + " argument combinations");
  if (heavy >= 2) c.nontrivial(h);
}
PROP(C08_threads,
     "2-6 threads each run a drawn sequence of 1-4 calls (same or different sets, keys and outputs, shared read-only inputs), started "
     "together; every result must equal the reference model's (and under ThreadSanitizer no data race may be reported); "
     "non-trivial = at least two threads with a sign or verify call; distinct by schedule of calls") {
  bool small = getenv("C08_SMALL") != nullptr;
  auto base  = make_base(c, (int)c.range(1, 3), false);
  if (small) // keep sanitizer runs short: cheapest sets
    for (auto& j : base) {
      const auto& p = ref::param(c.chance(1, 2) ? 2 : 8);
      j.set = p.id;
      j.sk  = usable_key(c, p);
      j.pk  = ref::pk_of_sk(p, j.sk.data());
      j.sig = ref::sign(p, j.sk.data(), j.m.data(), j.m.size(), j.rho.data(), j.rho.size());
    }
  int nt = (int)c.range(2, 6);
  std::vector<std::vector<Job>> q((size_t)nt);
  std::string d;
  int heavy = 0;
  for (auto& v : q) {
    int k = (int)c.range(1, small ? 2 : 4);
    bool hv = false;
    while (k--) {
      Job j = make_job(c, base, false);
      if (j.op == 2 && ref::verify(ref::param(j.set), j.pk.data(), j.m.data(), j.m.size(), j.sig.data(), j.sig.size())) j.op = 1;
      hv |= j.op <= 2 || j.op == 8;
      d += j.str() + " ";
      v.push_back(j);
    }
    heavy += hv;
    d += "| ";
  }
  c.note(d);
  std::vector<std::string> err((size_t)nt);
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      std::vector<u8> out(70000, (u8)t);
      ready.fetch_add(1);
      while (ready.load() < nt) std::this_thread::yield();
      for (auto& j : q[t]) {
        std::string e = run_job(j, out.data());
        if (!e.empty()) {
          err[t] = j.str() + ": " + e;
          return;
        }
      }
    });
  for (auto& t : th) t.join();
  for (auto& e : err) c.require(e.empty(), "concurrent call " + e);
  c.label(std::to_string(nt) + " threads");
  if (heavy >= 2) c.nontrivial(pbt::hash_str(d, pbt::hash_bytes(base[0].sk.data(), base[0].sk.size())));
}

// ------------------------------------------------------------------------------------------- C19
PROP(C19_clear,
     "a private key buffer with drawn contents, placement and misalignment is cleared; exactly the published number of bytes must be "
     "zero and every byte around them unchanged; non-trivial = contents not all zero; distinct by set, contents and placement") {
  const auto& p = ref::param(pick_set12(c));
  const Api& a  = api(p.id);
  unsigned mode = (unsigned)c.draw(3), mis = (unsigned)c.draw(16);
  size_t extra  = c.pick<size_t>({0, 1, 8, 64, 300});
  Bytes all = c.bytes(a.sk + extra);
  Buf k(all, mode, mis);
  c.note(std::string("set=") + p.name + " extra=" + std::to_string(extra) + " key=" + hex(all));
  c.label(std::string("set ") + p.name);
  a.clear(k.data());
  Bytes want(all);
  std::fill(want.begin(), want.begin() + p.sk(), 0);
  c.eq(k.get(), want, "buffer after clear_private_key");
  c.require(k.intact(), "clear_private_key wrote outside the buffer");
  if (std::any_of(all.begin(), all.end(), [](u8 x) { return x; })) c.nontrivial(pbt::hash_bytes(all.data(), all.size(), p.id * 64 + mode * 16 + mis));
}

// ------------------------------------------------------------------------------------------- C22
#ifndef API_ONLY
PROP(C22_tables,
     "for an identifier (systematic over -3..40, else any 32-bit value) the record, name and sizes must equal the parameter definitions "
     "recomputed by the model; identifiers that denote no set must give the empty record and a name no set has; non-trivial = all; "
     "distinct by identifier") {
  static const char* names[14] = {"PARAMETER_SET_INVALID", "FAEST_128S", "FAEST_128F", "FAEST_192S", "FAEST_192F", "FAEST_256S", "FAEST_256F",
                                  "FAEST_EM_128S", "FAEST_EM_128F", "FAEST_EM_192S", "FAEST_EM_192F", "FAEST_EM_256S", "FAEST_EM_256F", nullptr};
  u64 s = c.strat(64);
  int id = s < 44 ? (int)s - 3 : (int)c.draw(0);
  c.note("id=" + std::to_string(id));
  faest_paramset_t ps = faest_get_paramset((faest_paramid_t)id);
  const char* nm      = faest_get_param_name((faest_paramid_t)id);
  c.require(nm != nullptr, "no name");
  const auto& f = ps.faest_param;
  if (id >= 1 && id <= 12) {
    const auto& p = ref::param(id);
    const Api& a  = api(id);
    c.label(p.name);
    c.eqi(ps.faest_paramid, id, "identifier in the record");
    c.require(std::string(nm) == names[id] && std::string(nm) == p.NAME, std::string("name ") + nm);
    c.eqi(f.lambda, p.lambda, "lambda");
    c.eqi(f.Nwd, p.Nb() == 4 ? p.Nk() : p.Nb(), "Nwd");
    c.eqi(f.R, p.R(), "R");
    c.eqi(f.Ske, p.Ske(), "Ske");
    c.eqi(f.Senc, p.Senc(), "Senc");
    c.eqi(f.l, p.ell(), "l");
    c.eqi(f.Lke, p.Lke(), "Lke");
    c.eqi(f.Lenc, p.Lenc(), "Lenc");
    c.eqi(f.tau, p.tau, "tau");
    c.eqi(f.k0, p.k0(), "k0");
    c.eqi(f.k1, p.k1(), "k1");
    c.eqi(f.t0, p.t0(), "t0");
    c.eqi(f.t1, p.t1(), "t1");
    c.eqi(f.k0 * f.t0 + f.k1 * f.t1, f.lambda, "k0*t0 + k1*t1");
    c.eqi(f.t0 + f.t1, f.tau, "t0 + t1");
    c.eqi(f.sigSize, (long long)p.sig(), "signature size in the record");
    c.eqi((long long)a.sig, (long long)p.sig(), "published signature size");
    c.eqi(f.pkSize, (long long)p.pk(), "public key size in the record");
    c.eqi((long long)a.pk, (long long)p.pk(), "published public key size");
    c.eqi((long long)a.sk, (long long)p.sk(), "published private key size");
    c.require(f.lambda <= MAX_LAMBDA && MAX_LAMBDA_BYTES * 8 == MAX_LAMBDA, "MAX_LAMBDA does not bound lambda");
    c.require(f.tau <= MAX_TAU, "MAX_TAU does not bound tau");
    c.require(f.k0 <= MAX_DEPTH && f.k1 <= MAX_DEPTH, "MAX_DEPTH does not bound the tree depth");
    c.require(UNIVERSAL_HASH_B_BITS == 16 && UNIVERSAL_HASH_B == 2 && IV_SIZE == 16, "hash padding or IV size");
  } else {
    c.label("no parameter set");
    c.eqi(ps.faest_paramid, PARAMETER_SET_INVALID, "identifier in the record");
    const uint16_t* w = (const uint16_t*)&ps.faest_param;
    for (size_t i = 0; i < sizeof(ps.faest_param) / 2; i++) c.eqi(w[i], 0, "field " + std::to_string(i) + " of the record for id " + std::to_string(id));
    for (int i = 1; i <= 12; i++) c.require(std::string(nm) != names[i], std::string("name of ") + names[i] + " given to id " + std::to_string(id));
  }
  c.nontrivial((u64)(unsigned)id);
}
#else
PROP(C22_tables, "published sizes of every set must equal the parameter definitions; non-trivial = all; distinct by identifier") {
  int id        = 1 + (int)c.strat(12);
  const auto& p = ref::param(id);
  const Api& a  = api(id);
  c.note(p.name);
  c.eqi((long long)a.sig, (long long)p.sig(), "published signature size");
  c.eqi((long long)a.pk, (long long)p.pk(), "published public key size");
  c.eqi((long long)a.sk, (long long)p.sk(), "published private key size");
  c.nontrivial((u64)id);
}
#endif

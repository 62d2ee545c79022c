// Vector commitments, VOLE, and the zero-knowledge proof of the one-way function.
#include "keys.hpp"
extern "C" {
#include "aes.h"
#include "vc.h"
#include "vole.h"
#include "faest_aes.h"
#include "instances.h"
}

namespace {
const faest_paramset_t& params_of(int id) {
  static faest_paramset_t t[13];
  static bool init = [] {
    for (int i = 1; i <= 12; i++) t[i] = faest_get_paramset((faest_paramid_t)i);
    return true;
  }();
  (void)init;
  return t[id];
}
const int set_of_lambda[3][4] = {{1, 2, 7, 8}, {3, 4, 9, 10}, {5, 6, 11, 12}};
size_t node(unsigned d, size_t j) { return ((size_t)1 << d) - 1 + j; }
struct Com { // a commitment made by the library, freed on scope exit
  vec_com_t v;
  ~Com() { vec_com_clear(&v); }
};
} // namespace

// ------------------------------------------------------------------------------------------- C14
PROP(C14_tree,
     "level, depth (systematic, 1-12), hidden index, root seed and IV are drawn; every node, seed, commitment and the hash of the library's "
     "tree must equal the model's; the opening must be the model's sibling path and hold no node on the way to the hidden leaf; the "
     "reconstruction (exact-size buffers at guard pages) must give every other leaf and the same hash; vector_verify must accept; every "
     "case non-trivial; distinct by level, depth, index, seed and IV") {
  unsigned li = (unsigned)c.strat(3), depth = 1 + (unsigned)c.strat(12);
  int id        = set_of_lambda[li][c.draw(4)];
  const auto& p = ref::param(id);
  const int LB  = p.LB();
  const size_t N = (size_t)1 << depth;
  unsigned idx;
  switch (c.draw(4)) {
  case 0: idx = 0; break;
  case 1: idx = (unsigned)N - 1; break;
  default: idx = (unsigned)c.draw(N);
  }
  Bytes root = c.bytes(LB), iv = c.bytes(16);
  c.note("lambda=" + std::to_string(p.lambda) + " depth=" + std::to_string(depth) + " index=" + std::to_string(idx) + " root=" + hex(root) + " iv=" + hex(iv));
  c.label("depth " + std::to_string(depth));
  ref::VC m = ref::vc_commit(p.lambda, (int)depth, root.data(), iv.data());
  Buf br(root, 0), bi(iv, 1);
  Com cm;
  vector_commitment(br.data(), bi.data(), &params_of(id), (uint32_t)p.lambda, &cm.v, depth);
  for (unsigned d = 0; d <= depth; d++)
    c.eq(cm.v.k + node(d, 0) * LB, m.level[d].data(), m.level[d].size(), "tree level " + std::to_string(d));
  c.eq(cm.v.sd, m.sd.data(), m.sd.size(), "leaf seeds");
  c.eq(cm.v.com, m.com.data(), m.com.size(), "leaf commitments");
  c.eq(cm.v.h, m.h.data(), 2 * LB, "commitment hash");
  // index encoding
  Buf bits(depth, 0);
  c.eqi(BitDec(idx, depth, bits.data()), 1, "BitDec result");
  for (unsigned i = 0; i < depth; i++) c.eqi(bits.data()[i], (idx >> i) & 1, "BitDec bit " + std::to_string(i));
  c.require(bits.intact(), "BitDec wrote outside");
  c.eqi(NumRec(depth, bits.data()), idx, "NumRec");
  // opening
  Buf pdec((size_t)depth * LB, 0), comj(2 * LB, 0);
  vector_open(cm.v.k, cm.v.com, bits.data(), pdec.data(), comj.data(), depth, (uint32_t)LB);
  Bytes wp((size_t)depth * LB), wc(2 * LB);
  ref::vc_open(m, idx, wp.data(), wc.data());
  c.eq(pdec.get(), wp, "opening path");
  c.eq(comj.get(), wc, "opened commitment");
  c.require(pdec.intact() && comj.intact(), "vector_open wrote outside");
  for (unsigned d = 1; d <= depth; d++)
    for (unsigned e = 0; e <= depth; e++)
      c.require(memcmp(pdec.data() + (size_t)(d - 1) * LB, &m.level[e][(size_t)(idx >> (depth - e)) * LB], LB) != 0,
                "opening holds a node that determines the hidden leaf");
  // reconstruction
  Buf rh(2 * LB, 0), rk((size_t)((2 * N - 1)) * LB, 0), rc(N * 2 * LB, 0), rs(N * LB, 0);
  vec_com_rec_t rec = {rh.data(), rk.data(), rc.data(), rs.data()};
  vector_reconstruction(bi.data(), pdec.data(), comj.data(), bits.data(), (uint32_t)p.lambda, depth, &rec);
  c.require(rh.intact() && rk.intact() && rc.intact() && rs.intact(), "reconstruction wrote outside its buffers");
  for (size_t j = 0; j < N; j++)
    if (j != idx) c.eq(rec.s + j * LB, m.sd.data() + j * LB, LB, "reconstructed seed " + std::to_string(j));
  c.eq(rc.get(), m.com, "reconstructed commitments");
  c.eq(rh.get(), m.h, "reconstructed hash");
  vec_com_rec_t out;
  memset(&out, 0, sizeof out);
  c.eqi(vector_verify(bi.data(), pdec.data(), comj.data(), bits.data(), (uint32_t)p.lambda, depth, &out, cm.v.h), 1, "vector_verify");
  vec_com_rec_clear(&out);
  c.require(br.get() == root && bi.get() == iv, "inputs changed");
  c.eqi((long long)getBinaryTreeNodeCount(depth), (long long)(2 * N - 1), "node count");
  for (unsigned k = 0; k < 4; k++) {
    unsigned d = (unsigned)c.draw(depth + 1), j = (unsigned)c.draw(1u << d);
    c.eqi((long long)getNodeIndex(d, j), (long long)node(d, j), "node index");
  }
  unsigned over = (unsigned)N + (unsigned)c.draw(N);
  Buf none(depth, 0);
  c.eqi(BitDec(over, depth, none.data()), -1, "BitDec out of range");
  c.nontrivial(pbt::hash_bytes(root.data(), LB, pbt::hash_bytes(iv.data(), 16, depth * 10000 + idx + li * 1000000)));
}
PROP(C14_binding,
     "as C14_tree (depth to 9), then one bit of the opening, of the hidden leaf's commitment, of the IV, of the index, or several bytes, or "
     "the opening of another index or tree is used instead, or one bit of the commitment itself is (kind systematic, bit drawn); the "
     "reconstructed hash must equal the model's and differ from the commitment, and vector_verify must refuse; every case non-trivial; "
     "distinct by all inputs") {
  unsigned li = (unsigned)c.strat(3), kind = (unsigned)c.strat(8), depth = 1 + (unsigned)c.strat(9);
  int id        = set_of_lambda[li][c.draw(4)];
  const auto& p = ref::param(id);
  const int LB  = p.LB();
  const size_t N = (size_t)1 << depth;
  unsigned idx   = (unsigned)c.draw(N);
  Bytes root = c.random_bytes(LB), iv = c.bytes(16);
  Com cm;
  vector_commitment(root.data(), iv.data(), &params_of(id), (uint32_t)p.lambda, &cm.v, depth);
  Bytes bits(depth), pd((size_t)depth * LB), cj(2 * LB), h(cm.v.h, cm.v.h + 2 * LB);
  for (unsigned i = 0; i < depth; i++) bits[i] = (idx >> i) & 1;
  vector_open(cm.v.k, cm.v.com, bits.data(), pd.data(), cj.data(), depth, (uint32_t)LB);
  std::string d;
  auto flip = [&](Bytes& b) {
    size_t bit = c.draw(b.size() * 8);
    b[bit / 8] ^= (u8)(1 << (bit % 8));
    return std::to_string(bit);
  };
  switch (kind) {
  case 0: d = "opening bit " + flip(pd); break;
  case 1: d = "hidden commitment bit " + flip(cj); break;
  case 2: d = "IV bit " + flip(iv); break;
  case 3: {
    unsigned b = (unsigned)c.draw(depth);
    bits[b] ^= 1;
    idx ^= 1u << b;
    d = "index bit " + std::to_string(b);
    break;
  }
  case 4: { // opening of another index
    unsigned o = (idx + 1 + (unsigned)c.draw(N - 1)) % (unsigned)N;
    Bytes ob(depth);
    for (unsigned i = 0; i < depth; i++) ob[i] = (o >> i) & 1;
    vector_open(cm.v.k, cm.v.com, ob.data(), pd.data(), cj.data(), depth, (uint32_t)LB);
    d = "opening for index " + std::to_string(o);
    break;
  }
  case 5: { // path elements exchanged or repeated
    if (depth > 1) {
      unsigned a = (unsigned)c.draw(depth), b = (a + 1 + (unsigned)c.draw(depth - 1)) % depth;
      memcpy(&pd[a * LB], &pd[b * LB], LB);
      d = "path element " + std::to_string(b) + " copied to " + std::to_string(a);
    } else d = "opening bit " + flip(pd);
    break;
  }
  case 6: d = "commitment bit " + flip(h); break;
  default: {
    Bytes r2 = c.random_bytes(LB);
    Com c2;
    vector_commitment(r2.data(), iv.data(), &params_of(id), (uint32_t)p.lambda, &c2.v, depth);
    vector_open(c2.v.k, c2.v.com, bits.data(), pd.data(), cj.data(), depth, (uint32_t)LB);
    d = "opening of another tree";
  }
  }
  c.note("lambda=" + std::to_string(p.lambda) + " depth=" + std::to_string(depth) + " index=" + std::to_string(idx) + " " + d);
  c.label(d.substr(0, d.find_last_not_of("0123456789 ") + 1));
  Buf rh(2 * LB, 0), rk((size_t)((2 * N - 1)) * LB, 0), rc(N * 2 * LB, 0), rs(N * LB, 0);
  vec_com_rec_t rec = {rh.data(), rk.data(), rc.data(), rs.data()};
  vector_reconstruction(iv.data(), pd.data(), cj.data(), bits.data(), (uint32_t)p.lambda, depth, &rec);
  ref::VCRec m = ref::vc_reconstruct(p.lambda, (int)depth, iv.data(), idx, pd.data(), cj.data());
  c.eq(rh.get(), m.h, "reconstructed hash");
  c.require(rh.get() != h, "reconstructed hash still equals the commitment after change: " + d);
  vec_com_rec_t out;
  memset(&out, 0, sizeof out);
  c.eqi(vector_verify(iv.data(), pd.data(), cj.data(), bits.data(), (uint32_t)p.lambda, depth, &out, h.data()), 0, "vector_verify after change: " + d);
  c.nontrivial(pbt::hash_bytes(root.data(), LB, pbt::hash_str(d, depth * 10000 + idx)));
}

// ------------------------------------------------------------------------------------------- C15
PROP(C15_digits,
     "parameter set and challenge are drawn; decoding the digits of all repetitions must give every challenge bit exactly once in order, "
     "refuse repetition numbers beyond tau without writing, and NumRec/BitDec must be inverse; every case non-trivial; distinct by set "
     "and challenge") {
  const auto& p  = ref::param(pick_set12(c));
  const auto& fp = params_of(p.id).faest_param;
  Bytes chal     = c.bytes(p.LB());
  Buf bc(chal, 0);
  c.note(std::string("set=") + p.name + " challenge=" + hex(chal, 32));
  int pos = 0;
  for (int i = 0; i < p.tau; i++) {
    Buf out(p.depth(i), c.draw(2));
    c.eqi(ChalDec(bc.data(), (unsigned)i, fp.k0, fp.t0, fp.k1, fp.t1, out.data()), 1, "ChalDec result");
    for (int j = 0; j < p.depth(i); j++, pos++)
      c.eqi(out.data()[j], (chal[pos / 8] >> (pos % 8)) & 1, "digit " + std::to_string(i) + " bit " + std::to_string(j));
    c.require(out.intact(), "ChalDec wrote outside " + std::to_string(p.depth(i)) + " bytes");
    unsigned v = NumRec((unsigned)p.depth(i), out.data());
    c.eqi(v, ref::chal_index(p, chal.data(), i), "NumRec");
    Buf back(p.depth(i), 0);
    c.eqi(BitDec(v, (unsigned)p.depth(i), back.data()), 1, "BitDec result");
    c.eq(back.get(), out.get(), "BitDec(NumRec(x))");
  }
  c.eqi(pos, p.lambda, "bits covered");
  Buf out(16, 0);
  unsigned beyond = (unsigned)p.tau + (c.chance(1, 2) ? 0 : (unsigned)c.draw(100));
  c.eqi(ChalDec(bc.data(), beyond, fp.k0, fp.t0, fp.k1, fp.t1, out.data()), 0, "ChalDec beyond tau");
  c.require(out.body_is_canary(), "ChalDec wrote an output for a repetition beyond tau");
  c.nontrivial(pbt::hash_bytes(chal.data(), chal.size(), p.id));
}
PROP(C15_convert,
     "level, depth (1-12), output length, seeds and the bottom flag are drawn; ConvertToVole's columns and u must equal the definition "
     "(v_j = sum of expansions with index bit j set, u = sum of all); buffers at guard pages; every case non-trivial; distinct by inputs") {
  unsigned li = (unsigned)c.strat(3), depth = 1 + (unsigned)c.strat(12);
  const int lam = 128 + 64 * (int)li, LB = lam / 8;
  const size_t N = (size_t)1 << depth;
  size_t len = depth > 9 ? c.range(1, 40) : c.chance(1, 6) ? c.range(1, 800) : c.range(1, 70);
  Bytes iv = c.bytes(16), sd = c.random_bytes(N * LB);
  if (c.chance(1, 3)) { // only few nonzero seeds would still expand to noise; repeat seeds instead
    size_t a = c.draw(N), b = c.draw(N);
    memcpy(&sd[a * LB], &sd[b * LB], LB);
  }
  bool bot = c.chance(1, 2);
  bool wantu = c.chance(3, 4);
  c.note("lambda=" + std::to_string(lam) + " depth=" + std::to_string(depth) + " len=" + std::to_string(len) + (bot ? " bot" : "") + " iv=" + hex(iv));
  c.label(std::string("depth ") + std::to_string(depth) + (bot ? " bot" : ""));
  Bytes u;
  std::vector<Bytes> cols;
  ref::seeds_to_columns(lam, iv.data(), sd.data(), (int)depth, len, 0, bot, &u, cols);
  Buf bs(sd, 0), bi(iv, 0), bu(len, 0), bv(depth * len, 0);
  ConvertToVole(bi.data(), bs.data(), bot, (unsigned)lam, depth, (unsigned)len, bot || !wantu ? nullptr : bu.data(), bv.data());
  for (unsigned j = 0; j < depth; j++) c.eq(bv.data() + j * len, cols[j].data(), len, "column " + std::to_string(j));
  if (!bot && wantu) c.eq(bu.get(), u, "u");
  else c.require(bu.body_is_canary(), "u written although not asked for");
  c.require(bv.intact() && bu.intact() && bs.get() == sd && bi.get() == iv, "buffers other than the outputs changed");
  c.nontrivial(pbt::hash_bytes(sd.data(), sd.size() < 512 ? sd.size() : 512, depth * 4096 + len + (bot ? 1 << 20 : 0)));
}
PROP(C15_vole,
     "parameter set, root seed, IV, column length (the scheme's or 1-60 bytes, also lengths in bits that are no multiple of 8) and "
     "challenge (structured: zero, all ones, single bits, random) are drawn; commitment, corrections, u and V must equal the model's; "
     "openings are taken with vector_open; the verifier's hash must equal the committed one and q = v + delta*u_i must hold for every "
     "column; finally one opening bit is changed and the hash must differ; every case non-trivial; distinct by set, seed, IV, challenge") {
  int id         = c.thorough ? pick_set(c) : pick_set(c, c.chance(1, 6));
  const auto& p  = ref::param(id);
  const auto* fp = &params_of(id);
  const int LB   = p.LB();
  Bytes root = c.bytes(LB), iv = c.bytes(16), chal = c.bytes(LB);
  unsigned ellhat = c.chance(1, 8) ? (unsigned)p.ellhat() : 1 + (unsigned)c.draw(480);
  const size_t len = (ellhat + 7) / 8;
  c.note(std::string("set=") + p.name + " bits=" + std::to_string(ellhat) + " root=" + hex(root) + " iv=" + hex(iv) + " challenge=" + hex(chal));
  c.label(std::string("set ") + p.name);
  ref::VoleCom m = ref::vole_commit(p, root.data(), iv.data(), len);
  Buf br(root, 0), bi(iv, 0), bc(chal, 0);
  Buf hcom(2 * LB, 0), cc((p.tau - 1) * len, 0), u(len, 0), V((size_t)p.lambda * len, 0), Q((size_t)p.lambda * len, 0), hrec(2 * LB, 0);
  std::vector<u8*> v((size_t)p.lambda), q((size_t)p.lambda);
  for (int i = 0; i < p.lambda; i++) v[i] = V.data() + i * len, q[i] = Q.data() + i * len;
  std::vector<vec_com_t> vc((size_t)p.tau);
  struct Free {
    std::vector<vec_com_t>& v;
    ~Free() { for (auto& x : v) vec_com_clear(&x); }
  } fr{vc};
  vole_commit(br.data(), bi.data(), ellhat, fp, hcom.data(), vc.data(), cc.data(), u.data(), v.data());
  c.eq(hcom.get(), m.hcom, "commitment hash");
  c.eq(cc.get(), m.c, "corrections");
  c.eq(u.get(), m.u, "u");
  for (int i = 0; i < p.lambda; i++) c.eq(v[i], m.V[i].data(), len, "V column " + std::to_string(i));
  c.require(hcom.intact() && cc.intact() && u.intact() && V.intact(), "vole_commit wrote outside its outputs");
  // open
  std::vector<Bytes> open((size_t)p.tau), com((size_t)p.tau);
  std::vector<const u8*> pd, pc;
  for (int i = 0; i < p.tau; i++) {
    u8 bits[16];
    ChalDec(bc.data(), (unsigned)i, fp->faest_param.k0, fp->faest_param.t0, fp->faest_param.k1, fp->faest_param.t1, bits);
    open[i].resize((size_t)p.depth(i) * LB);
    com[i].resize(2 * LB);
    vector_open(vc[i].k, vc[i].com, bits, open[i].data(), com[i].data(), (uint32_t)p.depth(i), (uint32_t)LB);
    pd.push_back(open[i].data());
    pc.push_back(com[i].data());
  }
  vole_reconstruct(bi.data(), bc.data(), pd.data(), pc.data(), hrec.data(), q.data(), ellhat, fp);
  c.require(hrec.intact() && Q.intact(), "vole_reconstruct wrote outside its outputs");
  c.eq(hrec.get(), hcom.get(), "reconstructed hash");
  for (int i = 0, col = 0; i < p.tau; i++)
    for (int j = 0; j < p.depth(i); j++, col++) {
      Bytes want(v[col], v[col] + len);
      if ((chal[col / 8] >> (col % 8)) & 1)
        for (size_t k = 0; k < len; k++) want[k] ^= u.data()[k] ^ (i ? cc.data()[(i - 1) * len + k] : 0);
      c.eq(q[col], want.data(), len, "q = v + delta*u, column " + std::to_string(col));
    }
  c.require(br.get() == root && bi.get() == iv && bc.get() == chal, "inputs changed");
  // a wrong opening changes the hash
  int i      = (int)c.draw(p.tau);
  Bytes& b   = c.chance(1, 3) ? com[i] : open[i];
  size_t bit = c.draw(b.size() * 8);
  b[bit / 8] ^= (u8)(1 << (bit % 8));
  vole_reconstruct(bi.data(), bc.data(), pd.data(), pc.data(), hrec.data(), q.data(), ellhat, fp);
  c.require(hrec.get() != hcom.get(), "hash unchanged by an altered opening of repetition " + std::to_string(i));
  c.nontrivial(pbt::hash_bytes(root.data(), LB, pbt::hash_bytes(chal.data(), LB, pbt::hash_bytes(iv.data(), 16, id))));
}

// ------------------------------------------------------------------------------------------- C16
namespace {
// runs the one-way function with the S-box output number `place` changed by `delta`, everything else consistent:
// witness and output then violate exactly one constraint; false when another S-box input became zero (which would be a second one)
bool tampered(const ref::Params& p, const u8* key, const u8* in, unsigned place, u8 delta, Bytes& w, Bytes& out) {
  using ref::Rijndael;
  Rijndael ci(p.em ? in : key, p.Nk(), p.Nb());
  const int Nk = p.Nk(), nb = 4 * p.Nb();
  bool ok = true;
  if ((int)place < p.Ske()) {
    int seen = -1;
    std::vector<std::array<u8, 4>> t(ci.w);
    for (int k = Nk; k < (int)t.size(); k++) {
      auto x = t[k - 1];
      if (k % Nk == 0) x = {x[1], x[2], x[3], x[0]};
      if (Rijndael::sboxed(Nk, k)) {
        ++seen;
        for (int i = 0; i < 4; i++) {
          ok &= x[i] != 0;
          x[i] = ref::SB().s[x[i]];
          if (seen == (int)place / 4 && i == (int)place % 4) x[i] ^= delta;
        }
      }
      if (k % Nk == 0) x[0] ^= Rijndael::rcon(k / Nk);
      for (int i = 0; i < 4; i++) t[k][i] = t[k - Nk][i] ^ x[i];
    }
    ci.w = t;
  }
  w.assign(key, key + p.LB());
  if (!p.em)
    for (int k = Nk; k < 4 * (p.R() + 1); k++)
      if (Rijndael::sboxed(Nk, k)) w.insert(w.end(), ci.w[k].begin(), ci.w[k].end());
  out.assign(p.owf_in(), 0);
  for (int b = 0; b < p.beta(); b++) {
    u8 st[32];
    memcpy(st, p.em ? key : in + 16 * b, nb);
    ci.addkey(st, 0);
    for (int r = 1; r <= p.R(); r++) {
      for (int i = 0; i < nb; i++) {
        ok &= st[i] != 0;
        st[i] = ref::SB().s[st[i]];
        if ((int)place >= p.Ske() && (int)place - p.Ske() == (b * p.R() + r - 1) * nb + i) st[i] ^= delta;
      }
      ci.shiftrows(st);
      if (r < p.R()) {
        w.insert(w.end(), st, st + nb);
        ci.mix(st);
      }
      ci.addkey(st, r);
    }
    for (int i = 0; i < nb; i++) out[(p.em ? 0 : 16 * b) + i] = st[i] ^ (p.em ? key[i] : 0);
  }
  return ok;
}
} // namespace
PROP(C16_witness,
     "a usable (structured or random) key is drawn; the library's extended witness must equal the model's and satisfy every circuit "
     "constraint; every case non-trivial; distinct by key") {
  const auto& p = ref::param(pick_set12(c));
  Bytes sk      = usable_key(c, p);
  Bytes in(sk.begin(), sk.begin() + p.owf_in()), key(sk.begin() + p.owf_in(), sk.end());
  c.note(std::string("set=") + p.name + " sk=" + hex(sk, 64));
  c.label(std::string("set ") + p.name);
  Buf bi(in, 0, 0), bk(key, 0, 0);
  u8* w = aes_extend_witness(bk.data(), bi.data(), &params_of(p.id));
  c.require(w != nullptr, "no witness");
  Bytes got(w, w + p.ell() / 8);
  free(w);
  c.eq(got, ref::extend_witness(p, key.data(), in.data()), "extended witness");
  c.require(bi.get() == in && bk.get() == key, "inputs changed");
  c.nontrivial(pbt::hash_bytes(sk.data(), sk.size(), p.id));
}
PROP(C16_proof,
     "a usable key, VOLE values, challenges (second challenge random or structured, final challenge zero, sparse, all ones or random) are "
     "drawn; witness kind (systematic): honest; one witness bit flipped (systematic bit); exactly one constraint violated (systematic "
     "S-box), with matching public output; public output or input changed; random witness; the proof (a, b) and the verifier's value "
     "must equal the model's, and agree with each other exactly when all constraints hold (or the challenge is degenerate); non-trivial = "
     "all; distinct by set, key, witness, challenges") {
  const auto& p  = ref::param(pick_set12(c));
  const auto* fp = &params_of(p.id);
  const int LB = p.LB(), WB = p.ell() / 8;
  unsigned kind = (unsigned)c.strat(6);
  u64 sys       = c.strat(8192);
  Bytes sk      = usable_key(c, p);
  Bytes in(sk.begin(), sk.begin() + p.owf_in()), key(sk.begin() + p.owf_in(), sk.end());
  Bytes out = ref::owf(p, key.data(), in.data()).out;
  Bytes w   = ref::extend_witness(p, key.data(), in.data());
  std::string d = "honest";
  switch (kind) {
  case 0: break;
  case 1: {
    size_t bit = sys % (size_t)p.ell();
    w[bit / 8] ^= (u8)(1 << (bit % 8));
    d = "witness bit " + std::to_string(bit);
    break;
  }
  case 2: {
    unsigned place = (unsigned)(sys % num_places(p));
    u8 delta       = (u8)c.range(1, 255);
    int t          = 0;
    while (t++ < 255 && !tampered(p, key.data(), in.data(), place, delta, w, out)) delta = delta == 255 ? 1 : delta + 1;
    if (t > 255) throw pbt::Discard{};
    d = "S-box " + std::to_string(place) + " output xor " + std::to_string(delta);
    break;
  }
  case 3: {
    size_t bit = sys % (out.size() * 8);
    out[bit / 8] ^= (u8)(1 << (bit % 8));
    d = "public output bit " + std::to_string(bit);
    break;
  }
  case 4: {
    size_t bit = sys % (in.size() * 8);
    in[bit / 8] ^= (u8)(1 << (bit % 8));
    d = "public input bit " + std::to_string(bit);
    break;
  }
  default:
    if (c.draw(2)) {
      w = c.bytes(WB);
      d = "other witness";
    } else {
      Bytes e = c.bytes(WB);
      if (std::all_of(e.begin(), e.end(), [](u8 x) { return !x; })) e[0] = 1;
      for (int i = 0; i < WB; i++) w[i] ^= e[i];
      d = "witness difference pattern";
    }
  }
  bool degenerate = c.chance(1, 10);
  Bytes ch2 = degenerate ? c.bytes(3 * LB + 8) : c.random_bytes(3 * LB + 8);
  Bytes ch3 = c.bytes(LB);
  const size_t LH = (size_t)p.LH();
  Bytes u = c.chance(1, 4) ? c.bytes(LH) : c.random_bytes(LH);
  pbt::Rng r(c.draw(0));
  std::vector<Bytes> V((size_t)p.lambda, Bytes(LH)), Qm;
  unsigned vkind = (unsigned)c.draw(16); // zero; short field elements; half of them zero; one bit; random
  if (vkind) {
    size_t one = c.draw((u64)p.lambda), upto = c.draw((u64)p.lambda);
    for (size_t j = 0; j < V.size(); j++)
      for (size_t k = 0; k < LH; k++) {
        u8 b = (u8)r.next();
        if (vkind == 1 && j > upto) b = 0;
        if (vkind == 2 && k % 2) b = 0;
        if (vkind == 3) b = j == one ? 0xff : 0;
        V[j][k] = b;
      }
  }
  c.note(std::string("set=") + p.name + " " + d + " sk=" + hex(sk, 64) + " delta=" + hex(ch3, 32) + (degenerate ? " degenerate" : ""));
  c.label(std::string("set ") + p.name);
  static const char* kn[] = {"honest", "one bit of the witness", "exactly one constraint", "public output", "public input", "other witness"};
  c.label(kn[kind]);
  // prover
  Buf bV((size_t)p.lambda * LH, 0), bQ((size_t)p.lambda * LH, 0), bu(u, 0), bw(w, 0), b2(ch2, 0), b3(ch3, 0), bin(in, 0), bout(out, 0), ba(LB, 0), bb(LB, 0);
  std::vector<u8*> pv((size_t)p.lambda), pq((size_t)p.lambda);
  Qm = V;
  for (int j = 0; j < p.lambda; j++) {
    pv[j] = bV.data() + j * LH;
    pq[j] = bQ.data() + j * LH;
    memcpy(pv[j], V[j].data(), LH);
    if ((ch3[j / 8] >> (j % 8)) & 1)
      for (size_t k = 0; k < LH; k++) Qm[j][k] ^= u[k];
    memcpy(pq[j], Qm[j].data(), LH);
  }
  Bytes ma(LB), mb(LB);
  std::vector<int> bad;
  ref::prove(p, w.data(), u.data(), V, in.data(), out.data(), ch2.data(), ma.data(), mb.data(), &bad);
  aes_prove(bw.data(), bu.data(), pv.data(), bin.data(), bout.data(), b2.data(), ba.data(), bb.data(), fp);
  c.eq(ba.get(), ma, "a for " + d);
  c.eq(bb.get(), mb, "b for " + d);
  c.require(ba.intact() && bb.intact() && bw.get() == w && bu.get() == u, "aes_prove changed other buffers");
  if (kind == 0) c.require(bad.empty(), "an honest witness violates a constraint in the model");
  if (kind == 1 || kind >= 3) c.require(!bad.empty(), "model: no constraint violated by " + d);
  if (kind == 2) c.eqi((long long)bad.size(), 1, "model: number of violated constraints");
  // verifier
  Bytes dd(w);
  for (int i = 0; i < WB; i++) dd[i] ^= u[i];
  Buf bd(dd, 0);
  Bytes mq(LB);
  ref::zkverify(p, dd.data(), Qm, in.data(), out.data(), ch2.data(), ch3.data(), ma.data(), mq.data());
  u8* q = aes_verify(bd.data(), pq.data(), b2.data(), b3.data(), ba.data(), bin.data(), bout.data(), fp);
  c.require(q != nullptr, "no verifier value");
  Bytes lq(q, q + LB);
  free(q);
  c.eq(lq, mq, "verifier's value for " + d);
  // the difference of the two values is (delta^2 + delta) * (hash of the constraint values): delta 0 and 1 are the stated error
  bool zd = ch3[0] <= 1 && std::all_of(ch3.begin() + 1, ch3.end(), [](u8 x) { return !x; });
  if (bad.empty() || zd) c.eq(lq, bb.get(), "prover's and verifier's values");
  else if (!degenerate) c.require(lq != bb.get(), "verifier accepts with " + std::to_string(bad.size()) + " violated constraints: " + d);
  c.nontrivial(pbt::hash_bytes(sk.data(), sk.size(), pbt::hash_bytes(ch2.data(), ch2.size(), pbt::hash_str(d, p.id))));
}

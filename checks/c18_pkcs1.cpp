#include "rsakeys.h"
#include <caligo/rsa.h>

static const char* attacks[] = {"genuine", "other message", "signature bit flipped", "signature truncated", "signature extended", "leading zero added", "leading byte dropped", "signature plus modulus", "arbitrary bytes",
                                "other key", "empty", "zero", "small value", "near modulus", "byte order reversed",
                                // changes to the decrypted block
                                "padding byte changed", "block type changed", "leading octet changed", "separator changed", "identifier bit changed", "hash bit changed", "short padding, garbage at end", "short padding, garbage before identifier",
                                "null parameters missing", "identifier of another hash", "raw hash without identifier", "hash of wrong length", "padding zero bytes", "any byte changed"};
constexpr size_t NA = sizeof attacks / sizeof *attacks;

template <class H, size_t N> static void verify(Gen& g, int alg, size_t bits) {
  const Algo& al = algos()[alg];
  const Key& k = key(bits, (int)g.weighted({4, 2, 1}), g.raw(20));
  Bytes di = digestInfo(alg);
  size_t tLen = di.size() + al.size;
  if (k.k < tLen + 11) {  // too short for this hash: nothing verifies
    g.label("key too short for the hash");
    Caligo::rsa_public_key<N> pub(bz<N>(k.n), bz<N>(k.e));
    Bytes sig = g.bytes(k.k);
    if (g.coin() && k.k >= tLen + 3) sig = rsa_raw(pkcs1_encode(alg, {}, k.k), k.d, k);
    CHECK((!pub.template validatePkcs1_5Signature<H>(Bytes{}, sig)), "a signature was accepted with a key too short for the hash");
    return;
  }
  Bytes msg = g.blob(150, 64);
  size_t a = g.chance(1, 5) ? 0 : g.raw(NA - 1);
  Bytes em = pkcs1_encode(alg, msg, k.k);
  size_t padLen = k.k - tLen - 3, tAt = k.k - tLen;
  auto rebuild = [&](const Bytes& T, size_t pads, const Bytes& tail) {
    Bytes e = {0, 1};
    e.insert(e.end(), pads, 0xFF);
    e.push_back(0);
    e.insert(e.end(), T.begin(), T.end());
    e.insert(e.end(), tail.begin(), tail.end());
    return e;
  };
  Bytes T(em.begin() + tAt, em.end()), hash = ref::digest(al.name, msg);
  switch (a) {
    case 15: em[2 + g.raw(padLen - 1)] ^= (uint8_t)(1u << g.raw(7)); break;
    case 16: em[1] = (uint8_t)g.pick<int>({0, 2, 3, 0x81}); break;
    case 17: em[0] = (uint8_t)(1u << g.raw((bits - 1) % 8)); break;
    case 18: em[tAt - 1] = (uint8_t)g.range(1, 255); break;
    case 19: em[tAt + g.raw(di.size() - 1)] ^= (uint8_t)(1u << g.raw(7)); break;
    case 20: em[tAt + di.size() + g.raw(al.size - 1)] ^= (uint8_t)(1u << g.raw(7)); break;
    case 21: { size_t p = g.chance(1, 2) ? 8 : g.raw(padLen - 1); p = std::min(p, padLen - 1); em = rebuild(T, p, g.noise(padLen - p)); break; }
    case 22: { size_t p = g.raw(padLen - 1); Bytes t2 = g.noise(padLen - p); t2.insert(t2.end(), T.begin(), T.end()); em = rebuild(t2, p, {}); break; }
    case 23: {
      Bytes d2(di.begin(), di.end() - 4);
      d2[1] -= 2; d2[3] -= 2;
      d2.push_back(4); d2.push_back((uint8_t)al.size);
      d2.insert(d2.end(), hash.begin(), hash.end());
      em = rebuild(d2, padLen + 2, {});
      break;
    }
    case 24: { int o = (int)g.raw(algos().size() - 1); Bytes d2 = digestInfo(o); d2.insert(d2.end(), hash.begin(), hash.end()); if (d2.size() + 3 <= k.k) em = rebuild(d2, k.k - d2.size() - 3, {}); break; }
    case 25: em = rebuild(hash, k.k - hash.size() - 3, {}); break;
    case 26: { Bytes d2 = di; size_t cut = g.range(1, al.size); d2.insert(d2.end(), hash.begin(), hash.end() - cut); if (g.coin()) { d2[1] -= (uint8_t)cut; d2[di.size() - 1] -= (uint8_t)cut; } em = rebuild(d2, k.k - d2.size() - 3, {}); break; }
    case 27: { size_t z = g.range(1, padLen); for (size_t i = 0; i < z; i++) em[2 + padLen - 1 - i] = 0; break; }
    case 28: em[g.raw(em.size() - 1)] ^= (uint8_t)g.range(1, 255); break;
    default: break;
  }
  if (!(Z::be(em) < k.n)) g.discard();
  Bytes sig = rsa_raw(em, k.d, k);
  const Key* vk = &k;
  switch (a) {
    case 1: if (msg.empty() || g.coin()) msg.push_back(0); else msg[g.raw(msg.size() - 1)] ^= (uint8_t)(1u << g.raw(7)); break;
    case 2: sig[g.raw(sig.size() - 1)] ^= (uint8_t)(1u << g.raw(7)); break;
    case 3: sig.resize(g.raw(sig.size() - 1)); break;
    case 4: { Bytes x = g.bytes(g.range(1, 40)); sig.insert(sig.end(), x.begin(), x.end()); break; }
    case 5: sig.insert(sig.begin(), g.range(1, 3), 0); break;
    case 6: sig.erase(sig.begin()); break;
    case 7: { Z s = Z::be(sig) + k.n; if (s.bits() > k.k * 8) { sig = s.to_be(k.k + 1); break; } sig = s.to_be(k.k); break; }
    case 8: sig = g.bytes(g.coin() ? k.k : g.raw(2 * k.k)); break;
    case 9: vk = &key(bits, 0, 21 + g.raw(10)); break;
    case 10: sig.clear(); break;
    case 11: sig.assign(g.coin() ? k.k : g.raw(2 * k.k), 0); break;
    case 12: sig = Z(g.raw(1000)).to_be(k.k); break;
    case 13: sig = (k.n + Z(2) - Z(g.raw(4))).to_be(k.k); break;
    case 14: std::reverse(sig.begin(), sig.end()); break;
    default: break;
  }
  bool want = sig.size() == vk->k && Z::be(sig) < vk->n && rsa_raw(sig, vk->e, *vk) == pkcs1_encode(alg, msg, vk->k);
  if (a == 0) CHECK(want, "oracle refuses its own signature");
  g.note(al.name, " modulus of ", bits, " bits in width ", N, ", ", attacks[a], want ? " (accept)" : " (refuse)");
  g.note_hex("message", msg);
  g.note_hex("signature", sig);
  g.label(attacks[a]);
  g.label(std::string(al.name) + (bits == N ? " full width" : " shorter modulus"));
  g.label("modulus of 8n+" + std::to_string(bits % 8) + " bits");
  g.nontrivial();
  Caligo::rsa_public_key<N> pub(bz<N>(vk->n), bz<N>(vk->e));
  Tight ms(msg), sg(sig);
  bool got = pub.template validatePkcs1_5Signature<H>(ms, sg);
  CHECK(got == want, (want ? "a valid signature was refused" : "an invalid signature was accepted") << " (" << attacks[a] << ", " << al.name << ", modulus of " << bits << " bits)");
}
using namespace Caligo;
PROP(verification_512, 3000, 80000) {
  size_t bits = g.coin() ? g.pick<size_t>({512, 504, 480, 496, 400, 368, 512}) : g.range(340, 512);
  switch (g.raw(5)) {
    case 0: verify<SHA2<256>, 512>(g, 0, bits); break;
    case 1: verify<SHA1, 512>(g, 1, bits); break;
    case 2: verify<MD5, 512>(g, 2, bits); break;
    case 3: verify<SHA2<224>, 512>(g, 3, bits); break;
    case 4: verify<SHA3<224>, 512>(g, 6, bits); break;
    default: verify<SHA3<256>, 512>(g, 7, bits);
  }
}
PROP(verification_wide, 700, 20000) {
  size_t bits = g.coin() ? g.pick<size_t>({1024, 1016, 768, 752, 744, 624, 616, 1000}) : g.range(600, 1024);
  switch (g.raw(4)) {
    case 0: verify<SHA2<256>, 1024>(g, 0, bits); break;
    case 1: verify<SHA2<384>, 1024>(g, 4, bits); break;
    case 2: verify<SHA2<512>, 1024>(g, 5, bits); break;
    case 3: verify<SHA3<384>, 1024>(g, 8, bits); break;
    default: verify<SHA3<512>, 1024>(g, 9, bits);
  }
}
template <class H, size_t N> static void sign(Gen& g, int alg, size_t bits) {
  const Key& k = key(bits, 0, g.raw(20));
  Bytes msg = g.blob(200, 64);
  size_t need = digestInfo(alg).size() + algos()[alg].size + 11;
  g.note(algos()[alg].name, " modulus of ", bits, " bits in width ", N);
  g.note_hex("message", msg);
  g.nontrivial();
  Caligo::rsa_private_key<N> priv(bz<N>(k.n), bz<N>(k.d));
  if (k.k < need) {
    g.label("key too short to sign");
    bool refused = false;
    try { Bytes s = priv.template signPkcs1_5Signature<H>(msg); refused = s.empty(); } catch (const std::exception&) { refused = true; }
    CHECK(refused, "a key too short for the hash produced a signature");
    return;
  }
  g.label(std::string("sign ") + algos()[alg].name);
  Bytes sig = priv.template signPkcs1_5Signature<H>(msg);
  pbt::check_bytes(sig, rsa_raw(pkcs1_encode(alg, msg, k.k), k.d, k), std::string("PKCS#1 v1.5 signature with ") + algos()[alg].name);
  Caligo::rsa_public_key<N> pub(bz<N>(k.n), bz<N>(k.e));
  CHECK((pub.template validatePkcs1_5Signature<H>(msg, sig)), "own signature refused");
}
PROP(signing, 320, 10000) {
  size_t bits = g.coin() ? g.pick<size_t>({512, 504, 496, 480, 432}) : g.range(340, 512);
  switch (g.raw(5)) {
    case 0: sign<SHA2<256>, 512>(g, 0, bits); break;
    case 1: sign<SHA1, 512>(g, 1, bits); break;
    case 2: sign<MD5, 512>(g, 2, bits); break;
    case 3: sign<SHA2<224>, 512>(g, 3, bits); break;
    case 4: sign<SHA3<256>, 512>(g, 7, bits); break;
    default: sign<SHA2<384>, 768>(g, 4, g.coin() ? g.pick<size_t>({768, 752, 624, 616, 760}) : g.range(600, 768));
  }
}
PROP(signing_wide, 48, 1500) {
  size_t bits = g.coin() ? g.pick<size_t>({1024, 1016, 752, 744, 768}) : g.range(600, 1024);
  switch (g.raw(2)) {
    case 0: sign<SHA2<512>, 1024>(g, 5, bits); break;
    case 1: sign<SHA2<256>, 1024>(g, 0, bits); break;
    default: sign<SHA3<512>, 1024>(g, 9, bits);
  }
}
// Signatures whose leading octets are zero keep their length.
PROP(short_valued_signatures, 300, 6000) {
  constexpr size_t N = 512;
  const Key& k = key(512, 0, g.raw(3));
  static std::map<const Key*, std::vector<Bytes>> cache;  // messages whose signature starts with a zero octet
  auto& v = cache[&k];
  if (v.empty()) for (uint32_t i = 0; v.size() < 6; i++) { Bytes m = {(uint8_t)i, (uint8_t)(i >> 8), (uint8_t)(i >> 16)}; if (rsa_raw(pkcs1_encode(1, m, k.k), k.d, k)[0] == 0) v.push_back(m); }
  const Bytes& m = v[g.raw(v.size() - 1)];
  Bytes want = rsa_raw(pkcs1_encode(1, m, k.k), k.d, k);
  g.note_hex("message", m);
  g.label("signature with leading zero octet");
  g.nontrivial();
  Caligo::rsa_private_key<N> priv(bz<N>(k.n), bz<N>(k.d));
  pbt::check_bytes(priv.template signPkcs1_5Signature<Caligo::SHA1>(m), want, "signature");
  Caligo::rsa_public_key<N> pub(bz<N>(k.n), bz<N>(k.e));
  CHECK((pub.template validatePkcs1_5Signature<Caligo::SHA1>(m, want)), "valid signature with a leading zero refused");
  Bytes shortened(want.begin() + 1, want.end());
  CHECK((!pub.template validatePkcs1_5Signature<Caligo::SHA1>(m, shortened)), "signature shorter than the modulus accepted");
}

// One after another: judgements about keys, messages and signatures that have something in common with earlier ones.
struct Judge { const char* what; Z n, e; };
PROP(sequences, 2000, 40000) {
  constexpr size_t N = 512;
  const Key &a = key(512, 0, g.raw(3)), &b = key(512, 0, 4 + g.raw(3));
  Z near = a.n;
  mpz_combit(near.v, g.range(1, 500));
  std::vector<Judge> keys = {{"A", a.n, a.e}, {"B", b.n, b.e}, {"A with a bit of the modulus changed", near, a.e}, {"A with exponent 3", a.n, Z(3)}};
  std::vector<Bytes> msgs = {g.bytes(g.range(1, 100))};
  msgs.push_back(msgs[0]);
  msgs[1][g.raw(msgs[1].size() - 1)] ^= (uint8_t)(1u << g.raw(7));
  std::vector<Bytes> sigs = {rsa_raw(pkcs1_encode(1, msgs[0], a.k), a.d, a), rsa_raw(pkcs1_encode(1, msgs[1], a.k), a.d, a), rsa_raw(pkcs1_encode(1, msgs[0], b.k), b.d, b)};
  sigs.push_back(sigs[0]);
  sigs[3][g.raw(63)] ^= (uint8_t)(1u << g.raw(7));
  std::vector<Caligo::rsa_public_key<N>> kept;
  for (auto& k : keys) kept.emplace_back(bz<N>(k.n), bz<N>(k.e));
  size_t yes = 0;
  for (size_t i = 0, steps = g.range(2, 10); i < steps; i++) {
    size_t k = g.weighted({3, 1, 1, 1}), m = g.weighted({2, 1}), sg = g.weighted({3, 1, 1, 1});
    const Judge& j = keys[k];
    bool want = Z::be(sigs[sg]) < j.n && ref::powm(Z::be(sigs[sg]), j.e, j.n) == Z::be(pkcs1_encode(1, msgs[m], 64));
    yes += want;
    bool fresh = g.coin(), got;
    if (fresh) { Caligo::rsa_public_key<N> pub(bz<N>(j.n), bz<N>(j.e)); got = pub.template validatePkcs1_5Signature<Caligo::SHA1>(msgs[m], sigs[sg]); }
    else got = kept[k].template validatePkcs1_5Signature<Caligo::SHA1>(msgs[m], sigs[sg]);
    g.note("key ", j.what, " message ", m, " signature ", sg, want ? " accept" : " refuse");
    CHECK(got == want, (want ? "a valid signature was refused" : "an invalid signature was accepted") << " in a sequence, with key " << j.what);
    if (g.chance(1, 8)) {  // signatures of the same message under both keys
      const Key& w = g.coin() ? a : b;
      Caligo::rsa_private_key<N> priv(bz<N>(w.n), bz<N>(w.d));
      pbt::check_bytes(priv.template signPkcs1_5Signature<Caligo::SHA1>(msgs[m]), rsa_raw(pkcs1_encode(1, msgs[m], w.k), w.d, w), "signature in a sequence");
    }
  }
  g.label("sequence of judgements");
  if (yes) g.nontrivial();
}

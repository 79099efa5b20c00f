#include "rsakeys.h"
#include <caligo/rsa.h>

template <class H> struct Name;
#define NAME(H, s, i) template <> struct Name<H> { static constexpr const char* n = s; static constexpr int alg = i; }
NAME(Caligo::SHA2<256>, "SHA256", 0); NAME(Caligo::SHA1, "SHA1", 1); NAME(Caligo::SHA2<224>, "SHA224", 3); NAME(Caligo::SHA2<384>, "SHA384", 4); NAME(Caligo::SHA2<512>, "SHA512", 5); NAME(Caligo::SHA3<256>, "SHA3-256", 7);

static const char* attacks[] = {"genuine", "other message", "signature bit flipped", "signature truncated", "signature extended", "leading zero added", "leading byte dropped", "signature plus modulus", "arbitrary bytes",
                                "trailer changed", "hash changed", "separator changed", "padding changed", "salt longer", "salt shorter", "top bit set", "mask not applied", "prefix short", "other key", "empty", "zero", "small value", "near modulus"};

template <class H, class MH, size_t N> static void verify(Gen& g, size_t bits) {
  const char* md = Name<H>::n;
  size_t hl = H::hashsize, sLen = MH::hashsize;
  const Key& k = key(bits, (int)g.weighted({4, 1, 1}), g.raw(20));
  size_t emBits = bits - 1, emLen = (emBits + 7) / 8;
  if (emLen < hl + sLen + 2) g.discard();
  Bytes msg = g.blob(150, 64), mHash = ref::digest(md, msg), salt = g.bytes(sLen);
  Pss how = Pss::None;
  size_t a = g.chance(1, 4) ? 0 : g.raw(sizeof attacks / sizeof *attacks - 1);
  uint64_t where = g.raw(1 << 16);
  Bytes useSalt = salt;
  switch (a) {
    case 9: how = Pss::Trailer; break;
    case 10: how = Pss::H; break;
    case 11: how = Pss::Separator; break;
    case 12: how = Pss::Padding; break;
    case 13: if (emLen >= hl + sLen + 3) useSalt = g.bytes(sLen + 1 + g.raw(std::min<size_t>(emLen - hl - sLen - 3, 8))); break;
    case 14: useSalt = g.bytes(g.raw(sLen - 1)); break;
    case 15: how = Pss::TopBit; break;
    case 16: how = Pss::MaskUnapplied; break;
    case 17: how = Pss::NoPrefixZeros; break;
    default: break;
  }
  Bytes em = pss_encode(md, mHash, useSalt, emBits, how, where);
  for (int tries = 0; !(Z::be(em) < k.n) && tries < 50; tries++) { useSalt = g.noise(useSalt.size()); em = pss_encode(md, mHash, useSalt, emBits, how, where); }
  if (!(Z::be(em) < k.n)) { g.label("representative not below modulus"); g.discard(); }
  Bytes sig = rsa_raw(em, k.d, k);
  const Key* vk = &k;
  switch (a) {
    case 1: if (msg.empty() || g.coin()) msg.push_back(0); else msg[g.raw(msg.size() - 1)] ^= (uint8_t)(1u << g.raw(7)); break;
    case 2: sig[g.raw(sig.size() - 1)] ^= (uint8_t)(1u << g.raw(7)); break;
    case 3: sig.resize(g.raw(sig.size() - 1)); break;
    case 4: { Bytes x = g.bytes(g.range(1, 40)); sig.insert(sig.end(), x.begin(), x.end()); break; }
    case 5: sig.insert(sig.begin(), g.range(1, 3), 0); break;
    case 6: sig.erase(sig.begin()); break;
    case 7: { Z s = Z::be(sig) + k.n; if (s.bits() > k.k * 8) { if (g.coin()) s = s % ref::pow2(k.k * 8); else { sig = s.to_be(k.k + 1); break; } } sig = s.to_be(k.k); break; }
    case 8: sig = g.bytes(g.coin() ? k.k : g.raw(2 * k.k)); break;
    case 18: vk = &key(bits, 0, 21 + g.raw(10)); break;
    case 19: sig.clear(); break;
    case 20: sig.assign(g.coin() ? k.k : g.raw(2 * k.k), 0); break;
    case 21: sig = Z(g.raw(1000)).to_be(k.k); break;
    case 22: sig = (k.n + Z(2) - Z(g.raw(4))).to_be(k.k); break;
    default: break;
  }
  bool want = sig.size() == vk->k && Z::be(sig) < vk->n;
  if (want) {
    Z m = ref::powm(Z::be(sig), vk->e, vk->n);
    want = m.bits() <= 8 * emLen && pss_verify(md, ref::digest(md, msg), m.to_be(emLen), emBits, sLen);
  }
  if (a == 0) CHECK(want, "oracle refuses its own signature");
  g.note(md, " salt length ", sLen, " modulus of ", bits, " bits in width ", N, ", ", attacks[a], want ? " (accept)" : " (refuse)");
  g.note_hex("message", msg);
  g.note_hex("signature", sig);
  g.label(attacks[a]);
  g.label(std::string(md) + (bits == N ? " full width" : " shorter modulus"));
  g.label("modulus of 8n+" + std::to_string(bits % 8) + " bits");
  g.nontrivial();
  Caligo::rsa_public_key<N> pub(bz<N>(vk->n), bz<N>(vk->e));
  Tight ms(msg), sg(sig);
  bool got = pub.template validatePssSignature<H, Caligo::MGF1<MH>>(ms, sg);
  CHECK(got == want, (want ? "a valid signature was refused" : "an invalid signature was accepted") << " (" << attacks[a] << ", " << md << ", modulus of " << bits << " bits)");
}
using namespace Caligo;
#ifndef PBT_FAST
PROP(verification_512, 1600, 50000) {
  size_t bits = g.coin() ? g.pick<size_t>({512, 504, 480, 448, 392, 512}) : g.range(385, 512);
  switch (g.raw(4)) {
    case 0: verify<SHA1, SHA1, 512>(g, bits); break;
    case 1: verify<SHA2<224>, SHA1, 512>(g, bits); break;
    case 2: verify<SHA1, SHA2<224>, 512>(g, bits); break;
    case 3: verify<SHA2<256>, SHA1, 512>(g, bits); break;
    default: verify<SHA1, SHA2<256>, 512>(g, bits); break;
  }
}
PROP(verification_tls, 500, 12000) {  // the combinations TLS uses, on keys just long enough and longer
  switch (g.raw(3)) {
    case 0: verify<SHA2<256>, SHA2<256>, 768>(g, g.coin() ? g.pick<size_t>({768, 528, 536, 760, 640}) : g.range(521, 768)); break;
    case 1: verify<SHA2<384>, SHA2<384>, 1024>(g, g.coin() ? g.pick<size_t>({1024, 784, 792, 1016}) : g.range(777, 1024)); break;
    case 2: verify<SHA2<512>, SHA2<512>, 1088>(g, g.coin() ? g.pick<size_t>({1088, 1040, 1048, 1080}) : g.range(1033, 1088)); break;
    default: verify<SHA3<256>, SHA3<256>, 768>(g, g.coin() ? g.pick<size_t>({768, 528, 600}) : g.range(521, 768));
  }
}
// One after another: judgements about keys, messages and signatures that have something in common with earlier ones.
struct Judge { const char* what; Z n, e; };
PROP(sequences, 1500, 30000) {
  constexpr size_t N = 512;
  const Key &a = key(512, 0, g.raw(3)), &b = key(512, 0, 4 + g.raw(3));
  Z near = a.n;
  mpz_combit(near.v, g.range(1, 500));
  std::vector<Judge> keys = {{"A", a.n, a.e}, {"B", b.n, b.e}, {"A with a bit of the modulus changed", near, a.e}, {"A with exponent 3", a.n, Z(3)}};
  std::vector<Bytes> msgs = {g.bytes(g.range(1, 100))};
  msgs.push_back(msgs[0]);
  msgs[1][g.raw(msgs[1].size() - 1)] ^= (uint8_t)(1u << g.raw(7));
  Bytes salt = g.bytes(20);
  auto sig = [&](const Bytes& m, const Key& k) { return rsa_raw(pss_encode("SHA1", ref::digest("SHA1", m), salt, 511), k.d, k); };
  std::vector<Bytes> sigs = {sig(msgs[0], a), sig(msgs[1], a), sig(msgs[0], b)};
  sigs.push_back(sigs[0]);
  sigs[3][g.raw(63)] ^= (uint8_t)(1u << g.raw(7));
  std::vector<Caligo::rsa_public_key<N>> kept;
  for (auto& k : keys) kept.emplace_back(bz<N>(k.n), bz<N>(k.e));
  size_t yes = 0;
  for (size_t i = 0, steps = g.range(2, 10); i < steps; i++) {
    size_t k = g.weighted({3, 1, 1, 1}), m = g.weighted({2, 1}), sg = g.weighted({3, 1, 1, 1});
    const Judge& j = keys[k];
    bool want = Z::be(sigs[sg]) < j.n;
    if (want) { Z r = ref::powm(Z::be(sigs[sg]), j.e, j.n); want = r.bits() <= 512 && pss_verify("SHA1", ref::digest("SHA1", msgs[m]), r.to_be(64), 511, 20); }
    yes += want;
    bool fresh = g.coin(), got;
    if (fresh) { Caligo::rsa_public_key<N> pub(bz<N>(j.n), bz<N>(j.e)); got = pub.template validatePssSignature<SHA1, MGF1<SHA1>>(msgs[m], sigs[sg]); }
    else got = kept[k].template validatePssSignature<SHA1, MGF1<SHA1>>(msgs[m], sigs[sg]);
    g.note("key ", j.what, " message ", m, " signature ", sg, want ? " accept" : " refuse");
    CHECK(got == want, (want ? "a valid signature was refused" : "an invalid signature was accepted") << " in a sequence, with key " << j.what);
    if (g.chance(1, 8)) {
      const Key& w = g.coin() ? a : b;
      Caligo::rsa_private_key<N> priv(bz<N>(w.n), bz<N>(w.d));
      Bytes h = ref::digest("SHA1", msgs[m]);
      pbt::check_bytes(priv.template signPssSignature<SHA1, MGF1<SHA1>>(h, salt), sig(msgs[m], w), "signature in a sequence");
    }
  }
  g.label("sequence of judgements");
  if (yes) g.nontrivial();
}
template <class H, size_t N> static void sign(Gen& g, size_t bits) {
  const char* md = Name<H>::n;
  const Key& k = key(bits, 0, g.raw(20));
  size_t emLen = (bits - 1 + 7) / 8, maxSalt = emLen >= H::hashsize + 2 ? emLen - H::hashsize - 2 : 0;
  if (emLen < H::hashsize + 2) g.discard();
  size_t sl = g.chance(1, 2) ? std::min<size_t>(H::hashsize, maxSalt) : g.raw(maxSalt);
  Bytes msg = g.blob(150, 64), mHash = ref::digest(md, msg), salt = g.bytes(sl);
  g.note(md, " modulus of ", bits, " bits in width ", N);
  g.note_hex("message", msg);
  g.note_hex("salt", salt);
  g.label(std::string("sign ") + md);
  g.nontrivial();
  Caligo::rsa_private_key<N> priv(bz<N>(k.n), bz<N>(k.d));
  Bytes sig = priv.template signPssSignature<H, Caligo::MGF1<H>>(mHash, salt);
  Bytes em = pss_encode(md, mHash, salt, bits - 1);
  pbt::check_bytes(sig, rsa_raw(em, k.d, k), std::string("PSS signature with ") + md);
  if (sl == H::hashsize) {
    Caligo::rsa_public_key<N> pub(bz<N>(k.n), bz<N>(k.e));
    CHECK((pub.template validatePssSignature<H, Caligo::MGF1<H>>(msg, sig)), "own signature refused");
  }
}
PROP(signing_512, 240, 8000) {
  size_t bits = g.coin() ? g.pick<size_t>({512, 504, 480, 448, 400}) : g.range(300, 512);
  switch (g.raw(2)) {
    case 0: sign<SHA1, 512>(g, bits); break;
    case 1: sign<SHA2<224>, 512>(g, bits); break;
    default: sign<SHA2<256>, 512>(g, bits);
  }
}
PROP(signing_tls, 60, 2000) {
  switch (g.raw(2)) {
    case 0: sign<SHA2<256>, 768>(g, g.coin() ? g.pick<size_t>({768, 528, 760}) : g.range(521, 768)); break;
    case 1: sign<SHA2<384>, 1024>(g, g.coin() ? g.pick<size_t>({1024, 784}) : g.range(777, 1024)); break;
    default: sign<SHA2<512>, 1088>(g, g.coin() ? g.pick<size_t>({1088, 1040}) : g.range(1033, 1088));
  }
}
template <class H> static void mgf(Gen& g) {
  Bytes seed = g.blob(200, 64);
  size_t len = g.len(g.chance(1, 20) ? 20000 : 600, H::hashsize);
  g.note(Name<H>::n, " length ", len);
  g.note_hex("seed", seed);
  g.label(len > 256 * H::hashsize ? "more than 256 blocks" : "mask generation");
  if (len) g.nontrivial();
  pbt::check_bytes(Caligo::MGF1<H>::MGF(seed, len), mgf1(Name<H>::n, seed, len), std::string("MGF1 with ") + Name<H>::n);
}
PROP(mask_generation, 5000, 100000) {
  switch (g.raw(4)) {
    case 0: mgf<SHA1>(g); break;
    case 1: mgf<SHA2<256>>(g); break;
    case 2: mgf<SHA2<384>>(g); break;
    case 3: mgf<SHA2<512>>(g); break;
    default: mgf<SHA3<256>>(g);
  }
}
// Counter beyond 16 bits.
PROP(long_masks, 8, 64) {
  Bytes seed = g.noise(g.raw(40));
  size_t len = 20 * 65536 + 100 + g.raw(5000);
  g.note("length ", len);
  g.nontrivial();
  g.label("more than 65536 blocks");
  pbt::check_bytes(Caligo::MGF1<SHA1>::MGF(seed, len), mgf1("SHA1", seed, len), "MGF1");
}
#else
// Counter beyond 24 bits.
PROP(slow_longest_masks, 1, 3) {
  Bytes seed = g.noise(g.raw(40)), in = seed;
  size_t blocks = (1u << 24) + g.range(1, 300);
  g.note("blocks ", blocks);
  g.nontrivial();
  g.label("more than 2^24 blocks");
  Bytes got = Caligo::MGF1<SHA1>::MGF(seed, 20 * blocks - 7);
  CHECK(got.size() == 20 * blocks - 7, "mask of " << got.size() << " bytes");
  for (uint32_t c = 0; c < blocks; c++) {  // all around the carries, a sample elsewhere
    if (c > 600 && (c & 0xFFFF) > 4 && c < (1u << 24) - 4 && c % 997) continue;
    in = seed;
    for (int s = 24; s >= 0; s -= 8) in.push_back((uint8_t)(c >> s));
    Bytes h = ref::digest("SHA1", in);
    size_t n = std::min<size_t>(20, got.size() - 20 * (size_t)c);
    CHECK(!memcmp(got.data() + 20 * (size_t)c, h.data(), n), "mask block " << c << " differs");
  }
}
#endif

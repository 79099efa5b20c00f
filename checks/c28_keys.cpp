// C28: private key files, TLS 1.3 signature schemes and their public counterparts.
#include "certgen.h"

using namespace Caligo;

struct Scheme { uint16_t id; bool pss; const char* md; size_t hl; };
static const Scheme schemes[] = {
  {0x0401, false, "SHA256", 32}, {0x0501, false, "SHA384", 48}, {0x0601, false, "SHA512", 64},
  {0x0804, true, "SHA256", 32}, {0x0805, true, "SHA384", 48}, {0x0806, true, "SHA512", 64},
  {0x0809, true, "SHA256", 32}, {0x080a, true, "SHA384", 48}, {0x080b, true, "SHA512", 64}};
static bool supported(uint16_t id) { for (auto& s : schemes) if (s.id == id) return true; return false; }

static std::unique_ptr<PrivateKey> load(Gen& g, const Key& k) {
  Bytes d = key_file(k);
  if (g.coin()) { Tight t(d); return parsePrivateKey(t, DataFormat::Der); }
  std::string p = pem(d, "RSA PRIVATE KEY", g.pick<size_t>({64, 76, 1, 100000}), g.coin() ? "\n" : "\r\n");
  if (g.coin()) p = "Bag Attributes\n    friendlyName: key\n" + p;
  if (g.coin()) p += "trailing text\n";
  Bytes b = to_bytes(p);
  Tight t(b);
  return parsePrivateKey(t, DataFormat::Pem);
}
static std::unique_ptr<PublicKey> pub(const Key& k) {
  CertModel m;
  m.spki = rsa_spki(k.n, k.e);
  Bytes d = assemble(m.tbs(), alg_id(m.alg), der::bits(Bytes(64, 1)));
  x509certificate c = parseCertificate(d);
  CHECK(c.pubkey != nullptr, "no public key for a well-formed RSA key");
  return std::move(c.pubkey);
}
static size_t gen_bits(Gen& g, const Scheme& s) {
  size_t least = 8 * (s.pss ? 2 * s.hl + 2 : s.hl + 19 + 11);
  size_t b = g.weighted({3, 2, 2}) == 0 ? 1024 : g.coin() ? (g.coin() ? 8 * g.range(64, 160) : g.range(512, 1280)) : g.pick<size_t>({512, 768, 1016, 1032, 1536, 2048, 2048, 3072, 4096});
  return std::max(b, least);
}
// Independent RFC 8017 verifier over GMP and OpenSSL digests; salt (if any) is returned.
static bool accepts(const Key& k, const Scheme& s, const Bytes& msg, const Bytes& sig, Bytes& salt) {
  if (sig.size() != k.k || k.n <= Z::be(sig)) return false;
  Z m = ref::powm(Z::be(sig), k.e, k.n);
  if (!s.pss) return m.to_be(k.k) == pkcs1_encode(algo_index(s.md), msg, k.k);
  size_t emBits = k.bits - 1, emLen = (emBits + 7) / 8;
  if ((m.bits() + 7) / 8 > emLen) return false;
  Bytes em = m.to_be(emLen);
  if (!pss_verify(s.md, ref::digest(s.md, msg), em, emBits, s.hl)) return false;
  Bytes db(em.begin(), em.begin() + (emLen - s.hl - 1)), H(em.end() - 1 - s.hl, em.end() - 1), mask = mgf1(s.md, H, db.size());
  for (size_t i = 0; i < db.size(); i++) db[i] ^= mask[i];
  salt = Bytes(db.end() - s.hl, db.end());
  return true;
}
static Bytes make_sig(Gen& g, const Key& k, const Scheme& s, const Bytes& msg) {
  if (!s.pss) return rsa_sign(k, algo_index(s.md), msg);
  return rsa_raw(pss_encode(s.md, ref::digest(s.md, msg), g.noise(s.hl), k.bits - 1), k.d, k);
}

#ifdef PBT_FAST
PROP(signing, 240, 12000) {
  const Scheme& s = schemes[g.walk(9)];
  const Key& k = key(gen_bits(g, s), (int)g.weighted({8, 0, 1, 0}), g.raw(3));
  Bytes msg = g.blob(300, 64);
  if (!s.pss && k.bits <= 800 && g.chance(1, 3)) {  // a signature whose value has a zero first byte
    for (unsigned i = 0; i < 4000; i++) {
      Bytes m = msg + Bytes{(uint8_t)i, (uint8_t)(i >> 8)};
      if (rsa_sign(k, algo_index(s.md), m)[0] == 0) { msg = m; g.label("signature with leading zero"); break; }
    }
  }
  g.note("scheme ", s.id, " key ", k.bits, " bits");
  g.note_hex("message", msg);
  auto priv = load(g, k);
  CHECK(priv != nullptr, "a well-formed key file gives no key");
  Bytes sig = priv->sign((Tls13SignatureScheme)s.id, Tight(msg)), salt;
  CHECK(sig.size() == k.k, "the signature has " << sig.size() << " bytes for a modulus of " << k.k);
  CHECK(accepts(k, s, msg, sig, salt), "an independent verifier refuses the signature " << pbt::hex(sig));
  if (s.pss && g.chance(1, 2)) {
    Bytes sig2 = priv->sign((Tls13SignatureScheme)s.id, Tight(msg)), salt2;
    CHECK(accepts(k, s, msg, sig2, salt2), "an independent verifier refuses the second signature");
    CHECK(salt != salt2, "two signatures have the same salt " << pbt::hex(salt));
    g.label("salts compared");
  }
  if (k.e == Z(65537)) CHECK(pub(k)->validateSignature((Tls13SignatureScheme)s.id, Tight(msg), Tight(sig)), "the library's own public key refuses the signature");
  g.label("scheme " + std::to_string(s.id));
  g.nontrivial();
}
#endif

PROP(validating, 1600, 40000) {
  const Scheme& s = schemes[g.walk(9)];
  const Key& k = key(gen_bits(g, s), 0, g.raw(3));
  Bytes msg = g.blob(200, 64), sig = make_sig(g, k, s, msg);
  auto p = pub(k);
  g.note("scheme ", s.id, " key ", k.bits, " bits");
  CHECK(p->validateSignature((Tls13SignatureScheme)s.id, Tight(msg), Tight(sig)), "a genuine signature is refused");
  // for that scheme only
  for (auto& o : schemes) {
    bool same = o.pss == s.pss && o.hl == s.hl;
    CHECK(p->validateSignature((Tls13SignatureScheme)o.id, Tight(msg), Tight(sig)) == same, "made for " << s.id << ", judged under " << o.id);
  }
  // for that message, key and signature only
  Bytes m2 = msg, s2 = sig;
  switch (g.weighted({1, 1, 1, 1, 1})) {
    case 0: m2.push_back(0); break;
    case 1: if (m2.empty()) g.discard(); m2[g.raw(m2.size() - 1)] ^= (uint8_t)(1 << g.raw(7)); break;
    case 2: s2[g.raw(s2.size() - 1)] ^= (uint8_t)(1 << g.raw(7)); break;
    case 3: s2 = make_sig(g, key(k.bits, 0, 4), s, msg); break;
    default: { size_t n = g.raw(3); if (n == 0) s2.clear(); else if (n == 1) s2.pop_back(); else if (n == 2) s2.insert(s2.begin(), (uint8_t)0); else s2.push_back(0); break; }
  }
  CHECK(!p->validateSignature((Tls13SignatureScheme)s.id, Tight(m2), Tight(s2)), "accepted for another message, key or signature");
  g.label("scheme " + std::to_string(s.id));
  g.nontrivial();
}

// One after another: keys, messages and schemes in any order, on objects that stay.
PROP(sequences, 160, 4000) {
  size_t bits = g.pick<size_t>({1040, 1048, 1056, 1536});
  const Key* ks[2] = {&key(bits, 0, 0), &key(bits, 0, 1)};
  std::unique_ptr<PrivateKey> priv[2] = {load(g, *ks[0]), load(g, *ks[1])};
  std::unique_ptr<PublicKey> pubs[2] = {pub(*ks[0]), pub(*ks[1])};
  Bytes m[2] = {g.bytes(g.range(1, 90)), {}};
  m[1] = m[0];
  m[1][g.raw(m[0].size() - 1)] ^= (uint8_t)(1 << g.raw(7));
  struct Made { size_t key, msg; const Scheme* s; Bytes sig; };
  std::vector<Made> made;
  g.note("two keys of ", bits, " bits");
  for (size_t i = 0, steps = g.range(3, 8); i < steps; i++) {
    if (made.empty() || g.chance(1, 3)) {
      Made x{g.raw(1), g.raw(1), &schemes[g.raw(8)], {}};
      Bytes salt;
      if (g.chance(1, 3)) {
        x.sig = priv[x.key]->sign((Tls13SignatureScheme)x.s->id, Tight(m[x.msg]));
        CHECK(accepts(*ks[x.key], *x.s, m[x.msg], x.sig, salt), "an independent verifier refuses a signature made in a sequence");
      } else x.sig = make_sig(g, *ks[x.key], *x.s, m[x.msg]);
      made.push_back(x);
    }
    const Made& x = made[g.raw(made.size() - 1)];
    size_t k = g.chance(2, 3) ? x.key : 1 - x.key, w = g.chance(2, 3) ? x.msg : 1 - x.msg;
    bool want = k == x.key && w == x.msg;
    CHECK(pubs[k]->validateSignature((Tls13SignatureScheme)x.s->id, Tight(m[w]), Tight(x.sig)) == want, "in a sequence, a signature is " << (want ? "refused" : "accepted for another key or message"));
  }
  g.label("sequence");
  g.nontrivial();
}
PROP(unsupported, 1600, 40000) {
  uint16_t id = g.coin() ? (uint16_t)g.pick<int>({0x0403, 0x0503, 0x0603, 0x0807, 0x0808, 0x0201, 0x0203, 0, 0x0400, 0x0402, 0x0800, 0x080c, 0x0301, 0xffff}) : (uint16_t)g.raw(0xffff);
  if (supported(id)) g.discard();
  const Key& k = key(1536, 0, g.raw(3));
  Bytes msg = g.blob(100);
  g.note("scheme ", id);
  auto priv = load(g, k);
  CHECK(priv != nullptr, "a well-formed key file gives no key");
  CHECK(priv->sign((Tls13SignatureScheme)id, Tight(msg)).empty(), "scheme " << id << " gives a signature");
  auto p = pub(k);
  const Scheme& s = schemes[g.raw(5)];
  Bytes sig = g.chance(1, 8) ? Bytes{} : make_sig(g, k, s, msg);
  CHECK(!p->validateSignature((Tls13SignatureScheme)id, Tight(msg), Tight(sig)), "scheme " << id << " is accepted");
  g.nontrivial();
}

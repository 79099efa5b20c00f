// C31: keys, certificates, schedules and the trust store used by several threads at once for reading.
#include "ops.h"
#include <caligo/Truststore.h>
#include <atomic>
#include <barrier>
#include <thread>
#include "signing.h"

// The trust store as several threads find it first.
static std::atomic<bool> started = false;
static void together(size_t T, const std::function<void(size_t)>& f) {
  std::barrier b((ptrdiff_t)T);
  std::vector<std::thread> th;
  for (size_t t = 0; t < T; t++) th.emplace_back([&, t] { b.arrive_and_wait(); f(t); });
  for (auto& x : th) x.join();
}
static CertModel model(const std::string& subject, const std::string& issuer, const Key& k) {
  CertModel m;
  m.subject = cn(subject);
  m.issuer = cn(issuer);
  m.from = When{2000, 1, 1};
  m.to = When{2040, 1, 1};
  m.spki = rsa_spki(k.n, k.e);
  return m;
}
static Bytes anchorDer, midDer, leafDer, strangerDer, forgedDer;
static pbt::Setup more([] {
  const Key &a = key(512, 0, 1), &b = key(512, 0, 2), &c = key(512, 0, 3);
  anchorDer = signed_cert(model("shared anchor", "shared anchor", a), a);
  midDer = signed_cert(model("shared middle", "shared anchor", b), a);
  leafDer = signed_cert(model("shared leaf", "shared middle", c), b);
  forgedDer = signed_cert(model("shared leaf", "shared middle", c), c);
  strangerDer = signed_cert(model("shared stranger", "nobody", c), c);
});
static Truststore& store() {
  static bool added = false;
  Truststore& s = Truststore::Instance();
  if (!added) { s.addCertificate(parseCertificate(anchorDer)); added = true; }
  return s;
}
// The first use of the store may happen in any thread, or in several at once.
PROP(first_use, 64, 64) {
  size_t T = g.range(2, 6);
  if (started.exchange(true)) g.label("already in use"); else g.label("first use in this process");
  std::vector<Truststore*> seen(T);
  std::vector<bool> found(T), absent(T);
  together(T, [&](size_t t) {
    Truststore& s = Truststore::Instance();
    seen[t] = &s;
    (void)s.get("CN=no such anchor");
  });
  for (size_t t = 1; t < T; t++) CHECK(seen[t] == seen[0], "two threads got different stores");
  g.nontrivial();
}

struct Shared {
  std::unique_ptr<AnyHash> hash;
  const AnyHash* named = nullptr;
  std::unique_ptr<AesKeySchedule<128>> k128;
  std::unique_ptr<AesKeySchedule<256>> k256;
  std::unique_ptr<rsa_public_key<512>> pub;
  std::unique_ptr<rsa_private_key<512>> priv;
  std::unique_ptr<MontgomeryState<256>> mont;
  Bytes modulus;
  x509certificate issuer, cert, forged, leaf;
  Bytes pkcs1, message;
};
struct Step { unsigned what; uint64_t seed; };
static const char* names[] = {"digest", "digest text", "AES-128 block", "AES-256 block", "RSA verification", "RSA refusal", "RSA signing", "PSS signing", "modular power", "certificate verification", "certificate refusal", "certificate key", "applies to", "anchor lookup", "trust", "no trust", "copy and continue"};
constexpr unsigned KINDS = sizeof names / sizeof *names;

static Bytes perform(Shared& o, Step s) {
  switch (s.what) {
    case 0: return o.hash->data();
    case 1: return to_bytes(o.hash->text());
    case 2: return aes_block<128>(*o.k128, filler(s.seed, 16));
    case 3: return aes_block<256>(*o.k256, filler(s.seed, 16));
    case 4: return {(uint8_t)o.pub->validatePkcs1_5Signature<SHA2<256>>(o.message, o.pkcs1)};
    case 5: { Bytes b = o.pkcs1; b[s.seed % b.size()] ^= 1; return {(uint8_t)o.pub->validatePkcs1_5Signature<SHA2<256>>(o.message, b)}; }
    case 6: return o.priv->signPkcs1_5Signature<SHA2<256>>(filler(s.seed, 20));
    case 7: { std::array<uint8_t, 20> a; Bytes h = filler(s.seed, 20), salt = filler(s.seed + 1, 20); memcpy(a.data(), h.data(), 20); return o.priv->signPssSignature<SHA1, MGF1<SHA1>>(a, salt); }
    case 8: { MontgomeryValue<256> x(*o.mont, bignum<256>(filler(s.seed, 31))); bignum<256> r = x.exp(bignum<256>(filler(s.seed + 1, 8))); return vec(r.as_bytes()); }
    case 9: return {(uint8_t)o.cert.verify(o.issuer)};
    case 10: return {(uint8_t)o.forged.verify(o.issuer)};
    case 11: return {(uint8_t)o.issuer.pubkey->validateSignature(rsa_pkcs1_sha256, o.message, o.pkcs1)};
    case 12: return {(uint8_t)o.cert.appliesTo("shared middle"), (uint8_t)o.cert.appliesTo("other")};
    case 13: { auto a = Truststore::Instance().get("CN=shared anchor"), n = Truststore::Instance().get("CN=missing"); Bytes r = {(uint8_t)a.has_value(), (uint8_t)n.has_value()}; if (a) r = r + (*a)->derCert; return r; }
    case 14: case 15: {
      std::vector<x509certificate> v;
      v.push_back(parseCertificate(s.what == 14 ? leafDer : forgedDer));
      if (s.seed & 1) v.push_back(parseCertificate(strangerDer));
      v.push_back(parseCertificate(midDer));
      return {(uint8_t)Truststore::Instance().trust(v, 1500000000)};
    }
    default: { auto c = o.hash->clone(); c->add(filler(s.seed, size_of(s.seed, 200))); return c->data(); }
  }
}
static void shared(Gen& g, size_t maxThreads, size_t maxSteps) {
  store();
  Shared o;
  o.hash = algos()[g.raw(algos().size() - 1)].make();
  o.hash->add(g.noise(g.range(0, 300)));
  o.k128 = std::make_unique<AesKeySchedule<128>>(g.noise(16));
  o.k256 = std::make_unique<AesKeySchedule<256>>(g.noise(32));
  o.pub = std::make_unique<rsa_public_key<512>>(N, E);
  o.priv = std::make_unique<rsa_private_key<512>>(N, D);
  o.modulus = g.noise(32);
  o.modulus[0] |= 1; o.modulus[31] |= 0x80;
  o.mont = std::make_unique<MontgomeryState<256>>(bignum<256>(o.modulus));
  o.issuer = parseCertificate(anchorDer);
  o.cert = parseCertificate(midDer);
  o.forged = parseCertificate(forgedDer);
  o.message = g.noise(30);
  o.pkcs1 = rsa_sign(key(512, 0, 1), algo_index("SHA256"), o.message);
  size_t T = g.range(2, maxThreads), steps = g.range(1, maxSteps);
  bool alike = g.coin();
  unsigned common = (unsigned)g.raw(KINDS - 1);
  std::vector<std::vector<Step>> prog(T);
  for (size_t t = 0; t < T; t++)
    for (size_t i = 0; i < steps; i++) {
      Step s{alike ? common : (unsigned)g.raw(KINDS - 1), g.raw(0xffff)};
      prog[t].push_back(s);
      g.note("thread ", t, ": ", names[s.what], "(", s.seed, ")");
      g.label(names[s.what]);
    }
  std::vector<std::vector<Bytes>> got(T);
  std::vector<std::string> trouble(T);
  together(T, [&](size_t t) {
    try { for (auto& s : prog[t]) got[t].push_back(perform(o, s)); } catch (const std::exception& e) { trouble[t] = e.what(); }
  });
  for (size_t t = 0; t < T; t++) {
    CHECK(trouble[t].empty(), "thread " << t << " threw: " << trouble[t]);
    for (size_t i = 0; i < steps; i++) pbt::check_bytes(got[t][i], perform(o, prog[t][i]), std::string(names[prog[t][i].what]) + " in thread " + std::to_string(t));
  }
  // and the answers themselves are the right ones
  CHECK(perform(o, {4, 0})[0] == 1 && perform(o, {9, 0})[0] == 1 && perform(o, {10, 0})[0] == 0 && perform(o, {14, 0})[0] == 1 && perform(o, {15, 0})[0] == 0, "the shared objects give wrong answers afterwards");
  g.label(std::to_string(T) + " threads");
  g.nontrivial();
}
#ifdef PBT_FAST
PROP(shared_unmonitored, 1200, 40000) { shared(g, 6, 8); }
#else
PROP(shared_monitored, 160, 6000) { shared(g, 4, 4); }
#endif
#ifdef PBT_FAST
PROP(shared_signing, 64, 1200) { signing(g, 4, 3, true); }
#else
PROP(shared_signing_monitored, 12, 300) { signing(g, 3, 1, true); }
#endif

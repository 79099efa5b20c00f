// C27: PEM bundles.
#include "bundlegen.h"

using namespace Caligo;
static void same(const x509certificate& a, const x509certificate& b, const Bytes& d, const std::string& what) {
  pbt::check_bytes(a.derCert, d, what + ": its bytes");
  CHECK(a.subject == b.subject && a.issuer == b.issuer && a.serialNumber == b.serialNumber && a.validity_start == b.validity_start && a.validity_end == b.validity_end && a.fqdns == b.fqdns && (a.pubkey != nullptr) == (b.pubkey != nullptr),
        what << ": fields differ from those of its DER encoding alone");
}
static Bytes gen_cert(Gen& g, size_t index) {
  CertModel m;
  m.v3 = g.coin();
  m.serial = g.bytes(g.range(1, 4));
  m.subject = cn("cert " + std::to_string(index) + std::string(g.raw(6), 'x'));   // lengths vary: every base64 remainder occurs
  m.from = When::of(g.raw(2000000000), true);
  m.to = When::of(g.raw(2000000000), true);
  if (g.chance(1, 8)) { const Key& k = key(512, 0, 1); m.spki = rsa_spki(k.n, k.e); }
  else m.spki = der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(g.noise(32))});
  if (m.v3 && g.coin()) m.tail = gen_extensions(g);
  return assemble(m.tbs(), alg_id(m.alg), der::bits(g.noise(g.range(60, 68))));
}
static void bundle(Gen& g, size_t n) {
  std::vector<Bytes> ders;
  std::string text = g.chance(1, 3) ? "" : junk(g);
  for (size_t i = 0; i < n; i++) {
    ders.push_back(!ders.empty() && g.chance(1, 8) ? g.pick(ders) : gen_cert(g, i));   // duplicates stay
    text += armour(g, ders.back());
    size_t k = g.raw(2);
    if (i + 1 == n && g.chance(1, 4)) k = 0;
    for (size_t j = 0; j < k; j++) text += junk(g);
  }
  size_t found = 0;
  for (size_t p = text.find(BEGIN); p != std::string::npos; p = text.find(BEGIN, p + 1)) found++;
  if (found != n) g.discard();   // surroundings happened to complete a marker
  Bytes raw = to_bytes(text);
  Tight t(raw);
  g.note(n, " certificates, text: ", text.substr(0, 1500));
  std::vector<x509certificate> got = parseCertificatesPem(t);
  CHECK(got.size() == n, "a bundle of " << n << " yields " << got.size());
  for (size_t i = 0; i < n; i++) {
    Tight d(ders[i]);
    same(got[i], parseCertificate(d), ders[i], "certificate " + std::to_string(i) + " of " + std::to_string(n));
  }
  if (n) {
    Tight d(ders[0]);
    same(parseCertificate(t, DataFormat::Pem), parseCertificate(d), ders[0], "single parse of a bundle of " + std::to_string(n));
    g.nontrivial();
  } else {
    bool threw = false;
    try { parseCertificate(t, DataFormat::Pem); } catch (const std::exception&) { threw = true; }
    CHECK(threw, "a text without a certificate is not refused");
    if (!text.empty()) g.nontrivial();
  }
  g.label(n == 0 ? "none" : n == 1 ? "one" : n < 6 ? "few" : "many");
}
PROP(bundles, 12000, 200000) { bundle(g, g.weighted({2, 3, 3, 2, 1, 1})); }
PROP(many, 200, 4000) { bundle(g, g.range(5, 60)); }

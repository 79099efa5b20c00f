// C23: parsed certificates report what was encoded.
#include "certgen.h"

using namespace Caligo;

static Bytes le(const Bytes& be) { return Bytes(be.rbegin(), be.rend()); }

static void judge(const x509certificate& c, const CertModel& m, const Bytes& d, const char* how) {
  CHECK(c.derCert == d, how << ": the certificate's bytes are not those given");
  Bytes l = le(m.serial);
  auto sb = c.serialNumber.as_bytes();
  Bytes sn(sb.begin(), sb.end());
  while (!l.empty() && l.back() == 0) l.pop_back();
  while (!sn.empty() && sn.back() == 0) sn.pop_back();
  CHECK(sn == l, how << ": serial is " << pbt::hex(le(sn)) << ", encoded " << pbt::hex(m.serial));
  CHECK(c.issuer == m.issuer.text(), how << ": issuer is \"" << c.issuer << "\", encoded \"" << m.issuer.text() << "\"");
  CHECK(c.subject == m.subject.text(), how << ": subject is \"" << c.subject << "\", encoded \"" << m.subject.text() << "\"");
  CHECK(c.validity_start == m.from.seconds(), how << ": start is " << c.validity_start << ", encoded " << m.from.text() << " = " << m.from.seconds());
  CHECK(c.validity_end == m.to.seconds(), how << ": end is " << c.validity_end << ", encoded " << m.to.text() << " = " << m.to.seconds());
}

static CertModel gen_model(Gen& g) {
  CertModel m;
  m.v3 = !g.chance(1, 4);
  m.serial = gen_serial(g);
  m.issuer = gen_name(g);
  m.subject = gen_name(g);
  m.from = gen_when(g);
  m.to = gen_when(g);
  gen_tail(g, m);
  m.alg = g.pick(sig_algs());
  return m;
}
static x509certificate parse(Gen& g, const Bytes& d, const char*& how) {
  if (g.chance(1, 3)) {
    how = "PEM";
    Bytes p = to_bytes(pem(d, "CERTIFICATE", g.pick<size_t>({64, 76, 4, 1, 100000}), g.coin() ? "\n" : "\r\n"));
    Tight t(p);
    return parseCertificate(t, DataFormat::Pem);
  }
  how = "DER";
  Tight t(d);
  return parseCertificate(t, DataFormat::Der);
}

PROP(fields, 16000, 400000) {
  CertModel m = gen_model(g);
  bool rsa = g.chance(1, 4);
  if (rsa) { const Key& k = key(g.pick<size_t>({512, 768, 1024}), 0, 1 + g.raw(2)); m.spki = rsa_spki(k.n, k.e); }
  else m.spki = other_spki(g);
  Bytes t = m.tbs(), d = assemble(t, alg_id(m.alg), der::bits(g.noise(g.pick<size_t>({128, 64, 256, 71}))));
  g.note("subject \"", m.subject.text(), "\" issuer \"", m.issuer.text(), "\" ", m.from.text(), "-", m.to.text());
  g.note_hex("der", d);
  const char* how;
  x509certificate c = parse(g, d, how);
  judge(c, m, d, how);
  CHECK((c.pubkey != nullptr) == rsa, how << ": a key object is reported exactly for RSA keys");
  // applies to exactly the common name
  if (m.subject.hasCommon()) {
    std::string n = m.subject.common();
    CHECK(c.appliesTo(n), "does not apply to its common name \"" << n << "\"");
    std::string q = n;
    switch (g.weighted({1, 1, 1, 1, 1, 1, 1, 1})) {
      case 0: q[g.raw(q.size() - 1)] ^= (char)(1 << g.raw(7)); break;
      case 1: q += g.pick<char>({'.', ' ', '\0', 'a'}); break;
      case 2: q.pop_back(); break;
      case 3: q = q.substr(1); break;
      case 4: q = "www." + q; break;
      case 5: q = q.substr(0, q.find('\0')); break;
      case 6: { size_t p = q.find('.'); if (p != std::string::npos) q = "*" + q.substr(p); break; }
      default: for (auto& ch : q) ch = (char)(std::isupper((unsigned char)ch) ? std::tolower((unsigned char)ch) : std::toupper((unsigned char)ch)); break;
    }
    CHECK(c.appliesTo(q) == (q == n), "applies to \"" << q << "\" though its common name is \"" << n << "\"");
    for (auto& a : m.subject.attrs) if (a.type != CN && a.value != n) CHECK(!c.appliesTo(a.value), "applies to its " << attr_types()[a.type].label);
    for (auto& a : m.issuer.attrs) if (a.value != n) CHECK(!c.appliesTo(a.value), "applies to an attribute of its issuer");
    g.label("common name");
  } else CHECK(!c.appliesTo("www.example.com"), "applies to a name though it has none");
  g.label(m.v3 ? "v3" : "v1");
  g.label(rsa ? "RSA key" : "other key");
  g.label(how);
  if (!m.tail.empty()) g.label("unique ids or extensions");
  g.nontrivial();
}

// Every day: one certificate with many dates would not be well-formed, so one case is one pair of instants.
PROP(dates, 24000, 400000) {
  CertModel m;
  static const Bytes spki = der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(Bytes(32, 7))});
  m.spki = spki;
  uint64_t day = g.walk(11680 * 250);   // 1970..9968 walked with a stride coprime to the count
  day = day * 7919 % (11680 * 250);
  m.from = When::of(day * 86400 + g.raw(86399), g.coin());
  m.to = gen_when(g);
  Bytes d = assemble(m.tbs(), alg_id(m.alg), der::bits(Bytes(64, 1)));
  g.note(m.from.text(), " ", m.to.text());
  Tight t(d);
  judge(parseCertificate(t), m, d, "DER");
  if (m.from.mo == 2 && m.from.d == 29) g.label("29 February");
  if (m.to.signed_seconds() < 0) g.label("before 1970");
  if (m.to.y > 2106) g.label("beyond 32-bit seconds");
  g.nontrivial();
}

PROP(public_key, 1600, 20000) {
  size_t bits = gen_key_bits(g);
  int ek = (int)g.weighted({60, 0, 1, 1, 1, 2, 1});
  const Key& k = key(bits, ek, 1 + g.raw(1));
  CertModel m = gen_model(g);
  m.spki = rsa_spki(k.n, k.e);
  Bytes d = assemble(m.tbs(), alg_id(m.alg), der::bits(g.noise(128)));
  const char* how;
  x509certificate c = parse(g, d, how);
  judge(c, m, d, how);
  CHECK(c.pubkey != nullptr, "no key reported");
  Bytes msg = g.blob(100);
  Bytes s = rsa_sign(k, sig_algs()[0].hash, msg);
  g.note("bits ", bits, " e ", k.e.str());
  CHECK(c.pubkey->validateSignature(rsa_pkcs1_sha256, Tight(msg), Tight(s)), "a genuine signature of the encoded " << bits << "-bit key is refused");
  Bytes other;
  switch (g.weighted({1, 1, 1})) {
    case 0: other = s; other[g.raw(s.size() - 1)] ^= (uint8_t)(1 << g.raw(7)); break;
    case 1: other = rsa_sign(key(bits, 0, 3), sig_algs()[0].hash, msg); break;
    default: other = rsa_sign(k, sig_algs()[0].hash, msg + Bytes{0}); break;
  }
  CHECK(!c.pubkey->validateSignature(rsa_pkcs1_sha256, Tight(msg), Tight(other)), "a signature the encoded key does not verify is accepted");
  g.label("modulus " + std::to_string(bits));
  g.nontrivial();
}

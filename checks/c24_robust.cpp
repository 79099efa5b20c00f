// C24: arbitrary and damaged input to every parser, and use of whatever comes out.
#include "certgen.h"
#include "dertree.h"
#include <caligo/Truststore.h>

using namespace Caligo;
enum Format { CertDer, CertPem, Bundle, KeyDer, KeyPem, FormatCount };

static x509certificate& known() {
  static x509certificate c = [] {
    const Key& k = key(512, 0, 1);
    CertModel m;
    m.from = When{1970, 1, 1}; m.to = When{9999, 12, 31};
    m.spki = rsa_spki(k.n, k.e);
    return parseCertificate(signed_cert(m, k));
  }();
  return c;
}
static void use(x509certificate& c, bool deep) {
  (void)c.appliesTo("");
  (void)c.appliesTo(c.subject);
  (void)c.serialNumber.as_bytes();
  try { (void)c.verify(c); } catch (const std::exception&) {}
  try { (void)c.verify(known()); } catch (const std::exception&) {}
  try { (void)known().verify(c); } catch (const std::exception&) {}
  if (deep && c.pubkey)
    for (size_t n : {(size_t)64, (size_t)0, (size_t)128, (size_t)1}) {
      Bytes m(3, 7), s(n, 0x11);
      try { (void)c.pubkey->validateSignature(rsa_pkcs1_sha256, Tight(m), Tight(s)); } catch (const std::exception&) {}
      try { (void)c.pubkey->validateSignature(rsa_pss_rsae_sha256, Tight(m), Tight(s)); } catch (const std::exception&) {}
    }
}
// Returns whether the parser returned (rather than threw).
static bool feed(Format f, std::span<const uint8_t> in, bool deep, bool sign) {
  try {
    switch (f) {
      case CertDer: case CertPem: {
        x509certificate c = parseCertificate(in, f == CertDer ? DataFormat::Der : DataFormat::Pem);
        use(c, deep);
        break;
      }
      case Bundle: {
        std::vector<x509certificate> v = parseCertificatesPem(in);
        for (auto& c : v) use(c, false);
#ifndef PBT_LIBFUZZER
        (void)Truststore::Instance().trust(v, 1500000000);
#endif
        break;
      }
      default: {
        auto k = parsePrivateKey(in, f == KeyDer ? DataFormat::Der : DataFormat::Pem);
        if (k && sign) { Bytes m(5, 1); (void)k->sign(rsa_pkcs1_sha256, Tight(m)); }
        if (k) { Bytes m(5, 1); (void)k->sign(ed25519, Tight(m)); }
      }
    }
  } catch (const std::exception&) { return false; }
  return true;
}

#ifdef PBT_LIBFUZZER
extern "C" size_t LLVMFuzzerMutate(uint8_t* d, size_t n, size_t max);
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  static bool once = [] { (void)!freopen("/dev/null", "w", stdout); return true; }();
  (void)once;
  if (n < 1) return 0;
  Format f = (Format)(d[0] % FormatCount);
  Bytes b(d + 1, d + n);
  if (f == CertPem || f == Bundle) if (d[0] & 0x80) { b = to_bytes(pem(b, "CERTIFICATE")); }   // armoured here
  if (f == KeyPem && (d[0] & 0x80)) b = to_bytes(pem(b, "RSA PRIVATE KEY"));
  Tight t(b);
  feed(f, t, false, false);
  return 0;
}
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* d, size_t n, size_t max, unsigned seed) {
  uint64_t s = seed;
  auto raw = [&](uint64_t m) { return pbt::splitmix(s) % (m + 1); };
  if (n < 3 || raw(2) == 0) return LLVMFuzzerMutate(d, n, max);
  std::vector<Tlv> v;
  if (!tlv_parse({d + 1, n - 1}, v)) return LLVMFuzzerMutate(d, n, max);
  auto fill = [&](size_t k) { return seeded(pbt::splitmix(s), k); };
  for (uint64_t k = 1 + raw(2); k > 0; k--) tlv_damage(v, raw, fill);
  Bytes o = {(uint8_t)(raw(7) ? d[0] : raw(255))};
  tlv_write(v, o);
  if (o.size() > max) o.resize(max);
  memcpy(d, o.data(), o.size());
  return o.size();
}
namespace pbt {
uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
std::string hex(std::span<const uint8_t>, size_t) { return {}; }
}
#else
static pbt::Warmup warm([] { Truststore::Instance(); known(); });

static Bytes good(Gen& g, bool isKey) {
  const Key& k = key(512, 0, 1);
  if (isKey) return key_file(k);
  CertModel m;
  m.v3 = g.coin();
  m.subject = g.coin() ? cn("x") : gen_name(g);
  m.issuer = g.coin() ? cn("y") : gen_name(g);
  m.from = g.coin() ? When{2000, 1, 1} : gen_when(g);
  m.to = g.coin() ? When{2030, 1, 1} : gen_when(g);
  m.spki = g.weighted({2, 1}) ? rsa_spki(k.n, k.e) : other_spki(g);
  gen_tail(g, m);
  return signed_cert(m, k);
}
static void bytewise(Gen& g, Bytes& b) {
  if (b.empty()) { b.push_back((uint8_t)g.raw(255)); return; }
  switch (g.weighted({3, 3, 2, 2, 1, 1})) {
    case 0: b.resize(g.raw(b.size() - 1)); break;
    case 1: b[g.raw(b.size() - 1)] = (uint8_t)g.edge64(); break;
    case 2: b[g.raw(b.size() - 1)] ^= (uint8_t)(1u << g.raw(7)); break;
    case 3: b.insert(b.begin() + g.raw(b.size()), (uint8_t)g.raw(255)); break;
    case 4: b.erase(b.begin() + g.raw(b.size() - 1)); break;
    default: { size_t a = g.raw(b.size() - 1), l = g.raw(b.size() - a); Bytes c(b.begin() + a, b.begin() + a + l); b.insert(b.begin() + g.raw(b.size()), c.begin(), c.end()); }
  }
}
static Bytes damaged(Gen& g, bool isKey) {
  Bytes d = good(g, isKey);
  auto raw = [&](uint64_t n) { return g.raw(n); };
  auto fill = [&](size_t n) { return g.bytes(n); };
  if (g.weighted({1, 3})) {
    std::vector<Tlv> v;
    if (tlv_parse(d, v)) {
      for (size_t k = g.range(1, 4); k > 0; k--) tlv_damage(v, raw, fill);
      d.clear();
      tlv_write(v, d);
    }
  }
  if (g.chance(1, 2)) for (size_t k = g.range(1, 3); k > 0; k--) bytewise(g, d);
  return d;
}
static Bytes wrapped(Gen& g, Format f, const Bytes& d) {
  if (f == CertDer || f == KeyDer) return d;
  std::string what = f == KeyPem ? "RSA PRIVATE KEY" : "CERTIFICATE";
  std::string s = pem(d, what, g.pick<size_t>({64, 1, 100000}));
  if (f == Bundle) for (size_t k = g.raw(3); k > 0; k--) s += pem(g.coin() ? d : good(g, false), what);
  switch (g.weighted({6, 1, 1, 1, 1, 1, 1, 1, 1, 1})) {
    case 0: break;
    case 1: s = s.substr(0, g.raw(s.size())); break;
    case 2: s = s.substr(g.raw(s.size())); break;
    case 3: { size_t p = s.find("-----END"); if (p != std::string::npos) s = s.substr(0, p); break; }
    case 4: s = "-----BEGIN " + what + "-----" + s; break;
    case 5: s += "-----BEGIN " + what + "-----"; break;
    case 6: s = "-----END " + what + "-----\n" + s; break;
    case 7: s = "-----BEGIN " + what + "-----"; break;
    case 8: { size_t p = g.raw(s.size()); s.insert(p, std::string(g.range(1, 5), (char)g.raw(255))); break; }
    default: { std::string t = pem({}, what); s = g.coin() ? t : t + s; break; }
  }
  return to_bytes(s);
}
PROP(damaged_structures, 16000, 400000) {
  Format f = (Format)g.walk(FormatCount);
  Bytes d = damaged(g, f == KeyDer || f == KeyPem), in = wrapped(g, f, d);
  g.note("format ", (int)f);
  g.note_hex("input", in);
  Tight t(in);
  bool ok = feed(f, t, g.chance(1, 40), g.chance(1, 60));
  static const char* names[] = {"certificate DER", "certificate PEM", "bundle", "key DER", "key PEM"};
  g.label(std::string(names[f]) + (ok ? " returned" : " threw"));
  g.nontrivial();
}
// One change to one element, every element and every small change in turn: contents shortened from either end or
// in the middle by every amount, the element left out or doubled, its tag replaced by each tag the formats use.
static Bytes complete(bool isKey) {
  const Key& k = key(512, 0, 1);
  if (isKey) return key_file(k);
  CertModel m;
  m.subject.attrs = {{9, 19, "Org"}, {CN, 12, "host.example"}};
  m.issuer = cn("issuer");
  m.from = When{2000, 1, 1}; m.to = When{2055, 1, 1};   // one UTCTime and one GeneralizedTime
  m.spki = rsa_spki(k.n, k.e);
  m.tail = der::tlv(0x81, Bytes{0, 1, 2}) + der::tlv(0x82, Bytes{0, 3}) + der::tlv(0xa3, der::seq({der::seq({der::oid({0x55, 0x1d, 0x13}), Bytes{1, 1, 0xff}, der::tlv(4, der::seq({Bytes{1, 1, 0xff}}))})}));
  return signed_cert(m, k);
}
PROP(every_element, 15000, 60000) {
  static const Bytes docs[2] = {complete(false), complete(true)};
  static const std::vector<std::vector<Tlv>> trees = [] { std::vector<std::vector<Tlv>> t(2); for (int i = 0; i < 2; i++) CHECK(tlv_parse(docs[i], t[i]), "own documents parse"); return t; }();
  static const uint8_t tags[] = {1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 0x80, 0x81, 0x82, 0xa0, 0xa1, 0xa2, 0xa3, 0, 0xff};
  struct Job { int doc; size_t element; int what; size_t arg; };
  static const std::vector<Job> jobs = [] {
    std::vector<Job> j;
    for (int d = 0; d < 2; d++) {
      std::vector<Tlv> t = trees[d];
      std::vector<std::pair<std::vector<Tlv>*, size_t>> all;
      tlv_all(t, all);
      for (size_t e = 0; e < all.size(); e++) {
        Bytes c;
        tlv_write((*all[e].first)[all[e].second].kids, c);
        size_t n = std::max(c.size(), (*all[e].first)[all[e].second].prim.size());
        j.push_back({d, e, 0, 0});
        j.push_back({d, e, 1, 0});
        for (size_t k = 0; k < sizeof tags; k++) j.push_back({d, e, 2, k});
        for (size_t k = 0; k < std::min<size_t>(n, 72); k++) for (int w = 3; w < 6; w++) j.push_back({d, e, w, k});
        for (size_t k = 1; k < 24; k++) for (int w = 6; w < 8; w++) j.push_back({d, e, w, k});
      }
    }
    return j;
  }();
  const Job& j = jobs[g.walk(jobs.size())];
  std::vector<Tlv> v = trees[j.doc];
  std::vector<std::pair<std::vector<Tlv>*, size_t>> all;
  tlv_all(v, all);
  auto [list, i] = all[j.element];
  Tlv& t = (*list)[i];
  if (j.what >= 3 && t.cons) { Bytes c; if (t.bitstring) c.push_back(0); tlv_write(t.kids, c); t.prim = c; t.cons = t.bitstring = false; t.kids.clear(); }
  size_t n = t.prim.size(), keep = std::min(j.arg, n);
  switch (j.what) {
    case 0: list->erase(list->begin() + i); break;
    case 1: { Tlv c = t; list->insert(list->begin() + i, c); break; }
    case 2: t.tag = tags[j.arg]; break;
    case 3: t.prim.resize(keep); break;
    case 4: t.prim.erase(t.prim.begin(), t.prim.end() - keep); break;
    case 5: if (keep) t.prim.erase(t.prim.begin() + (keep - 1), t.prim.end() - 1); else t.prim.clear(); break;  // the last byte stays
    case 6: t.prim.insert(t.prim.begin(), j.arg, n ? t.prim[0] : 0); break;
    default: t.prim.insert(t.prim.begin() + (n ? n - 1 : 0), j.arg, n > 1 ? t.prim[n - 2] : 0); break;
  }
  Bytes d;
  tlv_write(v, d);
  static const char* what[] = {"left out", "doubled", "retagged", "cut to its first bytes", "cut to its last bytes", "cut in the middle", "extended in front", "extended before its last byte"};
  Format f = j.doc ? KeyDer : CertDer;
  g.note(j.doc ? "key" : "certificate", " element ", j.element, " ", what[j.what], " ", j.arg);
  g.note_hex("input", d);
  Tight in(d);
  bool ok = feed(f, in, false, g.chance(1, 200));
  g.label(std::string("one element ") + what[j.what] + (ok ? ": returned" : ": threw"));
  g.nontrivial();
}
PROP(arbitrary_bytes, 16000, 400000) {
  Format f = (Format)g.walk(FormatCount);
  Bytes in = g.weighted({1, 1}) ? g.blob(200) : to_bytes(g.ascii(g.len(300), "-----BEGIN CERTIFICATE-----END RSA PRIVATE KEY-----\nMIIBAAAA0123/+="));
  if (g.chance(1, 3)) in = wrapped(g, f, in);
  g.note("format ", (int)f);
  g.note_hex("input", in);
  Tight t(in);
  feed(f, t, true, false);
  if (!in.empty()) g.nontrivial();
}
// Well-formed files with extreme numbers: used for verification and signing.
PROP(strange_numbers, 400, 12000) {
  auto number = [&](size_t maxBytes) -> Bytes {
    switch (g.weighted({2, 2, 2, 1, 1})) {
      case 0: return {(uint8_t)g.raw(255)};
      case 1: return g.bytes(g.range(1, 9));
      case 2: return g.noise(g.range(1, maxBytes));
      case 3: return Bytes(g.pick<size_t>({64, 128, 512}), 0xff);
      default: { Bytes b(g.pick<size_t>({1, 64, 128, 512})); b[0] = g.pick<uint8_t>({1, 0x80}); b.back() |= 1; return b; }
    }
  };
  Bytes n = number(g.coin() ? 515 : 64), e = number(g.coin() ? 20 : 515);
  if (!n.empty() && !g.chance(1, 8)) n.back() |= 1;
  if (g.chance(1, 2)) e = g.pick<Bytes>({Bytes{1, 0, 1}, Bytes{17}, Bytes{0}, Bytes{1}, Bytes{3}, Bytes{16}});
  g.note_hex("n", n);
  g.note_hex("e", e);
  if (g.coin()) {
    CertModel m;
    m.spki = der::seq({der::seq({der::oid({0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1}), der::null()}), der::bits(der::seq({der::uint_(n), der::uint_(e)}))});
    m.alg = sig_algs()[g.raw(2)];
    Bytes d = assemble(m.tbs(), alg_id(m.alg), der::bits(g.noise(g.coin() ? n.size() : g.raw(520))));
    Tight t(d);
    try {
      x509certificate c = parseCertificate(t);
      g.label("public key parsed");
      try { (void)c.verify(c); } catch (const std::exception&) {}
      if (c.pubkey) {
        Bytes msg(3), s = g.noise(g.coin() ? n.size() : g.raw(520));
        try { (void)c.pubkey->validateSignature(g.pick<Tls13SignatureScheme>({rsa_pkcs1_sha256, rsa_pkcs1_sha512, rsa_pss_rsae_sha256, rsa_pss_rsae_sha512, rsa_pss_pss_sha384}), Tight(msg), Tight(s)); } catch (const std::exception&) {}
      }
    } catch (const std::exception&) { g.label("public key refused"); }
  } else {
    Bytes d = der::seq({der::uint_(Bytes{0}), der::uint_(n), der::uint_(Bytes{1, 0, 1}), der::uint_(e)});
    Tight t(d);
    try {
      auto k = parsePrivateKey(t);
      g.label("private key parsed");
      Bytes msg(3);
      if (k) (void)k->sign(g.pick<Tls13SignatureScheme>({rsa_pkcs1_sha256, rsa_pkcs1_sha512, rsa_pss_rsae_sha256, rsa_pss_rsae_sha512}), Tight(msg));
    } catch (const std::exception&) { g.label("private key refused or unusable"); }
  }
  g.nontrivial();
}
// Long inputs: time and memory stay proportionate.
PROP(long_inputs, 24, 400) {
  size_t n = g.pick<size_t>({50000, 200000, 1000000});
  Bytes in;
  Format f = Bundle;
  switch (g.weighted({1, 1, 1, 1, 1, 1, 1})) {
    case 0: { std::string s; while (s.size() < n) s += "-----BEGIN CERTIFICATE----"; in = to_bytes(s); break; }
    case 1: in = Bytes(n, (uint8_t)'-'); f = (Format)g.raw(FormatCount - 1); break;
    case 2: in = Bytes(n, 0x30); f = CertDer; break;
    case 3: { Bytes v, one = cn("a").encode(); while (v.size() < n) v.insert(v.end(), one.begin(), one.end()); CertModel m; Bytes t = der::seq({der::tlv(0xa0, der::uint_(Bytes{2})), der::uint_(Bytes{1}), alg_id(m.alg), der::tlv(0x30, v)}); in = der::seq({t}); f = CertDer; break; }
    case 4: { in = der::seq({der::tlv(2, g.noise(n))}); f = KeyDer; break; }
    case 5: { in = to_bytes(pem(g.noise(n), "CERTIFICATE")); f = CertPem; break; }
    default: { Name nm; nm.attrs.push_back({CN, 12, std::string(n, 'a')}); CertModel m; m.subject = nm; m.spki = other_spki(g); in = assemble(m.tbs(), alg_id(m.alg), der::bits(g.noise(n))); f = CertDer; break; }
  }
  g.note("format ", (int)f, ", ", in.size(), " bytes");
  Tight t(in);
  feed(f, t, false, false);
  g.nontrivial();
}
#endif

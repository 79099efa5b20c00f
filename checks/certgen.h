// Certificates built from a model: DER writer, name/date/key generators, and signing with GMP keys.
#pragma once
#include <caligo/X509Certificate.h>
#include "rsakeys.h"
#include <ctime>

using pbt::Gen;

namespace der {
inline Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// octets: 0 -> shortest form; otherwise long form with that many length octets
inline Bytes tlv(uint8_t tag, const Bytes& v, size_t octets = 0) {
  Bytes r = {tag};
  size_t need = 0;
  for (size_t n = v.size(); n; n >>= 8) need++;
  if (octets == 0 && v.size() < 128) r.push_back((uint8_t)v.size());
  else {
    size_t n = std::max<size_t>({need, octets, 1});
    r.push_back((uint8_t)(0x80 | n));
    for (size_t i = n; i-- > 0;) r.push_back(i < 8 ? (uint8_t)(v.size() >> (8 * i)) : 0);
  }
  return r + v;
}
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& b : l) r = r + b; return r; }
inline Bytes seq(std::initializer_list<Bytes> l) { return tlv(0x30, cat(l)); }
inline Bytes uint_(Bytes be) {  // unsigned big-endian magnitude
  size_t z = 0;
  while (z < be.size() && be[z] == 0) z++;
  be.erase(be.begin(), be.begin() + z);
  if (be.empty() || (be[0] & 0x80)) be.insert(be.begin(), 0);
  return tlv(2, be);
}
inline Bytes uint_(const Z& v) { return uint_(v.to_be((v.bits() + 7) / 8)); }
inline Bytes oid(std::initializer_list<uint8_t> b) { return tlv(6, Bytes(b)); }
inline Bytes bits(const Bytes& v, uint8_t unused = 0) { Bytes b = {unused}; return tlv(3, b + v); }
inline Bytes null() { return {5, 0}; }
}
using der::operator+;

// --- names -----------------------------------------------------------------------------------------
struct AttrType { const char* label; Bytes oid; };
inline const std::vector<AttrType>& attr_types() {  // in the order in which names are reported
  static const std::vector<AttrType> t = {
    {"S#", {0x55, 4, 5}}, {"C", {0x55, 4, 6}}, {"L", {0x55, 4, 7}}, {"STREET", {0x55, 4, 9}}, {"ST", {0x55, 4, 8}},
    {"E", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1}}, {"GN", {0x55, 4, 0x2a}}, {"SN", {0x55, 4, 4}}, {"T", {0x55, 4, 0x0c}},
    {"O", {0x55, 4, 0x0a}}, {"OI", {0x55, 4, 0x61}}, {"OU", {0x55, 4, 0x0b}}, {"CN", {0x55, 4, 3}}};
  return t;
}
constexpr size_t CN = 12;
struct Attr { size_t type; uint8_t tag; std::string value; bool joined = false; };  // joined: same RDN as the one before
struct Name {
  std::vector<Attr> attrs;
  Bytes encode() const {
    Bytes all, rdn;
    auto flush = [&] { if (!rdn.empty()) all = all + der::tlv(0x31, rdn); rdn.clear(); };
    for (auto& a : attrs) {
      if (!a.joined) flush();
      rdn = rdn + der::seq({der::tlv(6, attr_types()[a.type].oid), der::tlv(a.tag, Bytes(a.value.begin(), a.value.end()))});
    }
    flush();
    return der::tlv(0x30, all);
  }
  std::string common() const { for (auto& a : attrs) if (a.type == CN) return a.value; return ""; }
  bool hasCommon() const { for (auto& a : attrs) if (a.type == CN) return true; return false; }
  std::string text() const {
    std::string r;
    for (size_t t = 0; t < attr_types().size(); t++)
      for (auto& a : attrs) if (a.type == t) { if (!r.empty()) r += ' '; r += std::string(attr_types()[t].label) + "=" + a.value; }
    return r;
  }
};
inline Name cn(const std::string& s) { return {{{CN, 12, s}}}; }
inline std::string gen_text(Gen& g, size_t max) {
  size_t n = 1 + g.len(max - 1, 64);
  switch (g.weighted({4, 2, 1, 1})) {
    case 0: return g.ascii(n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-,=");
    case 1: { Bytes b = g.noise(n); return std::string(b.begin(), b.end()); }
    case 2: { std::string s; while (s.size() < n) s += "\xc3\xa9\xe2\x82\xac"; return s; }
    default: return "www.example.com" + std::string(1, '\0') + g.ascii(n, "abc.");
  }
}
inline Name gen_name(Gen& g) {
  Name n;
  size_t kinds = attr_types().size();
  uint64_t mask = g.weighted({3, 1, 1}) == 0 ? (1u << CN) | (g.raw(0x1fff) & g.raw(0x1fff)) : g.raw(0x1fff);
  std::vector<size_t> order;
  for (size_t i = 0; i < kinds; i++) if (mask >> i & 1) order.push_back(i);
  if (g.coin()) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[g.raw(i - 1)]);
  for (size_t t : order)
    n.attrs.push_back({t, g.pick<uint8_t>({12, 19, 22}), gen_text(g, g.chance(1, 10) ? 300 : 24), !n.attrs.empty() && g.chance(1, 6)});
  return n;
}

// --- dates -----------------------------------------------------------------------------------------
struct When {
  int y = 2000, mo = 1, d = 1, h = 0, mi = 0, s = 0;
  bool utc = false;
  static int days(int y, int m) { static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return n[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))); }
  int64_t signed_seconds() const { struct tm t{}; t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s; return (int64_t)timegm(&t); }
  uint64_t seconds() const { int64_t v = signed_seconds(); return v < 0 ? 0 : (uint64_t)v; }
  std::string text() const {
    char b[40];
    if (utc) snprintf(b, sizeof b, "%02d%02d%02d%02d%02d%02dZ", y % 100, mo, d, h, mi, s);
    else snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02dZ", y, mo, d, h, mi, s);
    return b;
  }
  Bytes encode() const { std::string t = text(); return der::tlv(utc ? 23 : 24, Bytes(t.begin(), t.end())); }
  static When of(uint64_t secs, bool wantUtc) {
    time_t t = (time_t)secs;
    struct tm m;
    gmtime_r(&t, &m);
    When w{m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, false};
    w.utc = wantUtc && w.y >= 1950 && w.y <= 2049;
    return w;
  }
};
inline When gen_when(Gen& g) {
  When w;
  w.utc = g.coin();
  int lo = 1950, hi = w.utc ? 2049 : 9999;
  switch (g.weighted({2, 2, 2, 1})) {
    case 0: w.y = (int)g.range(2000, 2049); break;
    case 1: w.y = w.utc ? g.pick<int>({1950, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2038, 2049})
                        : g.pick<int>({1950, 1969, 1970, 1972, 1999, 2000, 2001, 2038, 2049, 2050, 2096, 2099, 2100, 2101, 2104, 2106, 2200, 2300, 2399, 2400, 2401, 2500, 4000, 9996, 9999}); break;
    case 2: w.y = (int)g.range(lo, hi); break;
    default: w.y = w.utc ? (int)g.range(lo, hi) : (int)(100 * g.range(20, 99)); break;
  }
  w.mo = (int)g.range(1, 12);
  if (g.chance(1, 4)) w.mo = g.pick<int>({2, 3, 1, 12});
  int dm = When::days(w.y, w.mo);
  w.d = g.chance(1, 3) ? g.pick<int>({1, dm}) : (int)g.range(1, dm);
  if (g.chance(1, 3)) { if (g.coin()) { w.h = 23; w.mi = 59; w.s = 59; } }
  else { w.h = (int)g.range(0, 23); w.mi = (int)g.range(0, 59); w.s = (int)g.range(0, 59); }
  return w;
}

// --- keys and certificates --------------------------------------------------------------------------
inline Bytes rsa_spki(const Z& n, const Z& e) {
  return der::seq({der::seq({der::oid({0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1}), der::null()}), der::bits(der::seq({der::uint_(n), der::uint_(e)}))});
}
inline Bytes other_spki(Gen& g) {
  switch (g.weighted({2, 1, 1, 1, 1})) {
    case 0: return der::seq({der::seq({der::oid({0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1}), der::oid({0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7})}), der::bits(Bytes{4} + g.noise(64))});
    case 1: return der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(g.noise(32))});
    case 2: return der::seq({der::seq({der::oid({0x2b, 0x65, 0x71})}), der::bits(g.noise(57))});
    case 3: return der::seq({der::seq({der::oid({0x2a, 0x86, 0x48, 0xce, 0x38, 4, 1})}), der::bits(der::uint_(g.noise(128)))});
    default: return der::seq({der::seq({der::oid({0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0a}), der::seq({})}), der::bits(der::seq({der::uint_(g.noise(128)), der::uint_(Bytes{1, 0, 1})}))});
  }
}
// Signature algorithms: 0..2 the supported ones (SHA-256/384/512), then ones no certificate may verify under.
struct SigAlg { const char* name; Bytes oid; int hash; };  // hash: index into algos() used to sign, -1 none
inline int algo_index(const char* name) { for (size_t i = 0; i < algos().size(); i++) if (!strcmp(algos()[i].name, name)) return (int)i; return -1; }
inline const std::vector<SigAlg>& sig_algs() {
  static const std::vector<SigAlg> a = {
    {"sha256RSA", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0b}, algo_index("SHA256")},
    {"sha384RSA", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0c}, algo_index("SHA384")},
    {"sha512RSA", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0d}, algo_index("SHA512")},
    {"sha224RSA", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0e}, algo_index("SHA224")},
    {"sha1RSA", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 5}, algo_index("SHA1")},
    {"md5RSA", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 4}, algo_index("MD5")},
    {"pssRSA", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0a}, algo_index("SHA256")},
    {"rsaEncryption", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1}, algo_index("SHA256")},
    {"ecdsaSHA256", {0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2}, algo_index("SHA256")},
    {"ed25519", {0x2b, 0x65, 0x70}, algo_index("SHA512")},
    {"empty", {}, algo_index("SHA256")},
    {"sha256RSA-truncated", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1}, algo_index("SHA256")},
    {"sha256RSA-longer", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0b, 1}, algo_index("SHA256")},
  };
  return a;
}
inline Bytes alg_id(const SigAlg& a) { return der::seq({der::tlv(6, a.oid), der::null()}); }

struct CertModel {
  bool v3 = true;
  Bytes serial = {1};
  Name issuer = cn("issuer"), subject = cn("subject");
  When from{2000, 1, 1}, to{2030, 1, 1};
  Bytes spki;
  Bytes tail;      // unique ids and extensions
  SigAlg alg = sig_algs()[0];
  size_t tbsLenOctets = 0;
  Bytes tbs() const {
    Bytes v;
    if (v3) v = der::tlv(0xa0, der::uint_(Bytes{2}));
    v = v + der::uint_(serial) + alg_id(alg) + issuer.encode() + der::tlv(0x30, from.encode() + to.encode()) + subject.encode() + spki + tail;
    return der::tlv(0x30, v, tbsLenOctets);
  }
};
inline Bytes assemble(const Bytes& tbs, const Bytes& algId, const Bytes& sigBits) { return der::seq({tbs, algId, sigBits}); }
inline Bytes rsa_sign(const Key& k, int hash, const Bytes& m) { return rsa_raw(pkcs1_encode(hash, m, k.k), k.d, k); }
inline Bytes signed_cert(const CertModel& m, const Key& issuer) {
  Bytes t = m.tbs();
  return assemble(t, alg_id(m.alg), der::bits(rsa_sign(issuer, m.alg.hash, t)));
}
inline Bytes gen_extensions(Gen& g) {
  Bytes all;
  size_t n = g.range(1, 4);
  for (size_t i = 0; i < n; i++) {
    Bytes body;
    switch (g.weighted({1, 1, 1, 1})) {
      case 0: body = der::seq({der::oid({0x55, 0x1d, 0x13}), Bytes{1, 1, 0xff}, der::tlv(4, der::seq({Bytes{1, 1, 0xff}}))}); break;   // basicConstraints CA
      case 1: body = der::seq({der::oid({0x55, 0x1d, 0x0f}), der::tlv(4, der::bits(Bytes{6}, 1))}); break;                            // keyUsage
      case 2: { std::string d = "alt." + g.ascii(1 + g.len(40), "abcdefgh."); body = der::seq({der::oid({0x55, 0x1d, 0x11}), der::tlv(4, der::seq({der::tlv(0x82, Bytes(d.begin(), d.end()))}))}); break; }
      default: body = der::seq({der::oid({0x2b, 6, 1, 4, 1, 0x82}), der::tlv(4, g.blob(300))}); break;
    }
    all = all + body;
  }
  return der::tlv(0xa3, der::tlv(0x30, all));
}
inline void gen_tail(Gen& g, CertModel& m) {
  if (!m.v3) return;
  if (g.chance(1, 5)) m.tail = m.tail + der::tlv(0x81, Bytes{0} + g.blob(40));
  if (g.chance(1, 5)) m.tail = m.tail + der::tlv(0x82, Bytes{0} + g.blob(40));
  if (g.coin()) m.tail = m.tail + gen_extensions(g);
}
inline Bytes gen_serial(Gen& g) {
  Bytes b = g.bytes(g.range(1, 20));
  if (g.chance(1, 4)) b[0] |= 0x80;
  return b;
}

// --- PEM -------------------------------------------------------------------------------------------
inline std::string b64(const Bytes& d) {
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < d.size(); i += 3) {
    uint32_t v = d[i] << 16 | (i + 1 < d.size() ? d[i + 1] << 8 : 0) | (i + 2 < d.size() ? d[i + 2] : 0);
    r += t[v >> 18]; r += t[v >> 12 & 63]; r += i + 1 < d.size() ? t[v >> 6 & 63] : '='; r += i + 2 < d.size() ? t[v & 63] : '=';
  }
  return r;
}
inline std::string pem(const Bytes& d, const std::string& what, size_t width = 64, const std::string& eol = "\n") {
  std::string b = b64(d), r = "-----BEGIN " + what + "-----" + eol;
  for (size_t i = 0; i < b.size(); i += width) r += b.substr(i, width) + eol;
  return r + "-----END " + what + "-----" + eol;
}
inline Bytes to_bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }

inline size_t gen_key_bits(Gen& g, size_t least = 512) {
  size_t b = g.pick<size_t>({1024, 1024, 768, 800, 1016, 1032, 1536, 2048, 3072, 4096, 640, 512});
  return std::max(b, least);
}
// A PKCS#1 private key file.
inline Bytes key_file(const Key& k) {
  Z one(1), qi;
  ref::invert(qi, k.q, k.p);
  return der::seq({der::uint_(Bytes{0}), der::uint_(k.n), der::uint_(k.e), der::uint_(k.d), der::uint_(k.p), der::uint_(k.q), der::uint_(k.d % (k.p - one)), der::uint_(k.d % (k.q - one)), der::uint_(qi)});
}

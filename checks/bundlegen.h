// PEM bundles: certificates in many layouts, and other text around them.
#pragma once
#include "certgen.h"

static const std::string BEGIN = "-----BEGIN CERTIFICATE-----", END = "-----END CERTIFICATE-----";

inline std::string eol(Gen& g) { return g.pick<std::string>({"\n", "\r\n", "\n\n", " \n", "\r"}); }
inline std::string armour(Gen& g, const Bytes& d) {
  std::string b = b64(d), r = BEGIN, e = eol(g);
  size_t w = g.chance(1, 3) ? g.range(1, 100) : g.pick<size_t>({64, 76, 4, 100000});
  r += g.chance(1, 8) ? "" : e;
  for (size_t i = 0; i < b.size(); i += w) r += b.substr(i, w) + (i + w < b.size() || !g.chance(1, 8) ? e : "");
  return r + END;
}
inline std::string junk(Gen& g) {
  switch (g.weighted({4, 2, 3, 2, 2, 1, 1, 1, 1, 1})) {
    case 0: return "\n";
    case 1: return "";
    case 2: return "\nsubject=/CN=" + g.ascii(g.len(40), "abcdefghijklmnopqrstuvwxyz=/+ -\n") + "\n";
    case 3: return "\n" + pem(g.blob(100), g.pick<std::string>({"RSA PRIVATE KEY", "CERTIFICATE REQUEST", "X509 CRL", "TRUSTED CERTIFICATE", "X509 CERTIFICATE"}));
    case 4: return "\n" + g.pick<std::string>({"-----BEGIN CERTIFICATE----", "----BEGIN CERTIFICATE-----\n----", "-----BEGIN CERTIFICATE", "-----begin certificate-----", "BEGIN CERTIFICATE", "-----BEGIN  CERTIFICATE-----", "-----BEGIN", "-----"}) + g.pick<std::string>({"\n", "x"});
    case 5: return "\n" + END + "\n";
    case 6: { Bytes b = g.noise(g.range(0, 200)); return "\n" + std::string(b.begin(), b.end()) + "\n"; }
    case 7: return "\n" + b64(g.noise(60)) + "\n";
    case 8: return std::string(g.raw(3), '\0');
    default: return std::string(g.raw(300), g.pick<char>({'-', '\n', ' ', 'A', '#'}));
  }
}


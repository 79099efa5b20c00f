// A table of library operations, each a function from a number to bytes (C29, C32).
#pragma once
#include "certgen.h"
#include "modes.h"
#include <caligo/base64.h>
#include <caligo/hkdf.h>
#include <caligo/x25519.h>

using namespace Caligo;
Bytes prime_op(uint64_t seed);             // c29_prime.cpp: mont.h cannot be included twice
bool prime_from_random(Bytes& out);

// Inputs come in groups of four that differ only in part, so that a result kept for "the same" input shows.
static Bytes filler(uint64_t s, size_t n) {
  Bytes b = seeded(s / 4, n), o = seeded(s + 0x1000000, n);
  switch (n ? s % 4 : 0) {
    case 1: std::copy(o.begin() + n / 2, o.end(), b.begin() + n / 2); break;   // second half differs
    case 2: std::copy(o.begin(), o.begin() + (n + 1) / 2, b.begin()); break;   // first half differs
    case 3: b[o[0] % n] ^= (uint8_t)(1 | o[0]); break;                         // one byte differs
    default: break;
  }
  return b;
}
static size_t size_of(uint64_t s, size_t max) { uint64_t t = (s / 4) ^ 0x5bd1e995; return pbt::splitmix(t) % (max + 1); }
template <class A> static Bytes vec(const A& a) { return Bytes(a.begin(), a.end()); }

static bignum<512> N, E, D;        // an RSA key, converted beforehand
static Bytes certDer[4], chainDer[2], bundle;
static Bytes keyDer[2], keyMsg, keySig[3];   // private key files; signatures of certDer[3]'s key: SHA-256, SHA-384, PSS with SHA-256
static std::vector<Bytes> variety;   // certificates with all kinds of names, times and forms
static pbt::Setup prep([] {
  const Key& k = key(512, 0, 1);
  N = bz<512>(k.n); E = bz<512>(k.e); D = bz<512>(k.d);
  std::string b;
  for (int i = 0; i < 4; i++) {
    CertModel m;
    m.subject = cn("host " + std::to_string(i));
    m.spki = i == 3 ? rsa_spki(key(768, 0, 1).n, key(768, 0, 1).e) : der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(Bytes(32, (uint8_t)i))});
    certDer[i] = assemble(m.tbs(), alg_id(m.alg), der::bits(Bytes(64, 1)));
    if (i < 3) b += pem(certDer[i], "CERTIFICATE");
  }
  bundle = to_bytes(b);
  keyDer[0] = key_file(k);
  keyDer[1] = key_file(key(768, 0, 1));
  const Key& k6 = key(768, 0, 1);
  keyMsg = seeded(99, 40);
  keySig[0] = rsa_sign(k6, algo_index("SHA256"), keyMsg);
  keySig[1] = rsa_sign(k6, algo_index("SHA384"), keyMsg);
  keySig[2] = rsa_raw(pss_encode("SHA256", ref::digest("SHA256", keyMsg), seeded(5, 32), k6.bits - 1), k6.d, k6);
  CertModel m;
  m.spki = rsa_spki(k.n, k.e);
  chainDer[0] = chainDer[1] = signed_cert(m, k);
  uint64_t r = 7;
  for (int i = 0; i < 24; i++) {
    CertModel c;
    auto name = [&] {
      Name n;
      uint64_t mask = pbt::splitmix(r);
      for (size_t t = 0; t < attr_types().size(); t++)
        if (mask >> (t * 2) & 1) n.attrs.push_back({t, (uint8_t)(mask >> (40 + t) & 1 ? 12 : 19), "v" + std::to_string(i) + std::string(mask >> 50 & 7, 'x'), !n.attrs.empty() && (mask >> 60 & 3) == 0});
      return n;
    };
    c.v3 = i % 2;
    c.serial = seeded(i, 1 + i % 20);
    c.serial[0] = (uint8_t)(1 + i);
    c.subject = name();
    c.issuer = name();
    c.from = When::of(pbt::splitmix(r) % 4000000000u, i % 3 == 0);
    c.to = When::of(pbt::splitmix(r) % 4000000000u, i % 5 == 0);
    c.spki = der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(Bytes(32, (uint8_t)i))});
    variety.push_back(assemble(c.tbs(), alg_id(c.alg), der::bits(Bytes(64, 1))));
  }
});

using Op = Bytes (*)(uint64_t);
struct Named { const char* name; Op op; unsigned weight; };
template <int A> static Bytes hash_op(uint64_t s) {
  auto h = algos()[A].make();
  Bytes m = filler(s, size_of(s, 700));
  size_t i = 0;
  for (uint64_t t = s; i < m.size();) { size_t n = std::min<size_t>(m.size() - i, 1 + pbt::splitmix(t) % 90); h->add(std::span<const uint8_t>(m).subspan(i, n)); i += n; }
  Bytes r = h->data(), t = to_bytes(h->text());
  return r + t;
}
template <class C, size_t K> static Bytes gcm_op(uint64_t s) {
  Bytes k = filler(s, K), iv = filler(s + 1, 12), out;
  GCM<C> a{key_iv_pair<C>(k, iv)}, b{key_iv_pair<C>(k, iv)};
  for (int i = 0; i < 3; i++) {
    Bytes pt = filler(s + 2 + i, size_of(s + i, 200)), aad = filler(s + 7, size_of(s, 40));
    auto [c, t] = a.Encrypt(pt, aad);
    out = out + vec(c) + vec(t);
    auto [p, ok] = b.Decrypt(c, aad, t);
    out = out + vec(p) + Bytes{(uint8_t)ok};
  }
  return out;
}
template <class C, size_t K> static Bytes ctr_op(uint64_t s) {
  Bytes k = filler(s, K), iv = filler(s + 1, 16), out;
  CTR<C> a{key_iv_pair<C>(k, iv)};
  for (int i = 0; i < 3; i++) { Bytes d = filler(s + i, size_of(s + i, 200)); a.Encrypt(d); out = out + d; }
  return out;
}
static const std::vector<Named>& ops() {
  static const std::vector<Named> o = {
    {"SHA256", hash_op<0>, 2}, {"SHA1", hash_op<1>, 1}, {"MD5", hash_op<2>, 1}, {"SHA224", hash_op<3>, 1}, {"SHA384", hash_op<4>, 1}, {"SHA512", hash_op<5>, 1},
    {"SHA3-256", hash_op<7>, 1}, {"SHA3-512", hash_op<9>, 1},
    {"named hash", [](uint64_t s) {
       static const char* n[] = {"MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512"};
       Bytes out;
       for (auto x : n) { try { Hash h{std::string_view(x)}; h.add(std::span<const uint8_t>(filler(s, size_of(s, 200)))); out = out + h.data(); } catch (const std::exception&) {} }
       return out; }, 2},
    {"CRC", [](uint64_t s) { Bytes m = filler(s, size_of(s, 500)); std::array<uint8_t, 4> a = CRC32(std::span<const uint8_t>(m)); return vec(a); }, 1},
    {"HMAC", [](uint64_t s) { return vec(HMAC<SHA2<256>>(filler(s, size_of(s, 200)), filler(s + 1, size_of(s + 1, 150)))); }, 1},
    {"HKDF", [](uint64_t s) { return HKDF_Expand_Label<SHA2<384>>(filler(s, 48), "label", filler(s + 1, 48), 1 + size_of(s, 200)); }, 1},
    {"AES-128-GCM", gcm_op<AES<128>, 16>, 2}, {"AES-256-GCM", gcm_op<AES<256>, 32>, 1}, {"AES-128-CTR", ctr_op<AES<128>, 16>, 1}, {"AES-256-CTR", ctr_op<AES<256>, 32>, 1},
    {"base64", [](uint64_t s) { Bytes d = filler(s, size_of(s, 300)); std::string t = base64(d, s & 1, s & 2, (Base64CharSet)(s % 3)); return to_bytes(t) + base64d(t); }, 2},
    {"bignum", [](uint64_t s) {
       bignum<512> a(filler(s, 64)), b(filler(s + 1, 40));
       auto p = a * b;
       return vec(p.as_bytes()) + vec((a + b).second.as_bytes()) + vec((a - b).second.as_bytes()) + vec(p.naive_reduce(a).as_bytes()); }, 1},
    {"modular power", [](uint64_t s) {
       Bytes m = filler(s, 32);
       m[0] |= 1; m[31] |= 0x80;
       MontgomeryState<256> st{bignum<256>(m)};
       MontgomeryValue<256> x(st, bignum<256>(filler(s + 1, 31)));
       bignum<256> r = x.exp(bignum<256>(filler(s + 2, 8)));
       return vec(r.as_bytes()); }, 1},
    {"X25519", [](uint64_t s) { return vec(X25519(ec_value(bignum<256>(filler(s, 32))), ec_value(bignum<256>(filler(s + 1, 32)))).as_bytes()); }, 1},
    {"RSA", [](uint64_t s) {
       Bytes m = filler(s, size_of(s, 100));
       rsa_private_key<512> priv(N, D);
       rsa_public_key<512> pub(N, E);
       Bytes sig = priv.signPkcs1_5Signature<SHA2<256>>(m);
       sig.push_back(pub.validatePkcs1_5Signature<SHA2<256>>(m, Bytes(sig)));
       return sig; }, 1},
    {"ChaCha20", [](uint64_t s) {
       Bytes k = filler(s, 32), n = filler(s + 1, 12), out;
       ChaCha20 c(k, n);
       for (int i = 0; i < 3; i++) { Bytes d = filler(s + i, size_of(s + i, 200)); c.Encrypt(d); out = out + d; }
       return out; }, 2},
    {"key schedule", [](uint64_t s) {
       Bytes th = filler(s, 32);
       auto h = HKDF_HandshakeSecret<SHA2<256>>(filler(s + 1, 32));
       auto m = HKDF_MasterSecret<SHA2<256>>(h);
       return vec(h.data) + vec(m.data) + m.get_traffic_secret(th, s & 1, false); }, 1},
    {"PSS", [](uint64_t s) {
       Bytes h = filler(s, 20), salt = filler(s + 1, 20);
       rsa_private_key<512> priv(N, D);
       std::array<uint8_t, 20> a;
       memcpy(a.data(), h.data(), 20);
       return priv.signPssSignature<SHA1, MGF1<SHA1>>(a, salt); }, 1},
    {"verification", [](uint64_t s) {
       if (s % 16) return Bytes{};
       x509certificate c = parseCertificate(chainDer[0]), i = parseCertificate(chainDer[1]);
       return Bytes{(uint8_t)c.verify(i), (uint8_t)i.verify(c)}; }, 1},
    {"MGF1", [](uint64_t s) { return MGF1<SHA2<256>>::MGF(filler(s, 32), size_of(s, 300)); }, 1},
    {"certificate", [](uint64_t s) {
       x509certificate c = parseCertificate(certDer[s % 64 == 0 ? 3 : s % 3]);
       return to_bytes(c.subject + "|" + c.issuer + "|" + std::to_string(c.validity_start) + "|" + std::to_string(c.validity_end)) + c.derCert; }, 2},
    {"certificate of any form", [](uint64_t s) {
       const Bytes& d = variety[s % variety.size()];
       Bytes t = to_bytes(pem(d, "CERTIFICATE"));
       x509certificate c = s & 64 ? parseCertificate(t, DataFormat::Pem) : parseCertificate(d);
       return to_bytes(c.subject + "|" + c.issuer + "|" + std::to_string(c.validity_start) + "|" + std::to_string(c.validity_end)) + vec(c.serialNumber.as_bytes()) + c.derCert; }, 2},
    {"long HMAC key", [](uint64_t s) { return vec(HMAC<SHA2<256>>(filler(s, 30), filler(s + 4, 130 + size_of(s, 150)))) + vec(HMAC<SHA2<512>>(filler(s, 30), filler(s + 4, 130 + size_of(s, 350)))); }, 1},
    {"AES block", [](uint64_t s) { return aes_block<128>(AesKeySchedule<128>(filler(s, 16)), filler(s / 4, 16)) + aes_block<256>(AesKeySchedule<256>(filler(s, 32)), filler(s / 4, 16)); }, 1},
    {"bundle", [](uint64_t) { Bytes out; for (auto& c : parseCertificatesPem(bundle)) out = out + to_bytes(c.subject) + c.derCert; return out; }, 1},
    {"primality", prime_op, 1},
    {"private key", [](uint64_t s) {
       if (s % 8) return Bytes{};   // the key's Montgomery state is expensive
       const Bytes& d = keyDer[s / 8 % 2];
       auto k = s & 64 ? parsePrivateKey(to_bytes(pem(d, "RSA PRIVATE KEY")), DataFormat::Pem) : parsePrivateKey(d);
       auto& r = dynamic_cast<RsaPrivateKey&>(*k).privkey;
       return vec(r.n.as_bytes()) + vec(r.d.as_bytes()); }, 1},
    {"certificate key", [](uint64_t s) {
       if (s % 16) return Bytes{};
       x509certificate c = parseCertificate(certDer[3]);
       Bytes out;
       size_t i = s / 16 % 3, j = s / 64 % 3;
       out.push_back(c.pubkey->validateSignature((Tls13SignatureScheme)(0x0401 + 0x100 * (i == 2 ? 0 : i)), keyMsg, keySig[j == 2 ? 0 : j]));
       out.push_back(c.pubkey->validateSignature((Tls13SignatureScheme)(0x0804 + (s & 256 ? 5 : 0)), keyMsg, keySig[2]));
       return out; }, 1},
    {"other SHA-3", [](uint64_t s) { return hash_op<6>(s) + hash_op<8>(s); }, 1},
    {"number text", [](uint64_t s) { return to_bytes(to_string(bignum<224>(filler(s, 28)))) + to_bytes(to_string(ec_value(bignum<256>(filler(s, 32))))); }, 1},
    {"field arithmetic", [](uint64_t s) {
       ec_value a(bignum<256>(filler(s, 32))), b(bignum<256>(filler(s + 1, 32)));
       ec_value r = a * b - inverse(a) * 121665u + b.square();
       ctime_swap(s & 1, a, b);
       r.applyModulus();
       return vec(r.as_bytes()) + vec(a.as_bytes()) + Bytes{(uint8_t)(a == b), (uint8_t)(a < b)}; }, 1},
    {"key updates", [](uint64_t s) {
       secret<SHA2<384>> m{};
       Bytes d = filler(s, 48), th = filler(s + 1, 48);
       std::copy(d.begin(), d.end(), m.data.begin());
       auto u = HKDF_UpdateSecret<SHA2<384>>(m);
       auto kiv = m.get_key_iv<AES<256>>(th, s & 1, s & 2);
       return vec(u.data) + kiv.key + kiv.iv + exporter_master(m, th) + resumption_master(m, th) + m.get_finished_key(th, s & 1); }, 1},
  };
  return o;
}

// Operations that end in an exception part of the way, or leave half-used objects behind.
static const std::vector<Named>& disturbances() {
  static const std::vector<Named> o = {
    {"wrong AES key size", [](uint64_t s) { try { AesKeySchedule<256> k(filler(s, size_of(s, 40))); } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"wrong CTR iv", [](uint64_t s) { try { CTR<AES<128>> c{key_iv_pair<AES<128>>(filler(s, 16), filler(s, size_of(s, 30)))}; Bytes d(20); c.Encrypt(d); } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"wrong ChaCha key", [](uint64_t s) { try { ChaCha20 c(filler(s, size_of(s, 40)), filler(s, 12)); } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"refused GCM message", [](uint64_t s) { GCM<AES<128>> c{key_iv_pair<AES<128>>(filler(s, 16), filler(s + 1, 12))}; std::array<uint8_t, 16> t{}; (void)c.Decrypt(filler(s, 33), filler(s, 5), t); return Bytes{}; }, 1},
    {"GCM with unusable iv", [](uint64_t s) { try { GCM<AES<256>> c{key_iv_pair<AES<256>>(filler(s, 32), filler(s + 1, size_of(s, 11)))}; (void)c.Encrypt(filler(s, 33), filler(s, 5)); } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"damaged certificate", [](uint64_t s) { Bytes c = certDer[s % 4]; c[size_of(s, c.size() - 1)] ^= (uint8_t)(1 + s % 255); try { x509certificate x = parseCertificate(c); (void)x; } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"truncated certificate", [](uint64_t s) { Bytes c = certDer[s % 4]; c.resize(size_of(s, c.size() - 1)); try { x509certificate x = parseCertificate(c); (void)x; } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"unsupported name part", [](uint64_t s) {
       Bytes c = variety[s % variety.size()];
       std::vector<size_t> at;
       for (size_t i = 0; i + 2 < c.size(); i++) if (c[i] == 3 && c[i + 1] == 0x55 && c[i + 2] == 4) at.push_back(i + 3);
       if (at.empty()) return Bytes{};
       c[at[s / 24 % at.size()]] = 0x7e;
       try { x509certificate x = parseCertificate(c); (void)x; } catch (const std::exception&) {}
       return Bytes{}; }, 2},
    {"broken form", [](uint64_t s) { Bytes c = variety[s % variety.size()]; c[size_of(s * 4, c.size() - 1)] ^= (uint8_t)(1 + s / 24 % 255); try { x509certificate x = parseCertificate(c); (void)x; } catch (const std::exception&) {} return Bytes{}; }, 2},
    {"broken bundle", [](uint64_t s) { Bytes c = bundle; c.resize(size_of(s * 4, c.size())); try { (void)parseCertificatesPem(c); } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"unknown hash", [](uint64_t s) { try { Hash h(s & 1 ? "sha2-1" : "x"); } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"hash left unfinished", [](uint64_t s) { auto h = algos()[s % algos().size()].make(); h->add(filler(s, size_of(s, 400))); return Bytes{}; }, 1},
    {"even modulus", [](uint64_t s) { try { Bytes m = filler(s, 32); m[0] &= 0xFE; MontgomeryState<256> st{bignum<256>(m)}; (void)st; } catch (const std::exception&) {} return Bytes{}; }, 1},
    {"bad text", [](uint64_t s) { Bytes b = filler(s, size_of(s, 99)); (void)base64d(std::string(b.begin(), b.end())); return Bytes{}; }, 1},
    {"bad signature", [](uint64_t s) { rsa_public_key<512> p(N, E); (void)p.validatePkcs1_5Signature<SHA2<256>>(filler(s, 5), filler(s, size_of(s, 70))); return Bytes{}; }, 1},
    {"random values", [](uint64_t s) { for (uint64_t i = 0; i < s % 9; i++) (void)generate_random_value(); return Bytes{}; }, 1},
  };
  return o;
}

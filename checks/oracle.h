// Independent reference implementations used as oracles (OpenSSL libcrypto, GMP, textbook code).
#pragma once
#include "pbt.h"
#include <gmp.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <stdexcept>

namespace ref {
using pbt::Bytes;

// name: MD5 SHA1 SHA224 SHA256 SHA384 SHA512 SHA3-224 ...
inline const EVP_MD* md(const char* name) {
  static std::map<std::string, const EVP_MD*> cache;
  auto& e = cache[name];
  if (!e) e = EVP_MD_fetch(nullptr, name, nullptr);
  if (!e) throw std::logic_error(std::string("oracle digest missing: ") + name);
  return e;
}
inline Bytes digest(const char* name, std::span<const uint8_t> m) {
  Bytes out(64);
  unsigned n = 0;
  if (!EVP_Digest(m.data(), m.size(), out.data(), &n, md(name), nullptr)) throw std::logic_error("oracle digest");
  out.resize(n);
  return out;
}
inline std::string hexs(std::span<const uint8_t> b) { return pbt::hex(b, b.size()); }
inline Bytes cat(std::initializer_list<std::span<const uint8_t>> l) {
  Bytes r;
  for (auto& s : l) r.insert(r.end(), s.begin(), s.end());
  return r;
}
// RFC 2104 from the definition, over the oracle digest.
inline Bytes hmac(const char* name, size_t block, std::span<const uint8_t> key, std::span<const uint8_t> text) {
  Bytes k(key.begin(), key.end());
  if (k.size() > block) k = digest(name, k);
  k.resize(block);
  Bytes i = k, o = k;
  for (auto& c : i) c ^= 0x36;
  for (auto& c : o) c ^= 0x5c;
  i.insert(i.end(), text.begin(), text.end());
  Bytes h = digest(name, i);
  o.insert(o.end(), h.begin(), h.end());
  return digest(name, o);
}
inline Bytes hkdf_expand(const char* name, size_t block, std::span<const uint8_t> prk, std::span<const uint8_t> info, size_t len) {
  Bytes okm, t;
  for (unsigned i = 1; okm.size() < len; i++) {
    Bytes in = t;
    in.insert(in.end(), info.begin(), info.end());
    in.push_back((uint8_t)i);
    t = hmac(name, block, prk, in);
    okm.insert(okm.end(), t.begin(), t.end());
  }
  okm.resize(len);
  return okm;
}

// --- AES -----------------------------------------------------------------------------------------
struct Aes {
  EVP_CIPHER_CTX* c;
  explicit Aes(std::span<const uint8_t> key) : c(EVP_CIPHER_CTX_new()) {
    EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, key.data(), nullptr);
    EVP_CIPHER_CTX_set_padding(c, 0);
  }
  Aes(const Aes&) = delete;
  ~Aes() { EVP_CIPHER_CTX_free(c); }
  std::array<uint8_t, 16> enc(const uint8_t* b) const {
    std::array<uint8_t, 16> o;
    int n = 0;
    EVP_EncryptUpdate(c, o.data(), &n, b, 16);
    return o;
  }
};
using Blk = std::array<uint8_t, 16>;
// GF(2^128) in GCM's bit order, bit by bit as in SP 800-38D section 6.3.
inline Blk gf_mul(const Blk& X, const Blk& Y) {
  unsigned __int128 z = 0, v = 0;
  for (int i = 0; i < 16; i++) v = (v << 8) | Y[i];
  const unsigned __int128 R = (unsigned __int128)0xE1 << 120;
  for (int i = 0; i < 128; i++) {
    if ((X[i / 8] >> (7 - i % 8)) & 1) z ^= v;
    bool lsb = v & 1;
    v >>= 1;
    if (lsb) v ^= R;
  }
  Blk o;
  for (int i = 15; i >= 0; i--) { o[i] = (uint8_t)z; z >>= 8; }
  return o;
}
inline Blk gf_inv(const Blk& a) {  // a^(2^128-2)
  Blk r{};
  r[0] = 0x80;  // one
  Blk s = a;
  for (int i = 1; i < 128; i++) { s = gf_mul(s, s); r = gf_mul(r, s); }
  return r;
}
inline Blk xorb(Blk a, const Blk& b) { for (int i = 0; i < 16; i++) a[i] ^= b[i]; return a; }
inline Blk ghash(const Blk& H, std::span<const uint8_t> aad, std::span<const uint8_t> ct) {
  Blk y{};
  auto feed = [&](std::span<const uint8_t> d) {
    for (size_t i = 0; i < d.size(); i += 16) {
      Blk b{};
      memcpy(b.data(), d.data() + i, std::min<size_t>(16, d.size() - i));
      y = gf_mul(xorb(y, b), H);
    }
  };
  feed(aad);
  feed(ct);
  Blk l;
  uint64_t a = aad.size() * 8, c = ct.size() * 8;
  for (int i = 0; i < 8; i++) { l[7 - i] = (uint8_t)(a >> (8 * i)); l[15 - i] = (uint8_t)(c >> (8 * i)); }
  return gf_mul(xorb(y, l), H);
}
inline void inc32(Blk& b) { for (int i = 15; i >= 12; i--) if (++b[i]) break; }
inline Bytes gctr(const Aes& k, Blk icb, std::span<const uint8_t> x) {
  Bytes o(x.begin(), x.end());
  for (size_t i = 0; i < o.size(); i += 16) {
    Blk e = k.enc(icb.data());
    for (size_t j = 0; j < 16 && i + j < o.size(); j++) o[i + j] ^= e[j];
    inc32(icb);
  }
  return o;
}
inline Blk gcm_j0(const Aes& k, std::span<const uint8_t> iv) {
  Blk z{}, H = k.enc(z.data()), j{};
  if (iv.size() == 12) { memcpy(j.data(), iv.data(), 12); j[15] = 1; return j; }
  return ghash(H, {}, iv);
}
inline Blk xor_counter(Blk j, uint64_t n) { for (int i = 0; i < 8; i++) j[11 - i] ^= (uint8_t)(n >> (8 * i)); return j; }
struct Sealed { Bytes ct; Blk tag; };
inline Sealed gcm_seal(const Aes& k, const Blk& j0, std::span<const uint8_t> aad, std::span<const uint8_t> pt) {
  Blk z{}, H = k.enc(z.data()), c = j0;
  inc32(c);
  Sealed s;
  s.ct = gctr(k, c, pt);
  s.tag = xorb(ghash(H, aad, s.ct), k.enc(j0.data()));
  return s;
}

// --- GMP -----------------------------------------------------------------------------------------
struct Z {
  mpz_t v;
  Z() { mpz_init(v); }
  Z(unsigned long x) { mpz_init_set_ui(v, x); }
  Z(const Z& o) { mpz_init_set(v, o.v); }
  Z(Z&& o) noexcept { mpz_init(v); mpz_swap(v, o.v); }
  Z& operator=(const Z& o) { mpz_set(v, o.v); return *this; }
  ~Z() { mpz_clear(v); }
  static Z le(std::span<const uint8_t> b) { Z r; if (!b.empty()) mpz_import(r.v, b.size(), -1, 1, 0, 0, b.data()); return r; }
  static Z be(std::span<const uint8_t> b) { Z r; if (!b.empty()) mpz_import(r.v, b.size(), 1, 1, 0, 0, b.data()); return r; }
  static Z hex(const char* s) { Z r; mpz_set_str(r.v, s, 16); return r; }
  Bytes to_le(size_t n) const { Bytes b(n + 8 + mpz_sizeinbase(v, 256)); size_t c = 0; mpz_export(b.data(), &c, -1, 1, 0, 0, v); b.resize(n); return b; }
  Bytes to_be(size_t n) const { Bytes b = to_le(n); std::reverse(b.begin(), b.end()); return b; }
  size_t bits() const { return mpz_sgn(v) ? mpz_sizeinbase(v, 2) : 0; }
  std::string str() const { char* s = mpz_get_str(nullptr, 16, v); std::string r = s; free(s); return r; }
  friend Z operator+(const Z& a, const Z& b) { Z r; mpz_add(r.v, a.v, b.v); return r; }
  friend Z operator-(const Z& a, const Z& b) { Z r; mpz_sub(r.v, a.v, b.v); return r; }
  friend Z operator*(const Z& a, const Z& b) { Z r; mpz_mul(r.v, a.v, b.v); return r; }
  friend Z operator%(const Z& a, const Z& b) { Z r; mpz_mod(r.v, a.v, b.v); return r; }
  friend Z operator/(const Z& a, const Z& b) { Z r; mpz_fdiv_q(r.v, a.v, b.v); return r; }
  friend bool operator==(const Z& a, const Z& b) { return mpz_cmp(a.v, b.v) == 0; }
  friend bool operator!=(const Z& a, const Z& b) { return mpz_cmp(a.v, b.v) != 0; }
  friend bool operator<(const Z& a, const Z& b) { return mpz_cmp(a.v, b.v) < 0; }
  friend bool operator<=(const Z& a, const Z& b) { return mpz_cmp(a.v, b.v) <= 0; }
  bool odd() const { return mpz_odd_p(v); }
  bool zero() const { return mpz_sgn(v) == 0; }
};
inline Z pow2(size_t n) { Z r; mpz_setbit(r.v, n); return r; }
inline Z powm(const Z& b, const Z& e, const Z& m) { Z r; mpz_powm(r.v, b.v, e.v, m.v); return r; }
inline bool invert(Z& r, const Z& a, const Z& m) { return mpz_invert(r.v, a.v, m.v); }
inline bool is_prime(const Z& a) { return mpz_probab_prime_p(a.v, 30) > 0; }
inline Z next_prime(const Z& a) { Z r; mpz_nextprime(r.v, a.v); return r; }
}

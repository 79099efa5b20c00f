// RSA keys made with GMP, and RFC 8017 written over GMP and OpenSSL digests.
#pragma once
#include "big.h"
#include "hashes.h"
#include "keydata.h"

struct Key {
  Z n, e, d, p, q;
  size_t bits, k;  // modulus length in bits and octets
};
inline Bytes seeded(uint64_t s, size_t n) {
  Bytes b(n);
  for (size_t i = 0; i < n; i += 8) { uint64_t v = pbt::splitmix(s); memcpy(b.data() + i, &v, std::min<size_t>(8, n - i)); }
  return b;
}
// kind of exponent: 0 -> 65537, 1 -> 3, 2 -> 17, 3 -> some 32-bit prime, 4 -> long exponent,
// 5 -> more than 32 bits, with a low word below 17, 6 -> more than 32 bits, with the low word of a common exponent
inline Key make_key(size_t bits, int ekind, uint64_t id) {
  for (uint64_t salt = 0;; salt++) {
    uint64_t s = id * 1000003 + salt * 7919 + bits * 31 + ekind;
    size_t pb = (bits + 1) / 2, qb = bits - pb;
    Bytes rp = seeded(s * 2 + 1, pb / 8 + 1), rq = seeded(s * 2 + 2, qb / 8 + 1);
    Z p = Z::be(rp) % ref::pow2(pb), q = Z::be(rq) % ref::pow2(qb);
    mpz_setbit(p.v, pb - 1); mpz_setbit(p.v, pb - 2);
    mpz_setbit(q.v, qb - 1); mpz_setbit(q.v, qb - 2);
    p = ref::next_prime(p);
    q = ref::next_prime(q);
    if (p == q) continue;
    Key k;
    k.n = p * q;
    if (k.n.bits() != bits) continue;
    Z phi = (p - Z(1)) * (q - Z(1));
    Z e = ekind == 0 ? Z(65537) : ekind == 1 ? Z(3) : ekind == 2 ? Z(17) : ekind == 3 ? ref::next_prime(Z(0x80000000ul + (s % 0x7000000))) : ref::next_prime(Z::be(seeded(s + 5, bits / 8 - 2)));
    if (ekind >= 5) {
      e = Z::be(seeded(s + 6, 4 * (1 + s % 3))) * ref::pow2(32) + (ekind == 5 ? Z(2 * (s / 3 % 8) + 1) : Z(s & 1 ? 65537 : 3));
      if (e.bits() <= 32) continue;
    }
    Z d;
    if (!ref::invert(d, e, phi)) continue;
    k.e = e; k.d = d; k.p = p; k.q = q; k.bits = bits; k.k = (bits + 7) / 8;
    return k;
  }
}
inline const Key& key(size_t bits, int ekind, uint64_t id) {
  static std::map<std::tuple<size_t, int, uint64_t>, Key> cache;
  auto t = std::make_tuple(bits, ekind, id);
  auto it = cache.find(t);
  if (it == cache.end()) {
    const StoredKey* s = nullptr;
    for (auto& k : stored_keys) if (k.bits == bits && k.ekind == ekind && k.id == id) s = &k;
    Key k;
    if (s) {
      k.p = Z::hex(s->p); k.q = Z::hex(s->q); k.e = Z::hex(s->e); k.n = k.p * k.q; k.bits = bits; k.k = (bits + 7) / 8;
      ref::invert(k.d, k.e, (k.p - Z(1)) * (k.q - Z(1)));
    } else k = make_key(bits, ekind, id);
    it = cache.emplace(t, k).first;
  }
  return it->second;
}

inline Bytes mgf1(const char* md, const Bytes& seed, size_t len) {
  Bytes t;
  for (uint32_t c = 0; t.size() < len; c++) {
    Bytes in = seed;
    for (int s = 24; s >= 0; s -= 8) in.push_back((uint8_t)(c >> s));
    Bytes h = ref::digest(md, in);
    t.insert(t.end(), h.begin(), h.end());
  }
  t.resize(len);
  return t;
}
// How an encoded message deviates from the standard one (None: it does not).
enum class Pss { None, Trailer, H, Separator, Padding, SaltLonger, SaltShorter, TopBit, MaskUnapplied, NoPrefixZeros };
inline Bytes pss_encode(const char* md, const Bytes& mHash, const Bytes& salt, size_t emBits, Pss how = Pss::None, uint64_t where = 0) {
  size_t emLen = (emBits + 7) / 8, hl = mHash.size();
  Bytes m8(how == Pss::NoPrefixZeros ? 7 : 8, 0);
  m8.insert(m8.end(), mHash.begin(), mHash.end());
  m8.insert(m8.end(), salt.begin(), salt.end());
  Bytes H = ref::digest(md, m8);
  Bytes db(emLen - hl - 1, 0);
  db[db.size() - salt.size() - 1] = 1;
  std::copy(salt.begin(), salt.end(), db.end() - salt.size());
  size_t pad = db.size() - salt.size() - 1;
  if (how == Pss::Separator) db[pad] ^= (uint8_t)(1u << (where % 8));
  if (how == Pss::Padding) { if (pad) db[where % pad] ^= (where % pad == 0 ? (uint8_t)(1u << ((emBits - 1) % 8)) : (uint8_t)(1u << (where / 8 % 8))); else db[0] ^= 2; }
  Bytes mask = mgf1(md, H, db.size());
  if (how != Pss::MaskUnapplied) for (size_t i = 0; i < db.size(); i++) db[i] ^= mask[i];
  if (emBits % 8) db[0] &= 0xFF >> (8 - emBits % 8);
  if (how == Pss::H) H[where % hl] ^= (uint8_t)(1u << (where / 64 % 8));
  db.insert(db.end(), H.begin(), H.end());
  db.push_back(how == Pss::Trailer ? (uint8_t)(0xbc ^ (1u << (where % 8))) : 0xbc);
  if (how == Pss::TopBit) {  // a bit above the emBits that are allowed
    if (size_t unused = 8 * emLen - emBits) db[0] |= (uint8_t)(0x80 >> (where % unused));
    else db.insert(db.begin(), (uint8_t)1);
  }
  return db;
}
// RFC 8017 9.1.2 with a fixed salt length.
inline bool pss_verify(const char* md, const Bytes& mHash, const Bytes& em, size_t emBits, size_t sLen) {
  size_t emLen = (emBits + 7) / 8, hl = mHash.size();
  if (em.size() != emLen || emLen < hl + sLen + 2 || em.back() != 0xbc) return false;
  Bytes mdb(em.begin(), em.begin() + (emLen - hl - 1)), H(em.begin() + (emLen - hl - 1), em.end() - 1);
  size_t unused = 8 * emLen - emBits;
  if (unused && (mdb[0] >> (8 - unused))) return false;
  Bytes mask = mgf1(md, H, mdb.size());
  for (size_t i = 0; i < mdb.size(); i++) mdb[i] ^= mask[i];
  mdb[0] &= 0xFF >> unused;
  size_t pad = emLen - hl - sLen - 2;
  for (size_t i = 0; i < pad; i++) if (mdb[i]) return false;
  if (mdb[pad] != 1) return false;
  Bytes m8(8, 0);
  m8.insert(m8.end(), mHash.begin(), mHash.end());
  m8.insert(m8.end(), mdb.end() - sLen, mdb.end());
  return ref::digest(md, m8) == H;
}
inline Bytes pkcs1_encode(int alg, const Bytes& msg, size_t k) {
  Bytes t = digestInfo(alg), h = ref::digest(algos()[alg].name, msg);
  t.insert(t.end(), h.begin(), h.end());
  Bytes em = {0, 1};
  em.insert(em.end(), k - t.size() - 3, 0xFF);
  em.push_back(0);
  em.insert(em.end(), t.begin(), t.end());
  return em;
}
inline Bytes rsa_raw(const Bytes& em, const Z& exp, const Key& k) { return ref::powm(Z::be(em), exp, k.n).to_be(k.k); }
// A copy of the signature (or other bytes) in an allocation of exactly its size.
struct Tight {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  Tight(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p.get(), b.data(), n); }
  operator std::span<const uint8_t>() const { return {p.get(), n}; }
};

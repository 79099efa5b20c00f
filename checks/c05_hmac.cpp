#include "hashes.h"
#include <caligo/hkdf.h>

struct K { const char* name; size_t size, block; Bytes (*hmac)(const Bytes&, const Bytes&); Bytes (*extract)(const Bytes&, const Bytes&); Bytes (*expand)(const Bytes&, const Bytes&, size_t); };
template <class H> K kdf(const char* n, size_t s, size_t b) {
  return {n, s, b, [](const Bytes& t, const Bytes& k) { auto a = Caligo::HMAC<H>(t, k); return Bytes(a.begin(), a.end()); },
          [](const Bytes& s, const Bytes& i) { auto a = Caligo::HKDF_Extract<H>(s, i); return Bytes(a.begin(), a.end()); },
          [](const Bytes& p, const Bytes& i, size_t l) { return Caligo::HKDF_Expand<H>(p, i, l); }};
}
static const std::vector<K>& kdfs() {
  using namespace Caligo;
  static const std::vector<K> v = {kdf<SHA2<256>>("SHA256", 32, 64), kdf<SHA2<384>>("SHA384", 48, 128), kdf<SHA2<512>>("SHA512", 64, 128), kdf<SHA1>("SHA1", 20, 64), kdf<MD5>("MD5", 16, 64), kdf<SHA2<224>>("SHA224", 28, 64),
                                   kdf<SHA3<224>>("SHA3-224", 28, 144), kdf<SHA3<256>>("SHA3-256", 32, 136), kdf<SHA3<384>>("SHA3-384", 48, 104), kdf<SHA3<512>>("SHA3-512", 64, 72)};
  return v;
}
static const K& alg(Gen& g) { return kdfs()[g.raw(kdfs().size() - 1)]; }
static Bytes key(Gen& g, const K& k) {
  size_t n;
  switch (g.weighted({3, 2, 2, 2, 2})) {
    case 0: n = g.raw(k.size); break;
    case 1: n = k.block - 2 + g.raw(4); break;
    case 2: n = k.size * 2 - 2 + g.raw(4); break;
    case 3: n = g.raw(k.block); break;
    default: n = k.block + g.raw(300);
  }
  return g.bytes(n);
}

PROP(hmac, 20000, 500000) {
  const K& k = alg(g);
  Bytes ky = key(g, k), t = g.blob(400, k.block);
  g.note(k.name);
  g.note_hex("key", ky);
  g.note_hex("text", t);
  g.label(std::string(k.name) + (ky.size() > k.block ? " key>block" : ky.size() == k.block ? " key=block" : ky.size() > 2 * k.size ? " 2*digest<key<block" : " key<block"));
  if (!ky.empty()) g.nontrivial();
  Bytes k0 = ky, t0 = t;
  pbt::check_bytes(k.hmac(t, ky), ref::hmac(k.name, k.block, ky, t), std::string("HMAC-") + k.name);
  CHECK(k0 == ky && t0 == t, "inputs modified");
}
// Every key length up to twice the block, walked.
PROP(hmac_every_key_length, 5000, 30000) {
  const K& k = kdfs()[g.walk(kdfs().size())];
  size_t n = g.walk(2 * k.block + 3);
  Bytes ky = g.noise(n), t = g.noise(g.raw(70));
  g.note(k.name, " key length ", n);
  if (n) g.nontrivial();
  pbt::check_bytes(k.hmac(t, ky), ref::hmac(k.name, k.block, ky, t), std::string("HMAC-") + k.name + " key length " + std::to_string(n));
}
PROP(hkdf_extract, 5000, 120000) {
  const K& k = alg(g);
  Bytes salt = key(g, k), ikm = g.blob(200, k.block);
  g.note(k.name);
  g.note_hex("salt", salt);
  g.note_hex("ikm", ikm);
  if (!salt.empty()) g.nontrivial();
  pbt::check_bytes(k.extract(salt, ikm), ref::hmac(k.name, k.block, salt, ikm), std::string("HKDF-Extract ") + k.name);
}
PROP(hkdf_expand, 5000, 120000) {
  const K& k = alg(g);
  Bytes prk = g.chance(2, 3) ? g.bytes(k.size) : key(g, k), info = g.blob(300, 16);
  size_t len;
  switch (g.weighted({4, 3, 1, 1})) {
    case 0: len = g.raw(3 * k.size); break;
    case 1: len = k.size * g.raw(6) + g.raw(2); break;
    case 2: len = 255 * k.size - g.raw(k.size); break;
    default: len = g.raw(255 * k.size);
  }
  len = std::min(len, 255 * k.size);
  g.note(k.name, " len ", len);
  g.note_hex("prk", prk);
  g.note_hex("info", info);
  g.label(len > 200 * k.size ? "more than 200 blocks" : len > k.size ? "several blocks" : len ? "one block" : "empty output");
  if (len) g.nontrivial();
  Bytes got = k.expand(prk, info, len);
  pbt::check_bytes(got, ref::hkdf_expand(k.name, k.block, prk, info, len), std::string("HKDF-Expand ") + k.name);
  size_t shorter = g.raw(len);
  pbt::check_bytes(k.expand(prk, info, shorter), Bytes(got.begin(), got.begin() + shorter), "shorter expansion is a prefix");
}
// One after another: keys, texts and lengths that differ from the ones before in one byte or one place.
PROP(sequences, 5000, 100000) {
  const K& k = alg(g);
  Bytes ky = g.chance(1, 2) ? g.bytes(k.block + g.range(1, 80)) : g.bytes(g.range(1, k.block)), t = g.bytes(g.range(1, 150)), ky2 = ky, t2 = t;
  ky2[g.raw(ky.size() - 1)] ^= (uint8_t)g.range(1, 255);
  t2[g.raw(t.size() - 1)] ^= (uint8_t)g.range(1, 255);
  g.note(k.name);
  g.note_hex("key", ky);
  g.label("sequence");
  g.nontrivial();
  for (size_t i = 0, n = g.range(2, 6); i < n; i++) {
    const Bytes &x = g.coin() ? ky : ky2, &y = g.coin() ? t : t2;
    if (g.coin()) { pbt::check_bytes(k.hmac(y, x), ref::hmac(k.name, k.block, x, y), std::string("HMAC in a sequence, ") + k.name); continue; }
    size_t len = g.raw(3 * k.size);
    pbt::check_bytes(k.expand(x, y, len), ref::hkdf_expand(k.name, k.block, x, y, len), std::string("HKDF-Expand in a sequence, ") + k.name);
  }
}

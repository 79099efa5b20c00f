#include "modes.h"

// RFC 8439 keystream from block 1, through OpenSSL (16-byte IV: 32-bit counter, then the nonce).
static Bytes keystream(const Bytes& key, const Bytes& nonce, size_t n) {
  Bytes iv = {1, 0, 0, 0};
  iv.insert(iv.end(), nonce.begin(), nonce.end());
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key.data(), iv.data());
  Bytes z(n), o(n);
  int m = 0;
  if (n) EVP_EncryptUpdate(c, o.data(), &m, z.data(), (int)n);
  EVP_CIPHER_CTX_free(c);
  return o;
}
static ChaCha20 session(const Bytes& key, const Bytes& nonce) { Exact k(key), n(nonce); return ChaCha20(k.cspan(), n.cspan()); }

#ifndef PBT_FAST
struct S { ChaCha20 c; size_t pos; };
PROP(any_chunking, 12000, 400000) {
  Bytes key = g.bytes(32), nonce = g.bytes(12);
  g.note_hex("key", key);
  g.note_hex("nonce", nonce);
  std::vector<S> v{{session(key, nonce), 0}};
  size_t steps = g.range(1, 12), total = 0, copies = 0;
  Bytes ks = keystream(key, nonce, 60000);
  for (size_t i = 0; i < steps; i++) {
    size_t k = g.raw(v.size() - 1);
    if (g.chance(1, 8) && v.size() < 4) { S c = v[k]; v.push_back(c); copies++; g.note("copy session ", k); continue; }
    if (g.chance(1, 12)) { size_t j = g.raw(v.size() - 1); v[k] = S(v[j]); g.note("session ", k, "=", j); continue; }
    size_t fill = v[k].pos % 64, n;
    switch (g.weighted({3, 2, 2, 1, 1})) {
      case 0: n = g.raw(70); break;
      case 1: n = 64 - fill; break;
      case 2: n = 64 - fill + g.raw(2) + 63; break;
      case 3: n = 0; break;
      default: n = g.raw(1200);
    }
    if (v[k].pos + n > ks.size()) continue;
    Bytes d = g.bytes(n), want = d;
    for (size_t b = 0; b < n; b++) want[b] ^= ks[v[k].pos + b];
    Exact x(d, g.raw(3));
    bool enc = g.coin();
    g.note(enc ? "encrypt " : "decrypt ", n, " at ", v[k].pos);
    if (enc) v[k].c.Encrypt(x.span()); else v[k].c.Decrypt(x.span());
    pbt::check_bytes(x.bytes(), want, "bytes from position " + std::to_string(v[k].pos));
    v[k].pos += n;
    total += n;
  }
  g.label(copies ? "with copied sessions" : "one session");
  if (total > 64) g.nontrivial();
}
// Every (first chunk, second chunk) pair around two blocks.
PROP(every_split, 5000, 40000) {
  size_t a = g.walk(132), b = g.walk(132);
  Bytes key = g.noise(32), nonce = g.noise(12), x(a + b + 64, 0);
  auto s = session(key, nonce);
  s.Encrypt(std::span<uint8_t>(x.data(), a));
  s.Decrypt(std::span<uint8_t>(x.data() + a, b));
  s.Encrypt(std::span<uint8_t>(x.data() + a + b, 64));
  g.note("chunks ", a, " ", b, " 64");
  g.label("walked splits");
  g.nontrivial();
  pbt::check_bytes(x, keystream(key, nonce, x.size()), "keystream over chunks " + std::to_string(a) + "," + std::to_string(b) + ",64");
}
// Long sessions: block counters beyond 8 and 16 bits.
PROP(long_sessions, 40, 800) {
  Bytes key = g.bytes(32), nonce = g.bytes(12);
  size_t n = 64 * 65536 + 1000 + g.raw(10000);
  if (g.chance(1, 2)) n = 64 * 256 + g.raw(5000);
  Bytes x(n, 0);
  auto s = session(key, nonce);
  for (size_t p = 0; p < n;) { size_t c = std::min<size_t>(n - p, g.range(1, 400000)); s.Encrypt(std::span<uint8_t>(x.data() + p, c)); p += c; }
  g.note("length ", n);
  g.label(n > 64 * 65536 ? "over 65536 blocks" : "over 256 blocks");
  g.nontrivial();
  pbt::check_bytes(x, keystream(key, nonce, n), "long session");
}
PROP(key_and_nonce_bits, 3000, 60000) {  // sparse keys and nonces: every bit reaches its place
  Bytes key(32, 0), nonce(12, 0);
  size_t i = g.walk(352);
  (i < 256 ? key[i / 8] : nonce[(i - 256) / 8]) ^= (uint8_t)(1u << (i % 8));
  if (g.coin()) for (auto& c : key) c = ~c;
  if (g.coin()) for (auto& c : nonce) c = ~c;
  g.note_hex("key", key);
  g.note_hex("nonce", nonce);
  g.label("walked bits");
  g.nontrivial();
  Bytes x(130, 0);
  session(key, nonce).Encrypt(x);
  pbt::check_bytes(x, keystream(key, nonce, 130), "keystream");
}
PROP(wrong_sizes_refused, 2000, 20000) {
  size_t k = 32, n = 12;
  switch (g.walk(3)) { case 0: k = g.raw(70); break; case 1: n = g.raw(40); break; default: k = g.raw(70); n = g.raw(40); }
  if (k == 32 && n == 12) g.discard();
  g.note("key ", k, " nonce ", n);
  g.label("refused sizes");
  g.nontrivial();
  Bytes key = g.noise(k), nonce = g.noise(n);
  CHECK(throws_std([&] { auto s = session(key, nonce); }), "key of " << k << " and nonce of " << n << " bytes accepted");
}
#else
// Past 2^24 blocks (1 GiB): checked in pieces against a streaming oracle.
PROP(slow_huge_session, 4, 16) {
  Bytes key = g.noise(32), nonce = g.noise(12), iv = {1, 0, 0, 0};
  iv.insert(iv.end(), nonce.begin(), nonce.end());
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key.data(), iv.data());
  auto s = session(key, nonce);
  size_t total = (1ull << 30) + (1 << 20), chunk = (1 << 20) + g.raw(1000);
  Bytes z(chunk, 0), o(chunk), x(chunk);
  g.note("chunk ", chunk);
  g.label("over 2^24 blocks");
  g.nontrivial();
  for (size_t p = 0; p < total; p += chunk) {
    int m = 0;
    EVP_EncryptUpdate(c, o.data(), &m, z.data(), (int)chunk);
    memset(x.data(), 0, chunk);
    s.Encrypt(x);
    CHECK(!memcmp(x.data(), o.data(), chunk), "keystream differs in the chunk from byte " << p);
  }
  EVP_CIPHER_CTX_free(c);
}
#endif

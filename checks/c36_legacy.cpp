// C36: the legacy ECB and CBC modes follow SP 800-38A for every block cipher with their interface.
// The modes are templates over a cipher; here it is AES (Caligo's forwards, OpenSSL's backwards) and keyed
// permutations with blocks of other sizes.
#include "modes.h"
#include <caligo/legacy/cbc.h>
#include <caligo/legacy/ecb.h>
#include <openssl/evp.h>

using Span = std::span<const uint8_t>;
template <size_t B> struct AesBytes {   // AES in the form that these modes ask for
  static constexpr size_t size = 16, keysize = B / 8;
  struct KeySchedule {
    Caligo::AesKeySchedule<B> forward;
    Bytes key;
    explicit KeySchedule(Span k) : forward(k), key(k.begin(), k.end()) {}
  };
  static void Encrypt(const KeySchedule& k, uint8_t* p) {
    __m128i v = _mm_loadu_si128((const __m128i*)p);
    _mm_storeu_si128((__m128i*)p, Caligo::AES<B>::Encrypt(k.forward, v));
  }
  static void Decrypt(const KeySchedule& k, uint8_t* p) {
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    EVP_DecryptInit_ex(c, B == 128 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, k.key.data(), nullptr);
    EVP_CIPHER_CTX_set_padding(c, 0);
    int n = 0;
    uint8_t out[32];
    EVP_DecryptUpdate(c, out, &n, p, 16);
    memcpy(p, out, 16);
    EVP_CIPHER_CTX_free(c);
  }
};
template <size_t S> struct Feistel {   // a keyed permutation of S-byte blocks
  static constexpr size_t size = S, keysize = 24;
  struct KeySchedule { Bytes key; explicit KeySchedule(Span k) : key(k.begin(), k.end()) {} };
  static void half(const KeySchedule& k, unsigned r, const uint8_t* in, uint8_t* out) {
    uint64_t h = 0x9E3779B97F4A7C15ull * (r + 1);
    for (uint8_t b : k.key) h = (h ^ b) * 0x100000001b3ull;
    for (size_t i = 0; i < S / 2; i++) h = (h ^ in[i]) * 0x100000001b3ull, h ^= h >> 29;
    for (size_t i = 0; i < S / 2; i++) { out[i] ^= (uint8_t)(h >> 24); h = h * 6364136223846793005ull + 1; }
  }
  static void Encrypt(const KeySchedule& k, uint8_t* p) { for (unsigned r = 0; r < 6; r++) r % 2 ? half(k, r, p, p + S / 2) : half(k, r, p + S / 2, p); }
  static void Decrypt(const KeySchedule& k, uint8_t* p) { for (unsigned r = 6; r-- > 0;) r % 2 ? half(k, r, p, p + S / 2) : half(k, r, p + S / 2, p); }
};
template <class C> static Bytes model(bool cbc, bool enc, const Bytes& key, Bytes last, Bytes d) {
  typename C::KeySchedule k{Span(key)};
  for (size_t i = 0; i < d.size(); i += C::size) {
    Bytes in(d.begin() + (long)i, d.begin() + (long)(i + C::size)), b = in;
    if (cbc && enc) for (size_t j = 0; j < C::size; j++) b[j] ^= last[j];
    enc ? C::Encrypt(k, b.data()) : C::Decrypt(k, b.data());
    if (cbc && !enc) for (size_t j = 0; j < C::size; j++) b[j] ^= last[j];
    last = enc ? b : in;
    std::copy(b.begin(), b.end(), d.begin() + (long)i);
  }
  return d;
}
static Bytes openssl(const EVP_CIPHER* alg, bool enc, const Bytes& key, const Bytes& iv, const Bytes& d) {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_CipherInit_ex(c, alg, nullptr, key.data(), iv.data(), enc);
  EVP_CIPHER_CTX_set_padding(c, 0);
  Bytes out(d.size() + 32);
  int n = 0;
  EVP_CipherUpdate(c, out.data(), &n, d.data(), (int)d.size());
  out.resize((size_t)n);
  EVP_CIPHER_CTX_free(c);
  return out;
}
template <class C> struct AesBits { static constexpr size_t bits = 0; };
template <size_t B> struct AesBits<AesBytes<B>> { static constexpr size_t bits = B; };
template <class C> static Bytes expected(bool cbc, bool enc, const Bytes& key, const Bytes& iv, const Bytes& d) {
  constexpr size_t b = AesBits<C>::bits;
  if constexpr (b == 0) return model<C>(cbc, enc, key, iv, d);
  else return openssl(b == 128 ? (cbc ? EVP_aes_128_cbc() : EVP_aes_128_ecb()) : (cbc ? EVP_aes_256_cbc() : EVP_aes_256_ecb()), enc, key, iv, d);
}
template <class C> static void history(Gen& g, const char* name) {
  bool cbc = g.coin();
  Bytes key = g.bytes(C::keysize), iv = g.bytes(C::size);
  std::string what = std::string(name) + (cbc ? " CBC" : " ECB");
  g.note(what);
  g.note_hex("key", key);
  if (cbc) g.note_hex("iv", iv);
  g.label(what);
  using E = Caligo::ECB<C>;
  using M = Caligo::CBC<C>;
  Exact k(key, g.raw(3)), v(iv, g.raw(3));
  std::vector<E> ecb;
  std::vector<M> cb;
  auto fresh = [&] { if (cbc) cb.push_back(M(Caligo::key_iv_pair<C>(k.cspan(), v.cspan()))); else ecb.push_back(E(k.cspan())); };
  fresh();
  size_t steps = g.range(1, 6);
  bool blocks = false;
  Bytes before;
  for (size_t s = 0; s < steps; s++) {
    size_t i = g.raw((cbc ? cb.size() : ecb.size()) - 1);
    if (g.chance(1, 6)) { if (cbc) cb.push_back(cb[i]); else ecb.push_back(ecb[i]); continue; }
    bool enc = g.coin();
    size_t n = g.chance(1, 20) ? g.raw(200) : g.raw(9);
    Bytes d = before.size() && g.chance(1, 3) ? before : g.bytes(n * C::size);   // what came out before, on occasion
    if (d.size() >= 2 * C::size && g.chance(1, 3)) std::copy_n(d.begin(), C::size, d.end() - (long)C::size);   // equal blocks
    g.note_hex(enc ? "encrypt" : "decrypt", d);
    Exact x(d, g.raw(7));
    if (cbc) enc ? cb[i].Encrypt(x.span()) : cb[i].Decrypt(x.span());
    else enc ? ecb[i].Encrypt(x.span()) : ecb[i].Decrypt(x.span());
    before = x.bytes();
    pbt::check_bytes(before, expected<C>(cbc, enc, key, iv, d), what + (enc ? " encryption" : " decryption"));
    if (d.size() > C::size) blocks = true;
  }
  if (blocks) g.nontrivial();
}
PROP(histories, 40000, 1500000) {
  switch (g.raw(5)) {
    case 0: history<AesBytes<128>>(g, "AES-128"); break;
    case 1: history<AesBytes<256>>(g, "AES-256"); break;
    case 2: history<Feistel<8>>(g, "8-byte blocks"); break;
    case 3: history<Feistel<16>>(g, "16-byte blocks"); break;
    case 4: history<Feistel<24>>(g, "24-byte blocks"); break;
    default: history<Feistel<64>>(g, "64-byte blocks"); break;
  }
}
// Long messages: block counts around powers of two.
template <class C> static void lengthy(Gen& g, const char* name) {
  bool cbc = g.coin(), enc = g.coin();
  size_t n = (size_t(1) << g.range(5, g.chance(1, 4) ? 17 : 12)) + g.raw(4) - 2;
  Bytes key = g.bytes(C::keysize), iv = g.bytes(C::size), d = g.noise(n * C::size);
  g.note(n, " blocks, ", name, cbc ? " CBC" : " ECB", enc ? " encryption" : " decryption");
  g.label("long messages");
  g.nontrivial();
  Exact x(d, g.raw(3));
  if (cbc) { Caligo::CBC<C> m(Caligo::key_iv_pair<C>(key, iv)); enc ? m.Encrypt(x.span()) : m.Decrypt(x.span()); }
  else { Caligo::ECB<C> m{Span(key)}; enc ? m.Encrypt(x.span()) : m.Decrypt(x.span()); }
  pbt::check_bytes(x.bytes(), expected<C>(cbc, enc, key, iv, d), std::string(name) + (cbc ? " CBC" : " ECB") + (enc ? " encryption" : " decryption") + " of a long message");
}
PROP(long_messages, 250, 6000) {
  switch (g.raw(3)) {
    case 0: lengthy<Feistel<8>>(g, "8-byte blocks"); break;
    case 1: lengthy<AesBytes<128>>(g, "AES-128"); break;
    case 2: lengthy<AesBytes<256>>(g, "AES-256"); break;
    default: lengthy<Feistel<64>>(g, "64-byte blocks"); break;
  }
}
// One changed bit of the ciphertext changes its own block and one bit of the next, and nothing else (CBC), or only
// its own block (ECB).
PROP(error_propagation, 20000, 600000) {
  using C = AesBytes<128>;
  Bytes key = g.bytes(16), iv = g.bytes(16);
  size_t n = 1 + g.walk(8), pos = g.walk(16), bit = g.walk(8), at = g.raw(n - 1);
  bool cbc = g.coin();
  Bytes a = g.bytes(16 * n), b = a;
  b[at * 16 + pos] ^= (uint8_t)(1 << bit);
  Bytes x = a, y = b;
  if (cbc) { Caligo::CBC<C> m(Caligo::key_iv_pair<C>(key, iv)); m.Decrypt(x); m.Decrypt(y); }
  else { Caligo::ECB<C> m{Span(key)}; m.Decrypt(x); m.Decrypt(y); }
  g.note("block ", at, " of ", n, " byte ", pos, " bit ", bit);
  g.label("changed bit");
  g.nontrivial();
  for (size_t k = 0; k < n; k++) {
    Bytes diff;
    for (size_t i = 0; i < 16; i++) diff.push_back(x[k * 16 + i] ^ y[k * 16 + i]);
    Bytes want(16);
    if (cbc && k == at + 1) want[pos] = (uint8_t)(1 << bit);
    if (k == at) CHECK(diff != Bytes(16), "block " << k << " is unchanged");
    else pbt::check_bytes(diff, want, "change of block " + std::to_string(k));
  }
}
PROP(refused, 2000, 20000) {
  using C = AesBytes<128>;
  size_t n = g.walk(40), k = g.walk(2) ? 16 : g.raw(40);
  g.note("IV of ", n, " and key of ", k, " bytes");
  g.label("sizes");
  g.nontrivial();
  Bytes key = g.bytes(k), iv = g.bytes(n);
  bool thrown = false;
  try { Caligo::CBC<C> m(Caligo::key_iv_pair<C>(key, iv)); } catch (const std::exception&) { thrown = true; }
  CHECK(thrown == (n != 16 || k != 16), "CBC with an IV of " << n << " and a key of " << k << " bytes was " << (thrown ? "refused" : "accepted"));
}

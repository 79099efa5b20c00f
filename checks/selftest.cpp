// Tests the textbook oracles of oracle.h against OpenSSL; takes nothing from the repository.
#include "oracle.h"
#include <openssl/kdf.h>
#include <openssl/params.h>
#include <openssl/core_names.h>
#include <cstdio>
using ref::Bytes;
using ref::Blk;
#define MUST(c) do { if (!(c)) { printf("oracle self-test failed: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)

namespace pbt { uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } }
static uint64_t s = 1;
static Bytes rnd(size_t n) { Bytes b(n); for (auto& c : b) c = (uint8_t)(pbt::splitmix(s) >> 32); return b; }

int main() {
  struct { const char* n; size_t block; } mds[] = {{"MD5", 64}, {"SHA1", 64}, {"SHA224", 64}, {"SHA256", 64}, {"SHA384", 128}, {"SHA512", 128}, {"SHA3-224", 144}, {"SHA3-256", 136}, {"SHA3-384", 104}, {"SHA3-512", 72}};
  for (auto& m : mds)
    for (size_t kl : {1, 20, 63, 64, 65, 127, 128, 129, 200}) {
      Bytes k = rnd(kl), t = rnd(pbt::splitmix(s) % 300), o(64);
      unsigned n = 0;
      HMAC(ref::md(m.n), k.data(), (int)k.size(), t.data(), t.size(), o.data(), &n);
      o.resize(n);
      MUST(ref::hmac(m.n, m.block, k, t) == o);
      size_t len = 1 + pbt::splitmix(s) % (255 * n);
      Bytes e(len);
      EVP_KDF* kdf = EVP_KDF_fetch(nullptr, "HKDF", nullptr);
      EVP_KDF_CTX* c = EVP_KDF_CTX_new(kdf);
      int mode = EVP_KDF_HKDF_MODE_EXPAND_ONLY;
      OSSL_PARAM p[] = {OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, (char*)m.n, 0), OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, k.data(), k.size()),
                        OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, t.data(), t.size()), OSSL_PARAM_construct_int(OSSL_KDF_PARAM_MODE, &mode), OSSL_PARAM_construct_end()};
      bool ok = EVP_KDF_derive(c, e.data(), e.size(), p) > 0;
      EVP_KDF_CTX_free(c);
      EVP_KDF_free(kdf);
      MUST(ok);
      MUST(ref::hkdf_expand(m.n, m.block, k, t, len) == e);
    }
  for (int i = 0; i < 400; i++) {
    Bytes key = rnd(i % 2 ? 32 : 16), iv = rnd(i % 3 ? 12 : 1 + pbt::splitmix(s) % 60), aad = rnd(pbt::splitmix(s) % 70), pt = rnd(pbt::splitmix(s) % 300), ct(pt.size() + 16), tag(16);
    ref::Aes a(key);
    auto r = ref::gcm_seal(a, ref::gcm_j0(a, iv), aad, pt);
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    int n = 0;
    EVP_EncryptInit_ex(c, i % 2 ? EVP_aes_256_gcm() : EVP_aes_128_gcm(), nullptr, nullptr, nullptr);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), nullptr);
    EVP_EncryptInit_ex(c, nullptr, nullptr, key.data(), iv.data());
    if (!aad.empty()) EVP_EncryptUpdate(c, nullptr, &n, aad.data(), (int)aad.size());
    if (!pt.empty()) EVP_EncryptUpdate(c, ct.data(), &n, pt.data(), (int)pt.size());
    EVP_EncryptFinal_ex(c, ct.data() + pt.size(), &n);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag.data());
    EVP_CIPHER_CTX_free(c);
    ct.resize(pt.size());
    MUST(r.ct == ct);
    MUST(std::equal(tag.begin(), tag.end(), r.tag.begin()));
    Blk x, one{};
    Bytes b = rnd(16);
    memcpy(x.data(), b.data(), 16);
    one[0] = 0x80;
    MUST(ref::gf_mul(x, ref::gf_inv(x)) == one);
  }
  Bytes d = ref::digest("SHA256", Bytes{'a', 'b', 'c'});
  MUST(d[0] == 0xba && d[1] == 0x78 && d[31] == 0xad);
  printf("oracles agree\n");
  return 0;
}

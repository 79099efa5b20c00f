// C34: what is executed and which memory is touched does not depend on secrets.
// The same operation with the same public data runs on two secrets; the sequences of blocks entered and of addresses
// read, written and copied must be the same. The build is the project's own (clang -O2) plus instrumentation that is
// added after optimisation.
#include "trace.h"
#include "big.h"
#include "hashes.h"
#include "rsakeys.h"
#include <caligo/aes.h>
#include <caligo/chacha20.h>
#include <caligo/ctr.h>
#include <caligo/gcm.h>
#include <caligo/hkdf.h>
#include <caligo/rsa.h>
#include <caligo/x25519.h>

using namespace Caligo;
using Secret = std::span<const uint8_t>;
using Run = std::function<void(Secret)>;
template <class T> [[gnu::noinline]] static void keep(const T& v) { asm volatile("" ::"r"(&v) : "memory"); }

// --- secrets ------------------------------------------------------------------------------------------
static Bytes gen_secret(Gen& g, size_t n) {
  Bytes b(n);
  switch (g.weighted({3, 1, 1, 2, 2, 1, 1})) {
    case 0: return g.noise(n);
    case 1: break;
    case 2: std::fill(b.begin(), b.end(), 0xff); break;
    case 3: for (size_t i = 0, e = 1 + g.raw(3); n && i < e; i++) b[g.raw(n - 1)] |= (uint8_t)(1 << g.raw(7)); break;
    case 4: { b = g.noise(n); size_t k = g.raw(n); if (g.coin()) std::fill(b.begin(), b.begin() + k, 0); else std::fill(b.end() - k, b.end(), 0); break; }
    case 5: std::fill(b.begin(), b.end(), g.pick<uint8_t>({1, 0x80, 0x7f, 0xfe, 0x55, 0xaa, '=', '\n'})); break;
    default: b = g.bytes(n); break;
  }
  return b;
}
static Bytes gen_other(Gen& g, const Bytes& a) {
  Bytes b = a;
  size_t n = a.size();
  switch (g.weighted({4, 2, 2, 1, 1})) {
    case 0: b = gen_secret(g, n); break;
    case 1: if (n) b[g.raw(n - 1)] ^= (uint8_t)(1 << g.raw(7)); break;
    case 2: if (n) b[g.raw(n - 1)] = g.pick<uint8_t>({0, 1, 0x7f, 0x80, 0xff}); break;
    case 3: for (auto& x : b) x = (uint8_t)~x; break;
    default: std::reverse(b.begin(), b.end()); break;
  }
  return b;
}
// --- the comparison -----------------------------------------------------------------------------------
static uint8_t slot[1 << 16];    // both secrets are read from the same place
enum How { Unrecorded, Recorded, Compared };
[[gnu::noinline]] static trace::Result once(const Run& run, const Bytes& secret, How how) {
  std::copy(secret.begin(), secret.end(), slot);
  Secret s(slot, secret.size());
  if (how != Unrecorded) trace::start(how == Compared);
  run(s);
  return trace::stop();
}
extern "C" char __executable_start;
static void alike(Gen& g, const std::string& name, const Bytes& a, const Bytes& b, const Run& run) {
  g.label(name);
  g.note(name, ": ");
  g.note_hex("secret 1", a);
  g.note_hex("secret 2", b);
  trace::Result r = {};
  for (How h : {Unrecorded, Recorded, Compared}) r = once(run, h == Compared ? b : a, h);   // the first time, tables may be made
  CHECK(r.same, name << ": with another secret, " << r.what << " differs after " << r.at << " of " << r.events << " events (met at +0x" << std::hex << (r.pc ? r.pc - (uintptr_t)&__executable_start : 0) << ")");
  CHECK(r.blocks > 0, "nothing was recorded for " << name);
  if (a != b) g.nontrivial();
}
static void alike(Gen& g, const std::string& name, size_t size, const Run& run) {
  Bytes a = gen_secret(g, size);
  alike(g, name, a, gen_other(g, a), run);
}

// --- operations ---------------------------------------------------------------------------------------
template <size_t K> static void aes(Gen& g) {
  static constexpr size_t kb = K / 8;
  size_t n = g.len(200, 16);
  Bytes iv = g.bytes(12), aad = g.blob(60);
  std::string s = std::to_string(K);
  auto parts = [=](Secret x) { return std::pair(x.first(kb), x.subspan(kb)); };
  switch (g.raw(5)) {
    case 5: {
      Bytes a = gen_secret(g, kb + n), b = gen_other(g, a);
      for (Bytes* v : {&a, &b}) {   // key and plaintext become key, ciphertext and tag
        auto [k, p] = parts(*v);
        GCM<AES<K>> c{key_iv_pair<AES<K>>(k, iv)};
        auto sealed = c.Encrypt(p, aad);
        std::copy(sealed.first.begin(), sealed.first.end(), v->begin() + kb);
        v->insert(v->end(), sealed.second.begin(), sealed.second.end());
      }
      alike(g, "AES-" + s + "-GCM decryption, accepted", a, b, [=](Secret x) {
        auto [k, p] = parts(x);
        std::array<uint8_t, 16> tag;
        std::copy(p.end() - 16, p.end(), tag.begin());
        GCM<AES<K>> c{key_iv_pair<AES<K>>(k, iv)};
        keep(c.Decrypt(p.first(n), aad, tag)); });
      break;
    }
    case 0: alike(g, "AES-" + s + " block", kb + 16, [=](Secret x) {
        auto [k, p] = parts(x);
        AesKeySchedule<K> sched(k);
        keep(AES<K>::Encrypt(sched, _mm_loadu_si128((const __m128i*)p.data()))); }); break;
    case 1: alike(g, "AES-" + s + "-GCM encryption", kb + n, [=](Secret x) {
        auto [k, p] = parts(x);
        GCM<AES<K>> c{key_iv_pair<AES<K>>(k, iv)};
        keep(c.Encrypt(p, aad)); }); break;
    case 2: {
      std::array<uint8_t, 16> tag{};
      Bytes t = g.bytes(16);
      std::copy(t.begin(), t.end(), tag.begin());
      alike(g, "AES-" + s + "-GCM decryption, refused", kb + n, [=](Secret x) {
        auto [k, p] = parts(x);
        GCM<AES<K>> c{key_iv_pair<AES<K>>(k, iv)};
        keep(c.Decrypt(p, aad, tag)); });
      break;
    }
    case 3: {   // wrong tags: how much of the tag is right does not show
      Bytes key = g.bytes(kb), text = g.bytes(n);
      GCM<AES<K>> c{key_iv_pair<AES<K>>(key, iv)};
      auto sealed = c.Encrypt(text, aad);
      Bytes a = gen_secret(g, 16), b = gen_other(g, a);
      if (Bytes(16) == a || Bytes(16) == b) g.discard();   // the right one
      alike(g, "AES-" + s + "-GCM tag check", a, b, [=](Secret x) {
        std::array<uint8_t, 16> tag = sealed.second;
        for (size_t i = 0; i < 16; i++) tag[i] ^= x[i];
        GCM<AES<K>> d{key_iv_pair<AES<K>>(key, iv)};
        keep(d.Decrypt(sealed.first, aad, tag)); });
      break;
    }
    default: {
      Bytes start = g.bytes(16);
      alike(g, "AES-" + s + "-CTR", kb + n, [=](Secret x) {
        auto [k, p] = parts(x);
        CTR<AES<K>> c{key_iv_pair<AES<K>>(k, start)};
        Bytes d(p.begin(), p.end());
        c.Encrypt(d);
        keep(d); }); break;
    }
  }
}
static void chacha(Gen& g) {
  size_t n = g.len(300, 64);
  Bytes iv = g.bytes(12);
  alike(g, "ChaCha20", 32 + n, [=](Secret x) {
    ChaCha20 c(x.first(32), iv);
    Bytes d(x.begin() + 32, x.end());
    c.Encrypt(d);
    keep(d); });
}
static void hashing(Gen& g) {
  auto& a = algos()[g.raw(algos().size() - 1)];
  auto make = a.make;
  size_t n = g.len(500, a.block), cut = g.raw(n);
  alike(g, std::string("hash ") + a.name, n, [=](Secret x) { auto h = make(); h->add(x.first(cut)); h->add(x.subspan(cut)); keep(h->digest()); });
}
template <class H> static void derivation(Gen& g, const char* name) {
  std::string s = name;
  size_t hs = H::hashsize, k = g.pick<size_t>({hs, 32, g.len(200, 64)}), n = g.len(200, 64);
  Bytes pub = g.blob(80), th = g.bytes(hs);
  size_t len = 1 + g.len(100, hs);
  switch (g.raw(4)) {
    case 0: alike(g, "HMAC-" + s, k + n, [=](Secret x) { keep(HMAC<H>(x.subspan(k), x.first(k))); }); break;
    case 1: alike(g, "HKDF-Extract " + s, n, [=](Secret x) { keep(HKDF_Extract<H>(pub, x)); }); break;
    case 2: alike(g, "HKDF-Expand " + s, k, [=](Secret x) { keep(HKDF_Expand<H>(x, pub, len)); }); break;
    case 3: alike(g, "HKDF-Expand-Label " + s, hs, [=](Secret x) { keep(HKDF_Expand_Label<H>(x, "some label", th, len)); }); break;
    default: alike(g, "TLS 1.3 schedule " + s, 32, [=](Secret x) {
        auto h = HKDF_HandshakeSecret<H>(x);
        keep(h.template get_key_iv<AES<128>>(th, true, true));
        keep(h.get_finished_key(th, false));
        auto m = HKDF_MasterSecret<H>(h);
        keep(m.template get_key_iv<AES<256>>(th, false, false));
        keep(exporter_master<H>(m, th));
        keep(HKDF_UpdateSecret<H>(m)); }); break;
  }
}
template <size_t B> static bignum<B> number(Secret s) { return bignum<B>(s); }
static void agreement(Gen& g) {
  Bytes u = g.coin() ? g.bytes(32) : Bytes{9};
  u.resize(32);
  ec_value point(number<256>(u));
  alike(g, "X25519", 32, [=](Secret x) { keep(X25519(ec_value(number<256>(x)), point)); });
}
static void field(Gen& g) {
  size_t which = g.raw(5);
  const char* names[] = {"field addition", "field subtraction", "field multiplication", "field inverse", "field reduction", "field swap"};
  alike(g, names[which], 65, [=](Secret x) {
    ec_value a(number<256>(x.first(32))), b(number<256>(x.subspan(32, 32)));
    switch (which) {
      case 0: keep(a + b); break;
      case 1: keep(a - b); break;
      case 2: keep(a * b); break;
      case 3: keep(inverse(a)); break;
      case 4: a.applyModulus(); keep(a); break;
      default: ctime_swap((bool)(x[64] & 1), a, b); keep(a); keep(b); break;
    } });
}
template <size_t B> static void arithmetic(Gen& g) {
  constexpr size_t n = B / 8;
  size_t which = g.raw(6);
  const char* names[] = {"number addition", "number subtraction", "number multiplication", "number swap", "number square", "number bytes", "number equality"};
  std::string name = std::string(names[which]) + " " + std::to_string(B);
  auto run = [=](Secret x) {
    bignum<B> a = number<B>(x.first(n)), b = number<B>(x.subspan(n, n));
    switch (which) {
      case 0: keep(a + b); break;
      case 1: keep(a - b); break;
      case 2: keep(a * b); break;
      case 3: ctime_swap((bool)(x[2 * n] & 1), a, b); keep(a); keep(b); break;
      case 4: keep(a.square()); break;
      case 5: keep(a.as_bytes()); break;
      default: { bool e = a == b; keep(e); break; }
    } };
  Bytes s = gen_secret(g, 2 * n + 1), t = gen_other(g, s);
  auto halves_equal = [](const Bytes& v) { return std::equal(v.begin(), v.begin() + n, v.begin() + n); };
  if (which == 6 && halves_equal(s) != halves_equal(t)) g.discard();   // the answer itself may show
  alike(g, name, s, t, run);
}
template <size_t B> static void montgomery(Gen& g) {
  constexpr size_t n = B / 8;
  const Key& k = key(B, 0, g.raw(2));
  static std::map<const Key*, MontgomeryState<B>> states;
  auto it = states.find(&k);
  if (it == states.end()) it = states.emplace(&k, MontgomeryState<B>(bz<B>(k.n))).first;
  const MontgomeryState<B>* st = &it->second;
  size_t which = g.raw(3);
  const char* names[] = {"Montgomery multiplication", "Montgomery addition", "Montgomery square", "Montgomery conversion"};
  Bytes a = gen_secret(g, 2 * n), b = gen_other(g, a);
  for (Bytes* v : {&a, &b}) for (size_t i : {n - 1, 2 * n - 1}) (*v)[i] &= 0x7f;   // below the modulus
  alike(g, std::string(names[which]) + " " + std::to_string(B), a, b, [=](Secret x) {
    MontgomeryValue<B> v(*st, number<B>(x.first(n))), w(*st, number<B>(x.subspan(n, n)));
    switch (which) {
      case 0: keep(v * w); break;
      case 1: keep(v + w); break;
      case 2: keep(v.square()); break;
      default: { bignum<B> r = v; keep(r); break; }
    } });
}
template <size_t B> static void rsa(Gen& g) {
  constexpr size_t n = B / 8;
  const Key& k = key(B, 0, g.raw(2));
  bignum<B> N = bz<B>(k.n);
  Bytes msg = g.bytes(n), salt = g.bytes(20);
  msg[n - 1] &= 0x7f;
  size_t which = g.raw(3);
  std::string s = " " + std::to_string(B);
  switch (which) {
    case 0: alike(g, "RSA private exponent" + s, n, [=](Secret x) { rsa_private_key<B> key(N, number<B>(x)); keep(key.rsadp(number<B>(msg))); }); break;
    case 1: {
      Bytes a = gen_secret(g, n), b = gen_other(g, a);
      a[n - 1] &= 0x7f; b[n - 1] &= 0x7f;
      bignum<B> d = bz<B>(k.d);
      alike(g, "RSA representative" + s, a, b, [=](Secret x) { rsa_private_key<B> key(N, d); keep(key.rsadp(number<B>(x))); });
      break;
    }
    case 2: alike(g, "PKCS#1 v1.5 signing" + s, n, [=](Secret x) { rsa_private_key<B> key(N, number<B>(x)); keep(key.template signPkcs1_5Signature<SHA2<256>>(msg)); }); break;
    default: alike(g, "PSS signing" + s, n, [=](Secret x) {
        rsa_private_key<B> key(N, number<B>(x));
        Bytes h(32, 5);
        keep(key.template signPssSignature<SHA2<256>, MGF1<SHA2<256>>>(h, Secret(salt).first(20))); }); break;
  }
}
PROP(ciphers, 6000, 200000) { switch (g.raw(2)) { case 0: aes<128>(g); break; case 1: aes<256>(g); break; default: chacha(g); break; } }
PROP(hashes, 3000, 100000) { hashing(g); }
PROP(derivations, 2000, 60000) { switch (g.raw(2)) { case 0: derivation<SHA2<256>>(g, "SHA-256"); break; case 1: derivation<SHA2<384>>(g, "SHA-384"); break; default: derivation<SHA2<512>>(g, "SHA-512"); break; } }
PROP(agreements, 1500, 40000) { agreement(g); }
PROP(fields, 6000, 200000) { field(g); }
PROP(numbers, 6000, 200000) { switch (g.raw(3)) { case 0: arithmetic<64>(g); break; case 1: arithmetic<256>(g); break; case 2: arithmetic<288>(g); break; default: arithmetic<1024>(g); break; } }
PROP(modular, 3000, 100000) { switch (g.raw(1)) { case 0: montgomery<512>(g); break; default: montgomery<1024>(g); break; } }
PROP(private_keys, 400, 12000) { if (g.chance(1, 6)) rsa<1024>(g); else rsa<512>(g); }

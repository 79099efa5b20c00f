#include "gcm_common.h"

#ifndef PBT_FAST
template <class C> static void history(Gen& g, const Params& p) {
  ref::Aes a(p.key);
  auto s = session<C>(p);
  uint64_t n = start_position(g);
  if (!goto_position(s, n)) n = 0;
  g.note("position ", n);
  g.label(n > 0xFFFFFFFFull ? "position over 32 bits" : n > 0xFF ? "position over 8 bits" : "early position");
  size_t msgs = g.range(1, 4), total = 0;
  for (size_t i = 0; i < msgs; i++, n++) {
    Exact pt(g.bytes(g.len(g.chance(1, 15) ? 9000 : 300, 16)), g.raw(15)), aad(g.bytes(g.len(g.chance(1, 15) ? 9000 : 200, 16)), g.raw(15));
    Bytes ptv = pt.bytes(), aadv = aad.bytes();
    g.note("message ", i, ": pt ", ptv.size(), " aad ", aadv.size());
    if (i == 0) { g.note_hex("pt", ptv); g.note_hex("aad", aadv); }
    total += ptv.size() + aadv.size();
    auto [ct, tag] = s.Encrypt(pt.cspan(), aad.cspan());
    ref::Sealed w = ref::gcm_seal(a, j0_of(p, a, n), aadv, ptv);
    CHECK(ct.size() == ptv.size(), "ciphertext is " << ct.size() << " bytes for a plaintext of " << ptv.size());
    pbt::check_bytes(ct, w.ct, "ciphertext of message " + std::to_string(n));
    pbt::check_bytes(tag, w.tag, "tag of message " + std::to_string(n));
    pbt::check_bytes(pt.bytes(), ptv, "plaintext modified");
    pbt::check_bytes(aad.bytes(), aadv, "additional data modified");
    if (g.chance(1, 6)) {  // a copy of the session is a session at the same position
      auto c = s;
      Bytes x = g.bytes(g.len(64, 16));
      auto [ct2, tag2] = c.Encrypt(x, aad.cspan());
      ref::Sealed w2 = ref::gcm_seal(a, j0_of(p, a, n + 1), aadv, x);
      pbt::check_bytes(ct2, w2.ct, "ciphertext of a copied session");
      pbt::check_bytes(tag2, w2.tag, "tag of a copied session");
    }
  }
  if (total) g.nontrivial();
}
PROP(standard_in_every_history, 8000, 300000) {
  Params p = gen_params(g);
  g.note(p.big ? "AES-256" : "AES-128");
  g.note_hex("key", p.key);
  g.note_hex("iv", p.iv);
  g.label(std::string(p.big ? "AES-256" : "AES-128") + (p.iv.size() == 12 ? " iv 12" : p.iv.size() == 8 ? " iv 8" : " iv >12"));
  if (p.big) history<Caligo::AES<256>>(g, p); else history<Caligo::AES<128>>(g, p);
}
// Keys and IVs written as lists of bytes, as in the documentation, are the same keys and IVs.
template <class C, size_t... I> static Caligo::GCM<C> listed(const Bytes& k, const Bytes& v, std::index_sequence<I...>) {
  return Caligo::GCM<C>(Caligo::key_iv_pair<C>({k[I]...}, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]}));
}
PROP(lists_of_bytes, 1000, 10000) {
  bool big = g.walk(2);
  Bytes key = some_key(g, big), iv = g.bytes(12), pt = g.bytes(g.len(100, 16)), aad = g.bytes(g.len(100, 16));
  g.note_hex("key", key);
  g.note_hex("iv", iv);
  g.label("key and IV as lists");
  g.nontrivial();
  ref::Aes o(key);
  Params p{big, key, iv};
  auto run = [&](auto s) {
    for (uint64_t n = 0; n < 2; n++) {
      auto [ct, tag] = s.Encrypt(pt, aad);
      ref::Sealed w = ref::gcm_seal(o, j0_of(p, o, n), aad, pt);
      pbt::check_bytes(ct, w.ct, "ciphertext under a key given as a list");
      pbt::check_bytes(tag, w.tag, "tag under a key given as a list");
    }
  };
  if (big) run(listed<Caligo::AES<256>>(key, iv, std::make_index_sequence<32>())); else run(listed<Caligo::AES<128>>(key, iv, std::make_index_sequence<16>()));
}
// Every pair of (plaintext, additional data) lengths up to a few blocks.
template <class C> static void lengths(Gen& g, const Params& p, size_t a, size_t b) {
  ref::Aes o(p.key);
  auto s = session<C>(p);
  Exact pt(g.noise(a)), aad(g.noise(b));
  auto [ct, tag] = s.Encrypt(pt.cspan(), aad.cspan());
  ref::Sealed w = ref::gcm_seal(o, j0_of(p, o, 0), aad.bytes(), pt.bytes());
  pbt::check_bytes(ct, w.ct, "ciphertext");
  pbt::check_bytes(tag, w.tag, "tag");
}
PROP(every_length_pair, 6000, 40000) {
  Params p;
  p.big = g.walk(2);
  size_t a = g.walk(70), b = g.walk(40);
  p.key = g.noise(p.big ? 32 : 16);
  p.iv = g.noise(12);
  g.note("pt ", a, " aad ", b);
  if (a + b) g.nontrivial();
  g.label("walked lengths");
  if (p.big) lengths<Caligo::AES<256>>(g, p, a, b); else lengths<Caligo::AES<128>>(g, p, a, b);
}
PROP(every_iv_length, 2000, 12000) {
  Params p;
  p.big = g.walk(2);
  size_t n = g.walk(160);
  if (n < 12 && n != 8) g.discard();
  p.key = g.noise(p.big ? 32 : 16);
  p.iv = g.noise(n);
  g.note("iv of ", n, " bytes");
  g.nontrivial();
  g.label("walked iv lengths");
  if (p.big) lengths<Caligo::AES<256>>(g, p, g.raw(40), g.raw(20)); else lengths<Caligo::AES<128>>(g, p, g.raw(40), g.raw(20));
}
// Sessions of many messages driven only through the interface.
template <class C> static void longs(Gen& g, const Params& p) {
  ref::Aes a(p.key);
  auto s = session<C>(p);
  size_t msgs = g.chance(1, 3) ? 66000 : g.range(2, 1000);
  g.note("messages ", msgs);
  g.label(msgs > 65536 ? "over 65536 messages" : "long session");
  for (size_t n = 0; n < msgs; n++) {
    Bytes pt(n % 3);
    auto [ct, tag] = s.Encrypt(pt, {});
    bool power = (n & (n - 1)) == 0 || (n & (n + 1)) == 0;
    if (power || n + 1 == msgs || n % 997 == 0) {
      ref::Sealed w = ref::gcm_seal(a, j0_of(p, a, n), {}, pt);
      pbt::check_bytes(ct, w.ct, "ciphertext of message " + std::to_string(n));
      pbt::check_bytes(tag, w.tag, "tag of message " + std::to_string(n));
    }
  }
  g.nontrivial();
}
PROP(long_sessions, 64, 2000) {
  Params p = gen_params(g);
  g.note_hex("key", p.key);
  g.note_hex("iv", p.iv);
  if (p.big) longs<Caligo::AES<256>>(g, p); else longs<Caligo::AES<128>>(g, p);
}
#else
// Lengths beyond 32 bits' worth of bits, and more than 2^16 / 2^24 blocks: OpenSSL's GCM is the oracle.
static void openssl_seal(const Params& p, const Bytes& pt, const Bytes& aad, Bytes& ct, Bytes& tag) {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, p.big ? EVP_aes_256_gcm() : EVP_aes_128_gcm(), nullptr, p.key.data(), p.iv.data());
  int n = 0;
  for (size_t i = 0; i < aad.size(); i += 1 << 20) EVP_EncryptUpdate(c, nullptr, &n, aad.data() + i, (int)std::min<size_t>(1 << 20, aad.size() - i));
  ct.resize(pt.size());
  for (size_t i = 0; i < pt.size(); i += 1 << 20) EVP_EncryptUpdate(c, ct.data() + i, &n, pt.data() + i, (int)std::min<size_t>(1 << 20, pt.size() - i));
  EVP_EncryptFinal_ex(c, nullptr, &n);
  tag.resize(16);
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag.data());
  EVP_CIPHER_CTX_free(c);
}
PROP(slow_huge_messages, 8, 32) {
  Params p;
  p.big = g.coin();
  p.key = g.noise(p.big ? 32 : 16);
  p.iv = g.noise(12);
  size_t which = g.walk(4);
  size_t a = which == 0 ? (1u << 29) + g.raw(40) : which == 1 ? (1u << 21) + g.raw(100) : g.raw(100);
  size_t b = which == 2 ? (1u << 29) + g.raw(40) : which == 3 ? (1u << 21) + g.raw(100) : g.raw(100);
  Bytes pt = g.noise(std::min<size_t>(a, 1 << 20)), aad = g.noise(std::min<size_t>(b, 1 << 20));
  pt.resize(a);
  aad.resize(b);
  g.note("pt ", a, " aad ", b);
  g.label(which % 2 ? "2^21 bytes" : "over 2^32 bits");
  g.nontrivial();
  Bytes ct, tag;
  openssl_seal(p, pt, aad, ct, tag);
  auto chk = [&](auto s) {
    auto [gc, gt] = s.Encrypt(pt, aad);
    CHECK(gc.size() == ct.size() && !memcmp(gc.data(), ct.data(), ct.size()), "ciphertext of a huge message differs");
    pbt::check_bytes(gt, tag, "tag of a huge message");
  };
  if (p.big) chk(session<Caligo::AES<256>>(p)); else chk(session<Caligo::AES<128>>(p));
}
#endif

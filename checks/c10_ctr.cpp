#include "gcm_common.h"

static Bytes gen_iv(Gen& g) {
  Bytes iv = g.bytes(16);
  if (g.chance(1, 2)) {
    uint32_t low = g.pick<uint32_t>({0xFFFFFFFFu, 0xFFFFFFFEu, 0xFFFFFFF0u, 0x0000FFFFu, 0x0000FFFEu, 0x00FFFFFFu, 0x00FFFFFEu, 0x000000FFu, 0x000000FEu, 0x7FFFFFFFu, 0u});
    for (int i = 0; i < 4; i++) iv[15 - i] = (uint8_t)(low >> (8 * i));
    g.label("counter about to carry");
  }
  return iv;
}
static Bytes keystream(const ref::Aes& a, const Bytes& iv, uint64_t n, size_t len) {
  Blk b;
  memcpy(b.data(), iv.data(), 16);
  b = ref::xor_counter(b, n);
  ref::inc32(b);
  return ref::gctr(a, b, Bytes(len, 0));
}
template <class C> static Caligo::CTR<C> ctr(const Bytes& key, const Bytes& iv) {
  Exact k(key), i(iv);
  return Caligo::CTR<C>(Caligo::key_iv_pair<C>(k.cspan(), i.cspan()));
}
template <class S> static bool goto_ctr(S& s, uint64_t n) {
  if (set_counter(s, n)) return true;
  if (n > 1000) return false;
  for (uint64_t i = 0; i < n; i++) s.Encrypt(std::span<uint8_t>());
  return true;
}
template <class C> static void history(Gen& g, const Bytes& key, const Bytes& iv) {
  ref::Aes a(key);
  auto s = ctr<C>(key, iv), peer = ctr<C>(key, iv);
  uint64_t n = start_position(g);
  if (!goto_ctr(s, n) || !goto_ctr(peer, n)) n = 0;
  g.note("position ", n);
  g.label(n > 0xFFFFFFFFull ? "position over 32 bits" : n > 0xFF ? "position over 8 bits" : "early position");
  size_t msgs = g.range(1, 5), total = 0;
  for (size_t i = 0; i < msgs; i++, n++) {
    Bytes pt = g.bytes(g.len(g.chance(1, 15) ? 9000 : 200, 16));
    bool enc = g.coin();
    g.note(enc ? "encrypt " : "decrypt ", pt.size());
    Exact x(pt, g.raw(15));
    if (enc) s.Encrypt(x.span()); else s.Decrypt(x.span());
    Bytes want = keystream(a, iv, n, pt.size());
    for (size_t k = 0; k < want.size(); k++) want[k] ^= pt[k];
    pbt::check_bytes(x.bytes(), want, "message " + std::to_string(n));
    if (enc) peer.Decrypt(x.span()); else peer.Encrypt(x.span());
    pbt::check_bytes(x.bytes(), pt, "peer at the same position");
    total += pt.size();
    if (g.chance(1, 6)) {
      auto c = s;
      Exact y(g.bytes(g.len(40, 16)));
      Bytes y0 = y.bytes(), ks = keystream(a, iv, n + 1, y0.size());
      c.Encrypt(y.span());
      for (size_t k = 0; k < ks.size(); k++) ks[k] ^= y0[k];
      pbt::check_bytes(y.bytes(), ks, "copied session");
    }
  }
  if (total) g.nontrivial();
}
PROP(keystream_in_every_history, 10000, 300000) {
  bool big = g.coin();
  Bytes key = some_key(g, big), iv = gen_iv(g);
  g.note(big ? "AES-256" : "AES-128");
  g.note_hex("key", key);
  g.note_hex("iv", iv);
  if (big) history<Caligo::AES<256>>(g, key, iv); else history<Caligo::AES<128>>(g, key, iv);
}
PROP(every_length, 600, 6000) {
  bool big = g.walk(2);
  size_t n = g.walk(130);
  Bytes key = g.noise(big ? 32 : 16), iv = g.noise(16), pt = g.noise(n);
  Exact x(pt);
  if (big) ctr<Caligo::AES<256>>(key, iv).Encrypt(x.span()); else ctr<Caligo::AES<128>>(key, iv).Encrypt(x.span());
  Bytes want = keystream(ref::Aes(key), iv, 0, n);
  for (size_t k = 0; k < n; k++) want[k] ^= pt[k];
  g.note("length ", n);
  if (n) g.nontrivial();
  g.label("walked lengths");
  pbt::check_bytes(x.bytes(), want, "length " + std::to_string(n));
}
template <class C> static void longs(Gen& g, const Bytes& key, const Bytes& iv) {
  ref::Aes a(key);
  auto s = ctr<C>(key, iv);
  size_t msgs = g.chance(1, 3) ? 66000 : g.range(2, 1000);
  g.note("messages ", msgs);
  g.label(msgs > 65536 ? "over 65536 messages" : "long session");
  g.nontrivial();
  for (size_t n = 0; n < msgs; n++) {
    uint8_t b[4] = {};
    size_t len = n % 5;
    s.Encrypt(std::span<uint8_t>(b, len > 4 ? 4 : len));
    bool power = (n & (n - 1)) == 0 || (n & (n + 1)) == 0;
    if (power || n + 1 == msgs || n % 997 == 0) pbt::check_bytes(std::span<uint8_t>(b, len > 4 ? 4 : len), keystream(a, iv, n, len > 4 ? 4 : len), "message " + std::to_string(n));
  }
}
// A key and an IV written as lists of bytes are the same key and IV.
template <class C, size_t... I> static Caligo::CTR<C> listed(const Bytes& k, const Bytes& v, std::index_sequence<I...>) {
  return Caligo::CTR<C>(Caligo::key_iv_pair<C>({k[I]...}, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]}));
}
PROP(lists_of_bytes, 1000, 10000) {
  bool big = g.walk(2);
  Bytes key = g.bytes(big ? 32 : 16), iv = gen_iv(g), pt = g.bytes(g.len(100, 16));
  g.note_hex("key", key);
  g.note_hex("iv", iv);
  g.label("key and IV as lists");
  if (!pt.empty()) g.nontrivial();
  ref::Aes a(key);
  Bytes ks = keystream(a, iv, 0, pt.size()), want = pt, got = pt;
  for (size_t i = 0; i < pt.size(); i++) want[i] ^= ks[i];
  if (big) listed<Caligo::AES<256>>(key, iv, std::make_index_sequence<32>()).Encrypt(std::span<uint8_t>(got));
  else listed<Caligo::AES<128>>(key, iv, std::make_index_sequence<16>()).Encrypt(std::span<uint8_t>(got));
  pbt::check_bytes(got, want, "ciphertext under a key given as a list");
}
PROP(long_sessions, 64, 2000) {
  bool big = g.coin();
  Bytes key = some_key(g, big), iv = gen_iv(g);
  g.note_hex("iv", iv);
  if (big) longs<Caligo::AES<256>>(g, key, iv); else longs<Caligo::AES<128>>(g, key, iv);
}
// More than 2^16 blocks in one message.
PROP(long_messages, 24, 400) {
  bool big = g.coin();
  Bytes key = g.noise(big ? 32 : 16), iv = gen_iv(g);
  size_t n = (1u << 20) + 1000 + g.raw(70000);
  Bytes x(n, 0);
  if (big) ctr<Caligo::AES<256>>(key, iv).Encrypt(x); else ctr<Caligo::AES<128>>(key, iv).Encrypt(x);
  g.note("length ", n);
  g.nontrivial();
  g.label("over 65536 blocks");
  pbt::check_bytes(x, keystream(ref::Aes(key), iv, 0, n), "long message");
}
// No counter block is used twice within a session (observed through equal keystream blocks).
PROP(no_keystream_reuse, 200, 5000) {
  bool big = g.coin();
  Bytes key = some_key(g, big), iv = gen_iv(g);
  size_t msgs = g.range(2, 300);
  std::map<Bytes, size_t> seen;
  auto run = [&](auto s) {
    for (size_t n = 0; n < msgs; n++) {
      Bytes x(16 * g.range(1, 4), 0);
      s.Encrypt(x);
      for (size_t k = 0; k + 16 <= x.size(); k += 16) {
        auto [it, fresh] = seen.emplace(Bytes(x.begin() + k, x.begin() + k + 16), n);
        CHECK(fresh, "message " << n << " repeats a keystream block of message " << it->second);
      }
    }
  };
  g.note("messages ", msgs);
  g.nontrivial();
  g.label("reuse search");
  if (big) run(ctr<Caligo::AES<256>>(key, iv)); else run(ctr<Caligo::AES<128>>(key, iv));
}
template <class C> static bool refused(const Bytes& k, const Bytes& iv) {
  return throws_std([&] { auto s = ctr<C>(k, iv); });
}
PROP(wrong_sizes_refused, 3000, 30000) {
  bool big = g.walk(2);
  size_t kn = big ? 32 : 16, in = 16;
  switch (g.walk(3)) { case 0: in = g.raw(64); break; case 1: kn = g.raw(64); break; default: in = g.raw(40); kn = g.raw(40); }
  if (kn == (big ? 32u : 16u) && in == 16) g.discard();
  g.note("key ", kn, " iv ", in);
  g.label("refused sizes");
  g.nontrivial();
  Bytes k = g.noise(kn), iv = g.noise(in);
  CHECK(big ? refused<Caligo::AES<256>>(k, iv) : refused<Caligo::AES<128>>(k, iv), "key of " << kn << " and IV of " << in << " bytes accepted by AES-" << (big ? 256 : 128) << "-CTR");
}

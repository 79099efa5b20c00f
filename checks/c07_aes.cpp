#include "modes.h"

template <size_t B> static void one(Gen& g, const Bytes& key, const std::vector<Bytes>& blocks) {
  ref::Aes o(key);
  Exact k(key, g.raw(3));
  Caligo::AesKeySchedule<B> s(k.cspan());
  for (auto& b : blocks) {
    auto want = o.enc(b.data());
    pbt::check_bytes(aes_block(s, b), want, "AES-" + std::to_string(B) + " block");
  }
  pbt::check_bytes(k.bytes(), key, "key modified by the key schedule");
}
static Bytes special(Gen& g, size_t n) {  // sparse, dense or random values
  Bytes b = g.bytes(n);
  switch (g.weighted({3, 1, 1, 1})) {
    case 1: b.assign(n, 0); b[g.raw(n - 1)] = (uint8_t)(1u << g.raw(7)); break;
    case 2: b.assign(n, 0xFF); b[g.raw(n - 1)] = (uint8_t)~(1u << g.raw(7)); break;
    case 3: b.assign(n, (uint8_t)g.raw(255)); break;
    default: break;
  }
  return b;
}
PROP(block_encryption, 40000, 2000000) {
  bool big = g.coin();
  Bytes key = special(g, big ? 32 : 16);
  std::vector<Bytes> blocks;
  size_t n = g.range(1, 4);
  for (size_t i = 0; i < n; i++) blocks.push_back(special(g, 16));
  g.note_hex("key", key);
  g.note_hex("block", blocks[0]);
  g.label(big ? "AES-256" : "AES-128");
  g.nontrivial();
  if (big) one<256>(g, key, blocks); else one<128>(g, key, blocks);
}
// Every single byte value in every key and block position (S-box and diffusion coverage).
PROP(every_byte_everywhere, 12000, 24000) {
  bool big = g.walk(2);
  size_t pos = g.walk(big ? 48 : 32), val = g.walk(256), K = big ? 32 : 16;
  Bytes key(K, 0), blk(16, 0);
  if (g.caseIndex >= 20480) { key = g.noise(K); blk = g.noise(16); }
  (pos < K ? key[pos] : blk[pos - K]) = (uint8_t)val;
  g.note_hex("key", key);
  g.note_hex("block", blk);
  g.label("walked byte");
  g.nontrivial();
  if (big) one<256>(g, key, {blk}); else one<128>(g, key, {blk});
}
// Several schedules alive at once, copied and overwritten: each keeps acting as its own key.
template <size_t B> static void independent(Gen& g) {
  std::vector<std::pair<Bytes, Caligo::AesKeySchedule<B>>> v;
  auto fresh = [&] { Bytes k = g.bytes(B / 8); v.emplace_back(k, Caligo::AesKeySchedule<B>(k)); };
  fresh();
  size_t steps = g.range(3, 12);
  for (size_t s = 0; s < steps; s++) {
    size_t i = g.raw(v.size() - 1), j = g.raw(v.size() - 1);
    switch (g.weighted({4, 2, 2, 1})) {
      case 0: {
        Bytes b = g.bytes(16);
        pbt::check_bytes(aes_block(v[i].second, b), ref::Aes(v[i].first).enc(b.data()), "AES-" + std::to_string(B) + " with several schedules");
        break;
      }
      case 1: fresh(); break;
      case 2: { auto c = v[i]; v.push_back(c); break; }
      default: { auto c = v[j]; v[i] = c; }
    }
  }
  for (auto& [k, s] : v) { Bytes b = g.bytes(16); pbt::check_bytes(aes_block(s, b), ref::Aes(k).enc(b.data()), "AES at end of history"); }
}
PROP(independent_schedules, 4000, 100000) {
  g.nontrivial();
  g.label("histories of schedules");
  if (g.coin()) independent<256>(g); else independent<128>(g);
}
// Keys of any other length are refused by the schedule and by every mode.
template <size_t B> static void wrong(Gen& g, size_t n) {
  Exact key(g.noise(n));
  Bytes iv16 = g.noise(16), iv12 = g.noise(12);
  g.note("AES-", B, " key of ", n, " bytes");
  CHECK(throws_std([&] { Caligo::AesKeySchedule<B> s(key.cspan()); }), "AES-" << B << " key schedule accepted a key of " << n << " bytes");
  CHECK(throws_std([&] { Caligo::GCM<Caligo::AES<B>> s(Caligo::key_iv_pair<Caligo::AES<B>>(key.cspan(), iv12)); }), "AES-" << B << "-GCM accepted a key of " << n << " bytes");
  CHECK(throws_std([&] { Caligo::CTR<Caligo::AES<B>> s(Caligo::key_iv_pair<Caligo::AES<B>>(key.cspan(), iv16)); }), "AES-" << B << "-CTR accepted a key of " << n << " bytes");
}
PROP(wrong_key_sizes, 600, 6000) {
  bool big = g.walk(2);
  size_t n = g.walk(100);
  if (g.chance(1, 10)) n = g.raw(5000);
  if (n == (big ? 32 : 16)) g.discard();
  g.label("refused key sizes");
  g.nontrivial();
  if (big) wrong<256>(g, n); else wrong<128>(g, n);
}

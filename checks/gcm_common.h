#pragma once
#include "modes.h"

// Session parameters: key, IV, and the standard's pre-counter block for it.
struct Params {
  bool big;
  Bytes key, iv;
  bool usable() const { return iv.size() == 8 || iv.size() >= 12; }
};
inline Bytes some_key(Gen& g, bool big) { return g.bytes(big ? 32 : 16); }
// A 16-byte IV whose GHASH-derived counter block has the chosen value.
inline Bytes iv_for_j0(const Bytes& key, const Blk& j0) {
  ref::Aes a(key);
  Blk z{}, H = a.enc(z.data());
  Blk len{};
  len[15] = 128;
  Blk hi = ref::gf_inv(H);
  Blk t = ref::xorb(ref::gf_mul(j0, hi), len);  // (IV*H ^ len)*H = J0
  Blk iv = ref::gf_mul(t, hi);
  return Bytes(iv.begin(), iv.end());
}
inline Params gen_params(Gen& g, bool usableOnly = true) {
  Params p;
  p.big = g.coin();
  p.key = some_key(g, p.big);
  switch (g.weighted({5, 2, 2, 2, 2, 1, usableOnly ? 0u : 2u})) {
    case 0: p.iv = g.bytes(12); break;
    case 1: p.iv = g.bytes(8); break;
    case 2: p.iv = g.bytes(16); break;
    case 3: p.iv = g.bytes(13 + g.raw(60)); break;
    case 4: {
      Blk j{};
      Bytes r = g.noise(12);
      memcpy(j.data(), r.data(), 12);
      uint32_t low = g.pick<uint32_t>({0xFFFFFFFFu, 0xFFFFFFFEu, 0xFFFFFFF0u, 0xFFFFFF00u, 0x0000FFFFu, 0x0000FFFEu, 0x00FFFFFFu, 0x00FFFFFEu, 0x000000FFu, 0x000000FEu, 0xFFFEFFFFu, 0x7FFFFFFFu});
      for (int i = 0; i < 4; i++) j[15 - i] = (uint8_t)(low >> (8 * i));
      p.iv = iv_for_j0(p.key, j);
      g.label("counter about to carry");
      break;
    }
    case 5: p.iv = g.bytes(g.pick<size_t>({17, 24, 28, 31, 32, 33, 48, 64, 100, 128, 256, 257, 1000})); break;
    default: p.iv = g.bytes(g.pick<size_t>({0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11})); break;
  }
  return p;
}
inline Blk j0_of(const Params& p, const ref::Aes& a, uint64_t n) { return ref::xor_counter(ref::gcm_j0(a, p.iv), n); }
// A starting position in the session.
inline uint64_t start_position(Gen& g) {
  uint64_t n = 0;
  switch (g.weighted({3, 2, 1, 1, 1})) {
    case 0: n = 0; break;
    case 1: n = g.raw(600); break;
    case 2: n = (1ull << g.raw(63)) - g.raw(3); break;
    case 3: n = 255 - g.raw(2); break;
    default: n = g.edge64(); break;
  }
  return std::min<uint64_t>(n, ~0ull - 64);  // what follows the last 64-bit position is nobody's promise
}
// Moves a session to position n: directly when it can, else by using up positions (small n only).
template <class S> bool goto_position(S& s, uint64_t n) {
  if (set_counter(s, n)) return true;
  if (n > 1000) return false;
  for (uint64_t i = 0; i < n; i++) (void)s.Encrypt(Bytes{}, Bytes{});
  return true;
}
template <class C> Caligo::GCM<C> session(const Params& p) {
  Exact k(p.key), iv(p.iv);
  return Caligo::GCM<C>(Caligo::key_iv_pair<C>(k.cspan(), iv.cspan()));
}

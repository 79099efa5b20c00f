// Generators of big integers and conversions between the library's and the oracle's.
#pragma once
#include "oracle.h"
#include <caligo/bignum.h>
using pbt::Bytes;
using pbt::Gen;
using ref::Z;

using Words = std::vector<uint32_t>;  // least significant first

template <size_t B> Caligo::bignum<B> big(const Words& w) {
  Caligo::bignum<B> r;
  for (size_t i = 0; i < B / 32; i++) r.v[i] = i < w.size() ? w[i] : 0;
  return r;
}
template <size_t B> Words words(const Caligo::bignum<B>& b) { return Words(b.v, b.v + (B + 31) / 32); }
inline Z zw(const Words& w) {
  Z r;
  if (!w.empty()) mpz_import(r.v, w.size(), -1, 4, 0, 0, w.data());
  return r;
}
template <size_t B> Z zb(const Caligo::bignum<B>& b) { return zw(words(b)); }
inline Words wz(const Z& z, size_t n) {
  Words w(n + 1 + mpz_sizeinbase(z.v, 2) / 32);
  size_t c = 0;
  mpz_export(w.data(), &c, -1, 4, 0, 0, z.v);
  w.resize(n);
  return w;
}
template <size_t B> Caligo::bignum<B> bz(const Z& z) { return big<B>(wz(z, (B + 31) / 32)); }
inline std::string ws(const Words& w) { return zw(w).str(); }

// Words biased to carry- and borrow-prone patterns.
inline Words gen_words(Gen& g, size_t n) {
  Words w(n, 0);
  switch (g.weighted({3, 3, 3, 2, 1, 1, 1, 1})) {
    case 0: { Bytes b = g.noise(n * 4); if (n) memcpy(w.data(), b.data(), n * 4); break; }
    case 1: for (auto& x : w) x = g.edge32(); break;
    case 2: for (auto& x : w) x = g.pick<uint32_t>({0u, 0xFFFFFFFFu, 1u, 0xFFFFFFFEu, 0x80000000u, 0x7FFFFFFFu}); break;
    case 3: {  // short value: only some low words or bits
      Bytes b = g.noise(n * 4);
      memcpy(w.data(), b.data(), n * 4);
      size_t bits = g.raw(n * 32);
      for (size_t i = 0; i < n; i++) { if (i * 32 >= bits) w[i] = 0; else if (bits - i * 32 < 32) w[i] &= (1u << (bits - i * 32)) - 1; }
      break;
    }
    case 4: { size_t bit = g.raw(n * 32 - 1); w[bit / 32] = 1u << (bit % 32); if (g.coin()) { for (size_t i = 0; i < bit / 32; i++) w[i] = 0xFFFFFFFFu; w[bit / 32] -= 1; } break; }  // 2^k, 2^k-1
    case 5: {  // only some words
      Bytes b = g.noise(n * 4);
      memcpy(w.data(), b.data(), n * 4);
      for (auto& x : w) if (g.raw(2)) x = 0;
      break;
    }
    case 6: w[0] = (uint32_t)g.raw(20); if (g.coin()) w[g.raw(n - 1)] |= g.edge32(); break;  // small, or small but for one word
    default: break;  // zero
  }
  return w;
}
// A second operand related to the first in a way that stresses carries and comparisons.
inline Words related(Gen& g, const Words& a) {
  Words b = a;
  size_t n = a.size();
  switch (g.weighted({6, 1, 1, 2, 1, 1, 1})) {
    case 0: return gen_words(g, n);
    case 1: return b;
    case 2: for (auto& x : b) x = ~x; return b;
    case 3: b[g.raw(n - 1)] ^= 1u << g.raw(31); return b;
    case 4: { Z t = (ref::pow2(32 * n) - zw(a)) % ref::pow2(32 * n); return wz(t, n); }             // -a
    case 5: { Z t = (zw(a) + Z(1)) % ref::pow2(32 * n); return wz(t, n); }
    default: { Z t = (zw(a) + ref::pow2(32 * n) - Z(1)) % ref::pow2(32 * n); return wz(t, n); }
  }
}

// Shared helpers for the cipher checks.
#pragma once
#include "oracle.h"
#include <caligo/aes.h>
#include <caligo/chacha20.h>
#include <caligo/ctr.h>
#include <caligo/gcm.h>

using pbt::Bytes;
using pbt::Gen;
using ref::Blk;

template <size_t B> inline Bytes aes_block(const Caligo::AesKeySchedule<B>& k, const Bytes& in) {
  Bytes out(16);
  __m128i v = _mm_loadu_si128((const __m128i*)in.data());
  v = Caligo::AES<B>::Encrypt(k, v);
  _mm_storeu_si128((__m128i*)out.data(), v);
  return out;
}
// A span over an exact heap allocation at a chosen misalignment, so that any access outside is caught.
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t off, n;
  Exact(std::span<const uint8_t> d, size_t misalign = 0) : p(new uint8_t[d.size() + misalign]), off(misalign), n(d.size()) {
    if (n) memcpy(p.get() + off, d.data(), n);
  }
  std::span<uint8_t> span() const { return {p.get() + off, n}; }
  std::span<const uint8_t> cspan() const { return {p.get() + off, n}; }
  Bytes bytes() const { return Bytes(p.get() + off, p.get() + off + n); }
};
// Positions a fresh session's message counter, where the session exposes one and writing it demonstrably
// has the effect of using up positions (otherwise only small positions are reached, by using them up).
template <class S> Bytes probe(S& s) {
  if constexpr (requires { s.Encrypt(Bytes{}, Bytes{}); }) { auto [c, t] = s.Encrypt(Bytes(3), Bytes{}); Bytes r(c.begin(), c.end()); r.insert(r.end(), t.begin(), t.end()); return r; }
  else { Bytes b(19); s.Encrypt(b); return b; }
}
template <class S> bool set_counter(S& s, uint64_t n) {
  if constexpr (requires { s.message_counter = n; }) {
    S a = s, b = s;
    a.message_counter = 3;
    for (int i = 0; i < 3; i++) probe(b);
    if (probe(a) != probe(b) || probe(a) != probe(b)) return false;
    s.message_counter = n;
    return true;
  }
  return false;
}
template <class F> bool throws_std(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}

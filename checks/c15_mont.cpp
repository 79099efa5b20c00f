#include "big.h"
#include <caligo/mont.h>
#include <stdexcept>

template <size_t B, size_t K> static void reduce(Gen& g) {
  Words a = gen_words(g, B / 32), m = gen_words(g, K / 32);
  Z za = zw(a), zm = zw(m);
  if (zm.zero()) { m[0] = 1 + (uint32_t)g.raw(7); zm = zw(m); }
  switch (g.weighted({5, 1, 1, 1})) {  // values next to multiples of the modulus
    case 1: { Z q = zw(gen_words(g, B / 32)) / zm; za = q * zm; break; }
    case 2: { Z q = zw(gen_words(g, B / 32)) / zm; za = q * zm; if (!za.zero()) za = za - Z(1); break; }
    case 3: za = zm % ref::pow2(B); break;
    default: break;
  }
  a = wz(za, B / 32);
  g.note("reduce ", B, " by ", K, ": ", za.str(), " mod ", zm.str());
  g.label("reduction " + std::to_string(B) + "/" + std::to_string(K));
  if (zm <= za) g.nontrivial();
  auto r = big<B>(a).naive_reduce(big<K>(m));
  CHECK(zb(r) == za % zm, "remainder is " << zb(r).str() << ", expected " << (za % zm).str());
}
PROP(reduction, 12000, 400000) {
  switch (g.raw(9)) {
    case 0: reduce<64, 32>(g); break;
    case 1: reduce<64, 64>(g); break;
    case 2: reduce<128, 64>(g); break;
    case 3: reduce<96, 32>(g); break;
    case 4: reduce<256, 128>(g); break;
    case 5: reduce<512, 256>(g); break;
    case 6: reduce<288, 256>(g); break;
    case 7: reduce<2048, 1024>(g); break;
    case 8: reduce<160, 96>(g); break;
    default: reduce<1024, 256>(g);
  }
}
// Every bit length of the modulus.
PROP(reduction_every_modulus_length, 3000, 30000) {
  size_t bits = 1 + g.walk(128);
  Words m = wz(zw(gen_words(g, 4)) % ref::pow2(bits), 4), a = gen_words(g, 8);
  m[(bits - 1) / 32] |= 1u << ((bits - 1) % 32);
  Z za = zw(a), zm = zw(m);
  g.note(za.str(), " mod ", zm.str());
  g.label("walked modulus lengths");
  g.nontrivial();
  CHECK(zb(big<256>(a).naive_reduce(big<128>(m))) == za % zm, "remainder for a modulus of " << bits << " bits");
  CHECK(zb(big<128>(Words(a.begin(), a.begin() + 4)).naive_reduce(big<128>(m))) == zw(Words(a.begin(), a.begin() + 4)) % zm, "remainder at equal width for a modulus of " << bits << " bits");
}
template <size_t K> static Words modulus(Gen& g, bool odd = true) {
  Words m = gen_words(g, K / 32);
  if (g.chance(1, 4)) { for (auto& w : m) w = 0xFFFFFFFFu; if (g.coin()) m[0] = g.edge32(); }         // just below 2^K
  if (g.chance(1, 8)) { for (size_t i = 1; i < m.size(); i++) m[i] = 0; }                             // one word
  if (g.chance(1, 6)) m.back() |= 0x80000000u;
  if (odd) m[0] |= 1; else m[0] &= ~1u;
  return m;
}
template <size_t K> static void mont(Gen& g, bool big_exponent) {
  Words m = modulus<K>(g), A = gen_words(g, K / 32), Bw = related(g, A);
  if (g.chance(1, 6)) { Z t = (zw(m) + ref::pow2(K) - Z(1 + g.raw(1))) % ref::pow2(K); A = wz(t, K / 32); }  // m-1, m-2
  if (g.chance(1, 8)) A = m;
  Z M = zw(m), a = zw(A), b = zw(Bw);
  g.note("width ", K, " modulus ", M.str(), " a=", a.str(), " b=", b.str());
  g.label("Montgomery at width " + std::to_string(K) + (M.bits() == K ? " full-length modulus" : " shorter modulus"));
  if (!a.zero() && !b.zero()) g.nontrivial();
  Caligo::MontgomeryState<K> st(big<K>(m));
  Caligo::MontgomeryValue<K> x(st, big<K>(A)), y(st, big<K>(Bw));
  auto val = [](const Caligo::MontgomeryValue<K>& v) { Caligo::bignum<K> r = v; return zb(r); };
  auto ck = [&](const char* what, const Caligo::MontgomeryValue<K>& v, const Z& want) { Z got = val(v); CHECK(got == want, what << " is " << got.str() << ", expected " << want.str() << " modulo " << M.str()); };
  ck("conversion in and out", x, a % M);
  ck("sum", x + y, (a + b) % M);
  ck("doubled", x + x, (a + a) % M);
  ck("product", x * y, (a * b) % M);
  ck("square", x.square(), (a * a) % M);
  ck("product with itself", x * x, (a * a) % M);
  ck("sum of products", x * y + x.square(), (a * b + a * a) % M);
  uint32_t e = g.edge32();
  g.note("exponent ", e);
  ck("power by a 32-bit exponent", x.exp(e), ref::powm(a, Z(e), M));
  if (big_exponent) {
    Words E = gen_words(g, K / 32);
    g.note("big exponent ", ws(E));
    ck("power by a big exponent", x.exp(big<K>(E)), ref::powm(a, zw(E), M));
  }
  ck("operand after use", x, a % M);
  Z R = ref::pow2(K);
  CHECK(zb(st.R1MN) == R % M, "R mod N is " << zb(st.R1MN).str() << " modulo " << M.str());
  CHECK(zb(st.R2MN) == R * R % M, "R^2 mod N is " << zb(st.R2MN).str() << " modulo " << M.str());
  CHECK(zb(st.R3MN) == R * R * R % M, "R^3 mod N is " << zb(st.R3MN).str() << " modulo " << M.str());
  Z t = zw(gen_words(g, 2 * K / 32)) % (M * R);   // what REDC is defined on
  if (g.chance(1, 4)) t = M * R - Z(1 + g.raw(2));
  Z red = zb(st.REDC(big<2 * K>(wz(t, 2 * K / 32))));
  CHECK(red < M && (red * R) % M == t % M, "REDC(" << t.str() << ") is " << red.str() << " modulo " << M.str());
}
PROP(montgomery, 6000, 250000) {
  switch (g.raw(5)) {
    case 0: mont<32>(g, true); break;
    case 1: mont<64>(g, true); break;
    case 2: mont<96>(g, true); break;
    case 3: mont<128>(g, true); break;
    case 4: mont<160>(g, g.chance(1, 2)); break;
    default: mont<256>(g, g.chance(1, 3)); break;
  }
}
PROP(montgomery_wide, 240, 8000) {
  switch (g.raw(6)) {
    case 0: mont<512>(g, g.chance(1, 4)); break;
    case 1: mont<1024>(g, false); break;
    case 2: mont<2048>(g, false); break;
    case 3: mont<4096>(g, false); break;
    case 4: mont<992>(g, false); break;
    case 5: mont<224>(g, true); break;
    default: mont<768>(g, false);
  }
}
// Tiny moduli exhaustively: every odd modulus below 256 with every pair of small operands.
PROP(tiny_moduli, 16384, 131072) {
  uint32_t m = 2 * (uint32_t)g.walk(128) + 1, a = (uint32_t)g.walk(128), b = (uint32_t)g.raw(300), e = (uint32_t)g.raw(40);
  g.note("modulus ", m, " a=", a, " b=", b, " e=", e);
  g.label("walked tiny moduli");
  if (a && b) g.nontrivial();
  auto run = [&](auto width) {
    constexpr size_t K = decltype(width)::value;
    Caligo::MontgomeryState<K> st{Caligo::bignum<K>(m)};
    Caligo::MontgomeryValue<K> x(st, Caligo::bignum<K>(a)), y(st, Caligo::bignum<K>(b));
    auto v = [](const Caligo::MontgomeryValue<K>& q) { Caligo::bignum<K> r = q; return zb(r); };
    CHECK(v(x) == Z(a % m) && v(x + y) == Z((a + b) % m) && v(x * y) == Z(a * b % m) && v(x.square()) == Z(a * a % m), "arithmetic modulo " << m << " at width " << K);
    CHECK(v(x.exp(e)) == ref::powm(Z(a), Z(e), Z(m)) && v(x.exp(Caligo::bignum<K>(e))) == ref::powm(Z(a), Z(e), Z(m)), "power modulo " << m << " at width " << K);
  };
  if (g.coin()) run(std::integral_constant<size_t, 64>{}); else run(std::integral_constant<size_t, 32>{});
}
PROP(even_modulus_refused, 2000, 20000) {
  Words m = modulus<128>(g, false);
  g.note("modulus ", ws(m));
  g.label("even moduli");
  g.nontrivial();
  bool refused = false;
  try { Caligo::MontgomeryState<128> st(big<128>(m)); } catch (const std::exception&) { refused = true; }
  CHECK(refused, "an even modulus was accepted");
}

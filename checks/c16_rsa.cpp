#include "rsakeys.h"
#include <caligo/rsa.h>

// A representative below n, with special ones.
static Z representative(Gen& g, const Z& n, const Key* k) {
  switch (g.weighted({5, 1, 1, 1, 1, k ? 2u : 0u, 1})) {
    case 0: return Z::be(g.noise(n.bits() / 8 + 8)) % n;
    case 1: return Z(0);
    case 2: return Z(1) % n;
    case 3: return (n - Z(1));
    case 4: return zw(gen_words(g, (n.bits() + 31) / 32)) % n;
    case 5: { Z m = (g.coin() ? k->p : k->q) * Z(1 + g.raw(1000)); g.label("shares a factor with the modulus"); return m % n; }
    default: return Z(g.raw(70000)) % n;
  }
}
template <size_t N> static void valid_pair(Gen& g) {
  size_t bits = g.chance(1, 3) ? N : g.pick<size_t>({N, N - 8, N - 1, N - 31, N - 32, N - 33, N - 64, N / 2, N / 2 + 8, 64 + 8 * g.raw(N / 8 - 12)});
  int ek = (int)g.weighted({3, 2, 2, 2, 1});
  const Key& k = key(bits, ek, g.raw(40));
  g.note("width ", N, " modulus ", k.n.str(), " e=", k.e.str());
  g.label("modulus " + std::string(bits == N ? "as long as" : "shorter than") + " width " + std::to_string(N));
  g.label(ek == 0 ? "e 65537" : ek == 1 ? "e 3" : ek == 2 ? "e 17" : ek == 3 ? "e 32 bits" : "e long");
  g.nontrivial();
  Z m = representative(g, k.n, &k);
  g.note("m=", m.str());
  Caligo::rsa_public_key<N> pub(bz<N>(k.n), bz<N>(k.e));
  Caligo::rsa_private_key<N> priv(bz<N>(k.n), bz<N>(k.d));
  Z c = zb(pub.rsaep(bz<N>(m))), s = zb(priv.rsadp(bz<N>(m)));
  Z wc = ref::powm(m, k.e, k.n), wsig = ref::powm(m, k.d, k.n);
  CHECK(c == wc, "public operation gives " << c.str() << ", expected " << wc.str());
  CHECK(s == wsig, "private operation gives " << s.str() << ", expected " << wsig.str());
  CHECK(zb(priv.rsadp(bz<N>(c))) == m, "private operation does not undo the public one");
  CHECK(zb(pub.rsaep(bz<N>(s))) == m, "public operation does not undo the private one");
}
#ifndef PBT_FAST
PROP(key_pairs_512, 500, 20000) { valid_pair<512>(g); }
PROP(key_pairs_1024, 48, 1500) { valid_pair<1024>(g); }
PROP(key_pairs_small, 800, 30000) { if (g.coin()) valid_pair<192>(g); else valid_pair<256>(g); }
// Any odd modulus and any exponent: just exponentiation.
template <size_t N> static void any(Gen& g) {
  Words nw = gen_words(g, N / 32), ew = g.coin() ? Words{g.edge32()} : gen_words(g, N / 32);
  nw[0] |= 1;
  if (zw(nw) == Z(1)) nw[0] = 3;
  if (g.chance(1, 2)) ew = {g.pick<uint32_t>({65537, 65537, 3, 17, 1, 0, 65536, 65539})};
  if (g.chance(1, 2)) {  // looks like a common exponent in part of its words
    ew.resize(N / 32);
    if (g.coin()) std::rotate(ew.begin(), ew.begin() + g.raw(N / 32 - 1), ew.end());
    else ew[g.raw(N / 32 - 1)] |= 1u << g.raw(31);
    g.label("exponent close to a common one");
  }
  Z n = zw(nw), e = zw(ew), m = representative(g, n, nullptr);
  g.note("width ", N, " n=", n.str(), " e=", e.str(), " m=", m.str());
  g.label("arbitrary odd modulus at width " + std::to_string(N));
  if (!m.zero() && !e.zero()) g.nontrivial();
  Caligo::rsa_public_key<N> pub(bz<N>(n), bz<N>(e));
  Caligo::rsa_private_key<N> priv(bz<N>(n), bz<N>(e));
  Z want = ref::powm(m, e, n);
  Z a = zb(pub.rsaep(bz<N>(m))), b = zb(priv.rsadp(bz<N>(m)));
  CHECK(a == want, "public operation gives " << a.str() << ", expected " << want.str());
  CHECK(b == want, "private operation gives " << b.str() << ", expected " << want.str());
}
PROP(arbitrary_parameters, 2500, 80000) {
  switch (g.raw(3)) {
    case 0: any<64>(g); break;
    case 1: any<128>(g); break;
    case 2: any<160>(g); break;
    default: any<256>(g);
  }
}
PROP(arbitrary_parameters_wide, 64, 2000) { if (g.chance(1, 3)) any<768>(g); else any<512>(g); }
// Moduli just below 2^width, where reduction is at its tightest.
PROP(moduli_near_the_width, 1500, 40000) {
  constexpr size_t N = 128;
  Z n = ref::pow2(N) - Z(2 * g.raw(2000) + 1), e = g.coin() ? Z(65537) : Z(g.raw(70000)), m = g.coin() ? n - Z(1 + g.raw(50)) : representative(g, n, nullptr);
  g.note("n=", n.str(), " e=", e.str(), " m=", m.str());
  g.label("modulus just below 2^width");
  g.nontrivial();
  Caligo::rsa_public_key<N> pub(bz<N>(n), bz<N>(e));
  Z got = zb(pub.rsaep(bz<N>(m)));
  CHECK(got == ref::powm(m, e, n), "public operation gives " << got.str());
}
// One after another: moduli, exponents and representatives that differ from the ones before in one bit.
PROP(sequences, 1500, 40000) {
  constexpr size_t N = 256;
  const Key& k = key(N, 0, g.raw(20));
  std::vector<Z> ns = {k.n, k.n, k.n}, es = {Z(65537), Z(65537), k.d, Z(3)}, ms;
  mpz_combit(ns[1].v, g.range(1, N - 2));
  mpz_combit(ns[2].v, g.range(1, N - 2));
  mpz_combit(es[1].v, g.raw(N - 1));
  ms.push_back(representative(g, k.n, nullptr));
  ms.push_back(ms[0]);
  mpz_combit(ms[1].v, g.raw(N - 3));
  g.note("n=", k.n.str(), " m=", ms[0].str());
  g.label("sequence");
  g.nontrivial();
  for (size_t i = 0, steps = g.range(2, 8); i < steps; i++) {
    Z n = ns[g.raw(2)], e = es[g.weighted({2, 1, 1, 1})], m = ms[g.raw(1)] % n, want = ref::powm(m, e, n), got;
    bool pub = g.coin();
    if (pub) got = zb(Caligo::rsa_public_key<N>(bz<N>(n), bz<N>(e)).rsaep(bz<N>(m)));
    else got = zb(Caligo::rsa_private_key<N>(bz<N>(n), bz<N>(e)).rsadp(bz<N>(m)));
    CHECK(got == want, (pub ? "public" : "private") << " operation in a sequence gives " << got.str() << ", expected " << want.str() << " for n=" << n.str() << " e=" << e.str() << " m=" << m.str());
  }
}
#else
// The widths in real use: public operation over 2048 and 4096 bits, private operation over 2048.
template <size_t N> static void real(Gen& g, std::initializer_list<size_t> lens, bool priv) {
  const Key& k = key(g.pick<size_t>(lens), (int)g.pick<int>({0, 2, 3}), g.raw(2));
  Z m = representative(g, k.n, &k);
  g.note("width ", N, " modulus ", k.n.str(), " e=", k.e.str(), " m=", m.str());
  g.label("modulus of " + std::to_string(k.bits) + " bits in width " + std::to_string(N) + (priv ? " private" : " public"));
  g.nontrivial();
  if (priv) {
    Caligo::rsa_private_key<N> pr(bz<N>(k.n), bz<N>(k.d));
    Z s = zb(pr.rsadp(bz<N>(m))), w = ref::powm(m, k.d, k.n);
    CHECK(s == w, "private operation gives " << s.str() << ", expected " << w.str());
  } else {
    Caligo::rsa_public_key<N> pub(bz<N>(k.n), bz<N>(k.e));
    Z c = zb(pub.rsaep(bz<N>(m))), w = ref::powm(m, k.e, k.n);
    CHECK(c == w, "public operation gives " << c.str() << ", expected " << w.str());
  }
}
PROP(public_2048, 120, 4000) { real<2048>(g, {2048, 2048, 1536, 2040, 1024}, false); }
PROP(public_4096, 32, 1000) { real<4096>(g, {4096, 2048, 3072, 4096}, false); }
PROP(private_2048, 32, 1000) { real<2048>(g, {2048, 2048, 1536, 2040, 1024}, true); }
#endif

#include "big.h"
#include <caligo/random_prime.h>

template <size_t N> static void verdict(Gen& g, const Z& n, const char* kind) {
  bool want = ref::is_prime(n);
  g.note(kind, " width ", N, " n=", n.str(), want ? " (prime)" : " (composite)");
  g.label(std::string(kind) + (want ? " prime" : " composite"));
  bool got = Caligo::miller_rabin_is_probably_prime<N>(bz<N>(n));
  CHECK(got == want, n.str() << " (hex, " << kind << ", width " << N << ") reported as " << (got ? "prime" : "composite"));
}
// Every number from 0 on, across the end of the small-prime table.
PROP(small_numbers, 8400, 60000) {
  Z n(g.walk(8400));
  if (g.caseIndex >= 8400) n = Z(8400 + g.raw(100000));
  if (!n.zero()) g.nontrivial();
  if (g.coin()) verdict<64>(g, n, "small"); else verdict<32>(g, n, "small");
}
static Z prime_of(Gen& g, size_t bits) {
  Z r = Z::be(g.noise(bits / 8 + 2)) % ref::pow2(bits);
  mpz_setbit(r.v, bits - 1);
  return ref::next_prime(r);
}
// Strong pseudoprimes to the first prime bases: psi(1)..psi(13), and products p*(k(p-1)+1) found by search.
static const char* spsp[] = {"2047", "1373653", "25326001", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051",
  "250845604603880291622419767362439637221", "56907061727185337048784419941", "48612248988907199176446686101", "1874484449542069421229721", "2253786408373996718763037439933220121",
  "17068880383428162061", "11684713505958367951", "10757956950361482751", "3669623654205871981", "3427493059619337061", "2366338900801", "1871186716981", "1362242655901",
  "318665857834031151167461", "3317044064679887385961981", "327684134190887768153614702030169172661", "263776053409720414708837074382786433221", "219032357991518305483387083273614331781",
  "2112875307880685727397021", "293958500160074585438377130329"};
static const char* carmichael[] = {"561", "1105", "1729", "2465", "2821", "6601", "8911", "10585", "15841", "29341", "41041", "46657", "52633", "62745", "63973", "75361", "101101", "115921", "126217", "162401", "172081", "188461", "252601", "278545", "294409", "314821", "334153", "340561", "399001", "410041", "449065", "488881", "512461", "825265", "321197185", "9746347772161", "1436697831295441", "60977817398996785"};
static Z dec(const char* s) { Z r; mpz_set_str(r.v, s, 10); return r; }

template <size_t N> static void composite(Gen& g) {
  Z n;
  const char* kind;
  switch (g.weighted({3, 3, 2, 3, 2, 2, 1, 2})) {
    case 0: { n = dec(spsp[g.raw(sizeof spsp / sizeof *spsp - 1)]); kind = "strong pseudoprime"; break; }
    case 1: {
      if (g.coin()) n = dec(carmichael[g.raw(sizeof carmichael / sizeof *carmichael - 1)]);
      else {  // Chernick
        Z k(1 + g.raw(3000));
        for (int i = 0; i < 20000; i++, k = k + Z(1)) {
          Z a = Z(6) * k + Z(1), b = Z(12) * k + Z(1), c = Z(18) * k + Z(1);
          if (ref::is_prime(a) && ref::is_prime(b) && ref::is_prime(c)) { n = a * b * c; break; }
        }
      }
      kind = "Carmichael number";
      break;
    }
    case 2: { Z p = prime_of(g, g.range(7, N / 2 - 1)); n = p * p; kind = "square of a prime"; break; }
    case 3: { Z p = prime_of(g, g.range(7, N / 2 - 1)), q = prime_of(g, g.range(7, N / 2 - 1)); n = p * q; kind = "product of two primes"; break; }
    case 4: { size_t b = g.range(4, N / 2 - 4); Z p = prime_of(g, b); for (int i = 0; i < 4000; i++) { Z q = (p - Z(1)) * Z(2) + Z(1); if (ref::is_prime(q)) break; p = ref::next_prime(p); } n = p * ((p - Z(1)) * Z(2) + Z(1)); kind = "p(2p-1)"; break; }
    case 5: { n = Z::be(g.noise(N / 8)); kind = "random number"; break; }
    case 6: { n = Z::be(g.noise(N / 8)) * Z(2); kind = "even number"; if (g.coin()) n = ref::pow2(g.range(1, N - 1)); break; }
    default: { n = ref::pow2(g.range(14, N - 1)); n = g.coin() ? n + Z(1) : n - Z(1); kind = "next to a power of two"; }
  }
  n = n % ref::pow2(N);
  if (ref::is_prime(n) && N > 192) g.discard();
  g.nontrivial();
  verdict<N>(g, n, kind);
}
PROP(composites, 5000, 200000) {
  switch (g.raw(3)) {
    case 0: composite<64>(g); break;
    case 1: composite<128>(g); break;
    case 2: composite<96>(g); break;
    default: composite<256>(g);
  }
}
PROP(composites_wide, 300, 8000) { if (g.chance(1, 4)) composite<1024>(g); else composite<512>(g); }
// Arnault's Carmichael number: strong pseudoprime to every prime base below 307.
PROP(arnault, 8, 16) {
  Z p = dec("29674495668685510550154174642905332730771991799853043350995075531276838753171770199594238596428121188033664754218345562493168782883");
  Z n = p * (Z(313) * (p - Z(1)) + Z(1)) * (Z(353) * (p - Z(1)) + Z(1));
  g.nontrivial();
  g.raw(1000);
  if (g.coin()) verdict<1344>(g, n, "Arnault's number"); else verdict<1536>(g, n, "Arnault's number");
}
template <size_t N> static void prime(Gen& g) {
  Z n;
  const char* kind;
  switch (g.weighted({4, 2, 2, 1})) {
    case 0: n = prime_of(g, g.range(13, N - 1)); kind = "random prime"; break;
    case 1: {  // k*2^m+1: many trailing zero bits in n-1
      size_t m = g.range(8, N - 12);
      Z k(1 + 2 * g.raw(500));
      for (int i = 0; i < 3000; i++) { n = k * ref::pow2(m) + Z(1); if (n.bits() > N) { g.discard(); } if (ref::is_prime(n)) break; k = k + Z(2); }
      if (!ref::is_prime(n)) g.discard();
      kind = "k*2^m+1";
      break;
    }
    case 2: { n = ref::pow2(N) - Z(1 + 2 * g.raw(300)); for (int i = 0; i < 4000 && !ref::is_prime(n); i++) n = n - Z(2); kind = "prime just below 2^width"; break; }
    default: { static const int e[] = {13, 17, 19, 31, 61, 89, 107, 127}; n = ref::pow2(e[g.raw(7)]) - Z(1); if (n.bits() > N) g.discard(); kind = "Mersenne prime"; }
  }
  g.nontrivial();
  verdict<N>(g, n, kind);
}
PROP(primes, 600, 20000) {
  switch (g.raw(3)) {
    case 0: prime<64>(g); break;
    case 1: prime<96>(g); break;
    case 2: prime<128>(g); break;
    default: prime<256>(g);
  }
}
PROP(primes_of_every_length, 220, 4000) {
  size_t bits = 13 + g.walk(115);
  g.nontrivial();
  Z n = prime_of(g, bits);
  if (n.bits() > 128) g.discard();
  verdict<128>(g, n, "prime of every length");
}
PROP(slow_primes_wide, 8, 200) { g.nontrivial(); verdict<512>(g, prime_of(g, g.range(300, 511)), "wide prime"); }

// Generation under a chosen random source, then whatever the generator delivers.
template <size_t N, bool S> static void generate(Gen& g) {
  Caligo::testValues.clear();
  std::vector<uint64_t> q;
  size_t n = g.raw(12) * ((N + 63) / 64);
  for (size_t i = 0; i < n; i++) q.push_back(g.weighted({2, 1, 1, 1}) == 0 ? g.u64() : g.edge64());
  if (g.chance(1, 4)) {  // the source delivers a value whose shaped form is composite or just short of prime
    Z z = prime_of(g, N - 1);
    Words w = wz(z, (N + 31) / 32);
    for (size_t i = 0; i < w.size(); i += 2) q.push_back((uint64_t)w[i] | (i + 1 < w.size() ? (uint64_t)w[i + 1] << 32 : 0));
  }
  Caligo::testValues.assign(q.rbegin(), q.rend());
  if (g.chance(1, 3)) for (size_t k = g.raw(50); k > 0; k--) (void)Caligo::generate_random_value();
  auto p = Caligo::random_prime<N, S>();
  Caligo::testValues.clear();
  Z z = zb(p);
  g.note("width ", N, S ? " strict" : "", " queued ", q.size(), " gives ", z.str());
  g.label(std::string("generated ") + std::to_string(N) + (S ? " strict" : ""));
  g.nontrivial();
  CHECK(ref::is_prime(z), "generated number " << z.str() << " is not prime");
  CHECK(z.odd() && z.bits() == N, "generated prime " << z.str() << " has " << z.bits() << " bits, asked for " << N);
  if (S) CHECK(mpz_tstbit(z.v, N - 2), "second bit of a strict prime is clear: " << z.str());
}
PROP(generation, 400, 15000) {
  switch (g.raw(7)) {
    case 0: generate<32, false>(g); break;
    case 1: generate<32, true>(g); break;
    case 2: generate<64, false>(g); break;
    case 3: generate<64, true>(g); break;
    case 4: generate<96, true>(g); break;
    case 5: generate<96, false>(g); break;
    case 6: generate<128, false>(g); break;
    default: generate<128, true>(g);
  }
}
PROP(slow_generation_wide, 12, 200) { if (g.coin()) generate<256, true>(g); else generate<256, false>(g); }

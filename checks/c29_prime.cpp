// Part of C29 in a translation unit of its own.
#include "big.h"
#include <caligo/random_prime.h>
Bytes prime_op(uint64_t s) {
  Bytes m(16);
  for (size_t i = 0; i < 16; i += 8) { uint64_t v = pbt::splitmix(s); memcpy(m.data() + i, &v, 8); }
  m[0] |= 1;
  return Bytes{(uint8_t)Caligo::miller_rabin_is_probably_prime<128>(Caligo::bignum<128>(m))};
}
bool prime_from_random(Bytes& out) {
  auto p = Caligo::random_prime<128>();
  auto b = p.as_bytes();
  out.assign(b.begin(), b.end());
  return Caligo::miller_rabin_is_probably_prime<128>(p);
}

#include "big.h"

template <size_t B> static void ops(Gen& g) {
  constexpr size_t n = B / 32;
  Words A = gen_words(g, n), Bw = related(g, A);
  if (g.coin()) std::swap(A, Bw);
  uint32_t k = g.edge32();
  g.note("width ", B, " a=", ws(A), " b=", ws(Bw), " k=", k);
  g.label("width " + std::to_string(B));
  auto a = big<B>(A), b = big<B>(Bw);
  const Z za = zw(A), zbv = zw(Bw), M = ref::pow2(B);
  if (!za.zero() && !zbv.zero()) g.nontrivial();

  auto [carry, sum] = a + b;
  CHECK(zb(sum) == (za + zbv) % M, "sum is " << zb(sum).str() << ", expected " << ((za + zbv) % M).str());
  CHECK(carry == (M <= za + zbv), "carry is " << carry);
  auto [borrow, diff] = a - b;
  CHECK(zb(diff) == (za - zbv) % M, "difference is " << zb(diff).str() << ", expected " << ((za - zbv) % M).str());
  CHECK(borrow == (za < zbv), "borrow is " << borrow);
  auto p = a * b;
  CHECK(zb(p) == za * zbv, "product is " << zb(p).str() << ", expected " << (za * zbv).str());
  auto pk = a * k;
  CHECK(zb(pk) == za * Z(k), "product by " << k << " is " << zb(pk).str() << ", expected " << (za * Z(k)).str());
  auto sq = a.square();
  CHECK(zb(sq) == za * za, "square is " << zb(sq).str() << ", expected " << (za * za).str());
  CHECK((a == b) == (za == zbv), "equality is " << (a == b));
  CHECK((a < b) == (za < zbv), "less-than is " << (a < b));
  CHECK(a == a && !(a < a), "reflexivity");
  Words x = A, na = A, an = A;
  for (size_t i = 0; i < n; i++) { x[i] ^= Bw[i]; na[i] = ~na[i]; an[i] &= Bw[i]; }
  CHECK(words(a ^ b) == x, "exclusive or is " << zb(a ^ b).str());
  { auto t = a; t ^= b; CHECK(words(t) == x, "exclusive-or assignment is " << zb(t).str()); }
  { auto t = a; t &= b; CHECK(words(t) == an, "and assignment is " << zb(t).str()); }
  { auto t = a; t.neg(); CHECK(words(t) == na, "complement is " << zb(t).str()); }
  { auto t = a; bool c = t.add(b.v); CHECK(zb(t) == (za + zbv) % M && c == (M <= za + zbv), "in-place addition"); }
  { auto t = a; bool c = t.sub(b.v); CHECK(zb(t) == (za - zbv) % M && c == (za < zbv), "in-place subtraction"); }
  { auto t = a; bool c = t.add(t.v); CHECK(zb(t) == (za + za) % M && c == (M <= za + za), "doubling in place"); }
  { auto t = a; bool c = t.sub(t.v); CHECK(zb(t).zero() && !c, "subtraction from itself"); }
  { auto t = a; t ^= t; CHECK(zb(t).zero(), "exclusive-or with itself is " << zb(t).str()); }
  { auto t = a; t &= t; CHECK(words(t) == A, "and with itself is " << zb(t).str()); }
  { auto [c, t] = a + a; CHECK(zb(t) == (za + za) % M && c == (M <= za + za), "sum with itself"); }
  { auto [c, t] = a - a; CHECK(zb(t).zero() && !c, "difference to itself"); }
  CHECK(zb(a * a) == za * za, "product with itself is " << zb(a * a).str());
  CHECK(words(a) == A && words(b) == Bw, "operands modified");
}
PROP(small_widths, 40000, 1500000) {
  switch (g.raw(9)) {
    case 0: ops<32>(g); break;
    case 1: ops<64>(g); break;
    case 2: ops<96>(g); break;
    case 3: ops<128>(g); break;
    case 4: ops<160>(g); break;
    case 5: ops<224>(g); break;
    case 6: ops<256>(g); break;
    case 7: ops<192>(g); break;
    case 8: ops<320>(g); break;
    default: ops<288>(g);
  }
}
PROP(large_widths, 6000, 200000) {
  switch (g.raw(7)) {
    case 0: ops<512>(g); break;
    case 1: ops<1024>(g); break;
    case 2: ops<1536>(g); break;
    case 3: ops<2048>(g); break;
    case 4: ops<768>(g); break;
    case 5: ops<3072>(g); break;
    case 6: ops<416>(g); break;
    default: ops<4096>(g);
  }
}
// All pairs of extreme words at 96 bits: every carry pattern over three words.
PROP(every_extreme_pattern, 30000, 90000) {
  static const uint32_t e[] = {0, 0xFFFFFFFFu, 1, 0x80000000u, 0xFFFFFFFEu, 0x7FFFFFFFu};
  Words a(3), b(3);
  for (auto& w : a) w = e[g.walk(6)];
  for (auto& w : b) w = e[g.walk(6)];
  g.note("a=", ws(a), " b=", ws(b));
  g.label("walked words");
  auto x = big<96>(a), y = big<96>(b);
  Z za = zw(a), zv = zw(b), M = ref::pow2(96);
  if (!za.zero() && !zv.zero()) g.nontrivial();
  auto [c, s] = x + y;
  CHECK(zb(s) == (za + zv) % M && c == (M <= za + zv), "sum " << zb(s).str() << " carry " << c);
  auto [bo, d] = x - y;
  CHECK(zb(d) == (za - zv) % M && bo == (za < zv), "difference " << zb(d).str() << " borrow " << bo);
  CHECK(zb(x * y) == za * zv, "product " << zb(x * y).str());
  CHECK((x < y) == (za < zv) && (x == y) == (za == zv), "comparison");
}
// Algebra: distributivity and cancellation over chained operations.
PROP(chained_operations, 8000, 300000) {
  constexpr size_t B = 256, n = 8;
  Z M = ref::pow2(B);
  Words w = gen_words(g, n);
  auto a = big<B>(w);
  Z z = zw(w);
  size_t steps = g.range(2, 30);
  for (size_t i = 0; i < steps; i++) {
    Words v = related(g, words(a));
    auto b = big<B>(v);
    switch (g.raw(4)) {
      case 0: a = (a + b).second; z = (z + zw(v)) % M; break;
      case 1: a = (a - b).second; z = (z - zw(v)) % M; break;
      case 2: a = (a * b).template slice<B>(0); z = (z * zw(v)) % M; break;
      case 3: a = (a * b).template slice<B>(B); z = (z * zw(v)) / M; break;
      default: a.neg(); z = M - Z(1) - z; break;
    }
    CHECK(zb(a) == z, "after step " << i << " value is " << zb(a).str() << ", expected " << z.str());
  }
  g.note("steps ", steps);
  g.label("chains");
  g.nontrivial();
}

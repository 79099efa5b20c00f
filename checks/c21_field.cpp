#include "big.h"
#include <caligo/x25519.h>
using Caligo::ec_value;

static const Z& P() { static Z p = ref::pow2(255) - Z(19); return p; }
static ec_value ev(const Words& w) { return ec_value(big<256>(w)); }
static Z zv(const ec_value& e) { return zb(e.v); }

// Representatives around every multiple of the modulus and every carry boundary.
static Words rep(Gen& g) {
  switch (g.weighted({3, 3, 2})) {
    case 0: return gen_words(g, 8);
    case 1: {
      Z base = g.pick<int>({0, 1, 2, 3}) == 0 ? Z(0) : g.coin() ? P() : g.coin() ? P() + P() : ref::pow2(g.coin() ? 255 : 256) - Z(1);
      Z d(g.raw(80));
      Z r = g.coin() ? base + d : base - d;
      return wz(r % ref::pow2(256), 8);
    }
    default: { Words w(8, 0xFFFFFFFFu); w[g.raw(7)] = g.edge32(); return w; }
  }
}
static void cong(const ec_value& got, const Z& want, const char* what) {
  Z r = zv(got) % P(), w = want % P();
  CHECK(r == w, what << " is congruent to " << r.str() << ", expected " << w.str());
}
PROP(operations, 30000, 1200000) {
  Words A = rep(g), B = g.chance(1, 3) ? related(g, A) : rep(g);
  if (g.chance(1, 8)) { Z t = (zw(A) + P()) % ref::pow2(256); B = wz(t, 8); }  // same residue, other representative
  uint32_t k = g.edge32();
  ec_value a = ev(A), b = ev(B);
  Z za = zw(A), zbb = zw(B);
  g.note("a=", za.str(), " b=", zbb.str(), " k=", k);
  g.label(P() <= za || P() <= zbb ? "non-canonical operand" : "canonical operands");
  if (!za.zero() && !zbb.zero()) g.nontrivial();
  cong(a + b, za + zbb, "sum");
  cong(a - b, za - zbb, "difference");
  cong(a * b, za * zbb, "product");
  cong(a * k, za * Z(k), "product by a 32-bit number");
  cong(a.square(), za * za, "square");
  cong(a + a, za + za, "sum with itself");
  cong(a - a, Z(0), "difference to itself");
  cong(a * a, za * za, "product with itself");
  CHECK(a == a && !(a != a) && !(a < a), "comparison with itself");
  bool eq = za % P() == zbb % P();
  CHECK((a == b) == eq, "equality is " << (a == b));
  CHECK((a != b) == !eq, "inequality is " << (a != b));
  CHECK((a < b) == (za % P() < zbb % P()), "ordering is " << (a < b));
  ec_value c = a;
  c.applyModulus();
  CHECK(zv(c) == za % P(), "reduction gives " << zv(c).str() << ", expected " << (za % P()).str());
  CHECK(zv(a) == za && zv(b) == zbb, "operands modified");
  bool sw = g.coin();
  ec_value x = a, y = b;
  ctime_swap(sw, x, y);
  CHECK(zv(x) == (sw ? zbb : za) && zv(y) == (sw ? za : zbb), "conditional swap(" << sw << ")");
  x = a;
  ctime_swap(sw, x, x);
  CHECK(zv(x) == za, "conditional swap(" << sw << ") of a value with itself");
  size_t bit = g.raw(255);
  CHECK(a.bit(bit) == mpz_tstbit(za.v, bit), "bit " << bit);
  pbt::check_bytes(a.as_bytes(), za.to_le(32), "bytes");
  ec_value w = a;
  w = k;
  CHECK(zv(w) == Z(k), "assignment of a number");
}
PROP(inverse, 800, 40000) {
  Words A = rep(g);
  Z za = zw(A);
  g.note("a=", za.str());
  g.label("inverse");
  if (!(za % P()).zero()) g.nontrivial();
  ec_value i = inverse(ev(A));
  cong(i, ref::powm(za, P() - Z(2), P()), "inverse");
  if (!(za % P()).zero()) cong(i * ev(A), Z(1), "inverse times value");
}
PROP(expressions, 4000, 150000) {  // long chains without intermediate reduction
  Words A = rep(g);
  ec_value a = ev(A);
  Z z = zw(A);
  size_t n = g.range(3, 40);
  g.note("steps ", n);
  g.label("chains");
  g.nontrivial();
  for (size_t i = 0; i < n; i++) {
    Words B = rep(g);
    uint32_t k = g.edge32();
    bool rev = g.coin();
    switch (g.raw(5)) {
      case 0: a = a + ev(B); z = z + zw(B); break;
      case 1: if (rev) { a = ev(B) - a; z = zw(B) - z; } else { a = a - ev(B); z = z - zw(B); } break;
      case 2: a = a * ev(B); z = z * zw(B); break;
      case 3: a = a * k; z = z * Z(k); break;
      case 4: a = a.square(); z = z * z; break;
      default: a.applyModulus(); CHECK(zv(a) < P(), "reduction is not canonical: " << zv(a).str());
    }
    z = z % P();
    CHECK(zv(a) % P() == z, "after step " << i << " the value is congruent to " << (zv(a) % P()).str() << ", expected " << z.str());
  }
}
PROP(next_to_the_edges, 25000, 100000) {  // walks all pairs of representatives next to 0, p, 2p, 2^255, 2^256
  auto edge = [&](size_t i) {
    static const std::vector<Z> b = {Z(0), P(), P() + P(), ref::pow2(255), ref::pow2(256) - Z(38), ref::pow2(256) - Z(10)};
    Z d((unsigned long)(i % 10));
    Z r = i / 10 % 2 ? b[i / 20] + ref::pow2(256) - d : b[i / 20] + d;
    return wz(r % ref::pow2(256), 8);
  };
  Words A = edge(g.walk(120)), B = edge(g.walk(120));
  Z za = zw(A), zbb = zw(B);
  g.note("a=", za.str(), " b=", zbb.str());
  g.label("walked edges");
  if (!za.zero() && !zbb.zero()) g.nontrivial();
  cong(ev(A) + ev(B), za + zbb, "sum");
  cong(ev(A) - ev(B), za - zbb, "difference");
  cong(ev(A) * ev(B), za * zbb, "product");
  CHECK((ev(A) == ev(B)) == (za % P() == zbb % P()) && (ev(A) < ev(B)) == (za % P() < zbb % P()), "comparison");
}

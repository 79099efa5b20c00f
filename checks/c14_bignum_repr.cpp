#include "big.h"

template <size_t B> static void bytesIn(Gen& g) {
  constexpr size_t n = B / 8;
  Bytes d = g.bytes(g.chance(1, 3) ? n + g.raw(9) : g.raw(n));
  g.note("width ", B);
  g.note_hex("bytes", d);
  g.label("bytes to width " + std::to_string(B) + (d.size() > n ? " with excess" : d.size() < n ? " short" : " exact"));
  if (!d.empty()) g.nontrivial();
  std::unique_ptr<uint8_t[]> p(new uint8_t[d.size()]);
  memcpy(p.get(), d.data(), d.size());
  Caligo::bignum<B> b(std::span<const uint8_t>(p.get(), d.size()));
  Z want = Z::le(d) % ref::pow2(B);
  CHECK(zb(b) == want, "value from bytes is " << zb(b).str() << ", expected " << want.str());
  pbt::check_bytes(b.as_bytes(), want.to_le(n), "as_bytes");
  std::string t = want.str(), full(n * 2 - t.size(), '0');
  full += t;
  std::string text;
  for (size_t i = 0; i < full.size(); i += 8) { if (i) text += ' '; for (size_t k = 0; k < 8; k++) text += (char)toupper(full[i + k]); }
  CHECK(to_string(b) == text, "text is '" << to_string(b) << "', expected '" << text << "'");
  std::ostringstream o;
  o << b;
  CHECK(o.str() == text, "streamed text is '" << o.str() << "'");
  Words be = words(b);
  std::reverse(be.begin(), be.end());
  Caligo::bignum<B> c{std::span<const uint32_t>(be)};
  CHECK(zb(c) == want, "value from big-endian words is " << zb(c).str());
  uint32_t k = g.edge32();
  Caligo::bignum<B> d1(k), d2 = b;
  d2 = k;
  CHECK(zb(d1) == Z(k) && zb(d2) == Z(k), "value from a 32-bit number");
  CHECK(zb(Caligo::bignum<B>()).zero(), "default value");
}
PROP(bytes_and_text, 20000, 600000) {
  switch (g.raw(6)) {
    case 0: bytesIn<32>(g); break;
    case 1: bytesIn<64>(g); break;
    case 2: bytesIn<160>(g); break;
    case 3: bytesIn<256>(g); break;
    case 4: bytesIn<512>(g); break;
    case 5: bytesIn<2048>(g); break;
    default: bytesIn<4096>(g);
  }
}
PROP(word_lists, 4000, 60000) {
  uint32_t a = g.edge32(), b = g.edge32(), c = g.edge32(), d = g.edge32();
  g.nontrivial();
  g.label("word lists");
  g.note(a, ",", b, ",", c, ",", d);
  auto val = [](std::initializer_list<uint32_t> l) { Z r; for (uint32_t w : l) r = r * ref::pow2(32) + Z(w); return r; };
  CHECK(zb(Caligo::bignum<128>{a, b, c, d}) == val({a, b, c, d}), "four words in 128 bits");
  CHECK(zb(Caligo::bignum<256>{a, b, c, d}) == val({a, b, c, d}), "four words in 256 bits");
  CHECK(zb(Caligo::bignum<256>{a, b, c}) == val({a, b, c}), "three words in 256 bits");
  CHECK(zb(Caligo::bignum<96>{a, b, c}) == val({a, b, c}), "three words in 96 bits");
  CHECK(zb(Caligo::bignum<64>{a, b}) == val({a, b}), "two words in 64 bits");
  CHECK(zb(Caligo::bignum<64>{a}) == val({a}), "one word in 64 bits");
}
template <size_t F, size_t T> static void conv(const Words& w) {
  auto a = big<F>(w);
  Caligo::bignum<T> b = a;
  Z want = zw(w) % ref::pow2(T);
  CHECK(zb(b) == want, "conversion from " << F << " to " << T << " bits gives " << zb(b).str() << ", expected " << want.str());
  CHECK(zb(a) == zw(w), "source modified");
}
PROP(width_conversions, 10000, 300000) {
  Words w = gen_words(g, 32);
  auto lo = [&](size_t bits) { return Words(w.begin(), w.begin() + bits / 32); };
  g.note("value ", ws(w));
  g.label("width conversions");
  if (!zw(w).zero()) g.nontrivial();
  conv<1024, 32>(w); conv<1024, 512>(w); conv<1024, 992>(w); conv<1024, 2048>(w); conv<1024, 1056>(w); conv<1024, 4096>(w);
  conv<512, 1024>(lo(512)); conv<512, 256>(lo(512)); conv<256, 288>(lo(256)); conv<288, 256>(lo(288)); conv<32, 64>(lo(32)); conv<64, 32>(lo(64)); conv<96, 64>(lo(96)); conv<64, 4096>(lo(64)); conv<256, 256>(lo(256));
}
template <size_t B> static void bitops(Gen& g) {
  constexpr size_t n = B / 32;
  Words w = gen_words(g, n);
  auto a = big<B>(w);
  Z z = zw(w), M = ref::pow2(B);
  size_t steps = g.range(1, 12);
  g.note("width ", B, " value ", ws(w));
  g.label("bit operations at width " + std::to_string(B));
  g.nontrivial();
  for (size_t i = 0; i < steps; i++) {
    size_t bit = g.raw(B - 1);
    if (g.chance(1, 2)) bit = g.pick<size_t>({0, 31, B - 1, B - 32, 32 % B, 30});
    const char* what = "";
    switch (g.raw(5)) {
      case 0: a.set_bit(bit); mpz_setbit(z.v, bit); what = "set_bit"; break;
      case 1: a.clear_bit(bit); mpz_clrbit(z.v, bit); what = "clear_bit"; break;
      case 2: a.shr1(); z = z / Z(2); what = "shr1"; break;
      case 3: { size_t k = g.raw(n); a.shl_word(k); z = (z * ref::pow2(32 * k)) % M; what = "shl_word"; break; }
      case 4: { uint32_t v = g.edge32(); size_t k = g.raw(n - 1); a[k] = v; Words t = wz(z, n); t[k] = v; z = zw(t); what = "word assignment"; break; }
      default: {
        int got = a.bit(bit), want = mpz_tstbit(z.v, bit);
        CHECK(got == want, "bit " << bit << " reads " << got);
        what = "bit";
      }
    }
    g.note(what, " ", bit);
    CHECK(zb(a) == z, "after " << what << " " << bit << " the value is " << zb(a).str() << ", expected " << z.str());
  }
  const auto& ca = a;
  for (size_t k = 0; k < n; k++) CHECK(ca[k] == wz(z, n)[k], "word " << k);
  // slices
  size_t start = 32 * g.raw(n - 1);
  { auto s = a.template slice<32>(start); CHECK(zb(s) == (z / ref::pow2(start)) % ref::pow2(32), "32-bit slice at " << start); }
  if (start + 64 <= B) { auto s = a.template slice<64>(start); CHECK(zb(s) == (z / ref::pow2(start)) % ref::pow2(64), "64-bit slice at " << start); }
  if (start + B / 2 / 32 * 32 <= B && B >= 64) { constexpr size_t H = B >= 64 ? B / 2 / 32 * 32 : 32; auto s = a.template slice<H>(start); CHECK(zb(s) == (z / ref::pow2(start)) % ref::pow2(H), H << "-bit slice at " << start); }
  { auto s = a.template slice<B>(0); CHECK(zb(s) == z, "full slice"); }
  // swap
  Words o = related(g, words(a));
  auto b = big<B>(o), a0 = a, b0 = b;
  bool sw = g.coin();
  ctime_swap(sw, a, b);
  CHECK(words(a) == words(sw ? b0 : a0) && words(b) == words(sw ? a0 : b0), "conditional swap(" << sw << ") gives " << zb(a).str() << "," << zb(b).str());
  a = a0;
  ctime_swap(sw, a, a);
  CHECK(words(a) == words(a0), "conditional swap(" << sw << ") of a value with itself gives " << zb(a).str());
}
PROP(bit_operations, 20000, 600000) {
  switch (g.raw(6)) {
    case 0: bitops<32>(g); break;
    case 1: bitops<64>(g); break;
    case 2: bitops<96>(g); break;
    case 3: bitops<160>(g); break;
    case 4: bitops<256>(g); break;
    case 5: bitops<1024>(g); break;
    default: bitops<4096>(g);
  }
}
PROP(every_bit, 3000, 12000) {
  size_t bit = g.walk(256), what = g.walk(3);
  Words w = gen_words(g, 8);
  auto a = big<256>(w);
  Z z = zw(w);
  g.note("bit ", bit, " of ", ws(w));
  g.nontrivial();
  g.label("walked bits");
  if (what == 0) { a.set_bit(bit); mpz_setbit(z.v, bit); }
  if (what == 1) { a.clear_bit(bit); mpz_clrbit(z.v, bit); }
  CHECK(zb(a) == z && a.bit(bit) == mpz_tstbit(z.v, bit), "bit " << bit << " operation " << what << " gives " << zb(a).str());
}

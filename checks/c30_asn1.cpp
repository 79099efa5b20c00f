// C30: the ASN.1 reader against an independent element reader, over well-formed and arbitrary bytes.
#include "certgen.h"

using namespace Caligo;

struct Elem { uint8_t tag; size_t start, len, next; };
// X.690 8.1: one identifier octet, then short or long definite length.  Indefinite and reserved forms: unspecified.
enum class R { Ok, Beyond, Unspecified };
static R ref_read(std::span<const uint8_t> d, size_t pos, Elem& e) {
  if (d.size() - pos < 2) return R::Beyond;
  e.tag = d[pos];
  uint8_t l = d[pos + 1];
  size_t p = pos + 2;
  Z len(l);
  if (l & 0x80) {
    size_t n = l & 0x7f;
    if (n == 0 || n == 127) return R::Unspecified;
    if (d.size() - p < n) return R::Beyond;
    len = Z::be(d.subspan(p, n));
    p += n;
  }
  if (Z(d.size() - p) < len) return R::Beyond;
  e.start = p;
  e.len = mpz_get_ui(len.v);
  e.next = p + e.len;
  return R::Ok;
}

// Reads everything there is in `d` (a tight allocation) with peeks and emptiness queries interleaved.
static void drive(Gen& g, const Bytes& bytes) {
  Tight t(bytes);
  std::span<const uint8_t> d = t;
  asn1_view v(d);
  size_t pos = 0, ok = 0;
  g.note_hex("input", bytes);
  while (true) {
    unsigned before = (unsigned)g.raw(3);
    for (unsigned i = 0; i < before; i++) {
      if (g.coin()) CHECK(v.empty() == (pos == d.size()), "empty() after " << ok << " elements, at byte " << pos << " of " << d.size());
      else if (pos < d.size()) CHECK((int)v.peek() == d[pos], "peek() at byte " << pos);
      else CHECK(([&] { try { v.peek(); return false; } catch (const std::exception&) { return true; } })(), "peek() at the end does not throw");
    }
    if (pos == d.size() && g.chance(3, 4)) break;
    Elem e{};
    R r = ref_read(d, pos, e);
    bool threw = false;
    asn1_id id{};
    std::span<const uint8_t> c;
    try { auto [i, s] = v.read(); id = i; c = s; } catch (const std::exception&) { threw = true; }
    if (!threw) {
      CHECK(c.empty() || (c.data() >= d.data() && c.data() + c.size() <= d.data() + d.size()), "contents outside the input");
      uint8_t sum = 0;
      for (uint8_t b : c) sum += b;
      asm volatile("" ::"r"(sum));
    }
    if (r == R::Unspecified) { g.label("indefinite or reserved length form"); break; }
    if (r == R::Beyond) {
      CHECK(threw, "a read at byte " << pos << " that needs bytes beyond the " << d.size() << " given does not throw");
      g.label("read beyond the input refused");
      (void)v.empty();
      try { v.peek(); } catch (const std::exception&) {}
      try { v.read(); } catch (const std::exception&) {}
      break;
    }
    CHECK(!threw, "a read at byte " << pos << " throws though the element of " << e.len << " bytes fits");
    CHECK((int)id == e.tag, "tag " << (int)id << " instead of " << (int)e.tag);
    CHECK(c.size() == e.len && (e.len == 0 || c.data() == d.data() + e.start), "contents at " << (c.data() - d.data()) << "+" << c.size() << " instead of " << e.start << "+" << e.len);
    pos = e.next;
    ok++;
  }
  if (ok) g.nontrivial();
  if (ok > 1) g.label("several elements");
}

static Bytes gen_elem(Gen& g, unsigned depth, size_t max) {
  uint8_t tag = g.coin() ? (uint8_t)g.raw(255) : g.pick<uint8_t>({2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 160, 163});
  Bytes v;
  if (depth && g.chance(1, 3)) {
    size_t n = g.range(0, 4);
    for (size_t i = 0; i < n; i++) v = v + gen_elem(g, depth - 1, max / 4);
  } else switch (g.weighted({3, 2, 1})) {
    case 0: v = g.blob(20); break;
    case 1: v = g.noise(g.pick<size_t>({126, 127, 128, 129, 254, 255, 256, 257})); break;
    default: v = g.noise(g.range(0, max)); break;
  }
  size_t form = 0;
  switch (g.weighted({4, 2, 1})) { case 0: form = 0; break; case 1: form = g.range(1, 9); break; default: form = g.pick<size_t>({1, 7, 8, 9, 16, 64, 126}); break; }
  return der::tlv(tag, v, form);
}

PROP(well_formed, 40000, 800000) {
  Bytes b;
  size_t n = g.range(0, 6);
  for (size_t i = 0; i < n; i++) b = b + gen_elem(g, 2, g.chance(1, 200) ? 70000 : 700);
  drive(g, b);
}
PROP(damaged, 60000, 1200000) {
  Bytes b;
  size_t n = g.range(1, 4);
  for (size_t i = 0; i < n; i++) b = b + gen_elem(g, 1, 300);
  size_t edits = g.range(1, 3);
  for (size_t i = 0; i < edits && !b.empty(); i++) {
    switch (g.weighted({3, 2, 2, 1, 1})) {
      case 0: b.resize(g.raw(b.size() - 1)); break;
      case 1: b[g.raw(b.size() - 1)] = (uint8_t)g.edge64(); break;
      case 2: { size_t p = g.raw(std::min<size_t>(b.size() - 1, 12)); b[p] = g.pick<uint8_t>({0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xfe, 0x7f, 0xff, 0}); break; }
      case 3: b.erase(b.begin() + g.raw(b.size() - 1)); break;
      default: b.insert(b.begin() + g.raw(b.size()), (uint8_t)g.raw(255)); break;
    }
  }
  drive(g, b);
}
// Length fields with huge claims, including ones whose sum with the position wraps around.
PROP(huge_lengths, 40000, 800000) {
  Bytes b = {(uint8_t)g.raw(255)};
  if (g.chance(1, 3)) b = gen_elem(g, 0, 40) + b;
  size_t n = g.range(1, 20);
  b.push_back((uint8_t)(0x80 | n));
  for (size_t i = 0; i < n; i++) b.push_back(g.pick<uint8_t>({0xff, 0, 0x80, 0x7f, 0xfe, 1, (uint8_t)g.raw(255)}));
  if (g.coin()) { size_t z = g.raw(n); for (size_t i = 0; i < z; i++) b[b.size() - n + i] = 0; }
  Bytes tail = g.blob(300);
  if (g.chance(1, 4) && n >= 8) {  // position + length wraps to a value inside the input
    uint64_t l = (uint64_t)0 - (uint64_t)g.range(1, b.size() + 2);
    for (int i = 0; i < 8; i++) b[b.size() - 1 - i] = (uint8_t)(l >> (8 * i));
    g.label("length that wraps");
  }
  drive(g, b + tail);
}
PROP(any_bytes, 40000, 800000) { drive(g, g.bytes(g.len(64, 8))); }

#include "hashes.h"
#include "huge.h"
#include "modes.h"

static Bytes crc(const Bytes& m) { std::array<uint8_t, 4> a = Caligo::CRC32(std::span<const uint8_t>(m)); return Bytes(a.begin(), a.end()); }

#ifndef PBT_FAST
PROP(matches_definition, 40000, 1000000) {
  Bytes m = g.bytes(g.len(g.chance(1, 20) ? 5000 : 300, 8));
  g.note_hex("data", m);
  if (!m.empty()) g.nontrivial();
  Bytes want = crc_ref(m);
  pbt::check_bytes(crc(m), want, "CRC-32");
  Caligo::CRC32 c;
  size_t at = 0;
  while (at < m.size()) {
    size_t n = std::min<size_t>(m.size() - at, g.range(1, 64));
    if (g.coin()) c.add(std::span<const uint8_t>(m.data() + at, n)); else c.add(std::string_view((const char*)m.data() + at, n));
    at += n;
    if (g.chance(1, 4)) pbt::check_bytes(c.data(), crc_ref(std::span<const uint8_t>(m.data(), at)), "CRC-32 read mid-stream");
  }
  pbt::check_bytes(c.data(), want, "CRC-32 in pieces");
  CHECK((std::string)c == ref::hexs(want), "text " << (std::string)c << " expected " << ref::hexs(want));
  CHECK(Caligo::CRC32::hashsize == 4, "advertised size");
  g.label(m.size() >= 4 ? "4 bytes or more" : "short");
}
// Every table entry: all two-byte inputs are walked.
PROP(all_short_inputs, 66000, 66000) {
  size_t v = g.walk(65536 + 257);
  Bytes m;
  if (v >= 65536 + 256) m = {};
  else if (v >= 65536) m = {(uint8_t)v};
  else m = {(uint8_t)(v >> 8), (uint8_t)v};
  g.note_hex("data", m);
  if (!m.empty()) g.nontrivial();
  pbt::check_bytes(crc(m), crc_ref(m), "CRC-32 of a short input");
}
PROP(detects_bursts, 20000, 400000) {
  Bytes m = g.bytes(g.range(5, 200)), x = m;
  size_t bits = m.size() * 8, blen = g.range(1, 32), at = g.raw(bits - blen);
  uint32_t pat = (uint32_t)g.raw(0xFFFFFFFFu) | 1;
  if (blen < 32) pat &= (1u << blen) - 1;
  pat |= 1u << (blen - 1);
  for (size_t i = 0; i < blen; i++) if (pat >> i & 1) x[(at + i) / 8] ^= 1 << ((at + i) % 8);
  g.note_hex("data", m);
  g.note("burst of ", blen, " bits at ", at);
  g.nontrivial();
  CHECK(crc(m) != crc(x), "a burst error of " << blen << " bits at bit " << at << " is not detected");
}
// Longer pieces at every alignment, so that an implementation that works on wide words is in all its loops.
PROP(long_pieces, 300, 8000) {
  size_t n = g.len(1 << 18, g.pick<size_t>({1, 8, 16, 64, 4096, 65536})), shift = g.raw(15);
  Exact m(g.noise(n), shift);
  size_t cut = g.raw(n);
  g.note(n, " bytes at alignment ", shift, " cut at ", cut);
  if (n > 4096) g.nontrivial();
  Bytes whole = m.bytes();
  Caligo::CRC32 c;
  c.add(m.cspan().first(cut));
  pbt::check_bytes(c.data(), crc_ref(std::span<const uint8_t>(whole).first(cut)), "CRC-32 of the first piece");
  c.add(m.cspan().subspan(cut));
  pbt::check_bytes(c.data(), crc_ref(whole), "CRC-32 of both pieces");
}
#else
// More than 2^32 bytes: the reference is eight tables at once.
static uint32_t crc_fast(std::span<const uint8_t> d) {
  static const auto t = [] {
    std::array<std::array<uint32_t, 256>, 8> t{};
    for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c >> 1) ^ ((c & 1) ? 0xEDB88320u : 0); t[0][i] = c; }
    for (uint32_t i = 0; i < 256; i++) for (int k = 1; k < 8; k++) t[k][i] = (t[k - 1][i] >> 8) ^ t[0][t[k - 1][i] & 0xFF];
    return t;
  }();
  uint32_t c = ~0u;
  size_t i = 0;
  for (; i + 8 <= d.size(); i += 8) {
    uint64_t w;
    memcpy(&w, d.data() + i, 8);
    w ^= c;
    c = 0;
    for (int k = 0; k < 8; k++) c ^= t[7 - k][w >> (8 * k) & 0xFF];
  }
  for (; i < d.size(); i++) c = (c >> 8) ^ t[0][(c ^ d[i]) & 0xFF];
  return ~c;
}
PROP(slow_long_message, 3, 12) {
  static const uint64_t sizes[] = {1ull << 32, 1ull << 31, 1ull << 29};
  uint64_t n = sizes[g.walk(3)] + g.len(1 << 20, 8);
  Bytes chunk = g.noise((1 << 20) - 1);
  size_t head = g.raw(40);
  g.note(n, " bytes, ", head, " of them first");
  g.label("more than 2^29 bytes");
  g.nontrivial();
  Repeated m(chunk, n);
  CHECK(crc_fast(std::span<const uint8_t>(chunk).first(1000)) == crc32_bitwise(std::span<const uint8_t>(chunk).first(1000)), "the references agree");
  Caligo::CRC32 c;
  c.add(std::span<const uint8_t>(m.p, head));
  c.add(std::span<const uint8_t>(m.p + head, n - head));
  uint32_t w = crc_fast(std::span<const uint8_t>(m.p, n));
  pbt::check_bytes(c.data(), Bytes{(uint8_t)(w >> 24), (uint8_t)(w >> 16), (uint8_t)(w >> 8), (uint8_t)w}, "CRC-32 of a very long message");
}
#endif

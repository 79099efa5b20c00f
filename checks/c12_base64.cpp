#include "huge.h"
#include <caligo/base64.h>
using pbt::Gen;

static const char* tables[] = {"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,",
                               "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"};
// RFC 4648 by bit string.
static std::string encode(const Bytes& d, bool nl, bool omit, int set) {
  std::string s;
  size_t bits = d.size() * 8;
  for (size_t i = 0; i < bits; i += 6) {
    unsigned v = 0;
    for (size_t b = i; b < i + 6; b++) v = v * 2 + (b < bits ? (d[b / 8] >> (7 - b % 8)) & 1 : 0);
    s += tables[set][v];
  }
  while (!omit && s.size() % 4) s += '=';
  if (!nl) return s;
  std::string r;
  for (size_t i = 0; i < s.size(); i++) { r += s[i]; if (i % 76 == 75 && (i + 1) / 76 * 57 <= d.size()) r += '\n'; }
  return r + '\n';
}
// Value of a character in the union of the alphabets, or -1.
static int value(uint8_t c) {
  for (int t = 0; t < 3; t++) for (int i = 0; i < 64; i++) if ((uint8_t)tables[t][i] == c) return i;
  return -1;
}
static Bytes decode(std::string_view s) {  // collect bits, keep whole bytes; a lone trailing character carries none
  Bytes o;
  unsigned acc = 0, n = 0;
  for (char c : s) {
    int v = value((uint8_t)c);
    if (v < 0) continue;
    acc = acc << 6 | (unsigned)v;
    n += 6;
    if (n >= 8) { n -= 8; o.push_back((uint8_t)(acc >> n)); acc &= (1u << n) - 1; }
  }
  return o;
}
static Caligo::Base64CharSet cs(int i) { return i == 0 ? Caligo::PlusSlash : i == 1 ? Caligo::PlusComma : Caligo::MinusUnderscore; }
static Bytes dec(const std::string& s) { std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size()); return Caligo::base64d(std::string_view(p.get(), s.size())); }

#ifndef PBT_FAST
static void check_one(Gen& g, const Bytes& d, bool nl, bool omit, int set) {
  std::string want = encode(d, nl, omit, set);
  std::string got = Caligo::base64(d, nl, omit, cs(set));
  CHECK(got == want, "encoding of " << d.size() << " bytes (newlines " << nl << ", omit padding " << omit << ", alphabet " << set << ") is '" << got << "', expected '" << want << "'");
  pbt::check_bytes(dec(got), d, "decoding of the encoding");
}
PROP(encode_and_back, 12000, 400000) {
  Bytes d = g.bytes(g.len(g.chance(1, 10) ? 9000 : 300, g.coin() ? 57 : 3));
  bool nl = g.coin(), omit = g.coin();
  int set = (int)g.raw(2);
  g.note_hex("data", d);
  g.note("newlines ", nl, " omit ", omit, " alphabet ", set);
  g.label(d.size() % 3 == 0 ? "length 0 mod 3" : d.size() % 3 == 1 ? "length 1 mod 3" : "length 2 mod 3");
  if (!d.empty()) g.nontrivial();
  check_one(g, d, nl, omit, set);
}
PROP(every_length_and_option, 3600, 36000) {
  bool nl = g.walk(2), omit = g.walk(2);
  int set = (int)g.walk(3);
  size_t n = g.walk(300);
  Bytes d = g.noise(n);
  g.note("length ", n, " newlines ", nl, " omit ", omit, " alphabet ", set);
  g.label("walked lengths and options");
  if (n) g.nontrivial();
  check_one(g, d, nl, omit, set);
}
PROP(defaults, 600, 6000) {
  Bytes d = g.blob(200, 57);
  g.note_hex("data", d);
  if (!d.empty()) g.nontrivial();
  CHECK(Caligo::base64(d) == encode(d, true, false, 0), "default options");
  CHECK(Caligo::base64(d, false) == encode(d, false, false, 0), "default options without newlines");
  CHECK(Caligo::base64(d, false, true, Caligo::UrlSafe) == encode(d, false, true, 2), "URL-safe");
}
// Every group value in every position.
PROP(every_24bit_pattern, 8192, 65536) {
  size_t hi = g.walk(4096);
  uint32_t v = (uint32_t)hi << 12 | (uint32_t)g.raw(4095);
  if (g.coin()) v = (uint32_t)hi | (uint32_t)g.raw(4095) << 12;
  Bytes d = {(uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
  d.resize(3 - g.raw(2));
  g.note_hex("data", d);
  g.label("walked groups");
  g.nontrivial();
  check_one(g, d, g.coin(), g.coin(), (int)g.raw(2));
}
// Foreign characters anywhere change nothing.
PROP(foreign_characters_ignored, 8000, 300000) {
  Bytes d = g.blob(150, 57);
  std::string s = encode(d, g.coin(), g.coin(), (int)g.raw(2)), t;
  static const std::vector<uint8_t> foreign = [] { std::vector<uint8_t> f; for (int c = 0; c < 256; c++) if (value((uint8_t)c) < 0) f.push_back((uint8_t)c); return f; }();
  size_t inserted = 0;
  unsigned rate = (unsigned)g.range(1, 6);
  for (char c : s) {
    while (g.chance(rate, 16)) { t += (char)foreign[g.raw(foreign.size() - 1)]; inserted++; }
    t += c;
  }
  if (g.coin()) { t += (char)foreign[g.raw(foreign.size() - 1)]; inserted++; }
  g.note_hex("text", Bytes(t.begin(), t.end()));
  g.label(inserted ? "with foreign characters" : "without");
  if (inserted) g.nontrivial();
  pbt::check_bytes(dec(t), d, "decoding with foreign characters inserted");
}
PROP(every_character_class, 512, 2560) {  // each of the 256 characters alone between known ones
  uint8_t c = (uint8_t)g.walk(256);
  std::string t = "QUJD";
  t.insert(g.raw(4), 1, (char)c);
  t += "REVGR0hJSktM";
  g.note("character ", (int)c);
  g.nontrivial();
  g.label("walked characters");
  pbt::check_bytes(dec(t), decode(t), "decoding");
}
// Any text at all decodes to the bytes its alphabet characters encode.
PROP(any_text, 8000, 300000) {
  Bytes raw = g.blob(300, 4);
  std::string t(raw.begin(), raw.end());
  if (g.coin()) t = g.ascii(g.len(300, 4), "ABCDwxyz0189+/,-_= \n\r\t.");
  g.note_hex("text", Bytes(t.begin(), t.end()));
  if (!t.empty()) g.nontrivial();
  pbt::check_bytes(dec(t), decode(t), "decoding of arbitrary text");
}
#else
// Data of more than 2^31 bytes and text of more than 2^32: lengths and positions do not fit 32 bits.
PROP(slow_long_data, 2, 8) {
  bool decoding = g.walk(2), nl = g.coin();
  Bytes chunk = g.noise(57 * 4096 * 4);  // whole lines
  size_t extra = g.raw(200);
  g.note(decoding ? "text of more than 2^32 characters" : "data of more than 2^31 bytes", " newlines ", nl, " extra ", extra);
  g.label(decoding ? "decoding" : "encoding");
  g.nontrivial();
  if (!decoding) {
    size_t n = (1ull << 31) + extra;
    Repeated m(Bytes(chunk.begin(), chunk.end()), n);
    std::string s = Caligo::base64(std::span<const uint8_t>(m.p, n), nl, true, Caligo::PlusSlash);
    size_t chars = (n * 8 + 5) / 6, lines = nl ? n / 57 + 1 : 0;
    CHECK(s.size() == chars + lines, "text of " << s.size() << " characters for " << n << " bytes, expected " << chars + lines);
    size_t perLine = nl ? 77 : 76, window = 57 * 64;
    auto part = [&](size_t at, size_t len) {
      std::string w = encode(Bytes(m.p + at, m.p + at + len), nl, true, 0);
      if (nl && at + len != n) w.resize(len / 57 * 77);  // no end of text here
      CHECK(s.compare(at / 57 * perLine, w.size(), w) == 0, "text of the bytes at " << at << " of " << n);
    };
    size_t last = n / 57 * 57;
    part(last - window, n - last + window);
    for (size_t at : {(size_t)0, (size_t)1 << 24, (size_t)1 << 28, (size_t)1 << 29, (size_t)1 << 30, (size_t)3 << 29}) part(at / 57 * 57, window);
    uint64_t count = 0;
    for (char c : s) count += c == '\n';
    CHECK(count == lines, count << " line breaks in " << n << " bytes, expected " << lines);
  } else {
    std::string one = encode(chunk, false, true, 0);   // a whole number of groups
    size_t n = (1ull << 32) + 4 * extra;
    Repeated m(Bytes(one.begin(), one.end()), n);
    Bytes d = Caligo::base64d(std::string_view((const char*)m.p, n));
    CHECK(d.size() == n / 4 * 3, d.size() << " bytes from " << n << " characters, expected " << n / 4 * 3);
    for (size_t at = 0; at < n; at += Repeated::unit) {   // the text repeats every unit, which starts a group
      size_t c = std::min<size_t>(Repeated::unit, n - at);
      CHECK(memcmp(d.data() + at / 4 * 3, d.data(), c / 4 * 3) == 0, "the same text decodes differently at " << at);
    }
    Bytes first = decode(std::string_view((const char*)m.p, 1 << 20));
    CHECK(memcmp(d.data(), first.data(), first.size()) == 0, "decoding of the first characters");
  }
}
#endif

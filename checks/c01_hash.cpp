#include "hashes.h"
#include "huge.h"

static void check_digest(Gen& g, const Algo& a, const Bytes& m) {
  Bytes want = ref::digest(a.name, m);
  CHECK(want.size() == a.size, "oracle size");
  CHECK(a.hashsize() == a.size, a.name << " advertises a digest of " << a.hashsize() << " bytes, standard says " << a.size);
  pbt::check_bytes(a.oneShot(m), want, std::string(a.name) + " digest of a message of " + std::to_string(m.size()) + " bytes");
  auto h = a.make();
  h->add(m);
  pbt::check_bytes(h->digest(), want, std::string(a.name) + " add+read");
  pbt::check_bytes(h->data(), want, std::string(a.name) + " data()");
  std::string t = h->text();
  CHECK(t == ref::hexs(want), a.name << " text form is " << t << ", expected " << ref::hexs(want));
}

#ifndef PBT_FAST
// Arbitrary message, every algorithm.
PROP(digest_matches_standard, 24000, 600000) {
  const Algo& a = algos()[g.raw(algos().size() - 1)];
  Bytes m = g.bytes(g.len(g.chance(1, 12) ? 20000 : 700, a.block));
  g.note("algorithm ", a.name);
  g.note_hex("message", m);
  g.label(a.name);
  size_t r = m.size() % a.block;
  g.label(m.empty() ? "length 0" : r == 0 ? "length multiple of block" : r >= a.block - 17 ? "length mod block in padding-overflow zone" : "length other");
  if (!m.empty()) g.nontrivial();
  check_digest(g, a, m);
}
// Every length up to five blocks, walked in order: no length is left to chance.
PROP(every_length, 7500, 75000) {
  const Algo& a = algos()[g.walk(algos().size())];
  size_t len = g.walk(5 * a.block + 1);
  Bytes m = g.bytes(len);
  g.note("algorithm ", a.name);
  g.note_hex("message", m);
  g.label("walked lengths");
  if (len) g.nontrivial();
  check_digest(g, a, m);
}
#else
// Messages longer than 2^32 bits and 2^32 bytes: neither count fits 32 bits.
PROP(slow_long_message, 10, 40) {
  const Algo& a = algos()[g.walk(algos().size())];
  size_t extra = 4 * a.block + g.len(1 << 20, a.block);
  bool slow = !strncmp(a.name, "SHA3", 4) && strcmp(a.name, "SHA3-224") && g.walk(2) == 0;  // the second round reaches 2^32 with every algorithm
  size_t total = (1ull << (slow ? 29 : 32)) + extra;
  Bytes chunk = g.noise((1 << 20) - 1);
  bool once = g.chance(3, 4);
  g.note("algorithm ", a.name, " total bytes ", total, once ? " mostly in one piece" : " in many pieces");
  g.label(a.name);
  g.label(once ? "mostly in one piece" : "in many pieces");
  g.nontrivial();
  Repeated m(chunk, total);
  auto h = a.make();
  size_t step = g.range(1 << 18, 1 << 28), done = 0;
  if (once) {  // a short piece, one that takes the rest but a few bytes, and those
    size_t head = g.raw(2 * a.block), tail = g.raw(2 * a.block);
    h->add(std::span<const uint8_t>(m.p, head));
    h->add(std::span<const uint8_t>(m.p + head, total - head - tail));
    done = total - tail;
  }
  for (; done < total; done += step) h->add(std::span<const uint8_t>(m.p + done, std::min(step, total - done)));
  Bytes want(64);
  unsigned n;
  EVP_Digest(m.p, total, want.data(), &n, ref::md(a.name), nullptr);
  want.resize(n);
  pbt::check_bytes(h->digest(), want, std::string(a.name) + " digest of a message longer than 2^32 bits");
}
#endif

// Two endpoints with an adversary between them, against a model of what may be accepted.
#include "gcm_common.h"

struct Msg { Bytes ct, aad; std::array<uint8_t, 16> tag; };
static bool same(const Msg& a, const Msg& b) { return a.ct == b.ct && a.aad == b.aad && a.tag == b.tag; }

template <class C> static Msg sealed(const Params& p, const ref::Aes& a, uint64_t n, const Bytes& pt, const Bytes& aad) {
  ref::Sealed w = ref::gcm_seal(a, j0_of(p, a, n), aad, pt);
  return {w.ct, aad, w.tag};
}
static Bytes mutate(Gen& g, Bytes b, const char*& what) {
  switch (b.empty() ? 1 : g.weighted({4, 2, 2, 1, 1})) {
    case 0: b[g.raw(b.size() - 1)] ^= (uint8_t)(1u << g.raw(7)); what = "bit flipped"; break;
    case 1: { Bytes e = g.bytes(g.pick<size_t>({1, 2, 15, 16, 17})); b.insert(b.end(), e.begin(), e.end()); what = "extended"; break; }
    case 2: b.resize(b.size() - 1 - g.raw(std::min<size_t>(b.size() - 1, 20))); what = "truncated"; break;
    case 3: b.insert(b.begin() + g.raw(b.size()), (uint8_t)g.raw(255)); what = "byte inserted"; break;
    default: std::reverse(b.begin(), b.end()); what = "reversed"; break;
  }
  return b;
}

template <class C> static void conversation(Gen& g, const Params& p) {
  ref::Aes a(p.key);
  auto rx = session<C>(p);
  uint64_t pos = start_position(g);
  if (!goto_position(rx, pos)) pos = 0;
  uint64_t base = pos;
  g.note("position ", pos);
  size_t steps = g.range(1, 6);
  std::vector<std::pair<Bytes, Msg>> sent;  // authentic messages of positions base...
  auto authentic = [&](uint64_t n) -> std::pair<Bytes, Msg>& {
    while (base + sent.size() <= n) {
      Bytes pt = g.bytes(g.len(g.chance(1, 20) ? 4000 : 100, 16)), aad = g.bytes(g.len(80, 16));
      sent.emplace_back(pt, sealed<C>(p, a, base + sent.size(), pt, aad));
    }
    return sent[n - base];
  };
  size_t attacks = 0, accepted = 0;
  for (size_t i = 0; i < steps; i++, pos++) {
    auto& [pt, good] = authentic(pos);
    Bytes want = pt;
    Msg m = good;
    Msg goodCopy = good;
    const char* what = "authentic";
    switch (g.weighted({4, 2, 2, 2, 1, 1, 1, 1})) {
      case 0: break;
      case 1: m.tag[g.raw(15)] ^= (uint8_t)(1u << g.raw(7)); what = "tag changed"; break;
      case 2: m.ct = mutate(g, m.ct, what); break;
      case 3: m.aad = mutate(g, m.aad, what); break;
      case 4: m = authentic(base + g.raw(pos - base)).second; what = "replay"; break;
      case 5: m = authentic(pos + 1 + g.raw(2)).second; what = "message from the future"; break;
      case 6: {  // other key, IV or a byte moved between additional data and ciphertext
        if (g.coin() && !m.aad.empty()) { m.ct.insert(m.ct.begin(), m.aad.back()); m.aad.pop_back(); what = "boundary moved"; }
        else { Params q = p; (g.coin() ? q.key[g.raw(q.key.size() - 1)] : q.iv[g.raw(q.iv.size() - 1)]) ^= (uint8_t)(1u << g.raw(7)); ref::Aes b(q.key); m = sealed<C>(q, b, pos, want, m.aad); what = "other key or IV"; }
        break;
      }
      default: m.tag = {}; if (g.coin()) m.tag.fill((uint8_t)g.raw(255)); what = "guessed tag"; break;
    }
    bool ok = same(m, goodCopy);
    g.note("position ", pos, " ", what, ok ? " (accept)" : " (refuse)", " ct ", m.ct.size(), " aad ", m.aad.size());
    if (!ok) attacks++; else accepted++;
    Exact ct(m.ct, g.raw(15)), aad(m.aad, g.raw(15));
    auto [got, verdict] = rx.Decrypt(ct.cspan(), aad.cspan(), m.tag);
    CHECK(verdict == ok, (ok ? "authentic message refused" : "forgery accepted") << " (" << what << ") at position " << pos);
    if (ok) pbt::check_bytes(got, want, "plaintext of an authentic message");
    pbt::check_bytes(ct.bytes(), m.ct, "ciphertext modified");
  }
  g.label(attacks && accepted ? "attacks and authentic messages" : attacks ? "only attacks" : "only authentic");
  if (attacks) g.nontrivial();
}
PROP(accepts_exactly_the_next_message, 8000, 300000) {
  Params p = gen_params(g);
  g.note(p.big ? "AES-256" : "AES-128");
  g.note_hex("key", p.key);
  g.note_hex("iv", p.iv);
  if (p.big) conversation<Caligo::AES<256>>(g, p); else conversation<Caligo::AES<128>>(g, p);
}
// Every bit of tag, ciphertext and additional data of one message matters.
template <class C> static void bits(Gen& g, const Params& p, size_t bit) {
  ref::Aes a(p.key);
  Bytes pt = g.noise(20), aad = g.noise(20);
  Msg m = sealed<C>(p, a, 0, pt, aad);
  if (bit < 128) m.tag[bit / 8] ^= 1 << (bit % 8);
  else if (bit < 288) m.ct[(bit - 128) / 8] ^= 1 << (bit % 8);
  else m.aad[(bit - 288) / 8] ^= 1 << (bit % 8);
  auto rx = session<C>(p);
  auto [got, verdict] = rx.Decrypt(m.ct, m.aad, m.tag);
  CHECK(!verdict, "message with bit " << bit << " changed was accepted");
}
PROP(every_bit_matters, 1792, 18000) {
  Params p;
  p.big = g.walk(2);
  size_t bit = g.walk(448);
  p.key = g.noise(p.big ? 32 : 16);
  p.iv = g.noise(12);
  g.note("bit ", bit);
  g.label("walked bits");
  g.nontrivial();
  if (p.big) bits<Caligo::AES<256>>(g, p, bit); else bits<Caligo::AES<128>>(g, p, bit);
}
// Tags differing in any chosen set of bytes (a comparison that folds or sums differences would miss some).
PROP(tag_differences_do_not_cancel, 12000, 300000) {
  Params p;
  p.big = g.coin();
  p.key = g.noise(p.big ? 32 : 16);
  p.iv = g.noise(12);
  ref::Aes a(p.key);
  Bytes pt = g.noise(g.raw(40)), aad = g.noise(g.raw(20));
  Msg m = sealed<Caligo::AES<128>>(p, a, 0, pt, aad);
  auto t0 = m.tag;
  switch (g.weighted({2, 2, 1, 1, 1, 1})) {
    case 0: { uint8_t d = (uint8_t)g.range(1, 255); size_t i = g.raw(15), j = g.raw(15); m.tag[i] ^= d; m.tag[j] ^= d; break; }
    case 1: { uint8_t d = (uint8_t)g.range(1, 255); size_t i = g.raw(15), j = g.raw(15); m.tag[i] += d; m.tag[j] -= d; break; }
    case 2: std::swap(m.tag[g.raw(15)], m.tag[g.raw(15)]); break;
    case 3: { Bytes r = g.noise(16); size_t from = g.range(1, 15); memcpy(m.tag.data() + from, r.data(), 16 - from); break; }   // right prefix
    case 4: { Bytes r = g.noise(16); size_t upto = g.range(1, 15); memcpy(m.tag.data(), r.data(), upto); break; }              // right suffix
    default: std::rotate(m.tag.begin(), m.tag.begin() + g.range(1, 15), m.tag.end());
  }
  bool same = m.tag == t0;
  g.note_hex("right tag", t0);
  g.note_hex("sent tag", m.tag);
  if (!same) g.nontrivial();
  bool v = p.big ? session<Caligo::AES<256>>(p).Decrypt(m.ct, m.aad, m.tag).second : session<Caligo::AES<128>>(p).Decrypt(m.ct, m.aad, m.tag).second;
  CHECK(v == same, "tag comparison");
}
// The library's two ends understand each other at every position, over any history of the sender's.
template <class C> static void both(Gen& g, const Params& p) {
  auto tx = session<C>(p), rx = session<C>(p);
  size_t steps = g.chance(1, 25) ? g.range(250, 300) : g.range(1, 8);
  for (size_t i = 0; i < steps; i++) {
    Bytes pt = g.bytes(g.len(80, 16)), aad = g.bytes(g.len(40, 16));
    auto [ct, tag] = tx.Encrypt(pt, aad);
    bool lost = g.chance(1, 5);
    if (lost) { Bytes junk = g.noise(g.raw(40)); auto [x, v] = rx.Decrypt(junk, aad, tag); CHECK(v == (junk == ct), "garbage accepted"); continue; }
    auto [got, v] = rx.Decrypt(ct, aad, tag);
    CHECK(v, "authentic message " << i << " refused");
    pbt::check_bytes(got, pt, "plaintext of message " + std::to_string(i));
  }
  g.note("messages ", steps);
  g.nontrivial();
}
PROP(peers_agree, 3000, 100000) {
  Params p = gen_params(g);
  g.note_hex("key", p.key);
  g.note_hex("iv", p.iv);
  g.label("two library endpoints");
  if (p.big) both<Caligo::AES<256>>(g, p); else both<Caligo::AES<128>>(g, p);
}
// Unusable IVs: nothing is ever accepted, whatever an attacker computes for that IV.
template <class C> static void unusable(Gen& g, const Params& p) {
  ref::Aes a(p.key);
  auto rx = session<C>(p);
  Bytes pt = g.bytes(g.len(60, 16)), aad = g.bytes(g.len(40, 16));
  Blk j{};
  switch (g.raw(3)) {
    case 0: memcpy(j.data(), p.iv.data(), p.iv.size()); j[15] = 1; break;
    case 1: j = ref::gcm_j0(a, p.iv); break;
    case 2: memcpy(j.data(), p.iv.data(), p.iv.size()); break;
    default: break;
  }
  ref::Sealed w = ref::gcm_seal(a, j, aad, pt);
  std::array<uint8_t, 16> t = w.tag;
  if (g.chance(1, 4)) t = {};
  auto [got, v] = rx.Decrypt(w.ct, aad, t);
  CHECK(!v, "a message was accepted under an IV of " << p.iv.size() << " bytes");
  auto [ct, tag] = rx.Encrypt(pt, aad);
  auto [got2, v2] = session<C>(p).Decrypt(ct, aad, tag);
  CHECK(!v2, "own message was accepted under an IV of " << p.iv.size() << " bytes");
}
PROP(unusable_iv_never_accepts, 2200, 40000) {
  static const size_t bad[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11};
  Params p;
  p.big = g.walk(2);
  p.iv = g.bytes(bad[g.walk(11)]);
  p.key = some_key(g, p.big);
  g.note("iv of ", p.iv.size(), " bytes");
  g.label("unusable iv");
  g.nontrivial();
  if (p.big) unusable<Caligo::AES<256>>(g, p); else unusable<Caligo::AES<128>>(g, p);
}

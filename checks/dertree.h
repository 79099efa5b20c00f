// A TLV tree that can be damaged and written back.
#pragma once
#include "pbt.h"

struct Tlv {
  uint8_t tag = 0;
  bool cons = false, bitstring = false;   // children inside (for a bit string: after its first octet)
  pbt::Bytes prim;
  std::vector<Tlv> kids;
  int claim = 0;             // 0: true length; 1: claimBytes replace the length octets
  pbt::Bytes claimBytes;
};
inline bool tlv_parse(std::span<const uint8_t> d, std::vector<Tlv>& out, int depth = 0) {
  size_t p = 0;
  if (depth > 12) return false;
  while (p < d.size()) {
    if (d.size() - p < 2) return false;
    Tlv t;
    t.tag = d[p];
    size_t l = d[p + 1];
    p += 2;
    if (l & 0x80) {
      size_t n = l & 0x7f;
      if (n == 0 || n > 4 || d.size() - p < n) return false;
      l = 0;
      for (size_t i = 0; i < n; i++) l = l << 8 | d[p + i];
      p += n;
    }
    if (d.size() - p < l) return false;
    auto c = d.subspan(p, l);
    p += l;
    if ((t.tag & 0x20) && tlv_parse(c, t.kids, depth + 1)) t.cons = true;
    else if (t.tag == 3 && l > 3 && c[0] == 0 && c[1] == 0x30 && (t.kids.clear(), tlv_parse(c.subspan(1), t.kids, depth + 1))) t.cons = t.bitstring = true;
    else { t.kids.clear(); t.prim.assign(c.begin(), c.end()); }
    out.push_back(t);
  }
  return true;
}
inline void tlv_write(const std::vector<Tlv>& v, pbt::Bytes& o) {
  for (auto& t : v) {
    pbt::Bytes c;
    if (t.bitstring) c.push_back(0);
    if (t.cons) tlv_write(t.kids, c); else c.insert(c.end(), t.prim.begin(), t.prim.end());
    o.push_back(t.tag);
    if (t.claim) o.insert(o.end(), t.claimBytes.begin(), t.claimBytes.end());
    else if (c.size() < 128) o.push_back((uint8_t)c.size());
    else if (c.size() < 256) { o.push_back(0x81); o.push_back((uint8_t)c.size()); }
    else if (c.size() < 65536) { o.push_back(0x82); o.push_back((uint8_t)(c.size() >> 8)); o.push_back((uint8_t)c.size()); }
    else { o.push_back(0x83); o.push_back((uint8_t)(c.size() >> 16)); o.push_back((uint8_t)(c.size() >> 8)); o.push_back((uint8_t)c.size()); }
    o.insert(o.end(), c.begin(), c.end());
  }
}
inline void tlv_all(std::vector<Tlv>& v, std::vector<std::pair<std::vector<Tlv>*, size_t>>& out) {
  for (size_t i = 0; i < v.size(); i++) { out.push_back({&v, i}); tlv_all(v[i].kids, out); }
}
// raw(n): a decision in [0,n]; fill(n): n bytes
template <class R, class F> void tlv_damage(std::vector<Tlv>& root, R raw, F fill) {
  std::vector<std::pair<std::vector<Tlv>*, size_t>> all;
  tlv_all(root, all);
  if (all.empty()) return;
  auto [v, i] = all[raw(all.size() - 1)];
  Tlv& t = (*v)[i];
  static const uint8_t tags[] = {1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 0x80, 0x81, 0x82, 0xa0, 0xa1, 0xa2, 0xa3, 0, 0xff};
  auto flat = [&] { if (t.cons) { pbt::Bytes c; if (t.bitstring) c.push_back(0); tlv_write(t.kids, c); t.prim = c; t.cons = t.bitstring = false; t.kids.clear(); } };
  switch (raw(11)) {
    case 0: t.tag = tags[raw(sizeof tags - 1)]; break;
    case 1: t.tag = (uint8_t)raw(255); break;
    case 2: v->erase(v->begin() + i); break;
    case 3: { Tlv c = t; v->insert(v->begin() + i, c); break; }
    case 4: t.cons = t.bitstring = false; t.kids.clear(); t.prim.clear(); break;
    case 5: {
      static const size_t sizes[] = {1, 2, 3, 7, 8, 9, 13, 15, 19, 20, 21, 22, 24, 63, 64, 65, 127, 128, 129, 511, 512, 513, 514, 520, 1024, 4000};
      t.cons = t.bitstring = false; t.kids.clear();
      t.prim = fill(sizes[raw(25)]);
      break;
    }
    case 6: { flat(); if (!t.prim.empty()) t.prim.resize(raw(t.prim.size() - 1)); break; }
    case 7: { flat(); if (!t.prim.empty()) t.prim[raw(t.prim.size() - 1)] ^= (uint8_t)(1u << raw(7)); break; }
    case 8: { flat(); t.prim.insert(t.prim.begin() + raw(t.prim.size()), (uint8_t)raw(255)); break; }
    case 9: {
      t.claim = 1;
      static const uint8_t forms[] = {0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x88, 0x89, 0x90, 0xfe, 0xff, 0x7f, 0, 1};
      t.claimBytes = {forms[raw(13)]};
      pbt::Bytes e = fill(raw(9));
      if (raw(1)) for (auto& b : e) b = 0xff;
      t.claimBytes.insert(t.claimBytes.end(), e.begin(), e.end());
      break;
    }
    case 10: { auto [w, j] = all[raw(all.size() - 1)]; Tlv c = (*w)[j]; t = c; break; }
    default: { flat(); for (auto& b : t.prim) b = (uint8_t)(raw(1) ? 0xff : 0); break; }
  }
}

// C26: path building over certificate graphs, against the documented procedure.
#include "certgen.h"
#include <caligo/Truststore.h>

using namespace Caligo;

static pbt::Warmup warm([] { fflush(stdout); Truststore::Instance(); });

struct Node {
  std::string subject, issuer;
  int key = -1;         // index of its own key, -1: no RSA key
  int by = 0;           // key that signed it
  bool broken = false;  // the signature was damaged
  uint64_t from = 0, to = 0;
  Bytes der;
};
constexpr size_t BITS = 512;
static void build(Node& n, Gen& g) {
  CertModel m;
  m.subject = cn(n.subject.substr(3));
  m.issuer = cn(n.issuer.substr(3));
  m.from = When::of(n.from, true);
  m.to = When::of(n.to, true);
  m.serial = Bytes{1, 2, 3};
  if (n.key >= 0) { const Key& k = key(BITS, 0, n.key); m.spki = rsa_spki(k.n, k.e); }
  else m.spki = der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(Bytes(32, 9))});
  Bytes t = m.tbs(), s = rsa_sign(key(BITS, 0, n.by), m.alg.hash, t);
  if (n.broken) s[g.raw(s.size() - 1)] ^= (uint8_t)(1 << g.raw(7));
  n.der = assemble(t, alg_id(m.alg), der::bits(s));
}
static bool verifies(const Node& c, const Node& i) { return i.key >= 0 && !c.broken && c.by == i.key && c.from >= i.from && c.to <= i.to; }

// The procedure as documented: repeatedly take the first presented certificate whose own name is not yet
// trusted and whose issuer's name is; it either becomes trusted or is dropped for good.
static bool model_trust(const std::map<std::string, Node>& anchors, const std::vector<Node>& list, uint64_t now) {
  if (list.empty() || list[0].from > now || list[0].to < now) return false;
  std::map<std::string, const Node*> trusted;
  for (auto& [n, c] : anchors) trusted[n] = &c;
  std::vector<bool> dropped(list.size());
  while (true) {
    size_t i = 0;
    for (; i < list.size(); i++) if (!dropped[i] && !trusted.count(list[i].subject) && trusted.count(list[i].issuer)) break;
    if (i == list.size()) return false;
    if (verifies(list[i], *trusted[list[i].issuer])) {
      if (i == 0) return true;
      trusted[list[i].subject] = &list[i];
    } else dropped[i] = true;
  }
}

static std::string fresh_prefix() { static unsigned long n = 0; return "CN=verif" + std::to_string(n++) + "-"; }

PROP(histories, 1800, 40000) {
  Truststore& store = Truststore::Instance();
  std::string pre = fresh_prefix();
  std::map<std::string, Node> anchors;
  auto name = [&](uint64_t i) { return pre + std::string(1, (char)('a' + i)); };
  auto interval = [&](uint64_t lo, uint64_t hi, uint64_t& a, uint64_t& b) {
    a = g.weighted({2, 1}) ? g.range(lo, hi) : lo;
    b = g.weighted({2, 1}) ? g.range(a, hi) : hi;
  };
  auto add = [&](Node n) {
    build(n, g);
    Tight t(n.der);
    store.addCertificate(parseCertificate(t));
    g.note("anchor ", n.subject, " key ", n.key, " ", n.from, "-", n.to);
    anchors[n.subject] = n;
  };
  auto probe = [&](const std::string& s) {
    auto r = store.get(s);
    auto it = anchors.find(s);
    CHECK(r.has_value() == (it != anchors.end()), "get(\"" << s << "\")");
    if (r) CHECK((*r)->derCert == it->second.der, "get(\"" << s << "\") returns another certificate than the last added under that subject");
  };
  size_t steps = g.range(1, 4), queries = 0;
  for (size_t step = 0; step < steps; step++) {
    size_t n = step == 0 ? g.range(0, 2) : g.range(0, 1);
    if (step == 0 && g.chance(7, 8)) n = std::max<size_t>(n, 1);
    for (size_t i = 0; i < n; i++) {
      Node a;
      a.subject = name(g.raw(2));
      a.issuer = g.coin() ? a.subject : name(g.raw(7));
      a.key = g.chance(1, 12) ? -1 : (int)g.raw(3);
      a.by = a.key < 0 ? 0 : a.key;
      interval(1000000000, 2000000000, a.from, a.to);
      add(a);
    }
    probe(name(g.raw(4)));
    probe(name(g.raw(2)).substr(0, pre.size()));
    probe(name(g.raw(2)) + "x");
    // a list: a chain below some anchor (perhaps), then decorations, then an order
    std::vector<Node> list;
    Node up;
    bool rooted = !anchors.empty() && g.chance(7, 8);
    if (rooted) { auto it = anchors.begin(); std::advance(it, g.raw(anchors.size() - 1)); up = it->second; }
    else { up.subject = name(g.raw(7)); up.key = (int)g.raw(3); up.from = 1000000000; up.to = 2000000000; }
    size_t depth = g.range(1, 5);
    uint64_t lo = up.from, hi = up.to;
    for (size_t i = 0; i < depth; i++) {
      Node c;
      c.issuer = up.subject;
      c.subject = g.chance(1, 16) ? name(g.raw(7)) : pre + "n" + std::to_string(step) + "." + std::to_string(i);
      c.by = up.key < 0 ? (int)g.raw(3) : up.key;
      c.key = g.chance(1, 24) ? -1 : (int)g.raw(3);
      if (g.chance(1, 16)) c.by = (int)g.raw(3);
      if (g.chance(1, 24)) c.broken = true;
      interval(lo, hi, c.from, c.to);
      if (g.chance(1, 20)) c.from -= g.pick<uint64_t>({1, 86400, 100000000});
      if (g.chance(1, 20)) c.to += g.pick<uint64_t>({1, 86400, 100000000});
      lo = std::max(lo, c.from); hi = std::max(lo, std::min(hi, c.to));
      list.insert(list.begin(), c);
      up = c;
    }
    size_t extra = g.weighted({2, 2, 1, 1});
    for (size_t i = 0; i < extra; i++) {
      Node c;
      switch (g.weighted({2, 2, 2, 2, 1, 1})) {
        case 0: c = g.pick(list); break;                                                      // duplicate
        case 1: c = g.pick(list); c.key = (int)g.raw(3); c.by = c.key; break;                 // usurper: same names, other key and signer
        case 2: c = g.pick(list); c.broken = true; break;                                     // forgery
        case 3: c.subject = name(g.raw(7)); c.issuer = name(g.raw(7)); c.key = (int)g.raw(3); c.by = (int)g.raw(3); c.from = 1000000000 + g.raw(1000); c.to = 2000000000 - g.raw(1000); break;  // stranger
        case 4: c = g.pick(list); c.issuer = g.pick(list).subject; c.by = (int)g.raw(3); break;    // loop or cross link
        default: c = g.pick(list); c.subject = name(g.raw(2)); break;                         // takes an anchor's name
      }
      list.push_back(c);
    }
    bool shuffled = g.coin();
    if (shuffled) for (size_t i = list.size(); i > 2; i--) std::swap(list[i - 1], list[1 + g.raw(i - 2)]);
    if (g.chance(1, 16)) std::swap(list[0], list[g.raw(list.size() - 1)]);
    if (g.chance(1, 30)) list.clear();
    for (auto& c : list) build(c, g);
    std::vector<uint64_t> times;
    for (size_t q = 0, e = 1 + g.chance(1, 3); q < e; q++)
      times.push_back(list.empty() ? 1500000000 : g.pick<uint64_t>({list[0].from, list[0].to, list[0].from - 1, list[0].to + 1, (list[0].from + list[0].to) / 2, (list[0].from + list[0].to) / 2, 0, ~0ull}));
    for (uint64_t now : times) {
      std::vector<x509certificate> v;
      for (auto& c : list) { Tight t(c.der); v.push_back(parseCertificate(t)); }
      for (auto& c : list) g.note("presented ", c.subject, " by ", c.issuer, " key ", c.key, " signed by ", c.by, c.broken ? " BROKEN" : "", " ", c.from, "-", c.to);
      bool want = model_trust(anchors, list, now);
      bool got = store.trust(v, now);
      CHECK(got == want, "trust at " << now << " of " << list.size() << " certificates is " << got);
      CHECK(v.size() == list.size(), "the list changed its length");
      CHECK(store.trust(v, now) == want, "asking again with the same list at " << now << " gives another answer");
      queries++;
      g.label(want ? "trusted" : "not trusted");
      if (want && list.size() > 2 && depth > 2) g.label("trusted through several intermediates");
    }
    for (auto& [s, c] : anchors) probe(s);   // trusting must not add anchors
    for (auto& c : list) probe(c.subject);
  }
  if (queries) g.nontrivial();
}
// Long paths and long lists: any length, any order, at most one fault in the path.
PROP(long_lists, 160, 4000) {
  Truststore& store = Truststore::Instance();
  std::string pre = fresh_prefix();
  Node root;
  root.subject = root.issuer = pre + "root";
  root.key = root.by = 0;
  root.from = 1000000000;
  root.to = 2000000000;
  build(root, g);
  { Tight t(root.der); store.addCertificate(parseCertificate(t)); }
  std::map<std::string, Node> anchors{{root.subject, root}};
  size_t depth = g.weighted({2, 1}) ? g.range(1, 12) : g.coin() ? g.pick<size_t>({7, 8, 9, 10, 11, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65}) : g.range(6, 70);
  std::vector<Node> list;
  Node up = root;
  for (size_t i = 0; i < depth; i++) {
    Node c;
    c.issuer = up.subject;
    c.subject = pre + "n" + std::to_string(i);
    c.by = up.key;
    c.key = (int)g.raw(3);
    c.from = up.from + g.raw(1000);
    c.to = up.to - g.raw(1000);
    list.insert(list.begin(), c);
    up = c;
  }
  size_t at = g.raw(depth - 1);
  std::string fault = "none";
  switch (g.weighted({6, 1, 1, 1, 1})) {
    case 1: fault = "damaged"; list[at].broken = true; break;
    case 2: fault = "another signer"; list[at].by = (list[at].by + 1) % 4; break;
    case 3: if (at + 1 < depth) { fault = "longer than its issuer"; list[at].to = list[at + 1].to + 1; for (size_t i = at; i-- > 0;) list[i].to = std::min(list[i].to, list[at].to); } break;
    case 4: if (at > 0) { fault = "missing"; list.erase(list.begin() + at); } break;
    default: break;
  }
  Node leaf = list[0];
  for (size_t i = 0, n = g.weighted({1, 1}) ? g.pick<size_t>({8, 16, 30, 60}) : g.raw(5); i < n; i++) {
    Node c = g.pick(list);
    switch (g.raw(3)) {
      case 0: c.subject = pre + "s" + std::to_string(i); c.issuer = pre + "t" + std::to_string(g.raw(9)); break;   // a stranger
      case 1: c.subject = pre + "s" + std::to_string(i); c.key = (int)g.raw(3); break;                              // a sibling
      case 2: c.broken = true; break;                                                                              // a forgery
      default: break;                                                                                              // a duplicate
    }
    list.push_back(c);
  }
  switch (g.raw(3)) {
    case 0: std::reverse(list.begin() + 1, list.end()); break;
    case 1: break;
    default: for (size_t i = list.size(); i > 2; i--) std::swap(list[i - 1], list[1 + g.raw(i - 2)]); break;
  }
  for (auto& c : list) build(c, g);
  std::vector<x509certificate> v;
  for (auto& c : list) { Tight t(c.der); v.push_back(parseCertificate(t)); }
  g.note("path of ", depth, ", fault: ", fault, " at ", at, ", ", list.size(), " presented");
  bool want = model_trust(anchors, list, 1500000000);
  CHECK(store.trust(v, 1500000000) == want, "trust in a path of " << depth << " among " << list.size() << " certificates is " << !want);
  g.label(want ? "trusted through a long path" : "not trusted, long list");
  g.nontrivial();
}

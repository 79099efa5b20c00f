// Histories over live hash objects, against a model that keeps each object's input as one byte string.
#include "hashes.h"

struct Live {
  int alg;  // index into algos(), or -1 for CRC
  bool named;
  std::unique_ptr<AnyHash> h;
  Bytes fed;
};

struct CrcHash : AnyHash {
  Caligo::CRC32 h;
  void add(std::span<const uint8_t> d) override { h.add(d); }
  void addText(std::string_view d) override { h.add(d); }
  Bytes digest() const override { std::array<uint8_t, 4> a = h; return Bytes(a.begin(), a.end()); }
  Bytes data() const override { auto a = h.data(); return Bytes(a.begin(), a.end()); }
  std::string text() const override { return (std::string)h; }
  std::unique_ptr<AnyHash> clone() const override { auto c = std::make_unique<CrcHash>(); c->h = h; return c; }
  bool assign(const AnyHash& o) override { h = dynamic_cast<const CrcHash&>(o).h; return true; }
};

static const char* runtimeName(int alg) {
  static const char* n[] = {"sha256", "sha1", "md5", "sha224", "sha384", "sha512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"};
  return n[alg];
}

static Bytes expect(const Live& l) { return l.alg < 0 ? crc_ref(l.fed) : ref::digest(algos()[l.alg].name, l.fed); }
static const char* nameOf(const Live& l) { return l.alg < 0 ? "CRC32" : algos()[l.alg].name; }
static size_t blockOf(const Live& l) { return l.alg < 0 ? 16 : algos()[l.alg].block; }

// A piece to add, biased to land the object exactly on, just before or just after a block boundary.
static Bytes piece(Gen& g, const Live& l) {
  size_t b = blockOf(l), fill = l.fed.size() % b, n;
  switch (g.weighted({3, 3, 2, 2, 1, 1})) {
    case 0: n = g.raw(b / 2); break;
    case 1: n = b - fill; break;                             // exactly complete the block
    case 2: n = (b - fill) + g.raw(4) - (b - fill > 2 ? 2 : 0); break;
    case 3: n = b * g.range(1, 3) + g.raw(3); break;
    case 4: n = 0; break;
    default: n = (b - fill) + b * g.raw(3); break;           // complete the block plus whole blocks
  }
  return g.bytes(n);
}

static void check_read(const Live& l, int how, const char* when) {
  Bytes want = expect(l);
  std::string what = std::string(nameOf(l)) + " after " + std::to_string(l.fed.size()) + " bytes (" + when + ")";
  if (how == 0) pbt::check_bytes(l.h->digest(), want, what + " digest");
  else if (how == 1) pbt::check_bytes(l.h->data(), want, what + " data()");
  else CHECK(l.h->text() == ref::hexs(want), what << " text is " << l.h->text() << ", expected " << ref::hexs(want));
}

static Live fresh(Gen& g, int alg, bool named) {
  Live l{alg, named, nullptr, {}};
  if (alg < 0) l.h = std::make_unique<CrcHash>();
  else if (named) l.h = std::make_unique<NamedHash>(runtimeName(alg));
  else if (g.chance(1, 4)) {  // several inputs at construction
    Bytes a = g.blob(2 * algos()[alg].block, algos()[alg].block), c = g.blob(algos()[alg].block, algos()[alg].block);
    std::string b = g.ascii(g.raw(70), "abcXYZ 019\x01\x7f");
    l.h = algos()[alg].makeWith(a, b, c);
    l.fed = a;
    l.fed.insert(l.fed.end(), b.begin(), b.end());
    l.fed.insert(l.fed.end(), c.begin(), c.end());
    g.note("construct with ", a.size(), "+", b.size(), "+", c.size(), " bytes");
    g.label("variadic construction");
  } else l.h = algos()[alg].make();
  return l;
}

// One object, one algorithm: any split equals the concatenation, reads in between change nothing.
PROP(any_split, 12000, 400000) {
  int alg = (int)g.raw(algos().size()) - 1;
  bool named = alg >= 0 && g.chance(1, 4);
  Live l = fresh(g, alg, named);
  g.note("algorithm ", nameOf(l), named ? " (by name)" : "");
  size_t n = g.range(1, 8);
  for (size_t i = 0; i < n; i++) {
    Bytes p = piece(g, l);
    if (g.chance(1, 3)) l.h->addText(std::string_view((const char*)p.data(), p.size())); else l.h->add(p);
    l.fed.insert(l.fed.end(), p.begin(), p.end());
    g.note("add ", p.size());
    if (g.chance(1, 3)) { g.note("read"); check_read(l, (int)g.raw(2), "mid-stream"); }
  }
  g.label(std::string(nameOf(l)) + (named ? " by name" : ""));
  if (n > 1) g.nontrivial();
  for (int how = 0; how < 3; how++) check_read(l, how, "end");
}

// Every (fill level, addition size) pair around the block boundary, walked.
PROP(every_fill_and_step, 14000, 120000) {
  int alg = (int)g.walk(algos().size());
  size_t b = algos()[alg].block;
  size_t fill = g.walk(b + 1);
  size_t step = g.coin() ? g.raw(2 * b + 2) : (b - fill % b) + b * g.raw(2) + g.raw(2);
  Live l{alg, false, algos()[alg].make(), {}};
  Bytes m = g.noise(fill + step + 5);
  l.h->add(std::span<const uint8_t>(m.data(), fill));
  l.h->add(std::span<const uint8_t>(m.data() + fill, step));
  l.fed.assign(m.begin(), m.begin() + fill + step);
  g.note("algorithm ", nameOf(l), " first ", fill, " then ", step);
  g.nontrivial();
  check_read(l, 0, "two additions");
  l.h->add(std::span<const uint8_t>(m.data() + fill + step, 5));
  l.fed = m;
  check_read(l, 2, "third addition");
}

// Histories over several live objects with copies and assignments.
PROP(histories, 6000, 200000) {
  std::vector<Live> objs;
  int alg = (int)g.raw(algos().size()) - 1;
  objs.push_back(fresh(g, alg, false));
  size_t steps = g.range(2, 24), copies = 0;
  for (size_t s = 0; s < steps; s++) {
    size_t i = g.raw(objs.size() - 1);
    Live& l = objs[i];
    switch (g.weighted({5, 3, 2, 2, 1})) {
      case 0: {
        Bytes p = piece(g, l);
        if (g.coin()) l.h->add(p); else l.h->addText(std::string_view((const char*)p.data(), p.size()));
        l.fed.insert(l.fed.end(), p.begin(), p.end());
        g.note("obj", i, ".add(", p.size(), ")");
        break;
      }
      case 1: g.note("read obj", i); check_read(l, (int)g.raw(2), "history"); break;
      case 2:
        if (objs.size() < 5) if (auto c = l.h->clone()) {
          g.note("obj", objs.size(), "=copy of obj", i);
          Live n{l.alg, false, std::move(c), l.fed};
          objs.push_back(std::move(n));
          copies++;
        }
        break;
      case 3: {
        size_t j = g.raw(objs.size() - 1);
        if (objs[j].alg == l.alg && !l.named && !objs[j].named && l.h->assign(*objs[j].h)) { l.fed = Bytes(objs[j].fed); g.note("obj", i, "=obj", j); copies++; }
        break;
      }
      default:
        if (objs.size() < 5) { bool same = g.coin(); objs.push_back(fresh(g, same ? alg : (int)g.raw(algos().size()) - 1, false)); g.note("new obj", objs.size() - 1, " ", nameOf(objs.back())); }
    }
  }
  g.label(copies ? "with copies" : "without copies");
  if (steps > 3) g.nontrivial();
  for (auto& l : objs) for (int how = 0; how < 3; how++) check_read(l, how, "end of history");
}

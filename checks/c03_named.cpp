#include "hashes.h"

struct Named { const char* name; int alg; };
static const Named names[] = {{"md5", 2}, {"sha", 1}, {"sha1", 1}, {"sha224", 3}, {"sha256", 0}, {"sha384", 4}, {"sha512", 5}, {"sha2-224", 3}, {"sha2-256", 0}, {"sha2-384", 4}, {"sha2-512", 5}, {"sha3-224", 6}, {"sha3-256", 7}, {"sha3-384", 8}, {"sha3-512", 9}};
static constexpr size_t NN = sizeof names / sizeof *names;

PROP(documented_names, 9000, 250000) {
  const Named& n = names[g.walk(NN)];
  const Algo& a = algos()[n.alg];
  g.note("name ", n.name);
  g.label(n.name);
  Bytes all;
  auto run = [&](Caligo::Hash& h) {
    size_t parts = g.raw(4);
    for (size_t i = 0; i < parts; i++) {
      Bytes p = g.blob(3 * a.block, a.block);
      g.note("add ", p.size());
      if (g.coin()) h.add(std::span<const uint8_t>(p)); else h.add(std::string_view((const char*)p.data(), p.size()));
      all.insert(all.end(), p.begin(), p.end());
    }
    if (!all.empty()) g.nontrivial();
    Bytes want = ref::digest(a.name, all);
    std::vector<uint8_t> got = h;
    pbt::check_bytes(got, want, std::string("hash selected as ") + n.name);
    pbt::check_bytes(h.data(), want, std::string("data() of ") + n.name);
    CHECK((std::string)h == ref::hexs(want), "text of " << n.name << " is " << (std::string)h << " expected " << ref::hexs(want));
    CHECK(h.hashsize() == a.size, "digest size of " << n.name << " is " << h.hashsize());
    CHECK(h.MaxLength() == a.maxLength(), "maximum length of " << n.name);
    pbt::check_bytes(h.getAsn1Id(), digestInfo(n.alg), std::string("DigestInfo prefix via name ") + n.name);
    got = h;
    pbt::check_bytes(got, want, std::string("second read of ") + n.name);
  };
  if (g.coin()) { Caligo::Hash h(n.name); run(h); }
  else {
    Bytes x = g.blob(200, a.block);
    std::string y = g.ascii(g.raw(40), "abc 0");
    all = x;
    all.insert(all.end(), y.begin(), y.end());
    Caligo::Hash h(n.name, std::span<const uint8_t>(x), std::string_view(y));
    run(h);
  }
}

PROP(identifiers, 200, 200) {
  int i = (int)g.walk(algos().size());
  g.note(algos()[i].name);
  g.nontrivial();
  pbt::check_bytes(algos()[i].asn1(), digestInfo(i), std::string("DigestInfo prefix of ") + algos()[i].name);
  CHECK(algos()[i].hashsize() == algos()[i].size, "digest size of " << algos()[i].name);
}

PROP(unknown_names_refused, 20000, 600000) {
  std::string s;
  switch (g.weighted({4, 3, 2, 2})) {
    case 0: {  // a documented name with one edit
      s = names[g.raw(NN - 1)].name;
      size_t edits = g.range(1, 2);
      for (size_t e = 0; e < edits; e++) switch (g.raw(4)) {
        case 0: if (!s.empty()) s.erase(g.raw(s.size() - 1), 1); break;
        case 1: s.insert(g.raw(s.size()), 1, g.ascii(1, "-0123456789shaSHAmd _\n")[0]); break;
        case 2: if (!s.empty()) s[g.raw(s.size() - 1)] = g.ascii(1, "-0123456789shaSHAmd _")[0]; break;
        case 3: for (auto& c : s) c = (char)toupper(c); break;
        default: s = " " + s;
      }
      break;
    }
    case 1: s = "sha" + g.ascii(g.raw(1), "123") + (g.coin() ? "-" : "") + g.pick<std::string>({"", "224", "256", "384", "512", "128", "1", "2", "3", "160", "512/256", "0"}); break;
    case 2: s = g.ascii(g.raw(12), "abcdefghijklmnopqrstuvwxyz0123456789-"); break;
    default: { Bytes b = g.blob(20, 4); s.assign(b.begin(), b.end()); }
  }
  for (auto& n : names) if (s == n.name) { g.label("documented name"); return; }
  g.note("name '", s, "'");
  g.nontrivial();
  bool threw = false;
  try { Caligo::Hash h{std::string_view(s)}; (void)h.data(); } catch (const std::exception&) { threw = true; }
  CHECK(threw, "unknown hash name '" << s << "' was accepted");
}

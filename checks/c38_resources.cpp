// C38: what was acquired is released, and cost grows no faster than the data.
#include "meter.h"
#include "ops.h"
#include "dertree.h"
#include <caligo/Truststore.h>
#include <caligo/crc.h>
#include <dirent.h>

template <class T> [[gnu::noinline]] static void keep(const T& v) { asm volatile("" ::"r"(&v) : "memory"); }
static size_t open_files() {
  size_t n = 0;
  if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
  return n;
}
// The round, repeated, does not keep acquiring. It may keep something once, or sometimes.
static void settles(const std::string& what, const std::function<void(size_t)>& round) {
  round(0);
  size_t held = meter::held(), files = open_files();
  const size_t before = held, filesBefore = files;
  bool memory = true, open = true;
  for (size_t i = 1; i <= 8 && (memory || open); i++) {
    round(i);
    size_t h = meter::held(), f = open_files();
    if (h <= held) memory = false;
    if (f <= files) open = false;
    held = h;
    files = f;
  }
  CHECK(!memory, what << " leaves more memory in use each time: " << (held - before) << " bytes in 8 times");
  CHECK(!open, what << " leaves more files open each time: " << (files - filesBefore) << " in 8 times");
}
static void attempt(const std::function<void()>& f) { try { f(); } catch (const std::exception&) {} }

// --- what is acquired is released ---------------------------------------------------------------------
PROP(operations_release, 3000, 120000) {
  size_t n = g.range(1, 6);
  std::vector<std::pair<Op, uint64_t>> history;
  for (size_t i = 0; i < n; i++) {
    bool failing = g.coin();
    const Named& o = failing ? g.pick(disturbances()) : g.pick(ops());
    uint64_t s = g.raw(failing ? 1000 : 200);
    g.note(o.name, "(", s, ")");
    g.label(o.name);
    history.push_back({o.op, s});
  }
  bool fresh = g.chance(1, 3);   // each time with other data
  g.label(fresh ? "other data each time" : "same data each time");
  g.nontrivial();
  settles("the history", [&](size_t round) {
    for (auto& [op, s] : history) attempt([&, op = op, s = s] { keep(op(fresh ? s + 1000 * round : s)); });
  });
}
// Inputs that end a parser somewhere in the middle.
PROP(refused_inputs_release, 6000, 250000) {
  bool isKey = g.chance(1, 4);
  static const Bytes smallKey = key_file(key(512, 0, 2));
  Bytes base = isKey ? smallKey : g.chance(1, 3) ? certDer[3] : g.pick(variety);
  std::vector<Tlv> v;
  CHECK(tlv_parse(base, v), "input of the harness");
  auto raw = [&](uint64_t n) { return g.raw(n); };
  auto fill = [&](size_t n) { return g.noise(n); };
  for (size_t k = g.range(1, 3); k > 0; k--) tlv_damage(v, raw, fill);
  Bytes d;
  tlv_write(v, d);
  if (g.chance(1, 3) && !d.empty()) d.resize(g.raw(d.size() - 1));
  int form = (int)g.raw(2);
  Bytes in = d;
  if (isKey) { if (form) in = to_bytes(pem(d, "RSA PRIVATE KEY")); }
  else if (form == 1) in = to_bytes(pem(d, "CERTIFICATE"));
  else if (form == 2) {
    size_t before = g.raw(3);
    std::string t;
    for (size_t i = 0; i < before; i++) t += pem(variety[(i * 7) % variety.size()], "CERTIFICATE");
    in = to_bytes(t + pem(d, "CERTIFICATE"));
  }
  bool refused = false;
  g.note(isKey ? "key" : "certificate", " form ", form);
  g.note_hex("input", in);
  x509certificate issuer = parseCertificate(certDer[3]);
  settles("reading the input", [&](size_t) {
    attempt([&] {
      refused = true;
      if (isKey) { auto k = parsePrivateKey(in, form ? DataFormat::Pem : DataFormat::Der); keep(k); }
      else if (form == 2) { auto c = parseCertificatesPem(in); for (auto& x : c) keep(x.verify(issuer)); }
      else { auto c = parseCertificate(in, form ? DataFormat::Pem : DataFormat::Der); keep(c.verify(issuer)); keep(c.appliesTo("x")); }
      refused = false;
    });
  });
  g.label(refused ? "refused" : "read");
  if (refused) g.nontrivial();
}
// Copies, moves and assignments of objects that own something.
PROP(copies_release, 2500, 100000) {
  std::vector<uint64_t> plan;
  size_t n = g.range(1, 16);
  for (size_t i = 0; i < n; i++) plan.push_back(g.u64());
  size_t kind = g.raw(4);
  g.note("kind ", kind, " steps ", n);
  static const char* kinds[] = {"named hashes", "hash objects", "certificates", "GCM sessions", "ChaCha20 sessions"};
  g.label(kinds[kind]);
  g.nontrivial();
  Bytes data = g.noise(300);
  auto exercise = [&](auto make, auto use) {
    settles(std::string("copying and dropping ") + kinds[kind], [&](size_t) {
      using T = decltype(make(uint64_t()));
      std::vector<T> v;
      for (uint64_t p : plan) {
        uint64_t k = p >> 3;
        if (v.size() < 2) { v.push_back(make(k)); continue; }
        size_t i = k % v.size(), j = k / 7 % v.size();
        switch (p % 8) {
          case 0: v.push_back(make(k)); break;
          case 1: if constexpr (std::is_copy_constructible_v<T>) v.push_back(T(v[i])); break;
          case 2: if constexpr (std::is_copy_assignable_v<T>) v[i] = v[j]; break;
          case 3: if (i != j) { if constexpr (std::is_move_assignable_v<T>) { v[i] = std::move(v[j]); v[j] = make(k); } } break;
          case 4: { T t(std::move(v[i])); v[i] = make(k); use(t, k); break; }
          case 5: v.pop_back(); break;
          default: use(v[i], k);
        }
      }
    });
  };
  std::span<const uint8_t> d(data);
  switch (kind) {
    case 0: {
      static const char* names[] = {"md5", "sha1", "sha256", "sha384", "sha512", "sha3-256"};
      exercise([&](uint64_t k) { return std::make_unique<Hash>(std::string_view(names[k % 6])); }, [&](std::unique_ptr<Hash>& h, uint64_t k) { h->add(d.first(k % 300)); keep(h->data()); });
      break;
    }
    case 1: exercise([&](uint64_t) { return SHA3<256>(); }, [&](SHA3<256>& h, uint64_t k) { h.add(d.first(k % 300)); keep(h.data()); }); break;
    case 2: exercise([&](uint64_t k) { return parseCertificate(k % 16 == 0 ? certDer[3] : variety[k % variety.size()]); }, [&](x509certificate& c, uint64_t) { keep(c.appliesTo("v")); }); break;
    case 3: exercise([&](uint64_t k) { return GCM<AES<128>>{key_iv_pair<AES<128>>(d.subspan(k % 50, 16), d.subspan(k % 70, 12))}; }, [&](GCM<AES<128>>& s, uint64_t k) { keep(s.Encrypt(d.first(k % 300), d.first(k % 30))); }); break;
    default: exercise([&](uint64_t k) { return ChaCha20(d.subspan(k % 50, 32), d.subspan(k % 70, 12)); }, [&](ChaCha20& s, uint64_t k) { Bytes x(k % 200); s.Encrypt(x); }); break;
  }
}
// --- live objects do not grow with what they processed ---------------------------------------------------
PROP(live_objects_stay_small, 1500, 60000) {
  Bytes data = g.noise(2000);
  std::span<const uint8_t> d(data);
  uint64_t r = g.u64();
  std::vector<size_t> sizes;
  for (size_t i = 0, n = g.range(1, 20); i < n; i++) sizes.push_back(g.len(1900, 64));
  bool read = g.coin();
  g.note("uses ", sizes.size());
  g.nontrivial();
  auto live = [&](const std::string& what, auto use) {
    g.label(what);
    settles("a live " + what, [&](size_t round) { for (size_t n : sizes) use(d.first(n), round); });
  };
  size_t kind = g.raw(8);
  switch (kind) {
    case 0: {
      auto& a = g.pick(algos());
      auto h = a.make();
      live(std::string(a.name), [&](auto x, size_t) { h->add(x); if (read) keep(h->digest()); });
      break;
    }
    case 1: {
      Hash h(g.coin() ? std::string_view("sha512") : std::string_view("sha3-224"));
      live("named hash", [&](auto x, size_t) { h.add(x); if (read) keep(h.data()); });
      break;
    }
    case 2: {
      CRC32 c;
      live("CRC", [&](auto x, size_t) { c.add(x); });
      break;
    }
    case 3: {
      GCM<AES<256>> s{key_iv_pair<AES<256>>(d.first(32), d.subspan(40, 12))};
      live("GCM session", [&](auto x, size_t) {
        if (read) keep(s.Encrypt(x, x.first(x.size() / 3)));
        else { std::array<uint8_t, 16> t{}; keep(s.Decrypt(x, x.first(x.size() / 3), t)); } });
      break;
    }
    case 4: {
      CTR<AES<128>> s{key_iv_pair<AES<128>>(d.first(16), d.subspan(40, 16))};
      Bytes buf(2000);
      live("CTR session", [&](auto x, size_t) { s.Encrypt(std::span<uint8_t>(buf).first(x.size())); });
      break;
    }
    case 5: {
      ChaCha20 s(d.first(32), d.subspan(40, 12));
      Bytes buf(2000);
      live("ChaCha20 session", [&](auto x, size_t) { s.Encrypt(std::span<uint8_t>(buf).first(x.size())); });
      break;
    }
    case 6: {
      rsa_private_key<512> priv(N, D);
      rsa_public_key<512> pub(N, E);
      if (sizes.size() > 4) sizes.resize(4);
      live("RSA key", [&](auto x, size_t) {
        Bytes s = priv.signPkcs1_5Signature<SHA2<256>>(x);
        keep(pub.validatePkcs1_5Signature<SHA2<256>>(x, s));
        s[0] ^= 1;
        keep(pub.validatePkcs1_5Signature<SHA2<256>>(x, s)); });
      break;
    }
    case 7: {
      if (sizes.size() > 3) sizes.resize(3);
      x509certificate c = parseCertificate(chainDer[0]), i = parseCertificate(chainDer[1]), other = parseCertificate(certDer[3]);
      live("certificate", [&](auto x, size_t) { keep(c.verify(i)); keep(c.verify(other)); keep(c.appliesTo(std::string(x.begin(), x.end()))); });
      break;
    }
    default: {
      if (sizes.size() > 3) sizes.resize(3);
      Truststore& store = Truststore::Instance();
      live("trust store", [&](auto x, size_t round) {
        store.addCertificate(parseCertificate(variety[(r + x.size()) % variety.size()]));
        keep(store.get("no such " + std::to_string(round) + std::to_string(x.size())));
        std::vector<x509certificate> l;
        l.push_back(parseCertificate(certDer[x.size() % 3]));
        l.push_back(parseCertificate(variety[x.size() % variety.size()]));
        keep(store.trust(l, r % 4000000000u)); });
    }
  }
}
// --- cost ---------------------------------------------------------------------------------------------
// Sixteen times the data costs at most three times sixteen times as much, and no more stack.
constexpr size_t F = 16;
static void linear(Gen& g, const std::string& what, size_t n, const std::function<std::function<void()>(size_t)>& prepare, size_t factor = F) {
  g.label(what);
  g.note(what, " size ", n);
  g.nontrivial();
  auto cost = [&](size_t size) {
    auto run = prepare(size);
    attempt(run);   // tables are made the first time
    meter::start();
    attempt(run);
    return meter::stop();
  };
  meter::Cost none = cost(0), small = cost(n), big = cost(n * factor);
  auto judge = [&](const char* unit, size_t a, size_t b, size_t c) {
    size_t one = b > a ? b - a : 0, many = c > a ? c - a : 0, limit = 3 * factor * one + 64 * n * factor + 20000;
    CHECK(many <= limit, what << ": " << unit << " are " << b << " for size " << n << " and " << c << " for size " << n * factor << ", which grows faster than the data (" << a << " for none)");
  };
  CHECK(big.blocks > 0, "nothing was recorded");
  judge("the code blocks entered", none.blocks, small.blocks, big.blocks);
  judge("the bytes moved and searched", none.moved, small.moved, big.moved);
  judge("the bytes allocated", none.allocated, small.allocated, big.allocated);
  judge("the most bytes held", none.peak, small.peak, big.peak);
  CHECK(big.stack <= std::max(small.stack, none.stack) + 16384, what << ": the stack needed is " << small.stack << " bytes for size " << n << " and " << big.stack << " for size " << n * factor);
}
using Data = std::shared_ptr<Bytes>;
static Data filled(uint64_t s, size_t n) { return std::make_shared<Bytes>(seeded(s, n)); }
// Calls f on consecutive pieces.
template <class B, class Fn> static void pieces(B data, uint64_t pattern, Fn f) {
  uint64_t t = pattern;
  size_t most = 1 + pbt::splitmix(t) % 200;
  for (size_t i = 0; i < data.size();) { size_t n = std::min<size_t>(data.size() - i, 1 + pbt::splitmix(t) % most); f(data.subspan(i, n)); i += n; }
}
PROP(processing_is_linear, 900, 30000) {
  size_t n = g.range(1000, 6000);
  uint64_t s = g.u64() >> 1;
  bool split = g.coin();
  g.note("contents ", s, split ? " in pieces" : " at once");
  using Cs = std::span<const uint8_t>;
  switch (g.raw(14)) {
    case 0: case 1: case 2: {
      auto& a = g.pick(algos());
      bool each = g.coin();
      linear(g, std::string(a.name) + (split ? each ? " in pieces, read after each" : " in pieces" : ""), n, [&, each](size_t k) { Data d = filled(s, k); return [=, &a] {
        auto h = a.make();
        if (split) pieces(Cs(*d), s, [&](Cs x) { h->add(x); if (each) keep(h->data()); }); else h->add(*d);
        keep(h->digest()); }; });
      break;
    }
    case 3: linear(g, "CRC", n, [&](size_t k) { Data d = filled(s, k); return [=] { CRC32 c; if (split) pieces(Cs(*d), s, [&](Cs x) { c.add(x); }); else c.add(Cs(*d)); std::array<uint8_t, 4> r = c; keep(r); }; }); break;
    case 4: linear(g, "HMAC text", n, [&](size_t k) { Data d = filled(s, k); return [=] { keep(HMAC<SHA2<256>>(*d, seeded(1, 40))); }; }); break;
    case 5: linear(g, "HMAC key", n, [&](size_t k) { Data d = filled(s, k); return [=] { keep(HMAC<SHA2<512>>(seeded(1, 40), *d)); }; }); break;
    case 6: {
      std::string form = g.coin() ? "encryption" : "decryption";
      bool dec = form == "decryption", aad = g.coin();
      linear(g, "GCM " + form + (aad ? ", additional data" : ", text"), n, [&](size_t k) { Data d = filled(s, k); return [=] {
        GCM<AES<128>> c{key_iv_pair<AES<128>>(seeded(1, 16), seeded(2, 12))};
        Cs text = aad ? Cs(*d).first(0) : Cs(*d), extra = aad ? Cs(*d) : Cs(*d).first(0);
        std::array<uint8_t, 16> t{};
        if (dec) keep(c.Decrypt(text, extra, t)); else keep(c.Encrypt(text, extra)); }; });
      break;
    }
    case 7: linear(g, "GCM messages", n, [&](size_t k) { Data d = filled(s, k); return [=] {
        GCM<AES<256>> c{key_iv_pair<AES<256>>(seeded(1, 32), seeded(2, 12))};
        pieces(Cs(*d), s, [&](Cs x) { keep(c.Encrypt(x, x.first(x.size() / 2))); }); }; }); break;
    case 8: linear(g, split ? "CTR messages" : "CTR", n, [&](size_t k) { Data d = filled(s, k); return [=] {
        CTR<AES<256>> c{key_iv_pair<AES<256>>(seeded(1, 32), seeded(2, 16))};
        if (split) pieces(std::span<uint8_t>(*d), s, [&](std::span<uint8_t> x) { c.Encrypt(x); }); else c.Encrypt(*d); }; }); break;
    case 9: linear(g, split ? "ChaCha20 in pieces" : "ChaCha20", n, [&](size_t k) { Data d = filled(s, k); return [=] {
        ChaCha20 c(seeded(1, 32), seeded(2, 12));
        if (split) pieces(std::span<uint8_t>(*d), s, [&](std::span<uint8_t> x) { c.Encrypt(x); }); else c.Encrypt(*d); }; }); break;
    case 10: {
      bool nl = g.coin(), omit = g.coin();
      linear(g, nl ? "base64 encoding with lines" : "base64 encoding", n, [&](size_t k) { Data d = filled(s, k); return [=] { keep(base64(*d, nl, omit, (Base64CharSet)(s % 3))); }; });
      break;
    }
    case 11: {
      size_t junk = g.raw(3);
      linear(g, junk == 3 ? "base64 decoding of other text" : junk ? "base64 decoding among other text" : "base64 decoding", n, [&](size_t k) { Data d = filled(s, k);
        std::string t;
        for (uint8_t c : *d) { for (size_t j = 0; j < junk; j++) t += " -\n"[c % 3]; if (junk < 3) t += "ABCDwxyz0189+/,_="[c % 17]; }
        return [=] { keep(base64d(t)); }; });
      break;
    }
    case 12: linear(g, "MGF1", n / 8, [&](size_t k) { return [=] { keep(MGF1<SHA2<256>>::MGF(seeded(1, 32), k)); }; }); break;
    case 13: {
      bool info = g.coin();
      linear(g, info ? "HKDF information" : "HKDF output", info ? n : n / 16, [&](size_t k) { Data d = filled(s, k); return [=] {
        if (info) keep(HKDF_Expand<SHA2<256>>(seeded(1, 32), *d, 64)); else keep(HKDF_Expand<SHA2<256>>(seeded(1, 32), seeded(2, 30), k)); }; });
      break;
    }
    default: linear(g, "random values", n, [&](size_t k) { return [=] { Bytes b(k); generate_random(b); keep(b); }; });
  }
}
// Certificates, keys and bundles of all shapes that can grow.
PROP(reading_is_linear, 500, 16000) {
  uint64_t s = g.u64() >> 1;
  size_t n = g.range(1000, 4000);
  auto read = [&](const std::string& what, size_t unit, auto make) {
    bool asPem = g.coin();
    linear(g, "reading " + what + (asPem ? " (PEM)" : " (DER)"), std::max<size_t>(n / unit, 4), [&](size_t k) {
      Bytes d = make(k);
      Bytes in = asPem ? to_bytes(pem(d, "CERTIFICATE")) : d;
      return [=] { auto c = parseCertificate(in, asPem ? DataFormat::Pem : DataFormat::Der); keep(c.verify(c)); keep(c.appliesTo("v")); };
    });
  };
  auto assembled = [&](CertModel& m) {
    m.spki = der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(Bytes(32, 5))});
    return assemble(m.tbs(), alg_id(m.alg), der::bits(Bytes(64, 1)));
  };
  switch (g.raw(7)) {
    case 0: read("long names", 1, [&](size_t k) { CertModel m; m.subject = cn(std::string(k, 'n')); m.issuer = cn(std::string(k / 2, 'i')); return assembled(m); }); break;
    case 1: {
      bool multi = g.coin();
      read(multi ? "multi-valued names" : "names of many parts", 12, [&](size_t k) {
        CertModel m;
        Name x;
        for (size_t i = 0; i < k; i++) x.attrs.push_back({(size_t)((s + i) % attr_types().size()), (uint8_t)(i % 2 ? 12 : 19), "abc", multi && i > 0});
        m.subject = x;
        return assembled(m); });
      break;
    }
    case 2: read("long signatures", 1, [&](size_t k) { CertModel m; m.spki = certDer[3]; m.spki = rsa_spki(key(768, 0, 1).n, key(768, 0, 1).e); return assemble(m.tbs(), alg_id(m.alg), der::bits(seeded(s, k))); }); break;
    case 3: read("much after the end", 1, [&](size_t k) { return certDer[s % 3] + seeded(s, k); }); break;
    case 4: {
      bool valid = g.coin();
      linear(g, valid ? "reading a bundle" : "reading a bundle of empty certificates", 8, [&](size_t k) {
        std::string t;
        for (size_t i = 0; i < k; i++) t += (valid || i ? pem(variety[(s + i) % variety.size()], "CERTIFICATE") : "-----BEGIN CERTIFICATE-----\n") + std::string(s % 50, '-');
        Bytes in = to_bytes(t);
        return [=] { keep(parseCertificatesPem(in)); }; });
      break;
    }
    case 5: {
      size_t form = g.raw(4);
      static const std::string texts[] = {"-----BEGIN CERTIFICATE----", "-", "text ", "-----END CERTIFICATE-----\n", "-----BEGIN CERTIFICATE REQUEST-----\n"};
      bool before = g.coin(), single = g.coin();
      linear(g, std::string(single ? "finding a certificate " : "finding certificates ") + (before ? "after" : "before") + " other text", n, [&](size_t k) {
        std::string t;
        while (t.size() < k) t += texts[form];
        Bytes in = to_bytes(before ? t + "\n" + pem(variety[s % variety.size()], "CERTIFICATE") : pem(variety[s % variety.size()], "CERTIFICATE") + t);
        return [=] { if (single) keep(parseCertificate(in, DataFormat::Pem)); else keep(parseCertificatesPem(in)); }; });
      break;
    }
    case 6: {
      bool asPem = g.coin(), text = g.coin();
      linear(g, "reading a private key", n, [&](size_t k) {
        Bytes d = text ? keyDer[0] : keyDer[0] + seeded(s, k);
        Bytes in = asPem ? to_bytes(pem(d, "RSA PRIVATE KEY")) : d;
        if (text) in = to_bytes(std::string(k, '-')) + to_bytes(pem(d, "RSA PRIVATE KEY"));
        return [=] { keep(parsePrivateKey(in, asPem || text ? DataFormat::Pem : DataFormat::Der)); }; });
      break;
    }
    default: {
      bool big = g.coin();
      linear(g, big ? "elements of a sequence" : "empty elements of a sequence", n, [&](size_t k) {
        Bytes in;
        while (in.size() < k) in = in + der::tlv(0x30, big ? seeded(in.size(), in.size() % 200) : Bytes{});
        return [=] { asn1_view v{std::span<const uint8_t>(in)}; while (!v.empty()) { keep(v.peek()); keep(v.read()); } }; });
    }
  }
}
// A decision checks about one signature for each presented certificate.
PROP(trust_is_bounded, 60, 1500) {
  Truststore& store = Truststore::Instance();
  static const Key& k = key(512, 0, 1);
  auto make = [](const std::string& subject, const std::string& issuer, bool good) {
    CertModel m;
    m.subject = cn(subject);
    m.issuer = cn(issuer);
    m.spki = rsa_spki(k.n, k.e);
    Bytes t = m.tbs(), sg = rsa_sign(k, m.alg.hash, t);
    if (!good) sg[3] ^= 1;
    return assemble(t, alg_id(m.alg), der::bits(sg));
  };
  static bool once = (store.addCertificate(parseCertificate(make("c38 anchor", "c38 anchor", true))), true);
  (void)once;
  size_t shape = g.raw(6), n = g.range(2, 3);
  static const char* shapes[] = {"a chain in reverse order", "a chain in order", "everyone signed by everyone", "forgeries of one name", "strangers", "a loop", "a path among forgeries"};
  uint64_t now = 0;
  { x509certificate c = parseCertificate(make("x", "y", true)); now = c.validity_start; }
  g.note("certificates ", n);
  linear(g, std::string("judging ") + shapes[shape], n, [&](size_t c) {
    auto name = [](size_t i) { return "c38 " + std::to_string(i); };
    std::vector<Bytes> l;
    if (c) switch (shape) {
      case 0: for (size_t i = 0; i < c; i++) l.push_back(make(name(c - i), i + 1 == c ? "c38 anchor" : name(c - i - 1), true)); std::reverse(l.begin() + 1, l.end()); break;
      case 1: for (size_t i = 0; i < c; i++) l.push_back(make(name(i), i + 1 == c ? "c38 anchor" : name(i + 1), true)); break;
      case 2: {
        size_t v = 1;
        while ((v + 1) * (v + 1) <= c) v++;
        l.push_back(make("c38 leaf", "c38 missing", true));
        for (size_t i = 0; i < c; i++) l.push_back(make(name(i % v), i / v == 0 ? "c38 anchor" : name(i / v), true));
        break;
      }
      case 3: l.push_back(make("c38 leaf", name(0), true)); for (size_t i = 0; i < c; i++) l.push_back(make(name(0), "c38 anchor", false)); break;
      case 4: for (size_t i = 0; i < c; i++) l.push_back(make(name(2 * i), name(2 * i + 1), true)); break;
      case 5: for (size_t i = 0; i < c; i++) l.push_back(make(name(i), name((i + 1) % c), true)); break;
      default:   // the forgeries come first each time
        l.push_back(make("c38 leaf", name(1), true));
        for (size_t i = 0; i < c; i++) l.push_back(make("c38 other " + std::to_string(i), "c38 anchor", false));
        for (size_t i = 0; i < c; i++) l.push_back(make(name(i + 1), i + 1 == c ? "c38 anchor" : name(i + 2), true));
    }
    auto parsed = std::make_shared<std::vector<Bytes>>(l);
    return [=, &store] {
      std::vector<x509certificate> certs;
      for (auto& d : *parsed) certs.push_back(parseCertificate(d));
      keep(store.trust(certs, now)); }; }, 8);
}

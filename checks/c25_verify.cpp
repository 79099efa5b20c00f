// C25: certificate verification against an issuer.
#include "certgen.h"

using namespace Caligo;

static x509certificate parsed(const Bytes& d) { Tight t(d); return parseCertificate(t); }
static const Key& pick_key(Gen& g, uint64_t id) { return key(g.pick<size_t>({1024, 1024, 768, 1016, 1032, 1021, 1023, 1025, 1102, 2047, 2048, 4096}), (int)g.weighted({300, 0, 1, 1, 1, 3, 1}), id); }

struct Pair { const Key* k; CertModel ca, m; Bytes caDer; };
static Pair gen_pair(Gen& g, bool nested = true) {
  Pair p;
  p.k = &pick_key(g, g.raw(1));
  p.ca.subject = g.coin() ? cn("ca") : gen_name(g);
  p.ca.spki = rsa_spki(p.k->n, p.k->e);
  uint64_t a = g.range(0, 4000000000), len = g.range(0, 2000000000);
  p.ca.from = When::of(a, g.coin());
  p.ca.to = When::of(a + len, g.coin());
  p.ca.v3 = g.coin();
  p.caDer = assemble(p.ca.tbs(), alg_id(p.ca.alg), der::bits(Bytes(64, 3)));
  p.m.v3 = g.coin();
  p.m.serial = gen_serial(g);
  p.m.issuer = g.coin() ? p.ca.subject : cn("other");
  p.m.subject = g.coin() ? cn("leaf") : gen_name(g);
  if (nested) {
    uint64_t s = g.weighted({1, 2}) ? g.range(0, len) : 0;
    uint64_t e = g.weighted({1, 2}) ? g.range(s, len) : len;
    p.m.from = When::of(a + s, g.coin());
    p.m.to = When::of(a + e, g.coin());
  }
  gen_tail(g, p.m);
  if (g.coin()) p.m.spki = other_spki(g); else { const Key& o = key(512, 0, 2); p.m.spki = rsa_spki(o.n, o.e); }
  p.m.alg = sig_algs()[g.raw(2)];
  if (g.chance(1, 5)) p.m.tbsLenOctets = g.range(3, 5);
  g.note("issuer key ", p.k->bits, " bits, ", p.m.alg.name, ", issuer ", p.ca.from.text(), "-", p.ca.to.text(), ", certificate ", p.m.from.text(), "-", p.m.to.text());
  return p;
}
// Parses what may be broken and verifies it: whatever happens, the answer must not be yes.
static void refused(const Bytes& der, x509certificate& issuer, const std::string& why) {
  x509certificate c;
  try { c = parsed(der); } catch (const std::exception&) { return; }
  bool v = true;
  v = c.verify(issuer);   // an exception here is a violation: the answer must be false
  CHECK(!v, "verified although " << why);
}

PROP(genuine, 2400, 50000) {
  Pair p = gen_pair(g);
  x509certificate ca = parsed(p.caDer), c = parsed(signed_cert(p.m, *p.k));
  CHECK(c.verify(ca), "a genuine certificate is refused");
  CHECK(c.verify(ca), "a genuine certificate is refused the second time");
  g.label(p.m.alg.name);
  g.label(p.m.tbsLenOctets ? "long length form" : "shortest length form");
  g.nontrivial();
}

PROP(validity, 2400, 50000) {
  Pair p = gen_pair(g, false);
  int64_t is = (int64_t)p.ca.from.seconds(), ie = (int64_t)p.ca.to.seconds();
  auto around = [&](int64_t x) {
    int64_t d = g.pick<int64_t>({0, 1, -1, 86400, -86400, 1000000000, -1000000000, 4294967296ll, -4294967296ll});
    return std::min<int64_t>(std::max<int64_t>(0, x + d), 253402300799ll);
  };
  p.m.from = When::of(around(g.chance(1, 4) ? ie : is), g.coin());
  p.m.to = When::of(around(g.chance(1, 4) ? is : ie), g.coin());
  bool want = (int64_t)p.m.from.seconds() >= is && (int64_t)p.m.to.seconds() <= ie;
  x509certificate ca = parsed(p.caDer), c = parsed(signed_cert(p.m, *p.k));
  CHECK(c.verify(ca) == want, "certificate " << p.m.from.text() << "-" << p.m.to.text() << " under issuer " << p.ca.from.text() << "-" << p.ca.to.text() << (want ? " is refused" : " is accepted"));
  g.label(want ? "nested" : "not nested");
  g.nontrivial();
}

PROP(altered, 5000, 120000) {
  Pair p = gen_pair(g);
  Bytes t = p.m.tbs(), aid = alg_id(p.m.alg), s = rsa_sign(*p.k, p.m.alg.hash, t);
  x509certificate ca = parsed(p.caDer);
  auto flip = [&](Bytes b, size_t from = 0) { if (b.size() > from) b[from + g.raw(b.size() - from - 1)] ^= (uint8_t)(1 << g.raw(7)); return b; };
  switch (g.weighted({6, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2, 1, 1, 1})) {
    case 0: g.label("signed part"); refused(assemble(flip(t), aid, der::bits(s)), ca, "a bit of the signed part was changed"); break;
    case 1: g.label("signature bit"); refused(assemble(t, aid, der::bits(flip(s))), ca, "a bit of the signature was changed"); break;
    case 2: {
      Bytes a = aid;
      a[4 + g.raw(p.m.alg.oid.size() - 1)] ^= (uint8_t)(1 << g.raw(7));
      g.label("algorithm bit");
      refused(assemble(t, a, der::bits(s)), ca, "the algorithm identifier was changed");
      break;
    }
    case 3: {
      const SigAlg& o = sig_algs()[g.raw(sig_algs().size() - 1)];
      if (o.oid == p.m.alg.oid) g.discard();
      g.label("other algorithm claimed");
      refused(assemble(t, alg_id(o), der::bits(s)), ca, std::string("made with ") + p.m.alg.name + " but claiming " + o.name);
      break;
    }
    case 4: {  // properly made under an algorithm that is not supported
      p.m.alg = sig_algs()[3 + g.raw(sig_algs().size() - 4)];
      g.label("unsupported algorithm");
      refused(signed_cert(p.m, *p.k), ca, std::string("the algorithm is ") + p.m.alg.name);
      break;
    }
    case 5: {
      const Key& o = key(p.k->bits, 0, 3);
      g.label("other key");
      refused(signed_cert(p.m, o), ca, "signed with another key");
      break;
    }
    case 6: {
      Bytes x = s;
      switch (g.weighted({2, 1, 1, 1, 1, 1})) {
        case 0: x.resize(g.raw(s.size() - 1)); break;
        case 1: x.insert(x.begin(), (uint8_t)0); break;
        case 2: x.push_back((uint8_t)g.raw(255)); break;
        case 3: x.erase(x.begin()); break;
        case 4: x = Bytes(s.size(), g.pick<uint8_t>({0, 0xff})); break;
        default: x.insert(x.begin(), 512, (uint8_t)0); break;
      }
      g.label("signature length");
      refused(assemble(t, aid, der::bits(x)), ca, "the signature has " + std::to_string(x.size()) + " bytes for a key of " + std::to_string(s.size()));
      break;
    }
    case 7: {
      Z v = Z::be(s) + p.k->n * Z(g.range(1, 3));
      g.label("signature plus modulus");
      refused(assemble(t, aid, der::bits(v.to_be(std::max<size_t>(p.k->k, (v.bits() + 7) / 8)))), ca, "the signature is not below the modulus");
      break;
    }
    case 8: {  // malformed outer structure
      Bytes body;
      switch (g.weighted({1, 1, 1, 1, 1, 1, 1, 1, 1})) {
        case 0: body = t; break;
        case 1: body = t + aid; break;
        case 2: body = t + aid + der::tlv(3, {}); break;
        case 3: body = t + aid + Bytes{3}; break;
        case 4: body = t + aid + der::tlv(g.pick<uint8_t>({4, 0x30, 2, 0x23}), Bytes{0} + s); break;
        case 5: body = t + der::tlv(g.pick<uint8_t>({0x31, 6, 4, 2}), Bytes(aid.begin() + 2, aid.end())) + der::bits(s); break;
        case 6: body = t + der::tlv(0x30, {}) + der::bits(s); break;
        case 7: body = t + der::bits(s); break;
        default: body = t + aid + der::bits(s, (uint8_t)g.range(1, 7)); break;
      }
      g.label("malformed signature part");
      refused(der::tlv(0x30, body), ca, "the signature part is malformed");
      break;
    }
    case 9: {
      CertModel o = p.ca;
      o.spki = other_spki(g);
      x509certificate noKey = parsed(assemble(o.tbs(), alg_id(o.alg), der::bits(Bytes(64, 3))));
      g.label("issuer without RSA key");
      refused(signed_cert(p.m, *p.k), noKey, "the issuer has no RSA key");
      break;
    }
    case 10: {
      x509certificate none{}, self = parsed(signed_cert(p.m, *p.k));
      g.label("empty objects");
      CHECK(!self.verify(none), "verified against an empty issuer");
      x509certificate empty{};
      empty.validity_start = self.validity_start;
      empty.validity_end = self.validity_end;
      CHECK(!empty.verify(ca), "an empty certificate verifies");
      break;
    }
    case 11: {  // the signature covers another certificate's signed part
      CertModel o = p.m;
      o.subject = cn("someone else");
      g.label("signature of another certificate");
      refused(assemble(t, aid, der::bits(rsa_sign(*p.k, p.m.alg.hash, o.tbs()))), ca, "the signature belongs to another certificate");
      break;
    }
    case 12: {  // made over something else than the signed part as encoded
      Bytes over;
      switch (g.weighted({1, 1, 1, 1})) {
        case 0: { size_t h = t.size() > 2 && (t[1] & 0x80) ? 2 + (t[1] & 0x7f) : 2; over = Bytes(t.begin() + h, t.end()); break; }  // without its header
        case 1: { CertModel o = p.m; o.tbsLenOctets = o.tbsLenOctets ? 0 : 4; over = o.tbs(); break; }                               // re-encoded
        case 2: over = t + aid; break;
        default: over = {}; break;
      }
      g.label("signature over other bytes");
      refused(assemble(t, aid, der::bits(rsa_sign(*p.k, p.m.alg.hash, over))), ca, "the signature is not over the signed part as encoded");
      break;
    }
    case 13: {  // issuer key changed
      Z n = p.k->n;
      mpz_combit(n.v, 1 + g.raw(p.k->bits - 2));
      CertModel o = p.ca;
      o.spki = rsa_spki(n, p.k->e);
      x509certificate ca2 = parsed(assemble(o.tbs(), alg_id(o.alg), der::bits(Bytes(64, 3))));
      g.label("issuer modulus changed");
      refused(signed_cert(p.m, *p.k), ca2, "the issuer's modulus was changed");
      break;
    }
    case 14: {  // encoded message not as RFC 8017 prescribes
      Bytes em = pkcs1_encode(p.m.alg.hash, t, p.k->k);
      size_t i = g.raw(em.size() - 1);
      if (i == 0 && em[0] == 0) em[0] = 0; 
      em[std::max<size_t>(i, 1)] ^= (uint8_t)(1 << g.raw(7));
      g.label("bad padding");
      refused(assemble(t, aid, der::bits(rsa_raw(em, p.k->d, *p.k))), ca, "the encoded message is not the prescribed one");
      break;
    }
    default: {  // the certificate itself is not trusted through its own key
      const Key& o = key(1024, 0, 4);
      p.m.spki = rsa_spki(o.n, o.e);
      g.label("self-signed under other issuer");
      refused(signed_cert(p.m, o), ca, "it is signed with its own key, not the issuer's");
      break;
    }
  }
  g.nontrivial();
}

// One after another: certificates and issuers that have something in common with the ones judged before.
PROP(sequences, 700, 15000) {
  Pair p = gen_pair(g);
  const Key& other = key(p.k->bits, 0, 3);
  CertModel twin = p.m, ca2 = p.ca, ca3 = p.ca, ca4 = p.ca;
  twin.serial = p.m.serial;
  twin.serial.back() ^= (uint8_t)g.range(1, 127);
  Bytes t = p.m.tbs(), aid = alg_id(p.m.alg), s = rsa_sign(*p.k, p.m.alg.hash, t), flipped = s;
  flipped[g.raw(s.size() - 1)] ^= (uint8_t)(1 << g.raw(7));
  ca2.spki = rsa_spki(other.n, other.e);
  Z n = p.k->n;
  mpz_combit(n.v, 1 + g.raw(p.k->bits - 2));
  ca3.spki = rsa_spki(n, p.k->e);
  ca4.to = p.ca.from;                                        // the issuer's key with another validity
  if (ca4.to.seconds() >= p.m.to.seconds()) ca4 = ca3;
  struct Case { const char* what; Bytes der; bool good; };
  std::vector<Case> certs = {{"genuine", signed_cert(p.m, *p.k), true}, {"another certificate with the same signature", assemble(twin.tbs(), aid, der::bits(s)), false},
                             {"a changed signature", assemble(t, aid, der::bits(flipped)), false}, {"signed by another key", signed_cert(p.m, other), false}, {"genuine twin", signed_cert(twin, *p.k), true}};
  std::vector<x509certificate> cas, kept;
  for (auto* c : {&p.ca, &ca2, &ca3, &ca4}) cas.push_back(parsed(assemble(c->tbs(), alg_id(c->alg), der::bits(Bytes(64, 3)))));
  for (auto& c : certs) kept.push_back(parsed(c.der));
  for (size_t i = 0, steps = g.range(2, 8); i < steps; i++) {
    size_t c = g.weighted({3, 2, 1, 1, 1}), k = g.weighted({4, 1, 1, 1});
    bool want = k == 0 ? certs[c].good : k == 1 && c == 3, got;
    if (g.coin()) { x509certificate x = parsed(certs[c].der); got = x.verify(cas[k]); } else got = kept[c].verify(cas[k]);
    g.note(certs[c].what, " under issuer ", k);
    CHECK(got == want, "in a sequence, a certificate (" << certs[c].what << ") is " << (got ? "accepted" : "refused") << " under issuer " << k);
  }
  g.label("sequence of judgements");
  g.nontrivial();
}

#include "big.h"
#include <caligo/x25519.h>
#include <openssl/evp.h>

static const Z& P() { static Z p = ref::pow2(255) - Z(19); return p; }
static Bytes ladder(const Bytes& scalar, const Bytes& uin) {  // RFC 7748 section 5, literally
  Bytes kb = scalar, ub = uin;
  kb[0] &= 248; kb[31] &= 127; kb[31] |= 64;
  ub[31] &= 127;
  Z k = Z::le(kb), u = Z::le(ub) % P(), x1 = u, x2(1), z2(0), x3 = u, z3(1);
  bool swap = false;
  auto mul = [](const Z& a, const Z& b) { return (a * b) % P(); };
  auto sub = [](const Z& a, const Z& b) { return (a - b) % P(); };
  auto add = [](const Z& a, const Z& b) { return (a + b) % P(); };
  for (int t = 254; t >= 0; t--) {
    bool kt = mpz_tstbit(k.v, t);
    if (swap ^ kt) { mpz_swap(x2.v, x3.v); mpz_swap(z2.v, z3.v); }
    swap = kt;
    Z A = add(x2, z2), AA = mul(A, A), B = sub(x2, z2), BB = mul(B, B), E = sub(AA, BB), C = add(x3, z3), D = sub(x3, z3), DA = mul(D, A), CB = mul(C, B);
    Z s = add(DA, CB), d = sub(DA, CB);
    x3 = mul(s, s);
    z3 = mul(x1, mul(d, d));
    x2 = mul(AA, BB);
    z2 = mul(E, add(AA, mul(Z(121665), E)));
  }
  if (swap) { mpz_swap(x2.v, x3.v); mpz_swap(z2.v, z3.v); }
  return mul(x2, ref::powm(z2, P() - Z(2), P())).to_le(32);
}
static Bytes openssl(const Bytes& k, const Bytes& u) {  // empty when OpenSSL refuses (all-zero result)
  EVP_PKEY* a = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, k.data(), 32);
  EVP_PKEY* b = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, u.data(), 32);
  EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(a, nullptr);
  Bytes r(32);
  size_t n = 32;
  bool ok = EVP_PKEY_derive_init(c) > 0 && EVP_PKEY_derive_set_peer(c, b) > 0 && EVP_PKEY_derive(c, r.data(), &n) > 0;
  EVP_PKEY_CTX_free(c);
  EVP_PKEY_free(a);
  EVP_PKEY_free(b);
  return ok ? r : Bytes{};
}
static Caligo::ec_value ec(const Bytes& b) { return Caligo::ec_value(Caligo::bignum<256>(std::span<const uint8_t>(b))); }
static Bytes lib(const Bytes& k, const Bytes& u) { return Caligo::X25519(ec(k), ec(u)).as_bytes(); }

static Bytes scalar(Gen& g) {
  switch (g.weighted({6, 1, 1, 1, 1})) {
    case 0: return g.noise(32);
    case 1: return Bytes(32, 0);
    case 2: return Bytes(32, 0xFF);
    case 3: { Bytes b(32, 0); b[g.raw(31)] = (uint8_t)(1u << g.raw(7)); return b; }
    default: { Bytes b; for (uint32_t w : gen_words(g, 8)) for (int i = 0; i < 4; i++) b.push_back((uint8_t)(w >> (8 * i))); return b; }
  }
}
static Bytes ucoord(Gen& g) {
  static const std::vector<Z> low = {Z(0), Z(1), Z::hex("00b8495f16056286fdb1329ceb8d09da6ac49ff1fae35616aeb8413b7c7aebe0"), Z::hex("57119fd0dd4e22d8868e1c58c45c44045bef839c55b1d0b1248c50a3bc959c5f")};
  Z u;
  switch (g.weighted({6, 2, 2, 2, 1, 1})) {
    case 0: return g.noise(32);
    case 1: u = low[g.raw(3)]; g.label("low order"); break;
    case 2: u = P() + Z(g.raw(18)); g.label("non-canonical"); break;
    case 3: u = P() - Z(1 + g.raw(30)); break;
    case 4: u = zw(gen_words(g, 8)); break;
    default: u = Z(g.raw(30)); break;
  }
  if (g.chance(1, 3)) { u = u % ref::pow2(255); mpz_setbit(u.v, 255); g.label("top bit set"); }
  return u.to_le(32);
}
PROP(matches_rfc7748, 2500, 80000) {
  Bytes k = scalar(g), u = ucoord(g);
  g.note_hex("scalar", k);
  g.note_hex("u", u);
  g.nontrivial();
  Bytes want = ladder(k, u), o = openssl(k, u);
  if (!o.empty()) CHECK(o == want, "oracles disagree");
  else CHECK(Z::le(want).zero(), "oracles disagree on a low-order result");
  g.label(o.empty() ? "all-zero result" : "ordinary result");
  pbt::check_bytes(lib(k, u), want, "X25519");
}
PROP(shared_secret_agrees, 600, 20000) {
  Bytes a = scalar(g), b = scalar(g), nine(32, 0);
  nine[0] = 9;
  g.note_hex("a", a);
  g.note_hex("b", b);
  g.label("key agreement");
  g.nontrivial();
  Bytes pa = lib(a, nine), pb = lib(b, nine);
  pbt::check_bytes(pa, ladder(a, nine), "public key");
  Bytes s1 = lib(a, pb), s2 = lib(b, pa);
  pbt::check_bytes(s1, s2, "the two parties' shared secrets");
}
PROP(iterated, 24, 1000) {  // feeds results back as scalar and coordinate
  Bytes k(32, 0), u(32, 0);
  k[0] = u[0] = 9;
  if (g.coin()) { k = scalar(g); u = ucoord(g); }
  size_t n = g.range(5, 60);
  g.note("iterations ", n);
  g.label("iterated");
  g.nontrivial();
  for (size_t i = 0; i < n; i++) {
    Bytes w = ladder(k, u), r = lib(k, u);
    pbt::check_bytes(r, w, "iteration " + std::to_string(i));
    u = k;
    k = r;
  }
}
PROP(generated_keys_are_clamped, 4000, 100000) {
  bool queued = g.coin();
  Bytes raw;
  if (queued) {
    Caligo::testValues.clear();
    std::vector<uint64_t> q;
    for (int i = 0; i < 4; i++) q.push_back(g.edge64());
    for (auto v : q) for (int i = 0; i < 8; i++) raw.push_back((uint8_t)(v >> (8 * i)));
    for (size_t i = q.size(); i-- > 0;) Caligo::testValues.push_back(q[i]);
  }
  g.note("queued ", queued);
  g.note_hex("random bytes", raw);
  g.label(queued ? "chosen random bytes" : "generator");
  g.nontrivial();
  Bytes k = Caligo::ec_value::random_private_key().as_bytes();
  Caligo::testValues.clear();
  CHECK(k.size() == 32 && (k[0] & 7) == 0 && (k[31] & 0xC0) == 0x40, "generated key is not a clamped scalar: " << pbt::hex(k));
  if (queued) { raw[0] &= 248; raw[31] &= 127; raw[31] |= 64; pbt::check_bytes(k, raw, "generated key uses the random bytes"); }
  Bytes s = scalar(g), t = s;
  auto e = ec(s);
  e.normalize();
  t[0] &= 248; t[31] &= 127; t[31] |= 64;
  pbt::check_bytes(e.as_bytes(), t, "clamping");
}

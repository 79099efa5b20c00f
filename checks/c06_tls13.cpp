#include "hashes.h"
#include <caligo/aes.h>
#include <caligo/hkdf.h>

template <class H> struct T;
template <> struct T<Caligo::SHA2<256>> { static constexpr const char* n = "SHA256"; static constexpr size_t b = 64; };
template <> struct T<Caligo::SHA2<384>> { static constexpr const char* n = "SHA384"; static constexpr size_t b = 128; };

// RFC 8446 section 7.1
static Bytes label(const char* h, size_t block, const Bytes& secret, const std::string& l, const Bytes& ctx, size_t len) {
  Bytes info = {(uint8_t)(len >> 8), (uint8_t)len};
  std::string full = "tls13 " + l;
  info.push_back((uint8_t)full.size());
  info.insert(info.end(), full.begin(), full.end());
  info.push_back((uint8_t)ctx.size());
  info.insert(info.end(), ctx.begin(), ctx.end());
  return ref::hkdf_expand(h, block, secret, info, len);
}
template <class A> static Bytes vec(const A& a) { return Bytes(a.begin(), a.end()); }

template <class H> static void schedule(Gen& g) {
  const char* n = T<H>::n;
  size_t b = T<H>::b, hs = H::hashsize;
  Bytes shared = g.chance(1, 2) ? g.bytes(32) : g.blob(200, 32), th = g.chance(3, 4) ? g.bytes(hs) : g.blob(255, hs);
  g.note(n);
  g.note_hex("shared", shared);
  g.note_hex("transcript hash", th);
  g.label(n);
  g.nontrivial();
  Bytes zero(hs, 0), emptyHash = ref::digest(n, {});
  Bytes early = ref::hmac(n, b, zero, zero);
  Bytes handshake = ref::hmac(n, b, label(n, b, early, "derived", emptyHash, hs), shared);
  Bytes master = ref::hmac(n, b, label(n, b, handshake, "derived", emptyHash, hs), zero);
  auto h = Caligo::HKDF_HandshakeSecret<H>(shared);
  pbt::check_bytes(h.data, handshake, std::string(n) + " handshake secret");
  auto m = Caligo::HKDF_MasterSecret<H>(h);
  pbt::check_bytes(m.data, master, std::string(n) + " master secret");
  pbt::check_bytes(h.data, handshake, "handshake secret unchanged by deriving the master secret");
  for (int isMaster = 0; isMaster < 2; isMaster++)
    for (bool client : {true, false})
      for (bool hsk : {true, false}) {
        auto& s = isMaster ? m : h;
        const Bytes& S = isMaster ? master : handshake;
        std::string l = std::string(client ? "c " : "s ") + (hsk ? "hs" : "ap") + " traffic";
        Bytes ts = label(n, b, S, l, th, hs);
        pbt::check_bytes(s.get_traffic_secret(th, client, hsk), ts, std::string(n) + " " + l);
        auto k1 = s.template get_key_iv<Caligo::AES<128>>(th, client, hsk);
        pbt::check_bytes(k1.key, label(n, b, ts, "key", {}, 16), l + " AES-128 key");
        pbt::check_bytes(k1.iv, label(n, b, ts, "iv", {}, 12), l + " AES-128 iv");
        auto k2 = s.template get_key_iv<Caligo::AES<256>>(th, client, hsk);
        pbt::check_bytes(k2.key, label(n, b, ts, "key", {}, 32), l + " AES-256 key");
        pbt::check_bytes(k2.iv, label(n, b, ts, "iv", {}, 12), l + " AES-256 iv");
        if (!hsk) {
          auto k3 = s.template get_key_iv<Caligo::AES<128>>(th, client);  // default: application keys
          pbt::check_bytes(k3.key, label(n, b, ts, "key", {}, 16), l + " default phase key");
        } else
          pbt::check_bytes(s.get_finished_key(th, client), label(n, b, ts, "finished", {}, hs), l + " finished key");
      }
  Caligo::secret<H> u = m;
  Bytes U = master;
  size_t rounds = g.range(1, 3);
  for (size_t i = 0; i < rounds; i++) {
    u = Caligo::HKDF_UpdateSecret<H>(u);
    U = label(n, b, U, "traffic upd", {}, hs);
    pbt::check_bytes(u.data, U, std::string(n) + " updated traffic secret");
  }
  pbt::check_bytes(Caligo::exporter_master<H>(m, th), label(n, b, master, "exp master", th, hs), std::string(n) + " exporter master secret");
  pbt::check_bytes(Caligo::resumption_master<H>(m, th), label(n, b, master, "res master", th, hs), std::string(n) + " resumption master secret");
}
template <class H> static void labelled(Gen& g) {
  const char* n = T<H>::n;
  size_t hs = H::hashsize;
  Bytes secret = g.chance(2, 3) ? g.bytes(hs) : g.blob(200, hs), ctx = g.blob(255, hs);
  std::string l = g.ascii(g.chance(1, 10) ? 249 - g.raw(3) : g.raw(24), "abcdefghijklmnopqrstuvwxyz 0123456789");
  size_t len = g.chance(1, 6) ? std::min<size_t>(g.range(250, 700), 255 * hs) : g.raw(3 * hs);
  if (g.chance(1, 20)) len = 255 * hs - g.raw(40);
  g.note(n, " label '", l, "' len ", len);
  g.note_hex("secret", secret);
  g.note_hex("context", ctx);
  g.label(len > 255 ? "length needs two octets" : "length below 256");
  if (len) g.nontrivial();
  pbt::check_bytes(Caligo::HKDF_Expand_Label<H>(secret, l, ctx, len), label(n, T<H>::b, secret, l, ctx, len), std::string(n) + " HKDF-Expand-Label");
}
PROP(key_schedule, 1200, 40000) { if (g.coin()) schedule<Caligo::SHA2<384>>(g); else schedule<Caligo::SHA2<256>>(g); }
PROP(expand_label, 6000, 200000) { if (g.coin()) labelled<Caligo::SHA2<384>>(g); else labelled<Caligo::SHA2<256>>(g); }

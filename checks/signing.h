#pragma once
#include "ops.h"
#include <barrier>
#include <thread>

// Signing in several threads, with one parsed key per thread or one for all (C29, C31). The salt comes from the shared random source.
static void signing(Gen& g, size_t maxThreads, size_t maxSigns, bool oneKey) {
  static const struct { uint16_t id; bool pss; const char* md; size_t hl; } schemes[] = {
    {0x0401, false, "SHA256", 32}, {0x0501, false, "SHA384", 48}, {0x0601, false, "SHA512", 64}, {0x0804, true, "SHA256", 32}, {0x0805, true, "SHA384", 48},
    {0x0806, true, "SHA512", 64}, {0x0809, true, "SHA256", 32}, {0x080a, true, "SHA384", 48}, {0x080b, true, "SHA512", 64}};
  size_t T = g.range(2, maxThreads), signs = g.range(1, maxSigns);
  std::vector<std::vector<unsigned>> what(T);
  std::vector<Bytes> file(T), msg(T);
  std::vector<const Key*> k(T);
  for (size_t t = 0; t < T; t++) {
    k[t] = oneKey && t ? k[0] : &key(1096, 0, 1 + g.raw(2));
    file[t] = key_file(*k[t]);
    msg[t] = g.noise(g.range(0, 100));
    for (size_t i = 0; i < signs; i++) {
      what[t].push_back((unsigned)g.weighted({1, 1, 1, 2, 2, 2, 2, 2, 2}));
      g.note("thread ", t, ": scheme ", schemes[what[t].back()].id);
    }
  }
  std::vector<std::vector<Bytes>> sig(T);
  std::vector<std::string> trouble(T);
  std::barrier start((ptrdiff_t)T);
  std::unique_ptr<PrivateKey> common = oneKey ? parsePrivateKey(file[0]) : nullptr;
  const PrivateKey* shared = common.get();
  std::vector<std::thread> th;
  for (size_t t = 0; t < T; t++)
    th.emplace_back([&, t] {
      try {
        std::unique_ptr<PrivateKey> own = shared ? nullptr : parsePrivateKey(file[t]);
        const PrivateKey* priv = shared ? shared : own.get();
        start.arrive_and_wait();
        for (unsigned w : what[t]) sig[t].push_back(priv->sign((Tls13SignatureScheme)schemes[w].id, msg[t]));
      } catch (const std::exception& e) { trouble[t] = e.what(); start.arrive_and_drop(); }
    });
  for (auto& x : th) x.join();
  std::map<Bytes, size_t> seen;
  for (size_t t = 0; t < T; t++) {
    CHECK(trouble[t].empty(), "thread " << t << " threw: " << trouble[t]);
    for (size_t i = 0; i < signs; i++) {
      auto& s = schemes[what[t][i]];
      Bytes em = ref::powm(Z::be(sig[t][i]), k[t]->e, k[t]->n).to_be(k[t]->k);
      if (!s.pss) { pbt::check_bytes(em, pkcs1_encode(algo_index(s.md), msg[t], k[t]->k), "signed block in thread " + std::to_string(t)); continue; }
      CHECK(pss_verify(s.md, ref::digest(s.md, msg[t]), em, k[t]->bits - 1, s.hl), "an independent verifier refuses the signature (scheme " << s.id << ") made in thread " << t);
      Bytes db(em.begin(), em.begin() + (em.size() - s.hl - 1)), H(em.end() - 1 - s.hl, em.end() - 1), mask = mgf1(s.md, H, db.size());
      Bytes salt;
      for (size_t n = db.size() - s.hl; n < db.size(); n++) salt.push_back(db[n] ^ mask[n]);
      auto [it, fresh] = seen.emplace(Bytes(salt.begin(), salt.begin() + 32), t);
      CHECK(fresh, "a signature of thread " << t << " has the salt of one of thread " << it->second);
    }
  }
  g.label("signing");
  g.nontrivial();
}

// C29: programs of independent operations in several threads, compared with running alone; race detector.
#include "ops.h"
#include <atomic>
#include <barrier>
#include <thread>
#include "signing.h"

static void programs(Gen& g, size_t maxThreads, size_t maxSteps) {
  size_t T = g.range(2, maxThreads), steps = g.range(1, maxSteps);
  bool alike = g.coin();
  size_t common = g.raw(ops().size() - 1);
  struct Step { size_t op; uint64_t seed; };
  std::vector<std::vector<Step>> prog(T);
  bool draws = g.coin();
  for (size_t t = 0; t < T; t++)
    for (size_t i = 0; i < steps; i++) {
      Step s{alike ? common : g.raw(ops().size() - 1), g.raw(0xffff)};
      prog[t].push_back(s);
      g.note("thread ", t, ": ", ops()[s.op].name, "(", s.seed, ")");
      g.label(ops()[s.op].name);
    }
  bool aloneFirst = g.coin();
  unsigned rounds = 2;
  std::vector<std::vector<Bytes>> alone(T);
  auto runAlone = [&] { for (size_t t = 0; t < T; t++) for (auto& s : prog[t]) alone[t].push_back(ops()[s.op].op(s.seed)); };
  if (aloneFirst) runAlone();
  std::vector<std::vector<Bytes>> got(T);
  std::vector<std::vector<uint64_t>> drawn(T);
  std::vector<std::string> trouble(T);
  std::barrier start((ptrdiff_t)T);
  std::vector<std::thread> th;
  for (size_t t = 0; t < T; t++)
    th.emplace_back([&, t] {
      try {
        for (unsigned r = 0; r < rounds; r++) {
          start.arrive_and_wait();
          for (auto& s : prog[t]) {
            got[t].push_back(ops()[s.op].op(s.seed));
            if (draws) {
              for (int i = 0; i < 8; i++) drawn[t].push_back(generate_random_value());
              std::array<uint64_t, 4> a;
              generate_random(std::span<uint64_t>(a));
              drawn[t].insert(drawn[t].end(), a.begin(), a.end());
            }
          }
        }
      } catch (const std::exception& e) { trouble[t] = e.what(); start.arrive_and_drop(); }
    });
  for (auto& x : th) x.join();
  if (!aloneFirst) runAlone();
  for (size_t t = 0; t < T; t++) {
    CHECK(trouble[t].empty(), "thread " << t << " threw: " << trouble[t]);
    for (unsigned r = 0; r < rounds; r++)
      for (size_t i = 0; i < steps; i++) pbt::check_bytes(got[t][r * steps + i], alone[t][i], std::string(ops()[prog[t][i].op].name) + " in thread " + std::to_string(t));
  }
  std::map<uint64_t, size_t> seen;
  for (size_t t = 0; t < T; t++)
    for (uint64_t v : drawn[t]) {
      auto [it, fresh] = seen.emplace(v, t);
      CHECK(fresh, "the random value " << v << " was delivered to thread " << it->second << " and again to thread " << t);
    }
  g.label(std::to_string(T) + " threads");
  g.nontrivial();
}
#ifdef PBT_FAST
PROP(programs_unmonitored, 6000, 120000) { programs(g, 6, 8); }
#else
PROP(programs_monitored, 1600, 30000) { programs(g, 4, 5); }
#endif

// Random and key generation from many threads at once.
PROP(randomness, 600, 12000) {
  size_t T = g.range(2, 6), n = g.range(1, 60);
  std::vector<std::vector<Bytes>> out(T);
  std::vector<unsigned> kinds;
  for (size_t t = 0; t < T; t++) kinds.push_back((unsigned)g.raw(6));
  std::barrier start((ptrdiff_t)T);
  std::vector<std::thread> th;
  std::atomic<bool> composite = false;
  for (size_t t = 0; t < T; t++)
    th.emplace_back([&, t] {
      start.arrive_and_wait();
      for (size_t i = 0; i < (kinds[t] == 6 ? 1 : n); i++) {
        Bytes b(16);
        switch (kinds[t]) {
          case 0: generate_random(std::span<uint8_t>(b)); break;
          case 1: { std::array<uint32_t, 4> a; generate_random(std::span<uint32_t>(a)); memcpy(b.data(), a.data(), 16); break; }
          case 2: { std::array<uint16_t, 8> a; generate_random(std::span<uint16_t>(a)); memcpy(b.data(), a.data(), 16); break; }
          case 3: b = vec(bignum<128>::random().as_bytes()); break;
          case 4: b = vec(ec_value::random_private_key().as_bytes()); break;
          case 6: if (!prime_from_random(b)) composite = true; break;
          default: { uint64_t v[2] = {generate_random_value(), generate_random_value()}; memcpy(b.data(), v, 16); break; }
        }
        out[t].push_back(b);
      }
    });
  for (auto& x : th) x.join();
  CHECK(!composite, "a generated prime is composite");
  std::map<Bytes, size_t> seen;
  for (size_t t = 0; t < T; t++)
    for (auto& b : out[t]) {
      Bytes k(b.begin() + 1, b.begin() + 8);   // private keys have fixed bits in the first octet
      auto [it, fresh] = seen.emplace(k, t);
      CHECK(fresh, "the same random output was delivered to thread " << it->second << " and to thread " << t);
    }
  g.nontrivial();
}

#ifdef PBT_FAST
PROP(signing_unmonitored, 64, 1200) { signing(g, 4, 3, false); }
#else
PROP(signing_monitored, 12, 300) { signing(g, 3, 1, false); }
#endif

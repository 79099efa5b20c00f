#include "big.h"
#include <cmath>
#include <caligo/random.h>
#include <caligo/x25519.h>

static void queue(const std::vector<uint64_t>& inOrder) {  // so that they are delivered in this order
  Caligo::testValues.assign(inOrder.rbegin(), inOrder.rend());
}
template <class T> static std::vector<T> fill(size_t n) {
  std::unique_ptr<T[]> p(new T[n]);  // exact allocation: anything outside is caught by the sanitizer
  for (size_t i = 0; i < n; i++) p[i] = (T)0x5A5A5A5A5A5A5A5AULL;
  Caligo::generate_random(std::span<T>(p.get(), n));
  return std::vector<T>(p.get(), p.get() + n);
}
template <class T> static std::vector<T> model(std::vector<uint64_t>& stream, size_t& pos, size_t n) {
  std::vector<T> r;
  constexpr size_t per = 8 / sizeof(T);
  for (size_t i = 0; i < n; i++) {
    if (i % per == 0) pos++;
    r.push_back((T)(stream[pos - 1] >> (8 * sizeof(T) * (i % per) % 64)));
  }
  return r;
}
template <class T> static void request(Gen& g, std::vector<uint64_t>& stream, size_t& pos, size_t n) {
  auto got = fill<T>(n);
  auto want = model<T>(stream, pos, n);
  g.note(n, " x ", sizeof(T) * 8, " bits");
  for (size_t i = 0; i < n; i++)
    CHECK(got[i] == want[i], "element " << i << " of a request for " << n << " values of " << sizeof(T) * 8 << " bits is " << std::hex << (uint64_t)got[i] << ", expected " << (uint64_t)want[i]);
  CHECK(Caligo::testValues.size() == stream.size() - pos, "after a request for " << n << " values of " << sizeof(T) * 8 << " bits " << Caligo::testValues.size() << " queued values remain, expected " << stream.size() - pos);
}
PROP(requests_in_order, 12000, 400000) {
  std::vector<uint64_t> stream(200);
  for (auto& v : stream) v = 0;
  Bytes r = g.noise(1600);
  memcpy(stream.data(), r.data(), 1600);
  queue(stream);
  size_t pos = 0, steps = g.range(1, 8);
  for (size_t i = 0; i < steps; i++) {
    size_t kind = g.raw(5), n = g.len(kind == 3 ? 12 : 60, 8);
    if (pos + (n + 1) * 8 > 190 && pos + 34 > 190) break;
    switch (kind) {
      case 0: if (pos + n / 8 + 1 > 190) break; request<uint8_t>(g, stream, pos, n); break;
      case 1: if (pos + n / 4 + 1 > 190) break; request<uint16_t>(g, stream, pos, n); break;
      case 2: if (pos + n / 2 + 1 > 190) break; request<uint32_t>(g, stream, pos, n); break;
      case 3: if (pos + n + 1 > 190) break; request<uint64_t>(g, stream, pos, n); break;
      case 4: {
        if (pos + 20 > 190) break;
        auto w = model<uint32_t>(stream, pos, 8);
        auto b = Caligo::bignum<256>::random();
        CHECK(words(b) == w, "random 256-bit number is " << zb(b).str());
        g.note("bignum<256>");
        break;
      }
      default: {
        if (pos + 20 > 190) break;
        auto w = model<uint32_t>(stream, pos, 5);
        auto b = Caligo::bignum<160>::random();
        CHECK(words(b) == w, "random 160-bit number is " << zb(b).str());
        g.note("bignum<160>");
      }
    }
  }
  Caligo::testValues.clear();
  g.label("histories of requests");
  if (pos > 1) g.nontrivial();
}
PROP(every_length, 2000, 12000) {
  size_t which = g.walk(4), n = g.walk(70), pos = 0;
  std::vector<uint64_t> stream(80);
  for (auto& v : stream) v = g.u64();
  queue(stream);
  g.label("walked lengths");
  if (n) g.nontrivial();
  switch (which) {
    case 0: request<uint8_t>(g, stream, pos, n); break;
    case 1: request<uint16_t>(g, stream, pos, n); break;
    case 2: request<uint32_t>(g, stream, pos, n); break;
    default: request<uint64_t>(g, stream, pos, n);
  }
  Caligo::testValues.clear();
}
PROP(wide_numbers, 600, 20000) {  // every word of every width comes from the stream
  std::vector<uint64_t> stream(70);
  for (auto& v : stream) v = g.u64();
  auto run = [&](auto w) {
    constexpr size_t B = decltype(w)::value;
    queue(stream);
    size_t pos = 0;
    auto want = model<uint32_t>(stream, pos, B / 32);
    CHECK(words(Caligo::bignum<B>::random()) == want, "random number of " << B << " bits");
    CHECK(Caligo::testValues.size() == stream.size() - pos, "values consumed for " << B << " bits");
  };
  run(std::integral_constant<size_t, 32>{}); run(std::integral_constant<size_t, 64>{}); run(std::integral_constant<size_t, 96>{}); run(std::integral_constant<size_t, 512>{});
  run(std::integral_constant<size_t, 1024>{}); run(std::integral_constant<size_t, 4096>{});
  Caligo::testValues.clear();
  g.note("first ", stream[0]);
  g.label("wide numbers");
  g.nontrivial();
}
// The queue is used up first; then the generator proper continues and the queue stays empty.
PROP(queue_then_generator, 3000, 60000) {
  size_t q = g.raw(6), n = q + g.range(1, 10);
  std::vector<uint64_t> stream(q);
  for (auto& v : stream) v = g.u64();
  queue(stream);
  auto got = fill<uint64_t>(n);
  g.note(q, " queued, ", n, " requested");
  g.label("queue exhausted");
  g.nontrivial();
  for (size_t i = 0; i < q; i++) CHECK(got[i] == stream[i], "queued value " << i);
  CHECK(Caligo::testValues.empty(), "queue not empty");
  for (size_t i = q; i < n; i++) CHECK(got[i] != 0x5A5A5A5A5A5A5A5AULL, "value " << i << " not filled");
  auto more = fill<uint8_t>(64), again = fill<uint8_t>(64);
  CHECK(more != again, "two requests delivered the same 64 bytes");
  bool untouched = true;
  for (auto b : more) if (b != 0x5A) untouched = false;
  CHECK(!untouched, "buffer not filled");
}
// Statistics of the generator proper; all thresholds are beyond 8 standard deviations.
template <class T> static std::vector<uint64_t> draws(Gen& g, size_t n) {
  std::vector<uint64_t> v;
  while (v.size() < n) {
    size_t k = std::min<size_t>(n - v.size(), g.range(1, 200));
    for (auto x : fill<T>(k)) v.push_back(x);
  }
  return v;
}
static void stats(const std::vector<uint64_t>& v, unsigned bits, const std::string& what) {
  size_t n = v.size();
  double sd = std::sqrt((double)n) / 2, lim = 8 * sd;
  for (unsigned i = 0; i < bits; i++) {
    size_t ones = 0, same = 0;
    for (size_t k = 0; k < n; k++) ones += v[k] >> i & 1;
    for (size_t k = 1; k < n; k++) same += ~(v[k] ^ v[k - 1]) >> i & 1;
    CHECK(std::abs((double)ones - n / 2.0) < lim, what << ": bit " << i << " is one in " << ones << " of " << n);
    CHECK(std::abs((double)same - n / 2.0) < lim, what << ": bit " << i << " repeats in " << same << " of " << n << " successive values");
    for (unsigned j = 0; j < i; j++) {
      size_t eq = 0;
      for (size_t k = 0; k < n; k++) eq += ~((v[k] >> i) ^ (v[k] >> j)) & 1;
      CHECK(std::abs((double)eq - n / 2.0) < lim, what << ": bits " << j << " and " << i << " agree in " << eq << " of " << n);
    }
  }
}
PROP(generator_distribution, 12, 600) {
  Caligo::testValues.clear();
  size_t skip = g.raw(5000);
  fill<uint64_t>(skip);
  switch (g.walk(4)) {
    case 0: {
      auto v = draws<uint64_t>(g, 4096);
      stats(v, 64, "64-bit values");
      auto s = v;
      std::sort(s.begin(), s.end());
      CHECK(std::adjacent_find(s.begin(), s.end()) == s.end(), "a 64-bit value was delivered twice among 4096");
      break;
    }
    case 1: stats(draws<uint32_t>(g, 8192), 32, "32-bit values"); break;
    case 2: stats(draws<uint16_t>(g, 8192), 16, "16-bit values"); break;
    default: {
      auto v = draws<uint8_t>(g, 65536);
      stats(v, 8, "8-bit values");
      std::vector<size_t> c(256);
      for (auto x : v) c[x]++;
      for (int i = 0; i < 256; i++) CHECK(c[i] > 256 - 8 * 16 && c[i] < 256 + 10 * 16, "byte value " << i << " appears " << c[i] << " times in 65536");
    }
  }
  g.note("after ", skip, " values");
  g.label("distribution");
  g.nontrivial();
}
// No repetition within a long run of the generator.
PROP(no_cycles, 1, 12) {
  Caligo::testValues.clear();
  auto v = fill<uint64_t>(200000 + g.raw(1000));
  std::sort(v.begin(), v.end());
  g.note("values ", v.size());
  g.label("cycle search");
  g.nontrivial();
  CHECK(std::adjacent_find(v.begin(), v.end()) == v.end(), "a 64-bit value was delivered twice among " << v.size());
}

// Choice-sequence property-based testing engine.
//
// A property draws every random decision through Gen, which records it.  A failing case is the list of
// its decisions: shrinking edits that list and re-runs the property, and a replay file stores it.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

using Bytes = std::vector<uint8_t>;

// Deliberately not derived from std::exception: property code that catches std::exception around the
// code under test must not swallow a verdict.
struct Fail { std::string msg; };
struct Discard {};

std::string hex(std::span<const uint8_t> b, size_t max = 96);

struct Shm;  // per-batch record shared with the parent process

class Gen {
public:
  // --- decisions -------------------------------------------------------------------------------
  uint64_t raw(uint64_t maxInclusive);
  // Enumerates: successive cases of a stream walk through all values (mixed radix over several calls).
  uint64_t walk(uint64_t count);
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + raw(hi - lo); }  // shrinks towards lo
  bool coin() { return raw(1); }
  bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; }  // shrinks to false
  // Picks an index according to weights; shrinks towards index 0.
  size_t weighted(std::initializer_list<unsigned> w);
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size() - 1)); }
  template <class T> const T& pick(const std::vector<T>& l) { return l[raw(l.size() - 1)]; }
  uint64_t u64() { return raw(~0ULL); }
  uint64_t edge64();  // biased to 0, 1, powers of two +-1, all ones
  uint32_t edge32();
  // A length in [0,max]: small ones, ones at/around multiples of `unit`, and arbitrary ones.
  size_t len(size_t max, size_t unit = 16);
  // Contents: zeros / constant / pattern / pseudo-random from one seed / individually drawn bytes.
  Bytes bytes(size_t n);
  Bytes blob(size_t max, size_t unit = 16) { return bytes(len(max, unit)); }
  std::string ascii(size_t n, std::string_view alphabet);
  // Pseudo-random filler derived from one recorded decision.
  Bytes noise(size_t n);

  // --- reporting -------------------------------------------------------------------------------
  void label(const std::string& l) { if (counting) labels_[l]++; }
  void nontrivial() { nontrivial_ = true; }
  [[noreturn]] void discard() { throw Discard{}; }
  template <class... A> void note(const A&... a) {
    if (!verbose) return;
    std::ostringstream o;
    (o << ... << a);
    if (notes.size() < 4000) { notes += o.str(); notes += "; "; }
  }
  void note_hex(const char* name, std::span<const uint8_t> b) {
    if (verbose) note(name, "[", b.size(), "]=", hex(b));
  }

  // --- engine side -----------------------------------------------------------------------------
  bool verbose = false, counting = true;
  std::string notes;
  uint64_t walkState = 0;
  uint64_t caseIndex = 0;   // position in the stream (cases early in a stream are smaller)
  std::map<std::string, uint64_t> labels_;
  bool nontrivial_ = false;
  std::vector<uint64_t> choices;
  const std::vector<uint64_t>* replay = nullptr;
  uint64_t rng = 0;
  Shm* shm = nullptr;
  void begin(uint64_t seed, const std::vector<uint64_t>* rep);
};

struct Prop {
  const char* name;
  void (*fn)(Gen&);
  uint64_t quick, thorough;
  Prop(const char* name, void (*fn)(Gen&), uint64_t quick, uint64_t thorough);
};

struct Early { Early(void (*fn)()); };  // run first of all, in every process of the program
struct Setup { Setup(void (*fn)()); };  // run once in the parent before any case (pools, tables)
// Like Setup, but may run code under test to save time: tried in a child first and left out if that fails,
// so that the failure shows in a case.
struct Warmup { Warmup(void (*fn)()); };

[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

template <class T, class U>
void check_bytes(const T& got, const U& want, const std::string& what) {
  std::span<const uint8_t> a(got.data(), got.size()), b(want.data(), want.size());
  if (a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size()))) return;
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  std::ostringstream o;
  o << what << ": first difference at byte " << i << "; got[" << a.size() << "]=" << hex(a, 80) << " expected[" << b.size() << "]=" << hex(b, 80);
  fail(o.str());
}

int run_main(int argc, char** argv);
uint64_t splitmix(uint64_t& s);

}

#define PROP(name, quick, thorough)                                      \
  static void name(pbt::Gen& g);                                         \
  static pbt::Prop prop_##name(#name, name, quick, thorough);            \
  static void name([[maybe_unused]] pbt::Gen& g)

#define CHECK(cond, ...)                                                              \
  do { if (!(cond)) { std::ostringstream o_; o_ << #cond << " does not hold: "; o_ << __VA_ARGS__; pbt::fail(o_.str()); } } while (0)

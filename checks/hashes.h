// Uniform access to every hash of the library, with the name of its oracle.
#pragma once
#include "oracle.h"
#include <caligo/crc.h>
#include <caligo/hash.h>
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>
#include <memory>

using pbt::Bytes;
using pbt::Gen;

struct AnyHash {
  virtual ~AnyHash() = default;
  virtual void add(std::span<const uint8_t>) = 0;
  virtual void addText(std::string_view) = 0;
  virtual Bytes digest() const = 0;      // conversion to the array type
  virtual Bytes data() const = 0;        // data()
  virtual std::string text() const = 0;
  virtual std::unique_ptr<AnyHash> clone() const = 0;
  virtual bool assign(const AnyHash&) = 0;
};

template <class H>
struct HashOf : AnyHash {
  H h;
  HashOf() = default;
  HashOf(const H& o) : h(o) {}
  void add(std::span<const uint8_t> d) override { h.add(d); }
  void addText(std::string_view d) override { h.add(d); }
  Bytes digest() const override { std::array<uint8_t, H::hashsize> a = h; return Bytes(a.begin(), a.end()); }
  Bytes data() const override { auto a = h.data(); return Bytes(a.begin(), a.end()); }
  std::string text() const override { return (std::string)h; }
  std::unique_ptr<AnyHash> clone() const override { return std::make_unique<HashOf>(h); }
  bool assign(const AnyHash& o) override { h = dynamic_cast<const HashOf&>(o).h; return true; }
};

struct NamedHash : AnyHash {
  Caligo::Hash h;
  NamedHash(std::string_view n) : h(n) {}
  void add(std::span<const uint8_t> d) override { h.add(d); }
  void addText(std::string_view d) override { h.add(d); }
  Bytes digest() const override { std::vector<uint8_t> a = h; return a; }
  Bytes data() const override { return h.data(); }
  std::string text() const override { return (std::string)h; }
  std::unique_ptr<AnyHash> clone() const override { return nullptr; }
  bool assign(const AnyHash&) override { return false; }
};

struct Algo {
  const char* name;    // oracle name
  size_t size, block;  // digest and block length in bytes (from the standards)
  std::unique_ptr<AnyHash> (*make)();
  std::unique_ptr<AnyHash> (*makeWith)(const Bytes&, const std::string&, const Bytes&);  // variadic construction
  Bytes (*oneShot)(const Bytes&);
  size_t (*hashsize)();
  Bytes (*asn1)();
  size_t (*maxLength)();
};

template <class H>
Algo algo(const char* n, size_t size, size_t block) {
  return {n, size, block, [] { return (std::unique_ptr<AnyHash>)std::make_unique<HashOf<H>>(); },
          [](const Bytes& a, const std::string& b, const Bytes& c) {
            return (std::unique_ptr<AnyHash>)std::make_unique<HashOf<H>>(H(std::span<const uint8_t>(a), std::string_view(b), std::span<const uint8_t>(c)));
          },
          [](const Bytes& m) { std::array<uint8_t, H::hashsize> a = H(std::span<const uint8_t>(m)); return Bytes(a.begin(), a.end()); },
          [] { return (size_t)H::hashsize; }, [] { return (Bytes)H::getAsn1Id(); }, [] { return (size_t)H::MaxLength(); }};
}

inline const std::vector<Algo>& algos() {
  using namespace Caligo;
  static const std::vector<Algo> v = {
      algo<SHA2<256>>("SHA256", 32, 64),   algo<SHA1>("SHA1", 20, 64),          algo<MD5>("MD5", 16, 64),
      algo<SHA2<224>>("SHA224", 28, 64),   algo<SHA2<384>>("SHA384", 48, 128),  algo<SHA2<512>>("SHA512", 64, 128),
      algo<SHA3<224>>("SHA3-224", 28, 144), algo<SHA3<256>>("SHA3-256", 32, 136), algo<SHA3<384>>("SHA3-384", 48, 104),
      algo<SHA3<512>>("SHA3-512", 64, 72)};
  return v;
}

inline uint32_t crc32_bitwise(std::span<const uint8_t> d) {  // definition, one bit at a time
  uint32_t c = 0xFFFFFFFFu;
  for (uint8_t b : d) {
    c ^= b;
    for (int i = 0; i < 8; i++) c = (c >> 1) ^ ((c & 1) ? 0xEDB88320u : 0);
  }
  return ~c;
}
inline Bytes crc_ref(std::span<const uint8_t> d) {
  uint32_t c = crc32_bitwise(d);
  return {(uint8_t)(c >> 24), (uint8_t)(c >> 16), (uint8_t)(c >> 8), (uint8_t)c};
}

// DigestInfo prefix built from the algorithm's object identifier (RFC 8017 B.1, NIST CSOR).
inline Bytes digestInfo(int alg) {
  static const std::vector<Bytes> oid = {
      {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1}, {0x2b, 0x0e, 3, 2, 0x1a}, {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 2, 5}, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 4},
      {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 2}, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 3}, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 7}, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 8},
      {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 9}, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 10}};
  const Bytes& o = oid[alg];
  size_t hl = algos()[alg].size;
  Bytes r = {0x30, (uint8_t)(o.size() + 8 + hl), 0x30, (uint8_t)(o.size() + 4), 0x06, (uint8_t)o.size()};
  r.insert(r.end(), o.begin(), o.end());
  Bytes t = {0x05, 0x00, 0x04, (uint8_t)hl};
  r.insert(r.end(), t.begin(), t.end());
  return r;
}


// Uses of the library, one a line, for C37: the header, another that the use needs, and the use. It appends bytes to
// `out`; `x` is a number that varies it.
SNIPPET("caligo/aes.h", { uint8_t k[16] = {1, 2, (uint8_t)x}; AesKeySchedule<128> s{std::span<const uint8_t>(k)}; __m128i v = AES<128>::Encrypt(s, _mm_set1_epi32((int)x)); uint8_t b[16]; _mm_storeu_si128((__m128i*)b, v); put(out, b); })
SNIPPET("caligo/Asn1.h", { std::vector<uint8_t> d{0x30, 4, 2, 1, (uint8_t)(x & 127), 5}; d.push_back(0); asn1_view v{std::span<const uint8_t>(d)}; auto [id, in] = v.read(); out.push_back((uint8_t)id); out.push_back((uint8_t)v.empty()); auto [id2, n] = asn1_view(in).read(); out.push_back((uint8_t)id2); })
SNIPPET("caligo/base64.h", { std::vector<uint8_t> d(x % 50, (uint8_t)x); std::string t = base64(d); put(out, t); put(out, base64d(t)); })
SNIPPET("caligo/bignum.h", { bignum<96> a(x), b(77); put(out, (a * b).as_bytes()); put(out, (a + b).second.as_bytes()); put(out, to_string(a)); std::ostringstream o; o << a; put(out, o.str()); })
SNIPPET("caligo/chacha20.h", { std::vector<uint8_t> k(32, (uint8_t)x), n(12, 1), d(100); ChaCha20 c{std::span<const uint8_t>(k), std::span<const uint8_t>(n)}; c.Encrypt(d); put(out, d); })
SNIPPET("caligo/crc.h", { std::vector<uint8_t> d(x % 90, (uint8_t)x); put(out, CRC32(std::span<const uint8_t>(d)).data()); })
SNIPPET("caligo/hash.h", { Hash h("sha256"); h.add(std::to_string(x)); put(out, h.data()); })
SNIPPET("caligo/md5.h", { put(out, MD5(std::string_view(std::to_string(x))).data()); })
SNIPPET("caligo/mont.h", { MontgomeryState<64> s(bignum<64>(1000003)); MontgomeryValue<64> v(s, bignum<64>(x % 1000003)); bignum<64> r = v.exp(bignum<64>(12345)); put(out, r.as_bytes()); })
SNIPPET("caligo/random.h", { testValues.assign({x, x * 3}); uint16_t v[5]; generate_random(std::span<uint16_t>(v)); for (auto e : v) out.push_back((uint8_t)e); out.push_back((uint8_t)testValues.size()); testValues.clear(); })
SNIPPET("caligo/random_prime.h", { out.push_back(miller_rabin_is_probably_prime(bignum<64>((uint32_t)x | 1))); })
SNIPPET("caligo/rsa.h", { rsa_public_key<64> k(bignum<64>(3233 * 17 + 2), bignum<64>(17)); put(out, k.rsaep(bignum<64>(x % 3000)).as_bytes()); })
SNIPPET("caligo/sha1.h", { put(out, SHA1(std::string_view(std::to_string(x))).data()); put(out, SHA1::getAsn1Id()); })
SNIPPET("caligo/sha2.h", { put(out, SHA2<256>(std::string_view(std::to_string(x))).data()); put(out, SHA2<384>(std::string_view(std::to_string(x))).data()); put(out, SHA2<512>::getAsn1Id()); })
SNIPPET("caligo/sha3.h", { put(out, SHA3<256>(std::string_view(std::to_string(x))).data()); put(out, SHA3<512>::getAsn1Id()); })
SNIPPET("caligo/x25519.h", { ec_value a(bignum<256>((uint32_t)x)); put(out, X25519(a, ec_value(bignum<256>(9))).as_bytes()); std::ostringstream o; o << a; put(out, o.str()); put(out, inverse(a).as_bytes()); })
SNIPPET("caligo/X509Certificate.h", { std::vector<uint8_t> d{0x30, (uint8_t)x}; bool refused = false; try { parseCertificate(d); } catch (const std::exception&) { refused = true; } out.push_back(refused); out.push_back((uint8_t)parseCertificatesPem(d).size()); })
SNIPPET("caligo/Truststore.h", { out.push_back(Truststore::Instance().get("CN=nobody " + std::to_string(x)).has_value()); })
SNIPPET("caligo/ghash.h", { uint8_t b[16]; _mm_storeu_si128((__m128i*)b, ghash_block(_mm_set1_epi32((int)x), reflect(_mm_set1_epi32(7)), _mm_set1_epi32(9))); put(out, b); })
SNIPPET2("caligo/gcm.h", "caligo/aes.h", { std::vector<uint8_t> k(16, (uint8_t)x), n(12, 1), d(33, 2), a(5); GCM<AES<128>> c{key_iv_pair<AES<128>>(k, n)}; auto [t, g] = c.Encrypt(d, a); put(out, t); put(out, g); })
SNIPPET2("caligo/ctr.h", "caligo/aes.h", { std::vector<uint8_t> k(32, (uint8_t)x), n(16, 1), d(33, 2); CTR<AES<256>> c{key_iv_pair<AES<256>>(k, n)}; c.Encrypt(d); put(out, d); })
SNIPPET2("caligo/hkdf.h", "caligo/sha2.h", { std::vector<uint8_t> k(20, (uint8_t)x), d(9, 2); put(out, HMAC<SHA2<256>>(d, k)); put(out, HKDF_Expand<SHA2<256>>(k, d, 70)); })
SNIPPET2("caligo/pkcs1.h", "caligo/sha2.h", { std::vector<uint8_t> d(x % 70, 3); put(out, PKCS1<SHA2<256>>(d, 128)); })
SNIPPET("caligo/key_iv_pair.h", { struct C {}; std::vector<uint8_t> k(3, (uint8_t)x); key_iv_pair<C> p(k, k); put(out, p.key); put(out, p.iv); })
SNIPPET("caligo/legacy/cbc.h", { struct T { enum : size_t { size = 4 }; struct KeySchedule { KeySchedule(std::span<const uint8_t>) {} }; static void Encrypt(const KeySchedule&, uint8_t* p) { for (int i = 0; i < 4; i++) p[i] += 3; } static void Decrypt(const KeySchedule&, uint8_t* p) { for (int i = 0; i < 4; i++) p[i] -= 3; } }; std::vector<uint8_t> k(4, (uint8_t)x), d(12, 5); CBC<T> c{key_iv_pair<T>(k, k)}; c.Encrypt(d); put(out, d); c.Decrypt(d); put(out, d); })
SNIPPET("caligo/legacy/ecb.h", { struct T { enum : size_t { size = 4 }; struct KeySchedule { KeySchedule(std::span<const uint8_t>) {} }; static void Encrypt(const KeySchedule&, uint8_t* p) { for (int i = 0; i < 4; i++) p[i] += 3; } static void Decrypt(const KeySchedule&, uint8_t* p) { for (int i = 0; i < 4; i++) p[i] -= 3; } }; std::vector<uint8_t> k(4, (uint8_t)x), d(12, 5); ECB<T> c{std::span<const uint8_t>(k)}; c.Encrypt(d); put(out, d); c.Decrypt(d); put(out, d); })

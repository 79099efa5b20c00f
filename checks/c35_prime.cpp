#include <algorithm>
#include <array>
#include <cstring>
#include <caligo/random_prime.h>
std::vector<uint8_t> c35_prime(int width) { return width == 64 ? Caligo::random_prime<64>().as_bytes() : Caligo::random_prime<128>().as_bytes(); }

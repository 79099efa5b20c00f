// Receives what the instrumented code does: the blocks it enters, the addresses it reads, writes and copies.
// While a recording runs, allocations come from an arena that starts over each time, so that equal behaviour means
// equal addresses.
#include "trace.h"
#include <cstdlib>
#include <cstring>
#include <new>

#define RAW __attribute__((no_sanitize("coverage", "kernel-address")))

namespace {
constexpr size_t KEEP = size_t(1) << 22, ARENA = size_t(1) << 26;
struct Recording { size_t n, blocks; uint64_t hash; };
uint64_t kept[KEEP];           // the events of the first recording
Recording first, now;
bool on, comparing;
size_t differs;                // position of the first difference among the kept events
uintptr_t differs_pc;
bool differs_block;
alignas(64) char arena[ARENA];
size_t used;

RAW inline void event(uint64_t v, bool block, void* pc) {
  if (!on) return;
  v = v * 2 + block;
  if (now.n < KEEP) {
    if (!comparing) kept[now.n] = v;
    else if (differs == SIZE_MAX && (now.n >= first.n || kept[now.n] != v)) { differs = now.n; differs_pc = (uintptr_t)pc; differs_block = block; }
  }
  now.n++;
  now.blocks += block;
  uint64_t h = (now.hash ^ v) * 0x9E3779B97F4A7C15ull;
  now.hash = h ^ h >> 29;
}
}
#define PC __builtin_return_address(0)

namespace trace {
RAW void start(bool compare) {
  if (compare) first = now;
  now = {0, 0, 1};
  comparing = compare;
  differs = SIZE_MAX;
  used = 0;
  on = true;
}
RAW Result stop() {
  on = false;
  if (!comparing) return {true, 0, now.n, now.blocks, "", 0};
  bool same = now.n == first.n && now.hash == first.hash;
  if (same) return {true, 0, now.n, now.blocks, "", 0};
  if (differs == SIZE_MAX) return {false, now.n < first.n ? now.n : first.n, now.n, now.blocks, "the trace", 0};
  return {false, differs, now.n, now.blocks, differs_block ? "the code executed" : "an address", differs_pc};
}
}

extern "C" {
RAW void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  static uint32_t n;
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++n;
}
RAW void __sanitizer_cov_trace_pc_guard(uint32_t* g) { event(*g, true, PC); }
#define ACCESS(n) RAW void __sanitizer_cov_load##n(void* a) { event((uintptr_t)a, false, PC); } RAW void __sanitizer_cov_store##n(void* a) { event((uintptr_t)a, false, PC); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
RAW void* __asan_memcpy(void* d, const void* s, size_t n) { event((uintptr_t)d, false, PC); event((uintptr_t)s, false, PC); event(n, false, PC); return memcpy(d, s, n); }
RAW void* __asan_memmove(void* d, const void* s, size_t n) { event((uintptr_t)d, false, PC); event((uintptr_t)s, false, PC); event(n, false, PC); return memmove(d, s, n); }
RAW void* __asan_memset(void* d, int c, size_t n) { event((uintptr_t)d, false, PC); event(n, false, PC); return memset(d, c, n); }
RAW void __asan_handle_no_return() {}
}

RAW void* operator new(size_t n) {
  if (on && n <= ARENA / 4 && used + n + 64 <= ARENA) {
    void* p = arena + used;
    used = (used + n + 63) & ~size_t(63);
    return p;
  }
  if (void* p = malloc(n ? n : 1)) return p;
  abort();
}
RAW void operator delete(void* p) noexcept { if ((char*)p < arena || (char*)p >= arena + ARENA) free(p); }
RAW void operator delete(void* p, size_t) noexcept { operator delete(p); }

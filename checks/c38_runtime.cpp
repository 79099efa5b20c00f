// Counts the blocks that instrumented code enters and what the library functions that it calls move and allocate.
#include "meter.h"
#include <cerrno>
#include <cstdint>
#include <malloc.h>

#define RAW __attribute__((no_sanitize("coverage"), no_builtin))

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace {
bool on;
size_t blocks, moved, allocated, live, count, most, from;
uintptr_t low, top;
RAW inline void got(void* p, size_t n) {
  if (!p) return;
  live += malloc_usable_size(p);
  count++;
  allocated += n;
  if (live > most) most = live;
}
RAW inline void lost(void* p) {
  if (!p) return;
  live -= malloc_usable_size(p);
  count--;
}
}
namespace meter {
RAW void start() {
  blocks = moved = allocated = 0;
  most = from = live;
  low = top = (uintptr_t)__builtin_frame_address(0);
  on = true;
}
RAW Cost stop() {
  on = false;
  return {blocks, moved, allocated, most - from, top - low};
}
RAW size_t held() { return live; }
RAW size_t pieces() { return count; }
}
extern "C" {
RAW void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
RAW void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  blocks++;
  uintptr_t f = (uintptr_t)__builtin_frame_address(0);
  if (f < low) low = f;
}
RAW void* malloc(size_t n) { void* p = __libc_malloc(n); got(p, n); return p; }
RAW void free(void* p) { lost(p); __libc_free(p); }
RAW void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); got(p, a * b); return p; }
RAW void* realloc(void* p, size_t n) {
  size_t old = p ? malloc_usable_size(p) : 0;
  void* q = __libc_realloc(p, n);
  if (p && (q || !n)) { live -= old; count--; }
  got(q, n);
  return q;
}
RAW void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); got(p, n); return p; }
RAW void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
RAW int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }

// (by these names, because the headers' own declarations differ)
void* c38_memcpy(void*, const void*, size_t) asm("memcpy");
void* c38_memmove(void*, const void*, size_t) asm("memmove");
void* c38_memset(void*, int, size_t) asm("memset");
int c38_memcmp(const void*, const void*, size_t) asm("memcmp");
int c38_bcmp(const void*, const void*, size_t) asm("bcmp");
void* c38_memchr(const void*, int, size_t) asm("memchr");
size_t c38_strlen(const char*) asm("strlen");
RAW void* c38_memcpy(void* d, const void* s, size_t n) {
  moved += n;
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  return r;
}
RAW void* c38_memmove(void* d, const void* s, size_t n) {
  if ((uintptr_t)d - (uintptr_t)s >= n) return c38_memcpy(d, s, n);
  moved += n;
  volatile char* a = (volatile char*)d;
  const volatile char* b = (const volatile char*)s;
  while (n--) a[n] = b[n];
  return d;
}
RAW void* c38_memset(void* d, int c, size_t n) {
  moved += n;
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
RAW int c38_memcmp(const void* x, const void* y, size_t n) {
  const volatile uint8_t *a = (const volatile uint8_t*)x, *b = (const volatile uint8_t*)y;
  for (size_t i = 0; i < n; i++) { uint8_t p = a[i], q = b[i]; if (p != q) { moved += i; return p - q; } }
  moved += n;
  return 0;
}
RAW int c38_bcmp(const void* x, const void* y, size_t n) { return c38_memcmp(x, y, n); }
RAW void* c38_memchr(const void* x, int c, size_t n) {
  const volatile uint8_t* a = (const volatile uint8_t*)x;
  for (size_t i = 0; i < n; i++) if (a[i] == (uint8_t)c) { moved += i; return (void*)(a + i); }
  moved += n;
  return nullptr;
}
RAW size_t c38_strlen(const char* x) {
  const volatile char* a = x;
  size_t n = 0;
  while (a[n]) n++;
  moved += n;
  return n;
}
}

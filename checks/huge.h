#pragma once
#include "oracle.h"
#include <sys/mman.h>
#include <unistd.h>
using pbt::Bytes;

// A message of any length in one piece, held by few physical pages.
struct Repeated {
  uint8_t* p;
  size_t len;
  static constexpr size_t unit = 16 << 20;
  Repeated(const Bytes& chunk, size_t n) : len((n + unit - 1) / unit * unit) {
    int fd = memfd_create("repeated", 0);
    CHECK(fd >= 0 && ftruncate(fd, unit) == 0, "no memory file");
    p = (uint8_t*)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    CHECK(p != MAP_FAILED, "no address space");
    for (size_t at = 0; at < len; at += unit) CHECK(mmap(p + at, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED, "no mapping");
    close(fd);
    for (size_t at = 0; at < unit; at += chunk.size()) memcpy(p + at, chunk.data(), std::min(chunk.size(), unit - at));
  }
  ~Repeated() { munmap(p, len); }
};

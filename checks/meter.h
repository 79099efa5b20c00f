// What operations cost, recorded by compiler instrumentation and replaced library functions (C38).
#pragma once
#include <cstddef>

namespace meter {
struct Cost {
  size_t blocks;      // code blocks entered
  size_t moved;       // bytes copied, filled, compared and searched by library functions
  size_t allocated;   // bytes requested
  size_t peak;        // most bytes held at once, beyond those held at the start
  size_t stack;       // deepest stack below the start
};
void start();
Cost stop();
size_t held();        // bytes allocated and not freed
size_t pieces();      // allocations not freed
}

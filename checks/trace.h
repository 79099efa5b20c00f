// Traces of executed blocks and touched addresses (C34), recorded by compiler instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>

namespace trace {
void start(bool compare);   // begins a recording; compare: against the one before
struct Result { bool same; size_t at, events, blocks; const char* what; uintptr_t pc; };   // pc: where the difference was met
Result stop();
}

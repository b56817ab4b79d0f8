// work.hpp - a deterministic measure of the work and memory of a piece of code: basic blocks executed (the compiler calls
// __sanitizer_cov_trace_pc in each), bytes moved by memcpy/memmove/memset, allocations and peak heap.
// Needs -fsanitize-coverage=trace-pc -Wl,--wrap=malloc,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset
#pragma once
#include <cstdint>
#include <cstddef>
#include <malloc.h>
namespace work {
struct M {
  uint64_t blocks = 0, bytes = 0, allocs = 0, peak = 0, traffic = 0;
  uint64_t work() const { return blocks + bytes / 8; }
};
inline volatile bool on = false;
inline M             now;
inline int64_t       live = 0;
template <class F>
M measure(F&& f) {
  now  = M{};
  live = 0;
  on   = true;
  try {
    f();
  } catch (...) {
    on = false;
    throw;
  }
  on = false;
  return now;
}
} // namespace work
extern "C" {
__attribute__((no_sanitize_coverage, no_sanitize_address, no_sanitize_undefined)) void __sanitizer_cov_trace_pc() {
  if (work::on) ++work::now.blocks;
}
void* __real_malloc(size_t);
void  __real_free(void*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
__attribute__((no_sanitize_coverage)) void* __wrap_malloc(size_t n) {
  void* p = __real_malloc(n);
  if (work::on && p) {
    ++work::now.allocs;
    work::now.traffic += n;
    work::live += (int64_t)malloc_usable_size(p);
    if (work::live > (int64_t)work::now.peak) work::now.peak = (uint64_t)work::live;
  }
  return p;
}
__attribute__((no_sanitize_coverage)) void __wrap_free(void* p) {
  if (work::on && p) work::live -= (int64_t)malloc_usable_size(p);
  __real_free(p);
}
__attribute__((no_sanitize_coverage)) void* __wrap_memcpy(void* a, const void* b, size_t n) {
  if (work::on) work::now.bytes += n;
  return __real_memcpy(a, b, n);
}
__attribute__((no_sanitize_coverage)) void* __wrap_memmove(void* a, const void* b, size_t n) {
  if (work::on) work::now.bytes += n;
  return __real_memmove(a, b, n);
}
__attribute__((no_sanitize_coverage)) void* __wrap_memset(void* a, int c, size_t n) {
  if (work::on) work::now.bytes += n;
  return __real_memset(a, c, n);
}
}

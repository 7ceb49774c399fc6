// Counting, failing allocator. Include in exactly one translation unit.
#pragma once
#include <stdlib.h>

#include <new>
namespace heap {
inline long live = 0, calls = 0, fail_at = -1, fired = 0;
struct alignas(16) H { size_t n; };
inline bool refuse() {
  calls++;
  if (fail_at >= 0 && fail_at-- == 0) { fired++; return true; }
  return false;
}
inline void* raw(size_t n) {
  auto* h = static_cast<H*>(malloc(n + sizeof(H)));
  if (!h) abort();
  h->n = n;
  live += long(n);
  return h + 1;
}
inline void put(void* p) {
  if (!p) return;
  auto* h = static_cast<H*>(p) - 1;
  live -= long(h->n);
  free(h);
}
}  // namespace heap
void* operator new(size_t n) { if (heap::refuse()) throw std::bad_alloc(); return heap::raw(n); }
void* operator new[](size_t n) { if (heap::refuse()) throw std::bad_alloc(); return heap::raw(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap::refuse() ? nullptr : heap::raw(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap::refuse() ? nullptr : heap::raw(n); }
void operator delete(void* p) noexcept { heap::put(p); }
void operator delete[](void* p) noexcept { heap::put(p); }
void operator delete(void* p, size_t) noexcept { heap::put(p); }
void operator delete[](void* p, size_t) noexcept { heap::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap::put(p); }

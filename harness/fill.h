#pragma once
#include <cstddef>
#include <cstdlib>
#include <new>
// every heap block the client gets is filled first, so that reading a member never written shows up as a difference
static unsigned gFill = 0; static bool gFillOn = false;
// all forms of new and delete, also those the library uses inside (std::stable_sort asks for memory with nothrow)
static void* filled(size_t n, size_t align) {
  void* p = nullptr; n = n ? n : 1;
  if (align <= alignof(std::max_align_t)) p = malloc(n); else if (posix_memalign(&p, align, n)) p = nullptr;
  if (p && gFillOn) for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)(gFill >> (8 * (i & 3)));
  return p;
}
static void* orThrow(void* p) { if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return orThrow(filled(n, 1)); }
void* operator new[](size_t n) { return orThrow(filled(n, 1)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return filled(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return filled(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return orThrow(filled(n, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return orThrow(filled(n, (size_t)a)); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return filled(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return filled(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { free(p); }
__attribute__((noinline, no_sanitize("address"))) static void dirtyStack(unsigned v) { volatile unsigned buf[15000]; for (size_t i = 0; i < 15000; i++) buf[i] = v; }
struct Fill { Fill(unsigned v) { gFill = v; gFillOn = true; dirtyStack(v); } ~Fill() { gFillOn = false; } };

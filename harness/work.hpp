// Counts the work done inside library calls: edges of the control flow taken (the compiler calls __sanitizer_cov_trace_pc
// on each), bytes moved, compared or searched by the C library's functions, and bytes allocated, with the peak of what is live.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstddef>
#include <new>
#include <malloc.h>
#define UNCOUNTED __attribute__((no_sanitize("coverage"), noinline))
namespace work {
static bool on = false;
static std::uint64_t edges = 0, moved = 0, allocated = 0, live = 0, peak = 0;
UNCOUNTED static void* get(std::size_t n, std::size_t align) {
	void* p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1); if (!p) throw std::bad_alloc();
	auto u = malloc_usable_size(p); if (on) allocated += u; live += u; if (live > peak) peak = live; return p; }
UNCOUNTED static void put(void* p) { if (p) { live -= malloc_usable_size(p); std::free(p); } }
}
extern "C" {
UNCOUNTED void __sanitizer_cov_trace_pc() { work::edges += work::on; }
UNCOUNTED void* memcpy(void* d, const void* s, std::size_t n) { if (work::on) work::moved += n; void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
UNCOUNTED void* memmove(void* d, const void* s, std::size_t n) {
	if (work::on) work::moved += n; void* r = d; auto dc = static_cast<char*>(d); auto sc = static_cast<const char*>(s);
	if (dc <= sc || dc >= sc + n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
	while (n >= 8) { n -= 8; std::uint64_t x; __asm__ volatile("movq (%1), %0\n\tmovq %0, (%2)" : "=&r"(x) : "r"(sc + n), "r"(dc + n) : "memory"); }
	while (n) { --n; char c; __asm__ volatile("movb (%1), %0\n\tmovb %0, (%2)" : "=&q"(c) : "r"(sc + n), "r"(dc + n) : "memory"); }
	return r; }
UNCOUNTED void* memset(void* d, int c, std::size_t n) { if (work::on) work::moved += n; void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
UNCOUNTED int memcmp(const void* a, const void* b, std::size_t n) { auto x = static_cast<const volatile unsigned char*>(a); auto y = static_cast<const volatile unsigned char*>(b); for (std::size_t i = 0; i < n; ++i) if (x[i] != y[i]) { if (work::on) work::moved += i; return x[i] < y[i] ? -1 : 1; } if (work::on) work::moved += n; return 0; }
UNCOUNTED int bcmp(const void* a, const void* b, std::size_t n) { return memcmp(a, b, n); }
void* countedMemchr(const void* a, int c, std::size_t n) __asm__("memchr"); // the header overloads the name
UNCOUNTED void* countedMemchr(const void* a, int c, std::size_t n) { auto x = static_cast<const volatile unsigned char*>(a); std::size_t i = 0; for (; i < n; ++i) if (x[i] == static_cast<unsigned char>(c)) { if (work::on) work::moved += i; return const_cast<unsigned char*>(static_cast<const unsigned char*>(a)) + i; } if (work::on) work::moved += i; return nullptr; }
UNCOUNTED std::size_t strlen(const char* s) { auto x = static_cast<const volatile char*>(s); std::size_t i = 0; while (x[i]) ++i; if (work::on) work::moved += i; return i; }
}
void* operator new(std::size_t n) { return work::get(n, 0); }
void* operator new[](std::size_t n) { return work::get(n, 0); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return work::get(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return work::get(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return work::get(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return work::get(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { work::put(p); }
void operator delete[](void* p) noexcept { work::put(p); }
void operator delete(void* p, std::size_t) noexcept { work::put(p); }
void operator delete[](void* p, std::size_t) noexcept { work::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { work::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { work::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { work::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { work::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { work::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { work::put(p); }

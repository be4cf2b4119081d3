// Faults at a chosen point of a library call: a failing allocation, or a failing or incomplete operation on a file.
// Allocations: replaces the global allocation functions. Counts, and fails, only what is
// allocated inside an Arm (a library call) and outside a Disarm (a callback of ours).
#pragma once
#ifdef FGDRV_OOM
#include <cstdlib>
#include <new>
#include <exception>
#include <filesystem>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
namespace oom {
static long countdown = -1, total = 0, hits = 0; static bool enabled = false, armed = false;
static inline bool fails() { if (!armed) return false; ++total; if (countdown < 0 || countdown-- != 0) return false; ++hits; return true; }
static inline void* get(std::size_t n) { if (fails()) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static inline void* getnt(std::size_t n) noexcept { if (fails()) return nullptr; return std::malloc(n ? n : 1); }
static inline void* getal(std::size_t n, std::size_t a) { if (fails()) throw std::bad_alloc(); void* p = std::aligned_alloc(a, (n + a - 1) / a * a); if (!p) throw std::bad_alloc(); return p; }
struct Arm { bool was; Arm() : was(armed) { armed = enabled; } ~Arm() { armed = was; } };
struct Disarm { bool was; Disarm() : was(armed) { armed = false; } ~Disarm() { armed = was; } };
}
void* operator new(std::size_t n) { return oom::get(n); }
void* operator new[](std::size_t n) { return oom::get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return oom::getnt(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return oom::getnt(n); }
void* operator new(std::size_t n, std::align_val_t a) { return oom::getal(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return oom::getal(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }

// ---- files: the calls the library (through libstdc++) makes; the k-th of them meets the fault
namespace iof {
static long countdown = -1, hits = 0; static int mode = 0; static int stickyFd = -1; static char stickyOp = 0;
struct Log { char names[1 << 14]; std::size_t n = 0; }; static Log log; static bool logging = false; // one letter per call
// modes: 0 the error, once; 1 the error from now on (same descriptor); 2 interrupted once (read, write); 3 half of it (read, write); 4 end of file from now on (read)
static int fault(char op, int fd) { // 0: none, else 1 + mode
	if (!oom::armed) return 0;
	if (stickyFd >= 0 && fd == stickyFd && op == stickyOp) return 1 + mode;
	if (logging && log.n < sizeof log.names) log.names[log.n++] = op;
	if (countdown < 0 || countdown-- != 0) return 0;
	++hits; if ((mode == 1 || mode == 4) && fd >= 0) { stickyFd = fd; stickyOp = op; }
	return 1 + mode;
}
static bool other(int f) { return f == 1 || f == 2; }
template <typename F> static F real(const char* n) { return reinterpret_cast<F>(::dlsym(RTLD_NEXT, n)); }
static ssize_t halve(std::size_t n) { return static_cast<ssize_t>(n > 1 ? n / 2 : n); }
}
extern "C" {
ssize_t read(int fd, void* p, std::size_t n) {
	int f = iof::fault('r', fd); if (iof::other(f)) { errno = EIO; return -1; } if (f == 3) { errno = EINTR; return -1; } if (f == 5) return 0; if (f == 4) n = iof::halve(n);
	return ::syscall(SYS_read, fd, p, n);
}
ssize_t readv(int fd, const iovec* v, int c) {
	int f = iof::fault('r', fd); if (iof::other(f)) { errno = EIO; return -1; } if (f == 3) { errno = EINTR; return -1; } if (f == 5) return 0; if (f == 4) c = 1;
	return ::syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void* p, std::size_t n) {
	int f = iof::fault('w', fd); if (iof::other(f) || f == 5) { errno = ENOSPC; return -1; } if (f == 3) { errno = EINTR; return -1; } if (f == 4) n = iof::halve(n);
	return ::syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const iovec* v, int c) {
	int f = iof::fault('w', fd); if (iof::other(f) || f == 5) { errno = ENOSPC; return -1; } if (f == 3) { errno = EINTR; return -1; }
	if (f == 4) { iovec one = v[0]; for (int i = 0; i < c; ++i) if (v[i].iov_len) { one = v[i]; break; } one.iov_len = iof::halve(one.iov_len); return ::syscall(SYS_writev, fd, &one, 1); }
	return ::syscall(SYS_writev, fd, v, c);
}
FILE* fopen64(const char* p, const char* m) { if (iof::fault('o', -1)) { errno = EMFILE; return nullptr; } return iof::real<FILE* (*)(const char*, const char*)>("fopen64")(p, m); }
FILE* fopen(const char* p, const char* m) { if (iof::fault('o', -1)) { errno = EMFILE; return nullptr; } return iof::real<FILE* (*)(const char*, const char*)>("fopen")(p, m); }
int fclose(FILE* f) { int x = iof::fault('c', -1); int r = iof::real<int (*)(FILE*)>("fclose")(f); if (x) { errno = EIO; return EOF; } return r; }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); if (iof::fault('o', -1)) { errno = EMFILE; return -1; } return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, p, fl, m)); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); if (iof::fault('o', -1)) { errno = EMFILE; return -1; } return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, p, fl, m)); }
int close(int fd) { int x = iof::fault('c', -1); int r = static_cast<int>(::syscall(SYS_close, fd)); if (x) { errno = EIO; return -1; } return r; }
int stat(const char* p, struct stat* s) { if (iof::fault('s', -1)) { errno = EIO; return -1; } return static_cast<int>(::syscall(SYS_newfstatat, AT_FDCWD, p, s, 0)); }
int lstat(const char* p, struct stat* s) { if (iof::fault('s', -1)) { errno = EIO; return -1; } return static_cast<int>(::syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW)); }
int fstat(int fd, struct stat* s) { if (iof::fault('s', -1)) { errno = EIO; return -1; } return static_cast<int>(::syscall(SYS_fstat, fd, s)); }
int mkdir(const char* p, mode_t m) { if (iof::fault('d', -1)) { errno = ENOSPC; return -1; } return static_cast<int>(::syscall(SYS_mkdir, p, m)); }
void* mmap(void* a, std::size_t n, int pr, int fl, int fd, off_t o) { if (iof::fault('m', -1)) { errno = ENOMEM; return MAP_FAILED; } return reinterpret_cast<void*>(::syscall(SYS_mmap, a, n, pr, fl, fd, o)); }
}
#elif defined(FGDRV_WORK)
#include "work.hpp"
namespace oom {
struct Arm { bool was; Arm() : was(work::on) { work::on = true; } ~Arm() { work::on = was; } };
struct Disarm { bool was; Disarm() : was(work::on) { work::on = false; } ~Disarm() { work::on = was; } };
}
#else
namespace oom { struct Arm { Arm() {} ~Arm() {} }; struct Disarm { Disarm() {} ~Disarm() {} }; }
#endif

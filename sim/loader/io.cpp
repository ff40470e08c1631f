#include "io.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>
namespace io {
Disk disk;
static ssize_t rawRead(int fd, void* b, size_t n) { static auto f = (ssize_t(*)(int, void*, size_t)) dlsym(RTLD_NEXT, "read"); return f(fd, b, n); }
void store(const std::string& data, int openErrno) {
  if (disk.store >= 0) ::close(disk.store);
  disk = Disk(); disk.data = data; disk.openErrno = openErrno;
  disk.store = memfd_create("simulated", MFD_CLOEXEC);
  for (size_t a = 0; a < data.size();) { ssize_t k = ::write(disk.store, data.data() + a, data.size() - a); if (k <= 0) break; a += (size_t)k; }
  disk.path = "/proc/self/fd/" + std::to_string(disk.store);
}
void eject() { disk.path.clear(); if (disk.store >= 0) ::close(disk.store); disk.store = -1; disk.fds.clear(); }
}
using io::disk;
static bool ours(const char* p) { return !disk.path.empty() && p && disk.path == p; }
static bool oursFd(int fd) { return fd >= 0 && disk.fds.count(fd); }
// every way of opening the file: refused when the trace says so, otherwise remembered
static bool refused(const char* p) { if (!ours(p)) return false; disk.opens++; if (!disk.openErrno) return false; errno = disk.openErrno; return true; }
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static int keep(const char* p, int fd) { if (fd >= 0) { if (ours(p)) disk.fds.insert(fd); else disk.fds.erase(fd); } return fd; }
static FILE* keep(const char* p, FILE* f) { if (f) keep(p, fileno(f)); return f; }
extern "C" FILE* fopen64(const char* p, const char* m) { static auto r = next<FILE* (*)(const char*, const char*)>("fopen64"); return refused(p) ? nullptr : keep(p, r(p, m)); }
extern "C" FILE* fopen(const char* p, const char* m) { static auto r = next<FILE* (*)(const char*, const char*)>("fopen"); return refused(p) ? nullptr : keep(p, r(p, m)); }
#define OPENER(name) extern "C" int name(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (mode_t)va_arg(a, int); va_end(a); static auto r = next<int (*)(const char*, int, ...)>(#name); return refused(p) ? -1 : keep(p, r(p, fl, m)); }
OPENER(open) OPENER(open64)
#define OPENERAT(name) extern "C" int name(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (mode_t)va_arg(a, int); va_end(a); static auto r = next<int (*)(int, const char*, int, ...)>(#name); return refused(p) ? -1 : keep(p, r(d, p, fl, m)); }
OPENERAT(openat) OPENERAT(openat64)
// the answer of the disk to one read: true = the read fails with errno, otherwise at most n bytes
static bool faulty(size_t& n) {
  disk.reads++;
  if (disk.at < disk.steps.size()) {
    auto s = disk.steps[disk.at];
    if (s.kind == 1) { disk.at++; disk.eintr++; errno = EINTR; return true; }
    if (s.kind == 2) { disk.eio++; errno = EIO; return true; }
    disk.at++; n = (size_t)std::max<long long>(1, std::min<long long>(s.n, (long long)n));
  }
  return false;
}
static ssize_t seen(ssize_t k, size_t n, off_t end) { if (k > 0) { disk.pos = std::max(disk.pos, (size_t)end); if ((size_t)k < n && (size_t)end < disk.data.size()) disk.shortReads++; } return k; }
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (!oursFd(fd)) return io::rawRead(fd, b, n);
  size_t want = n; if (n && faulty(want)) return -1;
  ssize_t k = io::rawRead(fd, b, want); return seen(k, n, lseek(fd, 0, SEEK_CUR));
}
#define PREAD(name) extern "C" ssize_t name(int fd, void* b, size_t n, off_t o) { static auto r = next<ssize_t (*)(int, void*, size_t, off_t)>(#name); if (!oursFd(fd)) return r(fd, b, n, o); size_t want = n; if (n && faulty(want)) return -1; ssize_t k = r(fd, b, want, o); return seen(k, n, o + std::max<ssize_t>(k, 0)); }
PREAD(pread) PREAD(pread64)
extern "C" int close(int fd) { static auto r = next<int (*)(int)>("close"); disk.fds.erase(fd); return r(fd); }
extern "C" int fclose(FILE* f) { static auto r = next<int (*)(FILE*)>("fclose"); if (f) disk.fds.erase(fileno(f)); return r(f); }

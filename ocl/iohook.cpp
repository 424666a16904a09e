#include "iohook.h"
#include <new>
#include <set>
#include <vector>
namespace oom { thread_local int off = 1; long at = -1, count = 0; bool on = false, all = false, hit = false; }
#ifndef IOHOOK_MODEL
static void *oom_new(size_t n) {
	if (oom::on && !oom::off) { long k = oom::count++; if (k == oom::at || (k > oom::at && oom::all)) { oom::hit = true; return nullptr; } }
	return malloc(n ? n : 1);
}
void *operator new(size_t n) { void *p = oom_new(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = oom_new(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return oom_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return oom_new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif

namespace iohook {
std::string scratch = "/tmp";
std::function<int(const Op &, size_t *)> hook;
static const char PRE[] = "/tmp/cl842";
static bool fds[4096]; static std::string names[4096];
std::string dir() { std::string d = scratch + "/" + std::to_string(getpid()); static pid_t made; if (made != getpid()) { ::mkdir(d.c_str(), 0700); made = getpid(); } return d; }
static bool ours(const char *p) { return p && !strncmp(p, PRE, sizeof PRE - 1); }
std::string path(const char *p) { return ours(p) ? dir() + (p + 4) : p; }
static int pre(const char *op, const std::string &p, size_t *n = nullptr) { size_t d = 0; if (!hook) return 0; return hook(Op{op, p, n ? *n : 0}, n ? n : &d); }
static void track(int fd, const char *p) { if (fd >= 0 && fd < 4096) { fds[fd] = true; names[fd] = p; } }
static int high(int fd) { // where an abandoned execution's files are found and closed
#ifdef IOHOOK_MODEL
	if (fd >= 0) { int h = fcntl(fd, F_DUPFD_CLOEXEC, 200); static auto c = (int (*)(int))dlsym(RTLD_NEXT, "close"); c(fd); return h; }
#endif
	return fd;
}
static bool tracked(int fd) { return fd >= 0 && fd < 4096 && fds[fd]; }
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
}
using namespace iohook;
#define R(ret, name, ...) static auto r = real<ret (*)(__VA_ARGS__)>(#name)
extern "C" {
static int do_open(int (*r)(const char *, int, ...), const char *p, int fl, mode_t m) { oom::Off oom_off_;
	if (!ours(p)) return r(p, fl, m);
	int e = pre(fl & (O_WRONLY | O_RDWR) ? (fl & O_TRUNC ? "open-trunc" : "open-write") : "open-read", p); if (e) { errno = e; return -1; }
	int fd = high(r(path(p).c_str(), fl, m)); track(fd, p); return fd;
}
int open(const char *p, int fl, ...) { oom::Off oom_off_; va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); R(int, open, const char *, int, ...); return do_open(r, p, fl, m); }
int open64(const char *p, int fl, ...) { oom::Off oom_off_; va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); R(int, open64, const char *, int, ...); return do_open(r, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { oom::Off oom_off_; va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); R(int, openat, int, const char *, int, ...); if (!ours(p)) return r(d, p, fl, m); return open(p, fl, m); }
int creat(const char *p, mode_t m) { oom::Off oom_off_; return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static FILE *do_fopen(FILE *(*r)(const char *, const char *), const char *p, const char *m) { oom::Off oom_off_;
	if (!ours(p)) return r(p, m);
	int e = pre(strchr(m, 'w') ? "open-trunc" : strchr(m, 'a') || strchr(m, '+') ? "open-write" : "open-read", p); if (e) { errno = e; return nullptr; }
	FILE *f = r(path(p).c_str(), m);
#ifdef IOHOOK_MODEL
	if (f) { int fd = high(dup(fileno(f))); static auto c = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose"); c(f); f = fdopen(fd, *m == 'r' ? "r" : *m == 'a' ? "a" : "r+"); if (!f) f = fdopen(fd, "w"); }
#endif
	if (f) track(fileno(f), p); return f;
}
FILE *fopen(const char *p, const char *m) { oom::Off oom_off_; R(FILE *, fopen, const char *, const char *); return do_fopen(r, p, m); }
FILE *fopen64(const char *p, const char *m) { oom::Off oom_off_; R(FILE *, fopen64, const char *, const char *); return do_fopen(r, p, m); }
int fclose(FILE *f) { oom::Off oom_off_; R(int, fclose, FILE *); int fd = fileno(f); if (tracked(fd)) { int e = pre("close", names[fd]); fds[fd] = false; if (e) { r(f); errno = e; return EOF; } } return r(f); }
int fflush(FILE *f) { oom::Off oom_off_; R(int, fflush, FILE *); if (f && tracked(fileno(f))) { int e = pre("flush", names[fileno(f)]); if (e) { errno = e; return EOF; } } return r(f); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { oom::Off oom_off_; R(size_t, fwrite, const void *, size_t, size_t, FILE *); if (f && tracked(fileno(f))) { size_t k = s * n, k0 = k; int e = pre("write", names[fileno(f)], &k); if (e) { errno = e; return 0; } if (k < k0) { r(b, 1, k, f); errno = ENOSPC; return 0; } } return r(b, s, n, f); }
int close(int fd) { oom::Off oom_off_; R(int, close, int); if (tracked(fd)) { int e = pre("close", names[fd]); fds[fd] = false; if (e) { r(fd); errno = e; return -1; } } return r(fd); }
ssize_t write(int fd, const void *b, size_t n) { oom::Off oom_off_;
	R(ssize_t, write, int, const void *, size_t);
	if (!tracked(fd)) return r(fd, b, n);
	size_t k = n; int e = pre("write", names[fd], &k); if (e) { errno = e; return -1; }
	if (k < n) { (void)!r(fd, b, k); errno = ENOSPC; return -1; }
	return r(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) { oom::Off oom_off_;
	R(ssize_t, writev, int, const struct iovec *, int);
	if (!tracked(fd)) return r(fd, v, c);
	std::vector<char> b; for (int i = 0; i < c; i++) b.insert(b.end(), (char *)v[i].iov_base, (char *)v[i].iov_base + v[i].iov_len);
	return write(fd, b.data(), b.size());
}
ssize_t read(int fd, void *b, size_t n) { oom::Off oom_off_; R(ssize_t, read, int, void *, size_t); if (tracked(fd)) { size_t k = n; int e = pre("read", names[fd], &k); if (e) { errno = e; return -1; } n = k; } return r(fd, b, n); }
int rename(const char *a, const char *b) { oom::Off oom_off_; R(int, rename, const char *, const char *); if (ours(a) || ours(b)) { int e = pre("rename", std::string(a) + " -> " + b); if (e) { errno = e; return -1; } } return r(path(a).c_str(), path(b).c_str()); }
int unlink(const char *p) { oom::Off oom_off_; R(int, unlink, const char *); if (ours(p)) { int e = pre("unlink", p); if (e) { errno = e; return -1; } } return r(path(p).c_str()); }
int remove(const char *p) { oom::Off oom_off_; R(int, remove, const char *); if (ours(p)) { int e = pre("unlink", p); if (e) { errno = e; return -1; } } return r(path(p).c_str()); }
int access(const char *p, int m) { oom::Off oom_off_; R(int, access, const char *, int); return r(path(p).c_str(), m); }
int stat(const char *p, struct stat *s) { oom::Off oom_off_; R(int, stat, const char *, struct stat *); return r(path(p).c_str(), s); }
int lstat(const char *p, struct stat *s) { oom::Off oom_off_; R(int, lstat, const char *, struct stat *); return r(path(p).c_str(), s); }
int chmod(const char *p, mode_t m) { oom::Off oom_off_; R(int, chmod, const char *, mode_t); return r(path(p).c_str(), m); }
static int do_mkstemp(char *t) { oom::Off oom_off_;
	if (!ours(t)) { R(int, mkstemp, char *); return r(t); }
	int e = pre("open-trunc", t); if (e) { errno = e; return -1; }
	std::string p = path(t); R(int, mkstemp, char *); int fd = high(r(&p[0])); if (fd >= 0) { memcpy(t + strlen(t) - 6, p.c_str() + p.size() - 6, 6); track(fd, t); } return fd;
}
int mkstemp(char *t) { oom::Off oom_off_; return do_mkstemp(t); }
int mkstemp64(char *t) { oom::Off oom_off_; return do_mkstemp(t); }
}

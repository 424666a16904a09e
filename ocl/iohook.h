// Redirects files the library creates under /tmp/cl842* into a scratch directory, and lets a test observe, fail, tear
// or schedule each file operation.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
namespace iohook {
extern std::string scratch;              // directory; one sub-directory per process
std::string dir();                       // of this process, created on demand
std::string path(const char *p);         // where a path leads
struct Op { const char *name; std::string path; size_t n; };
// returns 0: perform; errno > 0: fail; for writes *n may be reduced (torn) - a reduced write then fails with ENOSPC
extern std::function<int(const Op &, size_t *n)> hook;
}
// Failing memory allocations outside of the runtime
namespace oom {
extern thread_local int off;        // > 0: allocations of this thread never fail
extern long at, count;              // index of the allocation that fails; allocations so far
extern bool on, all, hit;           // all: every later one, too; hit: something failed
struct Off { Off() { off++; } ~Off() { off--; } };
struct On { int o; On() : o(off) { off = 0; } ~On() { off = o; } };
}

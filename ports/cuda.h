// What nvcc provides, for running kernels natively.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include "ptx.hpp"
#define __global__
#define __device__
#define __host__
#define __constant__
#define __shared__
#define __forceinline__ inline
#define __restrict__
struct cuda_dim { unsigned x = 1, y = 1, z = 1; };
extern cuda_dim blockIdx, blockDim, threadIdx, gridDim;
#include <lib842/cuda.h>
#ifdef RELAXED
#undef LIB842_CUDA_STRICT
#endif
#define __noinline__ __attribute__((noinline))
#define __managed__
#define __launch_bounds__(...)
typedef cuda_dim dim3;
static const int warpSize = 32;
template<class T> static inline T __ldg(const T *p) { return *p; }
static inline unsigned __umul24(unsigned a, unsigned b) { return (a & 0xffffff) * (b & 0xffffff); }
static inline int __mul24(int a, int b) { return (int)((unsigned)(a << 8 >> 8) * (unsigned)(b << 8 >> 8)); }
static inline unsigned __umulhi(unsigned a, unsigned b) { return (uint64_t)a * b >> 32; }
static inline unsigned long long __umul64hi(unsigned long long a, unsigned long long b) { return (unsigned __int128)a * b >> 64; }
static inline int __clz(int v) { return v ? __builtin_clz(v) : 32; }
static inline int __clzll(long long v) { return v ? __builtin_clzll(v) : 64; }
static inline int __ffs(int v) { return __builtin_ffs(v); }
static inline int __ffsll(long long v) { return __builtin_ffsll(v); }
static inline int __popc(unsigned v) { return __builtin_popcount(v); }
static inline int __popcll(unsigned long long v) { return __builtin_popcountll(v); }
static inline unsigned __brev(unsigned v) { unsigned r = 0; for (int i = 0; i < 32; i++) r |= (v >> i & 1) << (31 - i); return r; }
static inline unsigned long long __brevll(unsigned long long v) { return (unsigned long long)__brev(v) << 32 | __brev(v >> 32); }
static inline unsigned __byte_perm(unsigned a, unsigned b, unsigned s) {
	uint64_t t = (uint64_t)b << 32 | a; unsigned r = 0;
	for (int i = 0; i < 4; i++) r |= (unsigned)(t >> 8 * (s >> 4 * i & 7) & 255) << 8 * i;
	return r;
}
static inline unsigned __funnelshift_l(unsigned lo, unsigned hi, unsigned n) { return ((uint64_t)hi << 32 | lo) << (n & 31) >> 32; }
static inline unsigned __funnelshift_r(unsigned lo, unsigned hi, unsigned n) { return ((uint64_t)hi << 32 | lo) >> (n & 31); }
static inline long long __double_as_longlong(double d) { long long v; memcpy(&v, &d, 8); return v; }
#define CUDA_MINMAX(T) static inline T min(T a, T b) { return a < b ? a : b; } static inline T max(T a, T b) { return a < b ? b : a; }
CUDA_MINMAX(int) CUDA_MINMAX(unsigned) CUDA_MINMAX(long) CUDA_MINMAX(unsigned long) CUDA_MINMAX(long long) CUDA_MINMAX(unsigned long long)

// Stand-in for the synthesis tools' arbitrary-precision integers: the operations the tokenizer uses.
#pragma once
#include <bitset>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
using std::size_t;
extern std::string hls_misuse;
static inline void hls_bad(const char *s) { if (hls_misuse.empty()) hls_misuse = s; }
typedef std::bitset<512> hls_wide;
static inline hls_wide hls_from(unsigned long long v) { return hls_wide(v); }
static inline unsigned long long hls_low(const hls_wide &b) { return (b & hls_wide(~0ull)).to_ullong(); }
static inline hls_wide hls_mask(int w) { return w >= 512 ? ~hls_wide() : ~(~hls_wide() << w); }
template <int W> struct ap_uint;
struct hls_concat;
struct hls_range { // a part of a number
	hls_wide *b; int hi, lo, w;
	hls_range(hls_wide *b, long hi_, long lo_, int w) : b(b), hi(hi_), lo(lo_), w(w) { if (lo_ < 0 || hi_ < lo_ || hi_ >= w) { hls_bad("part of a number out of its range"); hi = lo = 0; } }
	hls_range(const hls_range &) = default;
	hls_wide get() const { return *b >> lo & hls_mask(hi - lo + 1); }
	void set(const hls_wide &v) { hls_wide m = hls_mask(hi - lo + 1); *b = (*b & ~(m << lo)) | (v & m) << lo; }
	hls_range &operator=(const hls_range &o) { set(o.get()); return *this; }
	template <int M> hls_range &operator=(const ap_uint<M> &o) { set(o.b); return *this; }
	template <class T, class = std::enable_if_t<std::is_integral<T>::value>> hls_range &operator=(T v) { set(hls_from((unsigned long long)v)); return *this; }
	hls_range &operator=(const hls_concat &o);
	int length() const { return hi - lo + 1; }
	unsigned to_uint() const { return hls_low(get()); }
	int to_int() const { return hls_low(get()); }
	operator unsigned long long() const { return hls_low(get()); }
	unsigned long long to_uint64() const { return hls_low(get()); }
};
template <int W> struct ap_uint {
	hls_wide b;
	ap_uint() { b = hls_wide(0xAAAAAAAAAAAAAAAAull) & hls_mask(W); } // not initialised
	template <class T, class = std::enable_if_t<std::is_integral<T>::value>> ap_uint(T v) : b(hls_from((unsigned long long)v) & hls_mask(W)) {}
	template <int M> ap_uint(const ap_uint<M> &o) : b(o.b & hls_mask(W)) {}
	ap_uint(const ap_uint &) = default; ap_uint &operator=(const ap_uint &) = default;
	ap_uint(const hls_concat &c);
	ap_uint(const hls_range &r) : b(r.get() & hls_mask(W)) {}
	operator unsigned long long() const { return hls_low(b); }
	hls_range operator()(long hi, long lo) const { return hls_range(const_cast<hls_wide *>(&b), hi, lo, W); }
	hls_range range(long hi, long lo) const { return (*this)(hi, lo); }
	hls_range operator[](long i) const { return (*this)(i, i); }
	bool test(long i) const { return b[i]; }
	bool get_bit(long i) const { return b[i]; }
	void set_bit(long i, bool v) { b[i] = v; }
	void set(long i) { b[i] = 1; }
	void clear(long i) { b[i] = 0; }
	static const int width = W;
	int length() const { return W; }
	bool or_reduce() const { return b.any(); }
	bool and_reduce() const { return b == hls_mask(W); }
	int to_int() const { return hls_low(b); }
	ap_uint &operator++() { return *this += 1; }
	ap_uint &operator--() { return *this -= 1; }
	ap_uint operator++(int) { ap_uint t = *this; *this += 1; return t; }
	ap_uint operator--(int) { ap_uint t = *this; *this -= 1; return t; }
	ap_uint &operator<<=(unsigned long long n) { b = n >= 512 ? hls_wide() : b << n & hls_mask(W); return *this; }
	ap_uint &operator>>=(unsigned long long n) { b = n >= 512 ? hls_wide() : b >> n; return *this; }
	ap_uint &operator+=(unsigned long long n) { static_assert(W <= 64, ""); b = hls_from(hls_low(b) + n) & hls_mask(W); return *this; }
	ap_uint &operator-=(unsigned long long n) { static_assert(W <= 64, ""); b = hls_from(hls_low(b) - n) & hls_mask(W); return *this; }
	unsigned char to_uchar() const { return hls_low(b); }
	unsigned to_uint() const { return hls_low(b); }
	unsigned long long to_uint64() const { return hls_low(b); }
};
// concatenations; a part of a number has its width at run time only
struct hls_concat {
	hls_wide b; int w;
	template <int W> hls_concat(const ap_uint<W> &a) : b(a.b), w(W) {}
	hls_concat(const hls_range &r) : b(r.get()), w(r.hi - r.lo + 1) {}
	hls_concat(const hls_wide &b, int w) : b(b), w(w) {}
	operator unsigned long long() const { return hls_low(b); }
	template <int W> operator ap_uint<W>() const { ap_uint<W> r; r.b = b & hls_mask(W); return r; }
};
inline hls_range &hls_range::operator=(const hls_concat &o) { set(o.b); return *this; }
template <int W> ap_uint<W>::ap_uint(const hls_concat &c) : b(c.b & hls_mask(W)) {}
static inline hls_concat hls_cat(const hls_concat &a, const hls_concat &c) { return hls_concat((a.b << c.w | c.b) & hls_mask(a.w + c.w), a.w + c.w); }
template <int A, int B> ap_uint<A + B> operator,(const ap_uint<A> &a, const ap_uint<B> &c) { ap_uint<A + B> r; r.b = (a.b << B | c.b) & hls_mask(A + B); return r; }
template <int A> hls_concat operator,(const ap_uint<A> &a, const hls_range &c) { return hls_cat(a, c); }
template <int B> hls_concat operator,(const hls_range &a, const ap_uint<B> &c) { return hls_cat(a, c); }
static inline hls_concat operator,(const hls_range &a, const hls_range &c) { return hls_cat(a, c); }
template <int B> hls_concat operator,(const hls_concat &a, const ap_uint<B> &c) { return hls_cat(a, c); }
static inline hls_concat operator,(const hls_concat &a, const hls_range &c) { return hls_cat(a, c); }
// a shift keeps the width; the bit operations have the width of the wider operand
#define HLS_INT class T, class = std::enable_if_t<std::is_integral<T>::value>
template <int W, HLS_INT> ap_uint<W> operator<<(const ap_uint<W> &a, T n) { ap_uint<W> r = a; r <<= (unsigned long long)n; return r; }
template <int W, HLS_INT> ap_uint<W> operator>>(const ap_uint<W> &a, T n) { ap_uint<W> r = a; r >>= (unsigned long long)n; return r; }
template <int W, int N> ap_uint<W> operator<<(const ap_uint<W> &a, const ap_uint<N> &n) { ap_uint<W> r = a; r <<= hls_low(n.b); return r; }
template <int W, int N> ap_uint<W> operator>>(const ap_uint<W> &a, const ap_uint<N> &n) { ap_uint<W> r = a; r >>= hls_low(n.b); return r; }
template <int W> ap_uint<W> operator~(const ap_uint<W> &a) { ap_uint<W> r; r.b = ~a.b & hls_mask(W); return r; }
#define HLS_BIT(op) \
	template <int A, int B> ap_uint<(A > B ? A : B)> operator op(const ap_uint<A> &a, const ap_uint<B> &c) { ap_uint<(A > B ? A : B)> r; r.b = a.b op c.b; return r; } \
	template <int A, HLS_INT> ap_uint<(A > 64 ? A : 64)> operator op(const ap_uint<A> &a, T c) { ap_uint<(A > 64 ? A : 64)> r; r.b = a.b op hls_from((unsigned long long)c); return r; } \
	template <int A, HLS_INT> ap_uint<(A > 64 ? A : 64)> operator op(T c, const ap_uint<A> &a) { return a op c; } \
	template <int A, class T> ap_uint<A> &operator op##=(ap_uint<A> &a, const T &c) { ap_uint<512> t = c; a.b = (a.b op t.b) & hls_mask(A); return a; }
HLS_BIT(|) HLS_BIT(&) HLS_BIT(^)
template <int A, int B> bool operator==(const ap_uint<A> &a, const ap_uint<B> &c) { return a.b == c.b; }
template <int A, int B> bool operator!=(const ap_uint<A> &a, const ap_uint<B> &c) { return a.b != c.b; }

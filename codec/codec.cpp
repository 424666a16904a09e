// Bounded-exhaustive exploration of the sw842 / optsw842 codecs against the reference model (C01..C14).
#include "../common/mc.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include <lib842/sw.h>
#include <cassert>
#include <climits>
#include <malloc.h>
#include <set>
#include <functional>
#ifdef MC_SAN
#include <sanitizer/asan_interface.h>
#endif

using namespace mc;
using ref::Builder;
using std::string;

static Explorer ex;
static bool THOROUGH = false, DEEP = false; // cheap properties use the THOROUGH bounds in the quick tier too; DEEP only in the thorough tier
#ifdef MC_SAN
static const bool SAN = true;
#else
static const bool SAN = false;
#endif

// ---------------------------------------------------------------- calling the code under test
enum { SW = 0, OPT = 1 };
static const char *IMPL[2] = {"sw842", "optsw842"};
typedef int (*fn)(const uint8_t *, size_t, uint8_t *, size_t *);
static fn COMP[2] = {sw842_compress, optsw842_compress}, DECOMP[2] = {sw842_decompress, optsw842_decompress};
typedef int (*cfn)(size_t, int *, const uint8_t *, size_t, const size_t *, uint8_t *, size_t, size_t *);
static cfn CCOMP[2] = {sw842_compress_chunked, optsw842_compress_chunked}, CDECOMP[2] = {sw842_decompress_chunked, optsw842_decompress_chunked};

static Guarded *gin, *gout, *gin2, *gout2;

// ---------------------------------------------------------------- allocator under control (C14)
// Armed only during the calls of the code under test: counts allocations, fails chosen ones and tracks what is not released.
namespace mem {
static bool armed; static long count, fail_at, fail_to; // allocations number fail_at..fail_to fail (1-based)
static size_t live; static void *tab[1 << 16]; static bool foreign_free;
static void start(long at = 0, long to = -1) { count = 0; fail_at = at; fail_to = to; live = 0; foreign_free = false; memset(tab, 0, sizeof tab); armed = true; }
static void stop() { armed = false; }
static size_t slot(void *p) { size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; return i; }
static bool refuse() { count++; return count >= fail_at && count <= fail_to; }
static void *got(void *p) { // tombstones (1) keep the probe sequences
	if (!p) return p;
	size_t i = slot(p); while (tab[i] && tab[i] != (void *)1) i = (i + 1) & 65535;
	tab[i] = p; live++; return p;
}
static void gone(void *p) {
	size_t i = slot(p); while (tab[i] && tab[i] != p) i = (i + 1) & 65535;
	if (tab[i] == p) { tab[i] = (void *)1; live--; } else foreign_free = true;
}
}
#ifndef MC_SAN
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { if (!mem::armed) return __libc_malloc(n); if (mem::refuse()) { errno = ENOMEM; return nullptr; } return mem::got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { if (!mem::armed) return __libc_calloc(a, b); if (mem::refuse()) { errno = ENOMEM; return nullptr; } return mem::got(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) {
	if (!mem::armed) return __libc_realloc(p, n);
	if (n && mem::refuse()) { errno = ENOMEM; return nullptr; }
	if (p) mem::gone(p);
	return mem::got(__libc_realloc(p, n));
}
void free(void *p) { if (mem::armed && p) mem::gone(p); __libc_free(p); }
void *memalign(size_t a, size_t n) { if (!mem::armed) return __libc_memalign(a, n); if (mem::refuse()) { errno = ENOMEM; return nullptr; } return mem::got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
}
#endif

struct Called { int ret; size_t olen; bytes out; bool intact; bool in_same; };

struct Buf {
	Guarded *g; uint8_t *p; size_t n;
	Buf(Guarded *g, size_t n, unsigned align, bool high) : g(g), n(n) {
#ifdef MC_SAN
		ASAN_UNPOISON_MEMORY_REGION(g->base, g->cap);
#endif
		p = g->place(n, align, high);
	}
	void arm() {
#ifdef MC_SAN
		ASAN_POISON_MEMORY_REGION(g->base, p - g->base);
		ASAN_POISON_MEMORY_REGION(p + n, g->base + g->cap - (p + n));
#endif
	}
	void disarm() {
#ifdef MC_SAN
		ASAN_UNPOISON_MEMORY_REGION(g->base, g->cap);
#endif
	}
};

// One call with guarded buffers. fill: previous content of the output buffer.
static Called call(fn f, const uint8_t *d, size_t n, size_t cap, unsigned ia = 0, unsigned oa = 0, bool high = true, int fill = -1) {
	Called r;
	Buf I(gin, n, ia, high), O(gout, cap, oa, high);
	if (n) memcpy(I.p, d, n);
	if (fill >= 0) memset(O.p, fill, cap);
	I.arm(); O.arm();
	r.olen = cap;
	r.ret = f(I.p, n, O.p, &r.olen);
	I.disarm(); O.disarm();
	r.intact = gin->intact() && gout->intact();
	r.in_same = n == 0 || !memcmp(I.p, d, n);
	if (r.ret == 0 && r.olen <= cap) r.out.assign(O.p, O.p + r.olen);
	return r;
}
static string basic(const Called &r, size_t cap) {
	if (!r.intact) return "bytes outside the given buffers were modified";
	if (!r.in_same) return "the input buffer was modified";
	if (r.ret > 0) return "positive return value " + std::to_string(r.ret);
	if (r.ret == 0 && r.olen > cap) return "reported length " + std::to_string(r.olen) + " exceeds capacity " + std::to_string(cap);
	return "";
}

// ---------------------------------------------------------------- oracles
#define FAIL(...) do { char _b[1500]; snprintf(_b, sizeof(_b), __VA_ARGS__); why = _b; return false; } while (0)

static size_t big_cap(size_t n) { return ref::worst_size(n) + 64; }
static string first_diff(const bytes &a, const bytes &b) {
	size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	return "lengths " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ", first difference at byte " + std::to_string(i);
}

// C01: p = {impl}
static bool o_roundtrip(const Case &c, string &why, int ci, int di) {
	auto k = call(COMP[ci], c.a.data(), c.a.size(), big_cap(c.a.size()));
	string b = basic(k, big_cap(c.a.size()));
	if (!b.empty()) FAIL("%s_compress: %s", IMPL[ci], b.c_str());
	if (k.ret) FAIL("%s_compress of %zu bytes into ample space failed: %d", IMPL[ci], c.a.size(), k.ret);
	ex.state(hash64(c.a.data(), c.a.size())); ex.transitions((c.a.size() + 7) / 8); ex.nontrivial(c.a.size() > 8);
	auto u = call(DECOMP[di], k.out.data(), k.out.size(), c.a.size());
	b = basic(u, c.a.size());
	if (!b.empty()) FAIL("%s_decompress: %s", IMPL[di], b.c_str());
	if (ci != di && c.a.size() % 8) { // SHORT_DATA is outside what optsw supports: it may refuse, not lie
		if (u.ret == 0 && u.out != c.a) FAIL("%s_decompress returned success with wrong data for a stream with SHORT_DATA", IMPL[di]);
		if (u.ret != 0 && di == SW) FAIL("sw842_decompress rejected a stream of optsw842_compress: %d", u.ret);
		return true;
	}
	if (u.ret) FAIL("%s_decompress of a %s_compress stream failed: %d", IMPL[di], IMPL[ci], u.ret);
	if (u.olen != c.a.size()) FAIL("length %zu reported after decompressing %zu bytes", u.olen, c.a.size());
	if (u.out != c.a) FAIL("%s -> %s does not restore the data: %s", IMPL[ci], IMPL[di], first_diff(u.out, c.a).c_str());
	return true;
}

// Decode c.a with capacity p[1] by impl p[0], alignments p[2], p[3]; flags p[4]: 1 = placed low
static bool o_decode(const Case &c, string &why, bool twice = false) {
	int impl = c.p[0]; size_t cap = c.p[1];
	unsigned ia = c.p.size() > 2 ? c.p[2] : 0, oa = c.p.size() > 3 ? c.p[3] : 0;
	auto m = ref::decode(c.a.data(), c.a.size(), cap);
	ex.state(mix(hash64(m.out.data(), m.out.size()), m.st)); ex.transitions(m.out.size() / 8 + 2); ex.nontrivial(m.out.size() > 0); ex.outcome(m.st);
	Called first;
	for (int k = 0; k < (twice ? 2 : 1); k++) {
		auto r = call(DECOMP[impl], c.a.data(), c.a.size(), cap, ia, oa, k == 0, twice ? (k ? 0xff : 0) : -1);
		string b = basic(r, cap);
		if (!b.empty()) FAIL("%s_decompress: %s", IMPL[impl], b.c_str());
		if (r.ret && r.olen) FAIL("%s_decompress failed with %d but reports an output length of %zu", IMPL[impl], r.ret, r.olen);
		if (k == 1 && (r.ret != first.ret || r.out != first.out)) FAIL("%s_decompress: result depends on memory other than the input (ret %d/%d)", IMPL[impl], first.ret, r.ret);
		first = r;
	}
	auto &r = first;
	bool may_refuse = impl == OPT && (m.has_short || (m.bits + 63) / 64 * 8 > c.a.size());
	switch (m.st) {
	case ref::OK:
		if (r.ret && may_refuse) return true;
		if (r.ret) FAIL("%s_decompress rejects (%d) a well-formed stream of %zu bytes of data", IMPL[impl], r.ret, m.out.size());
		if (r.out != m.out) FAIL("%s_decompress output differs from the format's: %s", IMPL[impl], first_diff(r.out, m.out).c_str());
		return true;
	case ref::NOSPACE:
		if (r.ret == 0) FAIL("%s_decompress reports success for %zu bytes of data in a capacity of %zu", IMPL[impl], m.out.size(), cap);
		if (may_refuse) return true;
		if (r.ret != -ENOSPC) FAIL("%s_decompress returns %d instead of -ENOSPC (%zu bytes of data, capacity %zu)", IMPL[impl], r.ret, m.out.size(), cap);
		return true;
	case ref::UNSPEC:
		return true;
	default:
		if (r.ret == 0) FAIL("%s_decompress accepts a malformed stream (model: complete=%d crc_ok=%d), reporting %zu bytes", IMPL[impl], m.complete, m.crc_ok, r.olen);
		return true;
	}
}

// C06 shares o_decode. C07: corruption of stream c.a at every bit; p={impl}
static bool o_crcflip(const Case &c, string &why) {
	int impl = c.p[0];
	auto m0 = ref::decode(c.a.data(), c.a.size(), 1 << 16);
	bytes s = c.a;
	size_t nb = m0.bits ? m0.bits : s.size() * 8;
	for (size_t i = 0; i < nb; i++) {
		s[i >> 3] ^= 0x80 >> (i & 7);
		auto m = ref::decode(s.data(), s.size(), 1 << 16);
		size_t cap = std::max(m.out.size(), m0.out.size()) + 8;
		auto r = call(DECOMP[impl], s.data(), s.size(), cap, 0, 0);
		ex.transitions(1); ex.state(mix(hash64(s.data(), s.size()), 1));
		if (!r.intact) FAIL("flip of bit %zu: wrote outside buffers", i);
		if (r.ret == 0) {
			// success is only allowed when the model also sees a matching checksum
			if (m.st != ref::OK && m.st != ref::UNSPEC) FAIL("%s_decompress accepts the stream after flipping bit %zu although the checksum does not match", IMPL[impl], i);
			if (m.st == ref::OK && r.out != m.out) FAIL("%s_decompress: wrong data after flipping bit %zu", IMPL[impl], i);
		}
		s[i >> 3] ^= 0x80 >> (i & 7);
	}
	ex.nontrivial();
	return true;
}
// C07: trailer emitted for data c.a at input alignment p[1]
static bool o_crcemit(const Case &c, string &why) {
	int impl = c.p[0]; unsigned al = c.p[1];
	auto k = call(COMP[impl], c.a.data(), c.a.size(), big_cap(c.a.size()), al, 0);
	if (k.ret) FAIL("compress failed: %d", k.ret);
	auto m = ref::decode(k.out.data(), k.out.size(), c.a.size(), false, 1 << 22);
	ex.state(mix(hash64(c.a.data(), c.a.size()), al)); ex.transitions(m.out.size() / 8 + 1); ex.nontrivial(c.a.size() > 0);
	if (!m.complete) FAIL("%s_compress: stream is malformed", IMPL[impl]);
	uint64_t got = 0;
	for (size_t i = m.bits - 32; i < m.bits; i++) got = got << 1 | ((k.out[i >> 3] >> (7 - (i & 7))) & 1);
	uint32_t want = c.a.size() <= 4096 ? ref::crc_bitwise(c.a.data(), c.a.size()) : ref::crc(c.a.data(), c.a.size());
	if (got != want) FAIL("%s_compress stores checksum %08llx, the data's is %08x (length %zu, alignment %u)", IMPL[impl], (unsigned long long)got, want, c.a.size(), al);
	// and the decompressor agrees, at every output alignment
	auto u = call(DECOMP[impl], k.out.data(), k.out.size(), c.a.size(), 0, al);
	if (u.ret || u.out != c.a) FAIL("%s_decompress refuses the stream at output alignment %u: %d", IMPL[impl], al, u.ret);
	return true;
}

// C08: every capacity. p={impl}
static bool o_capacity(const Case &c, string &why) {
	int impl = c.p[0];
	if (impl == OPT && c.a.size() % 8) { // an unsupported length: refused whatever the capacity
		ex.state(hash64(c.a.data(), c.a.size()));
		for (size_t cap = 0; cap <= ref::worst_size(c.a.size()) + 8; cap += 4) {
			auto r = call(COMP[impl], c.a.data(), c.a.size(), cap, 0, 0, cap & 4, 0x5a); ex.transitions(1);
			string b = basic(r, cap);
			if (!b.empty()) FAIL("%s_compress with unsupported length: %s", IMPL[impl], b.c_str());
			if (r.ret == 0 || r.olen) FAIL("%s_compress: a length of %zu gives return value %d and reports %zu output bytes", IMPL[impl], c.a.size(), r.ret, r.olen);
		}
		return true;
	}
	auto full = call(COMP[impl], c.a.data(), c.a.size(), big_cap(c.a.size()));
	if (full.ret) FAIL("compress failed with ample space: %d", full.ret);
	ex.state(hash64(c.a.data(), c.a.size())); ex.nontrivial();
	size_t lo = 0, hi = full.olen + 16;
	for (size_t cap = lo; cap <= hi; cap++) {
		auto r = call(COMP[impl], c.a.data(), c.a.size(), cap, 0, 0, cap & 1, 0x5a);
		ex.transitions(1);
		string b = basic(r, cap);
		if (!b.empty()) FAIL("%s_compress with capacity %zu: %s", IMPL[impl], cap, b.c_str());
		if (cap >= full.olen) {
			if (r.ret) FAIL("%s_compress returns %d for capacity %zu although %zu bytes suffice", IMPL[impl], r.ret, cap, full.olen);
			if (r.out != full.out) FAIL("%s_compress: different stream with capacity %zu: %s", IMPL[impl], cap, first_diff(r.out, full.out).c_str());
		} else {
			if (r.ret == 0) FAIL("%s_compress reports success with %zu bytes in a capacity of %zu (%zu needed)", IMPL[impl], r.olen, cap, full.olen);
			if (r.ret != -ENOSPC) FAIL("%s_compress returns %d instead of -ENOSPC for capacity %zu (%zu needed)", IMPL[impl], r.ret, cap, full.olen);
			if (r.olen) FAIL("%s_compress fails for capacity %zu but reports %zu output bytes", IMPL[impl], cap, r.olen);
		}
	}
	// misaligned buffers at the critical capacities
	for (unsigned al = 1; al < 8; al++) {
		auto f = call(COMP[impl], c.a.data(), c.a.size(), big_cap(c.a.size()), al, al);
		if (f.ret) FAIL("compress failed at alignment %u: %d", al, f.ret);
		for (long d = -2; d <= 0; d++) {
			if ((long)f.olen + d < 0) continue;
			auto r = call(COMP[impl], c.a.data(), c.a.size(), f.olen + d, al, (al * 3) & 7 ? (al * 3) & 7 : al, true, 0x5a);
			string b = basic(r, f.olen + d);
			if (!b.empty()) FAIL("%s_compress misaligned with capacity %ld: %s", IMPL[impl], (long)f.olen + d, b.c_str());
			if ((d == 0) != (r.ret == 0) || (d < 0 && (r.ret != -ENOSPC || r.olen))) FAIL("%s_compress misaligned with capacity %ld of %zu: ret %d olen %zu", IMPL[impl], (long)f.olen + d, f.olen, r.ret, r.olen);
		}
	}
	return true;
}

static void __attribute__((noinline)) dirty_stack(int v) { volatile uint8_t a[32768]; for (size_t i = 0; i < sizeof(a); i++) a[i] = v; }

// C09: p={impl}: alignments, buffer contents, allocator contents
static bool o_pure(const Case &c, string &why) {
	int impl = c.p[0]; size_t n = c.a.size();
	size_t cap = big_cap(n);
	auto base = call(COMP[impl], c.a.data(), n, cap, 0, 0, true, 0);
	ex.state(hash64(c.a.data(), n)); ex.nontrivial();
	static const int FILLS[] = {0x00, 0xff, 0xa5};
	for (int f = 0; f < 3; f++) {
		mallopt(M_PERTURB, FILLS[f] ? FILLS[f] : 1); dirty_stack(FILLS[f]);
		auto r = call(COMP[impl], c.a.data(), n, cap, 0, 0, f & 1, FILLS[f]); ex.transitions(1);
		if (!r.in_same) FAIL("compress modified its input");
		if (r.ret != base.ret || r.olen != base.olen || r.out != base.out) FAIL("%s_compress: result depends on previous memory contents (ret %d/%d, len %zu/%zu)", IMPL[impl], base.ret, r.ret, base.olen, r.olen);
	}
	bytes *stream = &base.out;
	for (int ia = 0; ia < 8; ia++) for (int oa = 0; oa < 8; oa++) {
		if (impl == SW && base.ret == 0) {
			auto r = call(COMP[impl], c.a.data(), n, cap, ia, oa, true, 0x11 * oa); ex.transitions(1);
			if (r.ret != base.ret || r.out != base.out) FAIL("sw842_compress: result depends on buffer alignment (%d,%d)", ia, oa);
		} else if (base.ret == 0) {
			auto r = call(COMP[impl], c.a.data(), n, cap, ia, oa, true, 0x11 * oa); ex.transitions(1);
			if (r.ret) FAIL("optsw842_compress fails (%d) at alignment (%d,%d)", r.ret, ia, oa);
			auto m = ref::decode(r.out.data(), r.out.size(), n);
			if (m.st != ref::OK || m.out != c.a) FAIL("optsw842_compress at alignment (%d,%d) does not encode the data", ia, oa);
		}
		if (base.ret) continue;
		for (int f = 0; f < 2; f++) {
			dirty_stack(f ? 0xff : 0);
			auto u = call(DECOMP[impl], stream->data(), stream->size(), n, ia, oa, f, f ? 0xff : 0); ex.transitions(1);
			if (u.ret || u.out != c.a) FAIL("%s_decompress: result depends on alignment (%d,%d) or buffer contents: ret %d", IMPL[impl], ia, oa, u.ret);
			if (!u.in_same) FAIL("decompress modified its input");
		}
	}
	// failing decompression is alignment independent as well
	if (base.ret == 0 && stream->size() >= 8) {
		bytes bad = *stream; bad[0] = 0xf8; // opcode 0x1f
		for (int ia = 0; ia < 8; ia++) for (int oa = 0; oa < 8; oa += 3) {
			auto u = call(DECOMP[impl], bad.data(), bad.size(), n + 8, ia, oa); ex.transitions(1);
			if (u.ret == 0 || u.olen) FAIL("%s_decompress accepts an invalid opcode at alignment (%d,%d)", IMPL[impl], ia, oa);
		}
	}
	mallopt(M_PERTURB, 0);
	return true;
}

// C09: p={impl, first, count}: words covering every 2-byte value (and dense sets of 4- and 8-byte values), each compressed after
// a compression of the same word; the allocator hands the second call the memory of the first
static void value_word(uint64_t v, uint8_t *w) {
	uint64_t x = 0;
	for (int i = 0; i < 4; i++) x = x << 16 | (uint16_t)(v * 4 + i * 16411 + (v >> 14));
	for (int i = 0; i < 8; i++) w[i] = x >> (56 - 8 * i);
}
static bool o_twice(const Case &c, string &why) {
	int impl = c.p[0];
	for (uint64_t v = c.p[1]; v < c.p[1] + c.p[2]; v++) {
		uint8_t w[8]; value_word(v, w); size_t cap = big_cap(8);
		mallopt(M_PERTURB, 1);
		auto a = call(COMP[impl], w, 8, cap, 0, 0, true, 0);
		mallopt(M_PERTURB, 0);
		call(COMP[impl], w, 8, cap, 0, 0, true, 0);
		auto b = call(COMP[impl], w, 8, cap, 0, 0, true, 0);
		ex.transitions(3); ex.state(mix(impl, v));
		if (a.ret != b.ret || a.olen != b.olen || a.out != b.out) FAIL("%s_compress of the word of value %lu gives another result after a compression of the same word (ret %d/%d, len %zu/%zu)", IMPL[impl], (unsigned long)v, a.ret, b.ret, a.olen, b.olen);
	}
	ex.nontrivial();
	return true;
}

// C09 histories: p = sequence of operation numbers; every result must equal the result in a fresh process
struct HOp { string name; fn f; bytes in; size_t cap; };
static std::vector<HOp> HOPS;
static std::vector<Called> *HFRESH;
static bool o_history(const Case &c, string &why) {
	uint64_t h = 7;
	for (size_t i = 0; i < c.p.size(); i++) {
		auto &o = HOPS[c.p[i]];
		auto r = call(o.f, o.in.data(), o.in.size(), o.cap, 0, 0, true);
		auto &e = (*HFRESH)[c.p[i]];
		h = mix(h, c.p[i]); ex.state(h); ex.transitions(1);
		if (r.ret != e.ret || r.olen != e.olen || r.out != e.out)
			FAIL("call %zu of the history (%s) gives ret %d len %zu; in a fresh process ret %d len %zu", i, o.name.c_str(), r.ret, r.olen, e.ret, e.olen);
	}
	ex.nontrivial(c.p.size() > 1);
	return true;
}

// C10: p={impl}
static bool o_emit(const Case &c, string &why) {
	int impl = c.p[0]; size_t n = c.a.size();
	for (int fill = 0; fill < 2; fill++) {
		auto k = call(COMP[impl], c.a.data(), n, big_cap(n), 0, 0, true, fill ? 0xff : 0);
		if (k.ret) FAIL("compress failed: %d", k.ret);
		if (k.olen % 8) FAIL("%s_compress emits %zu bytes, not a multiple of 8", IMPL[impl], k.olen);
		auto m = ref::decode(k.out.data(), k.out.size(), n, true);
		ex.state(hash64(c.a.data(), n)); ex.transitions(m.toks.size()); ex.nontrivial(!fill && m.toks.size() > 2);
		if (m.st != ref::OK) FAIL("%s_compress emits a stream that does not decode under the format (status %d, crc_ok %d)", IMPL[impl], m.st, m.crc_ok);
		if (m.out != c.a) FAIL("%s_compress: the stream encodes other data: %s", IMPL[impl], first_diff(m.out, c.a).c_str());
		if ((m.bits + 63) / 64 * 8 != k.olen) FAIL("%s_compress: stream has %zu bits but %zu bytes are reported", IMPL[impl], m.bits, k.olen);
		for (size_t i = m.bits; i < k.olen * 8; i++)
			if (k.out[i >> 3] & (0x80 >> (i & 7))) FAIL("%s_compress: padding bit %zu is not zero", IMPL[impl], i);
		for (size_t i = 0; i < m.toks.size(); i++)
			if (m.toks[i].op == ref::SHORTD && (n % 8 == 0 || i + 2 != m.toks.size() || m.toks[i].f[0] != n % 8))
				FAIL("%s_compress uses SHORT_DATA for other than the odd tail", IMPL[impl]);
		if (k.olen > ref::worst_size(n)) FAIL("%s_compress expands %zu bytes to %zu, more than the all-literal %zu", IMPL[impl], n, k.olen, ref::worst_size(n));
	}
	return true;
}

// C11: p={impl}
static bool o_cheap(const Case &c, string &why) {
	int impl = c.p[0]; size_t n = c.a.size();
	auto k = call(COMP[impl], c.a.data(), n, big_cap(n));
	if (k.ret) FAIL("compress failed: %d", k.ret);
	auto m = ref::decode(k.out.data(), k.out.size(), n, true);
	if (m.st != ref::OK || m.out != c.a) FAIL("%s_compress emits a wrong stream", IMPL[impl]);
	ex.state(hash64(c.a.data(), n)); ex.transitions(m.toks.size()); ex.nontrivial(m.toks.size() > 2);
	static thread_local ref::Rings g; g.words = 0;
	size_t w = 0, t = 0, nw = n / 8;
	const uint8_t *d = c.a.data();
	while (w < nw) {
		// a maximal run of repetitions?
		if (w > 0 && !memcmp(d + 8 * w, d + 8 * w - 8, 8)) {
			size_t run = 0; while (w + run < nw && !memcmp(d + 8 * (w + run), d + 8 * w - 8, 8)) run++;
			size_t ops = (run + 63) / 64, done = 0;
			for (size_t i = 0; i < ops; i++) {
				if (t >= m.toks.size() || m.toks[t].op != ref::REPEAT) FAIL("%s_compress: word %zu repeats its predecessor (run of %zu) but operation 0x%x is used", IMPL[impl], w + done, run, t < m.toks.size() ? m.toks[t].op : -1);
				done += m.toks[t].f[0] + 1; t++;
			}
			if (done != run) FAIL("%s_compress: a run of %zu repetitions at word %zu takes more than %zu REPEAT operations", IMPL[impl], run, w, ops);
			for (size_t i = 0; i < run; i++) g.push(d + 8 * (w + i));
			w += run;
			continue;
		}
		const uint8_t *x = d + 8 * w;
		if (t >= m.toks.size()) FAIL("too few operations");
		int op = m.toks[t].op;
		static const uint8_t Z[8] = {0};
		if (!memcmp(x, Z, 8)) {
			if (op != ref::ZEROS) FAIL("%s_compress: zero word %zu is encoded with operation 0x%x", IMPL[impl], w, op);
		} else if (op == ref::ZEROS || op == ref::REPEAT) FAIL("unexpected operation 0x%x", op);
		else if (impl == SW) {
			bool a2[4], a4[2], a8 = g.has(8, x);
			for (int i = 0; i < 4; i++) a2[i] = g.has(2, x + 2 * i);
			for (int i = 0; i < 2; i++) a4[i] = g.has(4, x + 4 * i);
			int best = 1000, bt = -1;
			for (int tt = 0; tt < 26; tt++) {
				bool ok = true; int b = 0;
				for (int i = 0; i < 4 && ref::TPL[tt][i]; i++) {
					int f = ref::TPL[tt][i];
					if (f == -8) ok &= a8; else if (f == -4) ok &= (b % 4 == 0) && a4[b / 4]; else if (f == -2) ok &= a2[b / 2];
					b += f < 0 ? -f : f;
				}
				if (ok && ref::tpl_bits(tt) < best) best = ref::tpl_bits(tt), bt = tt;
			}
			if (ref::tpl_bits(op) > best) FAIL("sw842_compress encodes word %zu with template 0x%x (%d bits) although template 0x%x (%d bits) is possible", w, op, ref::tpl_bits(op), bt, best);
		}
		g.push(x); w++; t++;
	}
	return true;
}

// C12/C13: p = {impl, dir, n, istride, ostride, [kind_i, ...]}
// kinds for decompression: 0 ok, 1 malformed, 2 too small, 3 skip, 4 bad checksum, 5 truncated, 6 ok with slack
// kinds for compression:   0 ok, 1 length not multiple of 8, 2 too small, 3 skip, 4 empty, 5 incompressible, 6 ok large slack
struct ChunkDef { bytes in; size_t ilen, cap; };
static ChunkDef chunk_def(int dir, int kind, int salt) {
	ChunkDef d;
	bytes raw;
	int nw = 2 + salt % 3;
	for (int i = 0; i < nw; i++) for (int k = 0; k < 8; k++) raw.push_back(kind == 5 || i == 0 ? (uint8_t)(salt * 37 + i * 101 + k * 29 + 1) : (k < 4 ? raw[k] : (uint8_t)(salt + i)));
	if (dir == 0) { // compression
		if (kind == 1) raw.resize(raw.size() - 3);
		if (kind == 4) raw.clear();
		d.in = raw; d.ilen = raw.size();
		d.cap = kind == 2 ? 8 : kind == 6 ? 128 : ref::worst_size(raw.size());
		if (kind == 3) d.ilen = SIZE_MAX;
	} else {
		Builder b;
		for (size_t i = 0; i + 8 <= raw.size(); i += 8) { uint64_t v = 0; for (int k = 0; k < 8; k++) v = v << 8 | raw[i + k]; b.d8(v); }
		if (salt & 1) { uint64_t f[4] = {0,0,0,0}; b.tpl(25, f); }
		b.end();
		d.in = b.w.v; d.cap = b.out.size();
		if (kind == 1) d.in[0] = 0xf8;
		if (kind == 2) d.cap -= 8;
		if (kind == 4) d.in[2] ^= 0x10;
		if (kind == 5) d.in.resize(d.in.size() - 8);
		if (kind == 6) d.cap += 16;
		d.ilen = kind == 3 ? SIZE_MAX : d.in.size();
	}
	return d;
}
static uint8_t *sparse(size_t n) {
	void *m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { perror("mmap sparse"); _exit(90); }
	return (uint8_t *)m;
}
static bool o_chunked(const Case &c, string &why, bool overall) {
	int impl = c.p[0], dir = c.p[1]; size_t n = c.p[2], is = c.p[3], os = c.p[4];
	std::vector<ChunkDef> ch;
	for (size_t i = 0; i < n; i++) ch.push_back(chunk_def(dir, c.p[5 + i], i));
	size_t itot = n ? (n - 1) * is + 256 : 8, otot = n ? (n - 1) * os + 256 : 8;
	bool huge = itot > (1u << 20) || otot > (1u << 20);
	uint8_t *in, *out;
	if (huge) { in = sparse(itot); out = sparse(otot); }
	else { in = gin->place(itot, 0); out = gout->place(otot, 0); memset(out, 0xEE, otot); memset(in, 0xDD, itot); }
	std::vector<int> rets(n + 1, 0x7777);
	std::vector<size_t> il(n + 1, 0x1234), ol(n + 1, 0x4321);
	for (size_t i = 0; i < n; i++) { il[i] = ch[i].ilen; ol[i] = ch[i].cap; if (!ch[i].in.empty()) memcpy(in + i * is, ch[i].in.data(), ch[i].in.size()); }
	// expectations from single calls
	std::vector<Called> e(n);
	int expect_overall = 0;
	for (size_t i = 0; i < n; i++) {
		if (ch[i].ilen == SIZE_MAX) continue;
		Buf I(gin2, ch[i].in.size(), 0, true), O(gout2, ch[i].cap, 0, true);
		if (!ch[i].in.empty()) memcpy(I.p, ch[i].in.data(), ch[i].in.size());
		memset(O.p, 0xEE, ch[i].cap);
		e[i].olen = ch[i].cap;
		e[i].ret = (dir ? DECOMP : COMP)[impl](I.p, ch[i].in.size(), O.p, &e[i].olen);
		if (e[i].ret == 0) e[i].out.assign(O.p, O.p + e[i].olen);
		if (!expect_overall && e[i].ret != 0 && e[i].ret != -ENOSPC) expect_overall = e[i].ret;
	}
	int ret = (dir ? CDECOMP : CCOMP)[impl](n, rets.data(), in, is, il.data(), out, os, ol.data());
	uint64_t h = 3; for (auto v : c.p) h = mix(h, v); ex.state(h); ex.transitions(n); ex.nontrivial(n > 1);
	const char *what = dir ? "decompress_chunked" : "compress_chunked";
	if (overall) {
		if (ret != expect_overall) { if (huge) { munmap(in, itot); munmap(out, otot); } FAIL("%s_%s returns %d; the chunks' own results call for %d", IMPL[impl], what, ret, expect_overall); }
	} else {
		string w;
		if (!huge && (!gin->intact() || !gout->intact())) w = "memory outside the buffers modified";
		if (rets[n] != 0x7777 || ol[n] != 0x4321) w = "arrays written past the number of chunks";
		for (size_t i = 0; i < n && w.empty(); i++) {
			string pre = "chunk " + std::to_string(i) + ": ";
			if (il[i] != ch[i].ilen) w = pre + "input length changed";
			if (ch[i].ilen == SIZE_MAX) {
				if (rets[i] != 0x7777 && rets[i] != 0) w = pre + "skipped, but return value set to " + std::to_string(rets[i]);
				if (ol[i] != ch[i].cap) w = pre + "skipped, but length changed";
				if (!huge) for (size_t k = 0; k < ch[i].cap && k < os; k++) if (out[i * os + k] != 0xEE) w = pre + "skipped, but output written";
				if (huge) for (size_t k = 0; k < 128; k++) if (out[i * os + k]) w = pre + "skipped, but output written";
				continue;
			}
			if (rets[i] != e[i].ret) w = pre + "return value " + std::to_string(rets[i]) + " instead of " + std::to_string(e[i].ret);
			else if (ol[i] != e[i].olen) w = pre + "length " + std::to_string(ol[i]) + " instead of " + std::to_string(e[i].olen);
			else if (e[i].ret == 0 && e[i].olen && memcmp(out + i * os, e[i].out.data(), e[i].olen)) w = pre + "output differs";
			// nothing beyond the chunk's capacity
			size_t gap_end = i + 1 < n ? os : 200;
			for (size_t k = ch[i].cap; k < gap_end && k < 256 && w.empty(); k++) if (out[i * os + k] != (huge ? 0 : 0xEE)) w = pre + "bytes after its capacity modified";
		}
		if (!w.empty()) { if (huge) { munmap(in, itot); munmap(out, otot); } FAIL("%s_%s: %s", IMPL[impl], what, w.c_str()); }
	}
	if (huge) { munmap(in, itot); munmap(out, otot); }
	return true;
}

// C14: p={decompress?, impl, capacity, mode}: every allocation the call makes fails, alone (mode 0) or with all later ones (mode 1)
static bool o_memory(const Case &c, string &why) {
	bool de = c.p[0]; int impl = c.p[1]; size_t cap = c.p[2]; bool later = c.p[3];
	fn f = (de ? DECOMP : COMP)[impl];
	string name = string(IMPL[impl]) + (de ? "_decompress" : "_compress");
	call(f, c.a.data(), c.a.size(), cap); // whatever is set up once is not attributed to the calls below
	bool threw = false;
	auto run = [&](long at, long to) {
		Called r; Buf I(gin, c.a.size(), 0, true), O(gout, cap, 0, true);
		if (!c.a.empty()) memcpy(I.p, c.a.data(), c.a.size());
		r.olen = cap;
		mem::start(at, to);
		try { r.ret = f(I.p, c.a.size(), O.p, &r.olen); } catch (...) { threw = true; r.ret = 0; }
		mem::stop();
		r.intact = gin->intact() && gout->intact(); r.in_same = c.a.empty() || !memcmp(I.p, c.a.data(), c.a.size());
		if (r.ret == 0 && r.olen <= cap) r.out.assign(O.p, O.p + r.olen);
		return r;
	};
	auto normal = run(0, -1);
	long n = mem::count; ex.transitions(n); ex.state(mix(hash64(c.a.data(), c.a.size(), mix(de, impl)), cap)); ex.nontrivial(n > 0);
	if (threw) FAIL("%s: an exception leaves the function", name.c_str());
	if (mem::live) FAIL("%s (return value %d) leaks %zu of %ld allocations", name.c_str(), normal.ret, mem::live, n);
	for (long k = 1; k <= n; k++) {
		auto r = run(k, later ? LONG_MAX : k); ex.transitions(1); ex.outcome(r.ret ? 1 : 2);
		size_t live = mem::live;
		if (threw) FAIL("%s: an exception leaves the function when allocation %ld of %ld fails", name.c_str(), k, n);
		string b = basic(r, cap);
		if (!b.empty()) FAIL("%s when allocation %ld of %ld fails: %s", name.c_str(), k, n, b.c_str());
		if (live) FAIL("%s leaks %zu allocations when allocation %ld of %ld fails", name.c_str(), live, k, n);
		if (r.ret && r.olen) FAIL("%s fails with %d when allocation %ld of %ld fails, but reports %zu bytes", name.c_str(), r.ret, k, n, r.olen);
		if (!r.ret && (normal.ret || r.olen > cap)) FAIL("%s succeeds when allocation %ld fails, although it returns %d otherwise", name.c_str(), k, normal.ret);
		if (!r.ret) { // coping without the memory is fine when the result is still right
			bytes data, want = c.a; if (de) data = r.out, want = normal.out; else { auto m = ref::decode(r.out.data(), r.out.size(), c.a.size()); if (m.st == ref::OK) data = m.out; }
			if (data != want) FAIL("%s succeeds with wrong data when allocation %ld of %ld fails", name.c_str(), k, n);
		}
		if (k % 16 == 1 || k == n) { // a later call is not affected
			auto a = run(0, -1);
			if (threw || a.ret != normal.ret || a.out != normal.out || mem::live) FAIL("%s: the call after a failed allocation (%ld of %ld) returns %d instead of %d", name.c_str(), k, n, a.ret, normal.ret);
		}
	}
	return true;
}

// ---------------------------------------------------------------- data beyond 32-bit sizes
struct Affine { uint32_t col[32], k; }; // c -> M c ^ k
static uint32_t app(const Affine &m, uint32_t c) { uint32_t r = m.k; for (int i = 0; i < 32; i++) if (c >> i & 1) r ^= m.col[i]; return r; }
static Affine after(const Affine &g, const Affine &f) { Affine r; r.k = app(g, f.k); for (int i = 0; i < 32; i++) r.col[i] = app(g, f.col[i]) ^ g.k; return r; }
static uint32_t crc_from(uint32_t c, const uint8_t *d, size_t n) { for (size_t i = 0; i < n; i++) { c ^= (uint32_t)d[i] << 24; for (int k = 0; k < 8; k++) c = (c & 0x80000000u) ? (c << 1) ^ 0x04C11DB7u : c << 1; } return c; }
static uint32_t crc_repeated(uint32_t c, const uint8_t *w, uint64_t times) {
	Affine f, acc; acc.k = 0; for (int i = 0; i < 32; i++) acc.col[i] = 1u << i;
	f.k = crc_from(0, w, 8); for (int i = 0; i < 32; i++) f.col[i] = crc_from(1u << i, w, 8) ^ f.k;
	for (; times; times >>= 1) { if (times & 1) acc = after(f, acc); f = after(f, f); }
	return app(acc, c);
}
static uint8_t *sparse(size_t n);
static void hugetail(bytes &v, uint64_t words) { // words around the limit, then recurring pieces of them
	for (uint64_t i = 0; i < 7; i++) app64(v, distinct_word(i + 1));
	for (int k = 0; k < 4; k++) { bytes w; for (int i = 0; i < 8; i++) w.push_back(v[(k * 8 + (k & 1 ? (i ^ 4) : k == 2 ? (i ^ 2) : i)) % v.size()]); v.insert(v.end(), w.begin(), w.end()); }
	(void)words;
}
// p={impl, words before the tail}: one literal word repeated up to the limit, then tokens of every index width
static bool o_hugedec(const Case &c, string &why) {
	int impl = c.p[0]; uint64_t N = c.p[1];
	Builder b; b.d8(distinct_word(0)); uint8_t w0[8]; memcpy(w0, b.out.data(), 8);
	for (uint64_t left = N - 1; left;) { unsigned r = std::min<uint64_t>(left, 64); b.w.put(ref::REPEAT, 5); b.w.put(r - 1, 6); left -= r; }
	// the rings after N equal words are filled with them
	for (int i = 0; i < 256; i++) b.g.push(w0);
	b.g.words = N; b.out.clear();
	for (uint64_t i = 0; i < 7; i++) b.d8(distinct_word(i + 1));
	auto cur = [&](int u) { return b.g.words * (8 / u); };
	for (int k = 1; k <= 3; k++) {
		uint64_t f8[4] = {(cur(8) - k) % 256, 0, 0, 0}; b.tpl(25, f8);
		uint64_t f4[4] = {(cur(4) - 3 * k) % 512, (cur(4) - 1) % 512, 0, 0}; b.tpl(24, f4);
		uint64_t f2[4] = {(cur(2) - 5 * k) % 256, (cur(2) - 9) % 256, (cur(2) + k) % 256, (cur(2) - 2) % 256}; b.tpl(18, f2);
		uint64_t fo[4] = {cur(8) % 256, 0, 0, 0}; b.tpl(25, fo); // the oldest entry
	}
	b.w.put(ref::END, 5);
	b.w.put(crc_from(crc_repeated(0, w0, N), b.out.data(), b.out.size()), 32); b.w.pad8();
	size_t total = N * 8 + b.out.size();
	ex.state(mix(impl, N)); ex.transitions(N / 64); ex.nontrivial();
	uint8_t *out = sparse(total + 4096); size_t ol = total;
	int ret = DECOMP[impl](b.w.v.data(), b.w.v.size(), out, &ol);
	string w;
	if (ret) w = "rejects (" + std::to_string(ret) + ") a well-formed stream of " + std::to_string(total) + " bytes of data";
	else if (ol != total) w = "reports " + std::to_string(ol) + " bytes for " + std::to_string(total) + " bytes of data";
	else if (memcmp(out, w0, 8) || memcmp(out, out + 8, N * 8 - 8) || memcmp(out + N * 8, b.out.data(), b.out.size())) w = "decodes " + std::to_string(total) + " bytes of data wrongly";
	else for (int i = 0; i < 64; i++) if (out[total + i]) w = "writes past the end of its output";
	if (w.empty()) { // one byte less: refused
		size_t less = total - 1; memset(out + total - 1, 0, 1);
		ret = DECOMP[impl](b.w.v.data(), b.w.v.size(), out, &less);
		if (ret != -ENOSPC || less) w = "returns " + std::to_string(ret) + " for a capacity one byte below " + std::to_string(total);
		else if (out[total - 1]) w = "writes beyond a capacity of " + std::to_string(total - 1);
	}
	munmap(out, total + 4096);
	if (!w.empty()) FAIL("%s_decompress %s", IMPL[impl], w.c_str());
	return true;
}
// p={impl, words, random?}
static bool o_hugecomp(const Case &c, string &why) {
	int impl = c.p[0]; uint64_t N = c.p[1]; bool rnd = c.p[2];
	bytes tail; hugetail(tail, N);
	size_t n = N * 8 + tail.size(), cap = rnd ? ref::worst_size(n) : N / 4 + 4096;
	uint8_t *in = sparse(n), *out = sparse(cap + 64);
	if (rnd) { uint64_t x = 88172645463325252ull; for (uint64_t i = 0; i < N; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(in + i * 8, &x, 8); } }
	memcpy(in + N * 8, tail.data(), tail.size());
	ex.state(mix(impl, N)); ex.transitions(N); ex.nontrivial();
	size_t ol = cap; string w;
	int ret = COMP[impl](in, n, out, &ol);
	if (ret) w = "compression of " + std::to_string(n) + " bytes fails with " + std::to_string(ret);
	else if (ol > cap || ol % 8) w = "compression of " + std::to_string(n) + " bytes reports " + std::to_string(ol) + " bytes";
	else {
		for (int i = 0; i < 64; i++) if (out[cap + i]) w = "bytes after the capacity written";
		uint8_t *back = sparse(n + 64); size_t bl = n;
		ret = DECOMP[impl](out, ol, back, &bl);
		if (ret) w = "decompression to " + std::to_string(n) + " bytes fails with " + std::to_string(ret);
		else if (bl != n) w = "decompression reports " + std::to_string(bl) + " instead of " + std::to_string(n) + " bytes";
		else if (memcmp(in, back, n)) w = "data of " + std::to_string(n) + " bytes is not restored";
		munmap(back, n + 64);
	}
	munmap(in, n); munmap(out, cap + 64);
	if (!w.empty()) FAIL("%s: %s", IMPL[impl], w.c_str());
	return true;
}

// C11: p={first half, second half, distance, seed}: a word whose halves recur in the given way, after words with the pieces;
// counts how often the optimized compressor picks a cheapest possible operation
// part: 0 a known 4-byte piece, 1 two known 2-byte pieces, 2 known+new, 3 new+known, 4 new
static bool o_effective(const Case &c, string &why) {
	int a = c.p[0], b = c.p[1], dist = c.p[2], hits = 0, all = 0; uint64_t V = c.p[3];
	int worst_op = -1, best_op = -1;
	for (uint64_t v = 0; v < V; v++) {
		uint64_t x = mix(0x1234567, v * 31 + a * 5 + b); bytes d;
		for (int i = 0; i < 4 + dist; i++) { x = mix(x, i + 1); app64(d, x); }
		bytes w(8);
		for (int h = 0; h < 2; h++) {
			int part = h ? b : a; x = mix(x, 77 + h); for (int i = 0; i < 4; i++) w[4 * h + i] = x >> (8 * i);
			const uint8_t *s1 = d.data() + 8 * h, *s2 = d.data() + 16 + 8 * h; // pieces of words 0/1 and 2/3
			if (part == 0) memcpy(&w[4 * h], s1 + 4, 4);
			if (part == 1 || part == 2) memcpy(&w[4 * h], s1 + 2, 2);
			if (part == 1 || part == 3) memcpy(&w[4 * h + 2], s2 + 4, 2);
		}
		if (a == 5) memcpy(w.data(), d.data() + 8, 8);
		d.insert(d.end(), w.begin(), w.end());
		auto k = call(COMP[OPT], d.data(), d.size(), big_cap(d.size()));
		auto m = ref::decode(k.out.data(), k.out.size(), d.size(), true);
		if (k.ret || m.st != ref::OK || m.out != d) FAIL("optsw842_compress fails or emits a wrong stream");
		ref::Rings g; size_t nw = d.size() / 8; for (size_t i = 0; i + 1 < nw; i++) g.push(d.data() + 8 * i);
		int best = 1000, bt = -1;
		for (int t = 0; t < 26; t++) {
			bool ok = true; int o = 0;
			for (int i = 0; i < 4 && ref::TPL[t][i]; i++) { int f = ref::TPL[t][i]; if (f == -4 && o % 4) ok = false; if (f < 0 && ok) ok = g.has(-f, &w[o]); o += f < 0 ? -f : f; }
			if (ok && ref::tpl_bits(t) < best) best = ref::tpl_bits(t), bt = t;
		}
		int op = m.toks.size() >= nw ? m.toks[nw - 1].op : -1;
		all++; bool hit = op >= 0 && op < 26 && ref::tpl_bits(op) <= best; hits += hit;
		if (!hit) worst_op = op, best_op = bt;
		ex.transitions(1); ex.state(hash64(d.data(), d.size()));
	}
	ex.nontrivial();
	if (hits * 4 < all * 3) FAIL("optsw842_compress: a word made of recurring parts (kinds %d, %d) is encoded with a cheapest operation in only %d of %d cases (e.g. 0x%x instead of 0x%x)", a, b, hits, all, worst_op, best_op);
	return true;
}

// C07: p={impl, alignment, length}: long data
static bool o_crclong(const Case &c, string &why) {
	Case d{"crcemit", {c.p[0], c.p[1]}, bytes(c.p[2]), {}};
	for (size_t k = 0; k < d.a.size(); k++) d.a[k] = (uint8_t)(k * 151 + (k >> 8) * 29 + (k >> 16) * 7 + 1);
	return o_crcemit(d, why);
}

static bool run_case(const Case &c, string &why) {
	const string &k = c.kind;
	if (k == "roundtrip") return o_roundtrip(c, why, c.p[0], c.p[0]);
	if (k == "cross") return o_roundtrip(c, why, c.p[0], 1 - c.p[0]);
	if (k == "decode") return o_decode(c, why);
	if (k == "decode2") return o_decode(c, why, true);
	if (k == "crcflip") return o_crcflip(c, why);
	if (k == "crcemit") return o_crcemit(c, why);
	if (k == "capacity") return o_capacity(c, why);
	if (k == "pure") return o_pure(c, why);
	if (k == "twice") return o_twice(c, why);
	if (k == "history") return o_history(c, why);
	if (k == "emit") return o_emit(c, why);
	if (k == "cheap") return o_cheap(c, why);
	if (k == "chunked") return o_chunked(c, why, false);
	if (k == "memory") return o_memory(c, why);
	if (k == "hugedec") return o_hugedec(c, why);
	if (k == "hugecomp") return o_hugecomp(c, why);
	if (k == "effective") return o_effective(c, why);
	if (k == "crclong") return o_crclong(c, why);
	if (k == "chunkstatus") return o_chunked(c, why, true);
	why = "unknown case kind"; return false;
}

// ---------------------------------------------------------------- enumerations of input data
static void app_block(bytes &v, const uint16_t h[4]) { for (int i = 0; i < 4; i++) { v.push_back(h[i] >> 8); v.push_back(h[i]); } }

typedef std::function<void(Explorer &, const bytes &)> DataCb;
struct DataFam { string name; std::function<void(Explorer &, const std::function<bool()> &, const DataCb &)> gen; bool odd; /* contains lengths not multiple of 8 */ };

// multiplicative hash used by the optimized compressor, to aim some alphabets at its collisions
static uint64_t mulhash(uint64_t v, int bits) { return (11400714785074694791ULL * v) >> (64 - bits); }

// gen(ex, mine, cb): calls cb(data) for the cases for which mine() is true
static std::vector<DataFam> data_fams(int level) { // 0 light, 1 quick, 2 thorough
	std::vector<DataFam> F;
	F.push_back({"all strings of length 0..2", [=](Explorer &e, auto mine, auto cb) {
		for (int n = 0; n <= 2; n++) for (int v = 0; v < (1 << (8 * n)); v++) { if (level == 0 && n == 2 && v % 16) continue; if (mine()) { bytes d; for (int i = 0; i < n; i++) d.push_back(v >> (8 * i)); cb(e, d); } }
	}, true});
	F.push_back({"all lengths x fills", [=](Explorer &e, auto mine, auto cb) {
		int L = level == 2 ? 4800 : level == 1 ? 2200 : 300;
		for (int n = 0; n <= L; n++) for (int f = 0; f < 4; f++) if (mine()) {
			bytes d(n);
			for (int i = 0; i < n; i++) d[i] = f == 0 ? 0 : f == 1 ? (uint8_t)(i * 7 + (i >> 8)) : f == 2 ? (uint8_t)(distinct_word(i / 8) >> (8 * (7 - i % 8))) : (uint8_t)("abcdefghijklmnopqrstuvwxyz"[i % 24]);
			cb(e, d);
		}
	}, true});
	// words over halves {0, a, b}: every sequence of D words; a, b collide in the 16-bit hash
	uint16_t ca = 0x0101, cb2 = 0;
	for (unsigned v = 0x0102; v < 65536; v++) if (mulhash(v, 10) == mulhash(ca, 10)) { cb2 = v; break; }
	uint16_t H[3] = {0, ca, cb2};
	auto seqs = [=](int D, std::vector<bytes> alpha) {
		return [=](Explorer &e, auto mine, auto cb) {
			size_t A = alpha.size();
			for (int d = 1; d <= D; d++) {
				size_t tot = 1; for (int i = 0; i < d; i++) tot *= A;
				for (size_t s = 0; s < tot; s++) if (mine()) { bytes v; size_t x = s; for (int i = 0; i < d; i++) { auto &b = alpha[x % A]; v.insert(v.end(), b.begin(), b.end()); x /= A; } cb(e, v); }
			}
		};
	};
	std::vector<bytes> A81, A16, A32, A64, ATAIL;
	for (int i = 0; i < 81; i++) { bytes b; uint16_t h[4] = {H[i % 3], H[i / 3 % 3], H[i / 9 % 3], H[i / 27]}; app_block(b, h); A81.push_back(b); }
	for (int i = 0; i < 16; i++) { bytes b; uint16_t h[4]; for (int k = 0; k < 4; k++) h[k] = (i >> k & 1) ? 0x8001 : 0; app_block(b, h); A16.push_back(b); }
	{ // 32-bit collisions
		uint32_t x = 0x00010203, y = 0; for (uint32_t v = x + 1;; v++) if (mulhash(v, 11) == mulhash(x, 11)) { y = v; break; }
		uint32_t q[3] = {x, y, 0xfffe0000u};
		for (int i = 0; i < 9; i++) { bytes b; uint32_t u[2] = {q[i % 3], q[i / 3]}; for (int k = 0; k < 2; k++) for (int j = 3; j >= 0; j--) b.push_back(u[k] >> (8 * j)); A32.push_back(b); }
		uint64_t X = 0x1122334455667788ull, Y = 0; for (uint64_t v = X + 1;; v++) if (mulhash(v, 10) == mulhash(X, 10)) { Y = v; break; }
		for (uint64_t v : {X, Y, (uint64_t)0, ~(uint64_t)0}) { bytes b; app64(b, v); A64.push_back(b); }
	}
	F.push_back({"word sequences over halves {0,a,b}", seqs(level == 2 ? 4 : level == 1 ? 3 : 2, A81), false});
	F.push_back({"word sequences over halves {0,a}", seqs(level == 2 ? 5 : level == 1 ? 4 : 2, A16), false});
	F.push_back({"word sequences over colliding 4-byte units", seqs(level == 2 ? 6 : level == 1 ? 5 : 3, A32), false});
	F.push_back({"word sequences over colliding 8-byte words", seqs(level == 2 ? 10 : level == 1 ? 8 : 5, A64), false});
	F.push_back({"words x odd tails", [=](Explorer &e, auto mine, auto cb) {
		int N = level == 0 ? 16 : 16 + 256;
		for (int s = 0; s <= N; s++) for (int t = 1; t < 8; t++) for (int f = 0; f < 4; f++) if (mine()) {
			bytes v; if (s > 0 && s <= 16) v = A16[s - 1]; else if (s > 16) { v = A16[(s - 17) % 16]; auto &b = A16[(s - 17) / 16]; v.insert(v.end(), b.begin(), b.end()); }
			for (int i = 0; i < t; i++) v.push_back(f == 0 ? 0 : f == 1 ? 0xff : f == 2 ? 0x80 >> i : (s ? v[i] : 7));
			cb(e, v);
		}
	}, true});
	F.push_back({"runs: word^n word'^m", [=](Explorer &e, auto mine, auto cb) {
		uint64_t W[3] = {0, 0x0102030405060708ull, 0xffff0000ffff0000ull};
		std::vector<int> R; for (int i = 0; i <= (level ? 200 : 70); i++) if (level == 2 || i < 3 || (i > 60 && i < 70) || (i > 125 && i < 135) || i > 190) R.push_back(i);
		for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int n : R) for (int m : R) for (int tail = 0; tail < 2; tail++) if (mine()) {
			bytes v; for (int i = 0; i < n; i++) app64(v, W[a]); for (int i = 0; i < m; i++) app64(v, W[b]);
			if (tail) { app64(v, W[2 - a]); app64(v, W[a]); }
			cb(e, v);
		}
		for (int n = 0; n <= 300; n++) for (int a = 0; a < 3; a++) if (mine()) { bytes v; app64(v, 0x1234); for (int i = 0; i < n; i++) app64(v, W[a]); cb(e, v); }
	}, false});
	F.push_back({"single non-zero byte", [=](Explorer &e, auto mine, auto cb) {
		for (int ctx = 0; ctx < (level ? 3 : 1); ctx++) for (int pos = 0; pos < 16; pos++) for (int val = 1; val < 256; val++) if (mine()) {
			bytes v(16, 0); v[pos] = val; if (ctx == 1) app64(v, 0); if (ctx == 2) { bytes w = v; v.insert(v.begin(), w.begin(), w.end()); }
			cb(e, v);
		}
	}, false});
	// after n distinct words: one word composed from ring positions around the boundaries
	F.push_back({"boundary prefixes x composed word", [=](Explorer &e, auto mine, auto cb) {
		std::vector<int> N = {1, 2, 3, 62, 63, 64, 65, 66, 127, 128, 129, 254, 255, 256, 257, 258, 319, 320, 321, 511, 512, 513, 514};
		if (level == 2) for (int i = 0; i < 780; i += 3) N.push_back(i + 1);
		if (level == 0) N = {1, 64, 65, 256, 257};
		for (int n : N) {
			bytes pre; bool built = false;
			auto at = [&](int unit, int which) -> bytes { // bytes of a unit (2/4/8) from: first, last, oldest in ring, just outside the ring, new
				long cnt = (long)n * 8 / unit, ring = unit == 2 ? 256 : unit == 4 ? 512 : 256, k;
				switch (which) { case 0: k = 0; break; case 1: k = cnt - 1; break; case 2: k = cnt > ring ? cnt - ring : 0; break; case 3: k = cnt > ring ? cnt - ring - 1 : 0; break; default: { bytes r(unit); for (int i = 0; i < unit; i++) r[i] = 0xF0 + i; return r; } }
				return bytes(pre.begin() + k * unit, pre.begin() + (k + 1) * unit);
			};
			auto build = [&] { if (!built) { for (int i = 0; i < n; i++) app64(pre, distinct_word(i)); built = true; } };
			auto emit = [&](std::vector<std::pair<int, int>> parts, int twice) {
				build(); bytes v = pre;
				for (int k = 0; k < 1 + twice; k++) for (auto &q : parts) { auto b = at(q.first, q.second); v.insert(v.end(), b.begin(), b.end()); if (k) v.back() ^= 1; }
				cb(e, v);
			};
			for (int s = 0; s < 625; s++) if (mine()) emit({{2, s % 5}, {2, s / 5 % 5}, {2, s / 25 % 5}, {2, s / 125}}, 0);
			for (int s = 0; s < 25; s++) for (int tw = 0; tw < 2; tw++) if (mine()) emit({{4, s % 5}, {4, s / 5}}, tw);
			for (int s = 0; s < 5; s++) for (int tw = 0; tw < 2; tw++) if (mine()) emit({{8, s}}, tw);
			for (int s = 0; s < 125; s++) if (mine()) emit({{4, s % 5}, {2, s / 5 % 5}, {2, s / 25}}, 0);
			for (int s = 0; s < 125; s++) if (mine()) emit({{2, s % 5}, {2, s / 5 % 5}, {4, s / 25}}, 0);
		}
	}, false});
	F.push_back({"repetition at every distance", [=](Explorer &e, auto mine, auto cb) {
		std::vector<int> N = level == 2 ? std::vector<int>{64, 65, 128, 255, 256, 257, 300, 512, 513, 600} : level == 1 ? std::vector<int>{64, 65, 256, 257, 330} : std::vector<int>{66};
		for (int n : N) for (int d = 1; d <= n; d++) if (mine()) {
			bytes v; for (int i = 0; i < n; i++) app64(v, distinct_word(i));
			app64(v, distinct_word(n - d)); app64(v, distinct_word(n - d) ^ 0xffff); app64(v, distinct_word(n - d));
			cb(e, v);
		}
	}, false});
	F.push_back({"periodic data", [=](Explorer &e, auto mine, auto cb) {
		for (int p = 1; p <= (level == 2 ? 600 : level == 1 ? 270 : 20); p++) for (int extra = 0; extra < 2; extra++) if (mine()) {
			bytes v; for (int i = 0; i < 2 * p + 3; i++) app64(v, distinct_word(i % p) + (extra && i > p ? 1 : 0));
			cb(e, v);
		}
	}, false});
	F.push_back({"all 16-bit values", [=](Explorer &e, auto mine, auto cb) {
		for (int start = 0; start < 65536; start += (level ? 64 : 2048)) if (mine()) { // 64-value windows written twice
			bytes v; for (int k = 0; k < 2; k++) for (int i = 0; i < 64; i += 4) { uint16_t h[4]; for (int j = 0; j < 4; j++) h[j] = start + i + j * 17 % 64; app_block(v, h); }
			cb(e, v);
		}
		if (mine() && level) { bytes v; for (int k = 0; k < 2; k++) for (int i = 0; i < 16384; i++) { uint16_t h[4]; for (int j = 0; j < 4; j++) h[j] = i * 4 + j; app_block(v, h); } cb(e, v); }
	}, false});
	// longer than any chunk: words composed from every kind of ring position, beyond 64 KiB, 128 KiB and 512 KiB
	if (level) F.push_back({"long inputs", [=](Explorer &e, auto mine, auto cb) {
		std::vector<int> N = {4095, 4096, 4097, 8190, 8191, 8192, 8193, 8194, 8255, 8256, 8448, 16383, 16384, 16385, 16640, 65535, 65536, 65537, 65792};
		if (level == 2) for (int n = 8200; n < 8460; n += 3) N.push_back(n);
		for (int n : N) for (int v0 = 0; v0 < 4; v0++) if (mine()) {
			bytes v; for (int i = 0; i < n; i++) app64(v, distinct_word(i));
			for (int s = v0; s < 64; s++) {
				auto at = [&](int unit, int which) { // first in ring, last, oldest but one, in the middle, new
					long cnt = (long)v.size() / 8 * 8 / unit, ring = unit == 2 ? 256 : unit == 4 ? 512 : 256, lo = cnt > ring ? cnt - ring : 0;
					long k = which == 0 ? lo : which == 1 ? cnt - 1 : which == 2 ? lo + 1 : (lo + cnt) / 2;
					return bytes(v.begin() + k * unit, v.begin() + (k + 1) * unit);
				};
				bytes w; auto add = [&](const bytes &b) { w.insert(w.end(), b.begin(), b.end()); };
				switch ((s + v0) % 5) {
				case 0: add(at(8, s & 3)); break;
				case 1: add(at(4, s & 3)); add(at(4, s >> 2 & 3)); break;
				case 2: add(at(2, s & 3)); add(at(2, s >> 2 & 3)); add(at(4, s & 1)); break;
				case 3: add(at(4, s & 3)); add(at(2, s >> 2 & 3)); w.push_back(s); w.push_back(~s); break;
				default: app64(w, distinct_word(n + 1000 + s));
				}
				v.insert(v.end(), w.begin(), w.end());
			}
			cb(e, v);
		}
	}, false});
	return F;
}

static bool explore_data(const string &kind, int level, bool odd_sw_only = true, std::set<int> impls = {0, 1}, bool allow_odd = true) {
	for (auto &f : data_fams(level)) {
		bool ok = ex.family(f.name, [&](Explorer &e) {
			f.gen(e, [&] { return e.mine(); }, [&](Explorer &e, const bytes &d) {
				for (int i : impls) {
					if (d.size() % 8 && (!allow_odd || (i == OPT && odd_sw_only))) continue;
					e.exec(Case{kind, {(uint64_t)i}, d, {}});
				}
			});
		});
		if (!ok) return false;
	}
	return true;
}

static Case dec(int impl, const bytes &s, size_t cap, const char *kind = "decode", unsigned ia = 0, unsigned oa = 0) { return Case{kind, {(uint64_t)impl, cap, ia, oa}, s, {}}; }

// ---------------------------------------------------------------- properties
static bool hugedecs() {
	if (SAN) return true;
	double h = ex.hang_s; ex.hang_s = 300;
	bool ok = ex.family("data beyond 2 GiB and 4 GiB", [&](Explorer &e) {
		for (int i = 0; i < 2; i++) for (int s : {31, 32}) { e.counter += 2; if (e.mine()) e.exec(Case{"hugedec", {(uint64_t)i, (1ull << (s - 3)) - 3}, {}, {}}); }
	});
	ex.hang_s = h;
	return ok;
}
static int C01() {
	bool ok = explore_data("roundtrip", SAN ? 0 : THOROUGH ? 2 : 1);
	if (SAN || !ok) return ok;
	double h = ex.hang_s; ex.hang_s = 1700;
	ok = ex.family("data beyond 4 GiB", [&](Explorer &e) {
		for (int i = 0; i < 2; i++) if (e.mine() && (i == OPT || DEEP)) e.exec(Case{"hugecomp", {(uint64_t)i, (1ull << 29) - 3, 0}, {}, {}});
	});
	if (DEEP) for (int i = 0; i < 2; i++) ok = ok && ex.family(string("incompressible data beyond 4 GiB, ") + IMPL[i], [&](Explorer &e) { if (e.mine()) e.exec(Case{"hugecomp", {(uint64_t)i, (1ull << 29) - 3, 1}, {}, {}}); });
	ex.hang_s = h;
	return ok;
}
static int C02() { return explore_data("cross", SAN ? 0 : THOROUGH ? 2 : 1, true); }

static int C03() {
	auto leaf = [](Explorer &e, Builder &b) {
		Builder c = b; c.end();
		for (int i = 0; i < 2; i++) e.exec(dec(i, c.w.v, c.out.size()));
		// bytes after the checksum are ignored; more capacity than needed is fine
		if (e.counter % 4 == 0) { bytes s = c.w.v; for (int k = 0; k < 8; k++) s.push_back(0xff); for (int i = 0; i < 2; i++) e.exec(dec(i, s, c.out.size() + 24)); }
	};
	bool ok = ex.family("empty stream", [&](Explorer &e) { if (e.mine()) { Builder b; leaf(e, b); } });
	for (int pre : {0, 1, 2, 3, 63, 64, 65, 128, 255, 256, 257, 512}) {
		if (!ok) break;
		ok &= ex.family("1 token after " + std::to_string(pre) + " words", [&](Explorer &e) { walk(e, prefix(pre), 1, {3}, false, true, leaf); });
		if (pre > 3) ok = ok && ex.family("1 token after " + std::to_string(pre) + " words made of runs", [&](Explorer &e) { walk(e, prefix_runs(pre), 1, {2}, false, true, leaf); });
		if (pre <= 3 || THOROUGH) ok = ok && ex.family("2 tokens after " + std::to_string(pre) + " words", [&](Explorer &e) { walk(e, prefix(pre), 2, pre > 3 ? (DEEP ? std::vector<int>{2, 1} : std::vector<int>{1, 0}) : THOROUGH ? std::vector<int>{2, 2} : SAN ? std::vector<int>{1, 0} : std::vector<int>{1, 1}, false, false, leaf); });
		if (pre <= 1) ok = ok && ex.family("3 tokens after " + std::to_string(pre) + " words", [&](Explorer &e) { walk(e, prefix(pre), 3, DEEP ? std::vector<int>{2, 1, 1} : THOROUGH ? std::vector<int>{1, 1, 0} : SAN ? std::vector<int>{0, 0, 0} : std::vector<int>{1, 0, 0}, false, false, leaf); });
		if (pre == 0 && !SAN) ok = ok && ex.family("4 tokens after 0 words", [&](Explorer &e) { walk(e, prefix(0), 4, DEEP ? std::vector<int>{2, 1, 0, 0} : THOROUGH ? std::vector<int>{1, 0, 0, 0} : std::vector<int>{0, 0, 0, 0}, false, false, leaf); });
	}
	// every bit offset of every token: a prefix of k ZEROS shifts by 5 bits (64 consecutive offsets mod 64 are reached)
	ok = ok && ex.family("every template at every bit offset of a 64-bit word", [&](Explorer &e) {
		for (int z = 0; z < 64; z++) for (auto &t : tokens(prefix(1), 2, false, true)) if (e.mine()) {
			Builder b = prefix(1); for (int i = 0; i < z; i++) b.zeros(); apply(b, t); leaf(e, b);
		}
	});
	// every operand bit individually
	ok = ok && ex.family("every single operand bit of every template", [&](Explorer &e) {
		for (int pre : {300}) for (int t = 0; t < 26; t++) for (int i = 0; i < 4 && ref::TPL[t][i]; i++) {
			int nb = ref::field_bits(ref::TPL[t][i]);
			for (int k = 0; k <= nb; k++) if (e.mine()) { Builder b = prefix(pre); uint64_t f[4] = {0, 0, 0, 0}; f[i] = k == nb ? (nb == 64 ? ~0ull : (1ull << nb) - 1) : 1ull << k; b.tpl(t, f); leaf(e, b); }
		}
	});
	ok = ok && ex.family("every REPEAT operand", [&](Explorer &e) {
		for (int n = 0; n < 64; n++) for (int m = 0; m < 64; m++) if (e.mine()) { Builder b = prefix(1 + (n & 1)); b.repeat(n); if (m) b.repeat(m); uint64_t f[4] = {0,0,0,0}; b.tpl(25, f); leaf(e, b); }
	});
	ok = ok && hugedecs();
	return ok;
}

static int C04() {
	std::vector<int> T;
	if (THOROUGH && !SAN) for (int t = 0; t <= 1100; t++) T.push_back(t);
	else for (int t = 0; t < 1100; t++) if (t < 4 || (t >= 62 && t <= 67) || (t >= 127 && t <= 130) || (t >= 191 && t <= 193) || (t >= 254 && t <= 259) || (t >= 319 && t <= 321) || (t >= 510 && t <= 514) || (t >= 767 && t <= 769)) T.push_back(t);
	if (SAN) T = {0, 1, 64, 65, 256, 257};
	else for (int t : {4095, 4096, 4097, 8191, 8192, 8193, 8256, 65536, 65600}) T.push_back(t); // around 32, 64 and 512 KiB
	bool ok = ex.family("every index value of every width at every listed position", [&](Explorer &e) {
		for (int t : T) {
			Builder p; bool built = false;
			auto go = [&](int op, int field, unsigned idx) {
				if (!e.mine()) return;
				if (!built) { p = t > 4000 ? prefix_runs(t) : prefix(t); built = true; }
				Builder b = p; uint64_t f[4] = {0x1111, 0x2222, 0x3333, 0x4444}; f[field] = idx;
				b.tpl(op, f);
				if (b.out.size() == p.out.size()) { // invalid: keep the stream complete, as if it had produced something
					b.out.insert(b.out.end(), 8, 0);
				}
				b.end();
				for (int i = 0; i < 2; i++) e.exec(dec(i, b.w.v, (t + 1) * 8));
			};
			for (unsigned i = 0; i < 256; i++) { go(0x19, 0, i); go(0x0a, 0, i); go(0x05, 1, i); go(0x02, 1, i); go(0x01, 2, i); }
			for (unsigned i = 0; i < 512; i++) { go(0x14, 0, i); go(0x04, 1, i); }
		}
	});
	// rejection of invalid indexes must not be an artefact of the checksum: the same with all-zero prefix words
	ok = ok && ex.family("invalid indexes with a checksum that matches every plausible reading", [&](Explorer &e) {
		for (int t : {0, 1, 2, 63, 64, 65, 255, 256}) for (int op : {0x19, 0x0a, 0x14, 0x01, 0x04}) for (unsigned i = 0; i < 512; i++) {
			if (op != 0x14 && op != 0x04 && i > 255) break;
			if (!e.mine()) continue;
			Builder b; for (int k = 0; k < t; k++) b.zeros();
			uint64_t f[4] = {0, 0, 0, 0}; int fi = op == 0x19 || op == 0x0a || op == 0x14 ? 0 : op == 0x04 ? 1 : 2; f[fi] = i;
			size_t o = b.out.size(); b.tpl(op, f); if (b.out.size() == o) b.out.insert(b.out.end(), 8, 0); // all zeros: any in-range source gives zeros
			b.end();
			for (int k = 0; k < 2; k++) e.exec(dec(k, b.w.v, (t + 1) * 8 + 8));
		}
	});
	// compressors: repetition at every distance and period, decoded by the model
	for (auto &f : data_fams(SAN ? 0 : THOROUGH ? 2 : 1)) {
		if (f.name.find("distance") == string::npos && f.name.find("periodic") == string::npos && f.name.find("boundary") == string::npos) continue;
		ok = ok && ex.family("compressors: " + f.name, [&](Explorer &e) { f.gen(e, [&] { return e.mine(); }, [&](Explorer &e, const bytes &d) { for (int i = 0; i < 2; i++) e.exec(Case{"emit", {(uint64_t)i}, d, {}}); }); });
	}
	ok = ok && hugedecs();
	return ok;
}

// A moderately sized set of streams used for truncation / capacity / corruption enumeration
static void stream_set(Explorer &e, int level, const std::function<void(Explorer &, const bytes &, size_t)> &cb) {
	LeafCb leaf = [&](Explorer &e, Builder &b) { Builder c = b; c.end(); cb(e, c.w.v, c.out.size()); };
	if (e.mine()) { Builder b; leaf(e, b); }
	walk(e, prefix(0), 1, {1}, true, true, leaf);
	walk(e, prefix(1), 1, {level > 1 ? 1 : 0}, true, true, leaf);
	walk(e, prefix(64), 1, {0}, true, true, leaf);
	if (level > 0) walk(e, prefix(1), 2, {0, 0}, true, true, leaf);
	if (level > 1) walk(e, prefix(2), 2, {1, 0}, true, true, leaf);
}

static int decode_robust(const char *kind) {
	int lv = SAN ? 0 : THOROUGH ? 2 : 1;
	bool ok = ex.family("token sequences incl. invalid ones, any order", [&](Explorer &e) {
		LeafCb leaf = [&](Explorer &e, Builder &b) { Builder c = b; c.end(); for (int i = 0; i < 2; i++) { e.exec(dec(i, c.w.v, c.out.size(), kind)); e.exec(dec(i, c.w.v, c.out.size() + 600, kind)); } };
		for (int p : {0, 1, 2, 64, 65, 256, 257}) walk(e, prefix(p), 1, {2}, true, true, leaf);
		for (int p : {0, 1}) walk(e, prefix(p), 2, lv == 0 ? std::vector<int>{0, 0} : lv == 1 ? std::vector<int>{1, 0} : std::vector<int>{1, 1}, true, true, leaf);
		walk(e, prefix(0), 3, lv == 0 ? std::vector<int>{0, 0, 0} : !DEEP ? std::vector<int>{1, 0, 0} : std::vector<int>{1, 1, 0}, true, true, leaf);
	});
	ok = ok && ex.family("unknown operations with every amount of operand bits", [&](Explorer &e) {
		for (int op : {26, 29, 31}) for (int p : {0, 1, 2, 3, 64, 257}) for (int n = 0; n < 80; n++) for (int z = 0; z < 2; z++) for (int m = 0; m < 2; m++) if (e.mine()) {
			Builder b = prefix(p); b.raw(op, 5); for (int i = 0; i < n; i++) b.raw(z && i % 8 == 7, 1);
			if (m) { b.zeros(); b.zeros(); } b.end();
			for (int i = 0; i < 2; i++) for (size_t cap : {b.out.size(), b.out.size() + 8, b.out.size() + 600}) e.exec(dec(i, b.w.v, cap, kind));
		}
	});
	ok = ok && ex.family("every truncation", [&](Explorer &e) {
		stream_set(e, lv, [&](Explorer &e, const bytes &s, size_t o) {
			for (size_t n = 0; n < s.size(); n++) { bytes t(s.begin(), s.begin() + n); for (int i = 0; i < 2; i++) e.exec(dec(i, t, o, kind)); if (n > 64 && n + 64 < s.size()) n += 7; }
		});
	});
	ok = ok && ex.family("every capacity", [&](Explorer &e) {
		stream_set(e, lv, [&](Explorer &e, const bytes &s, size_t o) {
			for (size_t n = 0; n <= o + 9; n++) { for (int i = 0; i < 2; i++) e.exec(dec(i, s, n, kind)); if (n > 64 && n + 64 < o) n += 31; }
		});
	});
	ok = ok && ex.family("every alignment with cuts", [&](Explorer &e) {
		stream_set(e, 0, [&](Explorer &e, const bytes &s, size_t o) {
			for (unsigned al = 1; al < 64; al++) for (int i = 0; i < 2; i++) { e.exec(dec(i, s, o, kind, al & 7, al >> 3)); if (s.size() > 3) { bytes t(s.begin(), s.end() - 3); e.exec(dec(i, t, o, kind, al & 7, al >> 3)); } }
		});
	});
	ok = ok && ex.family("every value of every byte", [&](Explorer &e) {
		int cnt = 0;
		stream_set(e, 0, [&](Explorer &e, const bytes &s0, size_t o) {
			if (s0.size() > 40 || (cnt++ % (lv == 2 ? 1 : lv == 1 ? 3 : 40))) return;
			bytes s = s0;
			for (size_t k = 0; k < s.size(); k++) { for (int v = 0; v < 256; v++) { if (v == s0[k]) continue; s[k] = v; for (int i = 0; i < 2; i++) e.exec(dec(i, s, o + 16, kind)); } s[k] = s0[k]; }
		});
	});
	ok = ok && ex.family("all leading bit patterns", [&](Explorer &e) {
		int bits = lv == 0 ? 14 : DEEP ? 26 : 21;
		for (uint32_t v = 0; v < (1u << bits); v++) for (int f = 0; f < 2; f++) if (e.mine()) {
			ref::BitWriter w; w.put(v, bits); w.put(f ? ~0ull : 0, 64); w.put(f ? ~0ull : 0, 46 - bits % 8);
			bytes s = w.v; s.resize(16);
			for (int i = 0; i < 2; i++) e.exec(dec(i, s, 1100, kind));
		}
	});
	ok = ok && ex.family("all byte strings of length 0..2", [&](Explorer &e) {
		for (int n = 0; n <= 2; n++) for (int v = 0; v < (1 << 8 * n); v++) if (e.mine()) { bytes s; for (int i = 0; i < n; i++) s.push_back(v >> 8 * i); for (int i = 0; i < 2; i++) e.exec(dec(i, s, 64, kind)); }
	});
	// sequences with SHORT_DATA anywhere, REPEAT after it, etc.
	ok = ok && ex.family("short items followed by any token", [&](Explorer &e) {
		for (int n = 1; n < 8; n++) for (int m = 0; m < 8; m++) {
			Builder b; uint8_t sh[8] = {9, 8, 7, 6, 5, 4, 3, 2};
			b.shortd(sh, n); if (m) b.shortd(sh, m);
			for (auto &t : tokens(prefix(1), 1, true, true)) if (e.mine()) {
				Builder c = b; apply(c, t); c.end();
				for (int i = 0; i < 2; i++) { e.exec(dec(i, c.w.v, 8, kind)); e.exec(dec(i, c.w.v, c.out.size(), kind)); e.exec(dec(i, c.w.v, 600, kind)); }
			}
		}
	});
	return ok;
}
static int C05() { return decode_robust("decode2"); }
static int C06() { return decode_robust("decode"); }

static int C07() {
	bool ok = ex.family("checksum of every length x alignment", [&](Explorer &e) {
		int L = SAN ? 100 : DEEP ? 4000 : 1200;
		for (int n = 0; n <= L; n++) for (int al = 0; al < 8; al++) for (int i = 0; i < 2; i++) { if (i == OPT && n % 8) continue; if (e.mine()) { bytes d(n); for (int k = 0; k < n; k++) d[k] = k * 151 + n * 13 + (k >> 3) * 7 + 1; e.exec(Case{"crcemit", {(uint64_t)i, (uint64_t)al}, d, {}}); } }
	});
	ok = ok && ex.family("checksum: every byte value at every position (all table entries)", [&](Explorer &e) {
		for (int n : {8, 16, 24, 40}) for (int pos = 0; pos < n; pos++) for (int v = 1; v < 256; v++) for (int al = 0; al < 8; al += THOROUGH ? 1 : 2) if (e.mine()) { bytes d(n, 0); d[pos] = v; for (int i = 0; i < 2; i++) { if (SAN && v % 16) continue; e.exec(Case{"crcemit", {(uint64_t)i, (uint64_t)al}, d, {}}); } }
	});
	ok = ok && ex.family("checksum: all strings of length 1 and 2", [&](Explorer &e) {
		for (int n = 1; n <= 2; n++) for (int v = 0; v < (1 << 8 * n); v += (SAN ? 7 : 1)) if (e.mine()) { bytes d; for (int k = 0; k < n; k++) d.push_back(v >> 8 * k); e.exec(Case{"crcemit", {0, (uint64_t)(v & 7)}, d, {}}); }
	});
	ok = ok && ex.family("checksum of long data", [&](Explorer &e) {
		for (int s = 12; s <= (SAN ? 16 : 20); s++) for (int d = -9; d <= 9; d++) for (int al = 0; al < 8; al += SAN ? 5 : s > 18 ? 3 : 1) for (int i = 0; i < 2; i++) { uint64_t n = (1ull << s) + d; if (i == OPT && n % 8) continue; if (e.mine()) e.exec(Case{"crclong", {(uint64_t)i, (uint64_t)al, n}, {}, {}}); }
	});
	ok = ok && ex.family("every single-bit corruption of streams", [&](Explorer &e) {
		LeafCb leaf = [&](Explorer &e, Builder &b) { Builder c = b; c.end(); for (int i = 0; i < 2; i++) e.exec(Case{"crcflip", {(uint64_t)i}, c.w.v, {}}); };
		if (e.mine()) { Builder b; leaf(e, b); }
		for (int p : {0, 1, 2}) walk(e, prefix(p), 1, {THOROUGH ? 2 : 1}, false, true, leaf);
		if (!SAN) walk(e, prefix(1), 2, {0, 0}, false, true, leaf);
		if (!SAN) for (int p : {64, 65, 257}) walk(e, prefix(p), 1, {0}, false, false, [&](Explorer &e, Builder &b) { if (b.steps % 4 == 1 || THOROUGH) leaf(e, b); });
	});
	// every wrong checksum that differs in one or two bits / is off by one, for otherwise correct streams
	ok = ok && ex.family("every 1-2 bit error of the stored checksum", [&](Explorer &e) {
		for (int p = 0; p < 3; p++) for (int i = 0; i < 32; i++) for (int j = i; j < 32; j++) if (e.mine()) {
			Builder b = prefix(p); if (p == 2) b.repeat(3);
			b.w.put(ref::END, 5); uint32_t cr = ref::crc(b.out.data(), b.out.size()); cr ^= 1u << i; if (j != i) cr ^= 1u << j;
			b.w.put(cr, 32); b.w.pad8();
			for (int k = 0; k < 2; k++) e.exec(dec(k, b.w.v, b.out.size() + 8));
		}
	});
	return ok;
}

static int C08() {
	bool ok = true;
	int lv = SAN ? 0 : 1;
	for (auto &f : data_fams(0)) {
		int stride = SAN ? 40 : DEEP ? 1 : 3;
		if (f.name.find("boundary") == 0 || f.name.find("16-bit") != string::npos) stride *= 9;
		ok = ok && ex.family("every capacity: " + f.name, [&](Explorer &e) {
			uint64_t k = 0;
			f.gen(e, [&] { return (k++ % stride) == 0 && e.mine(); }, [&](Explorer &e, const bytes &d) { if (d.size() > 2600) return; for (int i = 0; i < 2; i++) e.exec(Case{"capacity", {(uint64_t)i}, d, {}}); });
		});
	}
	(void)lv;
	return ok;
}

static void setup_histories() {
	// histories
	bytes d1, d2, d3; for (int i = 0; i < 40; i++) app64(d1, distinct_word(i % 7)); for (int i = 0; i < 300; i++) app64(d2, distinct_word(i)); d3.assign(21, 'x');
	auto add = [&](const string &n, fn f, const bytes &in, size_t cap) { HOPS.push_back({n, f, in, cap}); };
	Builder b = prefix(3); uint64_t fz[4] = {0,0,0,0}; b.tpl(25, fz); b.end(); bytes bad = b.w.v; bad[9] ^= 4;
	for (int i = 0; i < 2; i++) {
		string p = IMPL[i];
		add(p + " compress periodic", COMP[i], d1, 1000); add(p + " compress long", COMP[i], d2, 4000); add(p + " compress too small", COMP[i], d2, 100);
		add(p + " decompress", DECOMP[i], b.w.v, b.out.size()); add(p + " decompress corrupt", DECOMP[i], bad, b.out.size()); add(p + " decompress too small", DECOMP[i], b.w.v, 8);
		if (i == 0) add(p + " compress odd", COMP[i], d3, 100);
	}
	HFRESH = new std::vector<Called>(HOPS.size());
	for (size_t i = 0; i < HOPS.size(); i++) { // reference: each call as the first of a process
		int fd[2]; if (pipe(fd)) _exit(90);
		pid_t p = fork();
		if (!p) { dup2(open("/dev/null", O_WRONLY), 2); auto r = call(HOPS[i].f, HOPS[i].in.data(), HOPS[i].in.size(), HOPS[i].cap); (void)!write(fd[1], &r.ret, sizeof r.ret); (void)!write(fd[1], &r.olen, sizeof r.olen); (void)!write(fd[1], r.out.data(), r.out.size()); _exit(0); }
		close(fd[1]); auto &e = (*HFRESH)[i];
		FILE *f = fdopen(fd[0], "r"); (void)!fread(&e.ret, sizeof e.ret, 1, f); (void)!fread(&e.olen, sizeof e.olen, 1, f); int ch; while ((ch = fgetc(f)) != EOF) e.out.push_back(ch); fclose(f);
		int st; waitpid(p, &st, 0);
	}
}
static int C09() {
	bool ok = true;
	for (auto &f : data_fams(0)) {
		int stride = SAN ? 30 : THOROUGH ? 1 : 7;
		ok = ok && ex.family("alignments and memory contents: " + f.name, [&](Explorer &e) {
			uint64_t k = 0;
			f.gen(e, [&] { return (k++ % stride) == 0 && e.mine(); }, [&](Explorer &e, const bytes &d) { if (d.size() > 3000 && !THOROUGH) return; for (int i = 0; i < 2; i++) if (!(i == OPT && d.size() % 8)) e.exec(Case{"pure", {(uint64_t)i}, d, {}}); });
		});
	}
	ok = ok && ex.family("every 2-byte value compressed again in the memory of a previous call", [&](Explorer &e) {
		for (int i = 0; i < 2; i++) for (uint64_t v = 0; v < 65536; v += 256) if (e.mine() && (!SAN || v % 4096 == 0)) e.exec(Case{"twice", {(uint64_t)i, v, 256}, {}, {}});
	});
	setup_histories();
	ok = ok && ex.family("call histories", [&](Explorer &e) {
		size_t H = HOPS.size(); int D = SAN ? 2 : THOROUGH ? 4 : 3;
		for (int d = 1; d <= D; d++) { size_t tot = 1; for (int i = 0; i < d; i++) tot *= H; for (size_t s = 0; s < tot; s++) if (e.mine()) { Case c{"history", {}, {}, {}}; size_t x = s; for (int i = 0; i < d; i++) { c.p.push_back(x % H); x /= H; } e.exec(c); } }
	});
	return ok;
}
static int C10() { return explore_data("emit", SAN ? 0 : THOROUGH ? 2 : 1); }
static int C11() {
	bool ok = true;
	for (auto &f : data_fams(SAN ? 0 : THOROUGH ? 2 : 1)) {
		if (f.name.find("length 0..2") != string::npos) continue;
		ok = ok && ex.family(f.name, [&](Explorer &e) { f.gen(e, [&] { return e.mine(); }, [&](Explorer &e, const bytes &d) { for (int i = 0; i < 2; i++) if (!(i == OPT && d.size() % 8)) e.exec(Case{"cheap", {(uint64_t)i}, d, {}}); }); });
	}
	ok = ok && ex.family("words made of recurring parts", [&](Explorer &e) {
		for (int a = 0; a < 6; a++) for (int b = 0; b < (a == 5 ? 1 : 5); b++) for (uint64_t dist = 0; dist < 6; dist++) if (e.mine()) e.exec(Case{"effective", {(uint64_t)a, (uint64_t)b, dist, SAN ? 64ul : 256ul}, {}, {}});
	});
	return ok;
}
static int chunks(const char *kind) {
	int K = 7, N = SAN ? 2 : DEEP ? 7 : 5;
	bool ok = ex.family("all chunk outcome vectors", [&](Explorer &e) {
		for (int impl = 0; impl < 2; impl++) for (int dir = 0; dir < 2; dir++) for (int n = 0; n <= N; n++) {
			size_t tot = 1; for (int i = 0; i < n; i++) tot *= K;
			for (size_t s = 0; s < tot; s++) for (int st = 0; st < 3; st++) if (e.mine()) {
				static const uint64_t IS[3] = {128, 136, 192}, OS[3] = {128, 200, 256};
				Case c{kind, {(uint64_t)impl, (uint64_t)dir, (uint64_t)n, IS[st], OS[st]}, {}, {}};
				size_t x = s; for (int i = 0; i < n; i++) { c.p.push_back(x % K); x /= K; }
				e.exec(c);
			}
		}
	});
	ok = ok && ex.family("many chunks with one different", [&](Explorer &e) {
		for (int impl = 0; impl < 2; impl++) for (int dir = 0; dir < 2; dir++) for (int n : {16, 64, 257}) for (int at = 0; at < n; at += (n > 16 ? 13 : 1)) for (int k = 0; k < K; k++) if (e.mine()) {
			Case c{kind, {(uint64_t)impl, (uint64_t)dir, (uint64_t)n, 128, 136}, {}, {}};
			for (int i = 0; i < n; i++) c.p.push_back(i == at ? k : 0);
			e.exec(c);
		}
	});
	ok = ok && ex.family("large strides (beyond 4 GiB)", [&](Explorer &e) {
		for (int impl = 0; impl < 2; impl++) for (int dir = 0; dir < 2; dir++) for (int w = 0; w < 3; w++) for (int k = 0; k < 4; k++) if (e.mine()) {
			uint64_t big = 0xC0001000ull; // 3 GiB + 4 KiB: offsets of chunks 2,3 exceed 32 bits
			Case c{kind, {(uint64_t)impl, (uint64_t)dir, 4, w != 1 ? big : 128, w != 0 ? big : 128}, {}, {}};
			for (int i = 0; i < 4; i++) c.p.push_back(i == k ? (dir ? 1 : 2) : 0);
			e.exec(c);
		}
	});
	return ok;
}
static int C12() { return chunks("chunked"); }
static int C13() { return chunks("chunkstatus"); }

static int C14() {
	bool ok = true;
	for (auto &f : data_fams(0)) {
		int stride = f.name.find("boundary") == 0 || f.name.find("16-bit") != string::npos ? 37 : f.name.find("all lengths") == 0 ? 3 : 7;
		if (DEEP) stride = stride / 5;
		ok = ok && ex.family("every allocation of a compression fails: " + f.name, [&](Explorer &e) {
			uint64_t k = 0;
			f.gen(e, [&] { return (k++ % stride) == 0 && e.mine(); }, [&](Explorer &e, const bytes &d) {
				if (d.size() > (DEEP ? 3000 : 1100)) return;
				for (int i = 0; i < 2; i++) for (size_t cap : {big_cap(d.size()), d.size() / 2, (size_t)3}) for (uint64_t m = 0; m < 2; m++) e.exec(Case{"memory", {0, (uint64_t)i, cap, m}, d, {}});
			});
		});
	}
	ok = ok && ex.family("decompressions of correct, cut and too long streams", [&](Explorer &e) {
		stream_set(e, 0, [&](Explorer &e, const bytes &s, size_t o) {
			for (int i = 0; i < 2; i++) {
				e.exec(Case{"memory", {1, (uint64_t)i, o + 8, 0}, s, {}});
				if (o > 8) e.exec(Case{"memory", {1, (uint64_t)i, o - 8, 0}, s, {}});
				if (s.size() > 12) e.exec(Case{"memory", {1, (uint64_t)i, o + 8, 0}, bytes(s.begin(), s.end() - 9), {}});
			}
		});
	});
	return ok;
}

int main(int argc, char **argv) {
	if (argc < 4) { fprintf(stderr, "usage: %s PROP quick|thorough RESULT.json | PROP replay FILE\n", argv[0]); return 2; }
	gin = new Guarded(1 << 21); gout = new Guarded(1 << 21); gin2 = new Guarded(1 << 16); gout2 = new Guarded(1 << 16);
	ex.property = argv[1]; ex.tier = argv[2]; ex.run = run_case;
	DEEP = ex.tier == "thorough";
	static const std::set<string> FAST = {"C03", "C05", "C06", "C07", "C08", "C12", "C13"};
	THOROUGH = DEEP || FAST.count(ex.property);
	const char *od = getenv("MC_OUT"); ex.outdir = od ? od : "/tmp";
	ex.set_bits = DEEP ? 27 : 25;
	std::map<string, int (*)()> P = {{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}, {"C06", C06}, {"C07", C07}, {"C08", C08}, {"C09", C09}, {"C10", C10}, {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14}};
	if (!P.count(ex.property)) { fprintf(stderr, "unknown property\n"); return 2; }
	if (ex.tier == "replay") {
		ex.workers = 1; ex.hang_s = 600;
		if (ex.property == "C09") setup_histories();
		return ex.replay(argv[3]);
	}
	ex.init();
	P[ex.property]();
	ex.write_result(argv[3]);
	return ex.failed ? 1 : 0;
}

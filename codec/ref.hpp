// Reference model of the 842 format, written from its description (see 842.h), not from the
// library's code: rings are simulated as actual arrays, bits are handled one at a time.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <vector>

namespace ref {
using bytes = std::vector<uint8_t>;

enum { REPEAT = 0x1b, ZEROS = 0x1c, SHORTD = 0x1d, END = 0x1e };
// D/I with size in bytes: negative = index
static const int8_t TPL[26][4] = {
	{8,0,0,0}, {4,2,-2,0}, {4,-2,2,0}, {4,-2,-2,0}, {4,-4,0,0},
	{2,-2,4,0}, {2,-2,2,-2}, {2,-2,-2,2}, {2,-2,-2,-2}, {2,-2,-4,0},
	{-2,2,4,0}, {-2,4,-2,0}, {-2,2,-2,2}, {-2,2,-2,-2}, {-2,2,-4,0},
	{-2,-2,4,0}, {-2,-2,2,-2}, {-2,-2,-2,2}, {-2,-2,-2,-2}, {-2,-2,-4,0},
	{-4,4,0,0}, {-4,2,-2,0}, {-4,-2,2,0}, {-4,-2,-2,0}, {-4,-4,0,0},
	{-8,0,0,0},
};
static inline int idx_bits(int size) { return size == 4 ? 9 : 8; }
static inline int field_bits(int f) { return f > 0 ? 8 * f : f < 0 ? idx_bits(-f) : 0; }
static inline int tpl_bits(int t) { int b = 0; for (int i = 0; i < 4; i++) b += field_bits(TPL[t][i]); return b; }

struct BitWriter {
	bytes v; unsigned n = 0; // bits used
	void put(uint64_t x, int bits) {
		for (int i = bits - 1; i >= 0; i--) {
			if ((n & 7) == 0) v.push_back(0);
			if ((x >> i) & 1) v[n >> 3] |= 0x80 >> (n & 7);
			n++;
		}
	}
	void pad8() { while (v.size() % 8) v.push_back(0); n = v.size() * 8; }
};

static inline uint32_t crc_bitwise(const uint8_t *d, size_t n) {
	uint32_t c = 0;
	for (size_t i = 0; i < n; i++) {
		c ^= (uint32_t)d[i] << 24;
		for (int k = 0; k < 8; k++) c = (c & 0x80000000u) ? (c << 1) ^ 0x04C11DB7u : c << 1;
	}
	return c;
}
// same function, one table look-up per byte (the table is computed from the definition above)
static inline uint32_t crc(const uint8_t *d, size_t n) {
	static uint32_t T[256]; static bool init = false;
	if (!init) { for (int i = 0; i < 256; i++) { uint8_t b = i; T[i] = crc_bitwise(&b, 1); } init = true; }
	uint32_t c = 0;
	for (size_t i = 0; i < n; i++) c = (c << 8) ^ T[(c >> 24) ^ d[i]];
	return c;
}

struct Token { int op; uint64_t f[4]; int nf; };

// The format's dictionary state after a number of 8-byte words
struct Rings {
	uint16_t r2[256]; uint32_t r4[512]; uint64_t r8[256];
	size_t words = 0; // 8-byte words written so far
	// big endian values; raw bytes are equivalent as keys
	void push(const uint8_t *w) {
		for (int i = 0; i < 4; i++) memcpy(&r2[(words * 4 + i) & 255], w + 2 * i, 2);
		for (int i = 0; i < 2; i++) memcpy(&r4[(words * 2 + i) & 511], w + 4 * i, 4);
		memcpy(&r8[words & 255], w, 8);
		words++;
	}
	bool valid(int size, unsigned i) const {
		switch (size) {
		case 2: return i < 256 && i < words * 4;
		case 4: return i < 512 && i < words * 2;
		default: return i < 256 && i < words;
		}
	}
	void get(int size, unsigned i, uint8_t *o) const {
		switch (size) {
		case 2: memcpy(o, &r2[i], 2); break;
		case 4: memcpy(o, &r4[i], 4); break;
		default: memcpy(o, &r8[i], 8); break;
		}
	}
	bool has(int size, const uint8_t *w) const {
		unsigned n = size == 2 ? 256 : size == 4 ? 512 : 256;
		uint8_t t[8];
		for (unsigned i = 0; i < n && valid(size, i); i++) { get(size, i, t); if (!memcmp(t, w, size)) return true; }
		return false;
	}
};

enum Status {
	OK,
	NOSPACE,     // well-formed (checksum included), but the output exceeds the capacity
	BAD,         // malformed, truncated or checksum mismatch
	UNSPEC,      // uses SHORT_DATA other than as the last item: outside the format
};
struct Result {
	Status st = BAD;
	bool crc_ok = false, complete = false;
	bytes out;
	size_t bits = 0;     // bits consumed including the checksum
	std::vector<Token> toks;
	bool has_short = false;
};

// Decode under a strict reading of the format. Output is limited to 'limit' bytes to bound the work.
static inline Result decode(const uint8_t *in, size_t n, size_t cap, bool want_toks = false, size_t limit = 1 << 20) {
	Result r;
	size_t pos = 0, total = n * 8;
	static thread_local Rings g; g.words = 0;
	bool unspec = false, nospace = false;
	auto get = [&](int bits, uint64_t &x) {
		if (pos + bits > total) return false;
		x = 0;
		for (int i = 0; i < bits; i++, pos++) x = x << 1 | ((in[pos >> 3] >> (7 - (pos & 7))) & 1);
		return true;
	};
	auto word = [&](const uint8_t *w) {
		r.out.insert(r.out.end(), w, w + 8);
		if (r.out.size() > cap) nospace = true;
		g.push(w);
	};
	for (;;) {
		uint64_t op;
		if (r.out.size() > limit) return r;
		if (!get(5, op)) return r;
		Token t{(int)op, {0,0,0,0}, 0};
		if (r.has_short && op != END) unspec = true;
		if (op < 26) {
			uint8_t w[8]; int b = 0;
			for (int i = 0; i < 4 && TPL[op][i]; i++) {
				int f = TPL[op][i]; uint64_t x;
				if (!get(field_bits(f), x)) { r.st = unspec ? UNSPEC : BAD; return r; }
				t.f[t.nf++] = x;
				if (f > 0) { for (int k = f - 1; k >= 0; k--) w[b + k] = x, x >>= 8; b += f; }
				else {
					if (!g.valid(-f, x)) { r.st = unspec ? UNSPEC : BAD; return r; }
					g.get(-f, x, w + b); b += -f;
				}
			}
			word(w);
		} else if (op == REPEAT) {
			uint64_t x;
			if (!get(6, x)) { r.st = unspec ? UNSPEC : BAD; return r; }
			t.f[t.nf++] = x;
			if (r.out.size() < 8) { r.st = unspec ? UNSPEC : BAD; return r; }
			uint8_t w[8]; memcpy(w, r.out.data() + r.out.size() - 8, 8);
			for (uint64_t k = 0; k <= x; k++) word(w);
		} else if (op == ZEROS) {
			uint8_t w[8] = {0}; word(w);
		} else if (op == SHORTD) {
			uint64_t k;
			if (!get(3, k) || k == 0) { r.st = unspec ? UNSPEC : BAD; return r; }
			t.f[t.nf++] = k;
			r.has_short = true;
			for (uint64_t i = 0; i < k; i++) {
				uint64_t x;
				if (!get(8, x)) { r.st = unspec ? UNSPEC : BAD; return r; }
				r.out.push_back(x);
			}
			if (r.out.size() > cap) nospace = true;
		} else if (op == END) {
			uint64_t c;
			if (want_toks) r.toks.push_back(t);
			if (!get(32, c)) { r.st = unspec ? UNSPEC : BAD; return r; }
			r.complete = true; r.bits = pos;
			r.crc_ok = c == crc(r.out.data(), r.out.size());
			r.st = unspec ? UNSPEC : !r.crc_ok ? BAD : nospace ? NOSPACE : OK;
			return r;
		} else return r; // 0x1a, 0x1f
		if (want_toks) r.toks.push_back(t);
	}
}

// Builds streams token by token, tracking the model state, for enumerating all of them
struct Builder {
	BitWriter w; bytes out; Rings g;
	size_t steps = 0;
	void raw(uint64_t x, int bits) { w.put(x, bits); }
	void push_word(const uint8_t *p) { out.insert(out.end(), p, p + 8); g.push(p); }
	void zeros() { steps++; w.put(ZEROS, 5); uint8_t z[8] = {0}; push_word(z); }
	void repeat(unsigned n) { // n = operand (n+1 copies)
		steps++; w.put(REPEAT, 5); w.put(n, 6);
		if (out.size() < 8) return;
		uint8_t l[8]; memcpy(l, out.data() + out.size() - 8, 8);
		for (unsigned i = 0; i <= n; i++) push_word(l);
	}
	// f: operand values. Returns false when an index is not valid (the bits are written anyway)
	bool tpl(int t, const uint64_t *f) {
		steps++; w.put(t, 5);
		uint8_t b[8]; int o = 0; bool ok = true;
		for (int i = 0; i < 4 && TPL[t][i]; i++) {
			int s = TPL[t][i];
			w.put(f[i], field_bits(s));
			if (s > 0) { uint64_t x = f[i]; for (int k = s - 1; k >= 0; k--) b[o + k] = x, x >>= 8; o += s; }
			else { if (g.valid(-s, f[i])) g.get(-s, f[i], b + o); else ok = false; o += -s; }
		}
		if (ok) push_word(b);
		return ok;
	}
	void d8(uint64_t v) { tpl(0, &v); }
	void shortd(const uint8_t *p, unsigned n) { steps++; w.put(SHORTD, 5); w.put(n, 3); for (unsigned i = 0; i < n; i++) { w.put(p[i], 8); out.push_back(p[i]); } }
	void end(bool pad = true) { steps++; w.put(END, 5); w.put(crc(out.data(), out.size()), 32); if (pad) w.pad8(); }
	uint64_t state_hash() const; // defined by users with mc::hash64 over out
};

// Upper bound on the size of a conformant encoding: all literal
static inline size_t worst_size(size_t ilen) {
	size_t bits = (ilen / 8) * 69 + (ilen % 8 ? 8 + 8 * (ilen % 8) : 0) + 5 + 32;
	return (bits + 63) / 64 * 8;
}
} // namespace ref

// Generators of token sequences, shared by the engines that decode streams.
#pragma once
#include "../common/mc.hpp"
#include "ref.hpp"
#include <functional>
using mc::bytes; using mc::Explorer; using mc::Case; using ref::Builder;

static void app64(bytes &v, uint64_t x) { for (int i = 7; i >= 0; i--) v.push_back(x >> (8 * i)); }
static uint64_t distinct_word(uint64_t i) { // distinct words whose halves and quarters are distinct as long as possible
	// halves: unique 16-bit values for 16384 words
	uint64_t w = 0;
	for (int k = 0; k < 4; k++) w = w << 16 | (((i * 4 + k) * 40503u + 12345u) & 0xffff);
	return w;
}

// ---------------------------------------------------------------- enumerations of token sequences
struct Tok { int op; uint64_t f[4]; uint8_t sh[8]; };
// All tokens offered in the model state of b. detail: how many operand choices
static std::vector<Tok> tokens(const Builder &b, int detail, bool invalid, bool shorts) {
	std::vector<Tok> v;
	for (int t = 0; t < 26; t++) {
		std::vector<std::vector<uint64_t>> ch;
		bool possible = true; size_t salt = t + b.steps * 3;
		for (int i = 0; i < 4 && ref::TPL[t][i]; i++) {
			int f = ref::TPL[t][i]; std::vector<uint64_t> c;
			if (f > 0) {
				uint64_t mask = f == 8 ? ~0ull : (1ull << (8 * f)) - 1;
				uint64_t x = (0x9F3C5A7142D08B6Eull >> ((salt * 5 + i * 7) % 16)) & mask;
				if (!x) x = 1;
				c = {x};
				if (detail >= 2) c.push_back(i & 1 ? mask : 0);
			} else {
				unsigned ring = f == -4 ? 512 : 256;
				unsigned have = std::min<size_t>(ring, b.g.words * 8 / -f);
				if (have) { c.push_back(0); if (have > 1) c.push_back(have - 1); if (detail >= 2 && have > 2) c.push_back((b.g.words * 8 / -f) % ring < have ? (b.g.words * 8 / -f) % ring : have / 2); }
				if (invalid && have < ring) { c.push_back(have); if (detail >= 2) c.push_back(ring - 1); }
				if (detail == 0 && c.size() > 1) c = {c[salt % c.size()]};
			}
			if (c.empty()) { possible = false; break; }
			ch.push_back(c);
		}
		if (!possible) continue;
		size_t tot = 1; for (auto &c : ch) tot *= c.size();
		for (size_t s = 0; s < tot; s++) { Tok k{t, {0,0,0,0}, {0}}; size_t x = s; for (size_t i = 0; i < ch.size(); i++) { k.f[i] = ch[i][x % ch[i].size()]; x /= ch[i].size(); } v.push_back(k); }
	}
	v.push_back({ref::ZEROS, {0,0,0,0}, {0}});
	if (b.out.size() >= 8 || invalid) for (int r : {0, 1, 5, 62, 63}) { if (detail == 0 && r > 1) continue; v.push_back({ref::REPEAT, {(uint64_t)r,0,0,0}, {0}}); }
	if (shorts) for (int n = invalid ? 0 : 1; n < 8; n++) { Tok k{ref::SHORTD, {(uint64_t)n,0,0,0}, {0}}; for (int i = 0; i < n; i++) k.sh[i] = 0x31 * (i + 1); v.push_back(k); if (detail == 0) n += 2; }
	if (invalid) { v.push_back({0x1a, {0,0,0,0}, {0}}); v.push_back({0x1f, {0,0,0,0}, {0}}); }
	return v;
}
static void apply(Builder &b, const Tok &t) {
	if (t.op < 26) b.tpl(t.op, t.f);
	else if (t.op == ref::ZEROS) b.zeros();
	else if (t.op == ref::REPEAT) b.repeat(t.f[0]);
	else if (t.op == ref::SHORTD) b.shortd(t.sh, t.f[0]);
	else { b.raw(t.op, 5); b.steps++; }
}
static Builder prefix(int words) { Builder b; for (int i = 0; i < words; i++) b.d8(distinct_word(i)); b.steps = words; return b; }
static Builder prefix_runs(int words) { // the same number of words, produced with repeats and zeros
	Builder b; int w = 0; uint64_t i = 0;
	while (w < words) { int left = words - w; if (w && left > 3 && i % 3 == 1) { int r = std::min(left, 64); b.repeat(r - 1); w += r; } else if (i % 3 == 2) { b.zeros(); w++; } else { b.d8(distinct_word(i)); w++; } i++; }
	return b;
}

typedef std::function<void(Explorer &, Builder &)> LeafCb;
// Every token sequence of exactly 'depth' tokens from the given state; leaf(b) gets the stream without END.
// The enumeration walks all inner nodes in each worker; leaves are distributed.
static void walk(Explorer &e, const Builder &b, int depth, const std::vector<int> &detail, bool invalid, bool shorts, const LeafCb &leaf) {
	auto T = tokens(b, detail[depth - 1], invalid, shorts);
	for (auto &t : T) {
		if (depth == 1) {
			if (!e.mine()) continue;
			Builder c = b; apply(c, t); leaf(e, c);
		} else {
			Builder c = b; apply(c, t);
			walk(e, c, depth - 1, detail, invalid, shorts, leaf);
		}
	}
}


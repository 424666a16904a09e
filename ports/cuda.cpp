// Exploration of the CUDA kernel, run natively with its inline assembly interpreted (property K01).
#include "cuda.h"
#undef __restrict__
#include "../codec/gen.hpp"
using namespace mc;
using std::string; using std::vector;
cuda_dim blockIdx, blockDim, threadIdx, gridDim;
void cuda842_decompress(const uint64_t *in, uint64_t *out);
static Explorer ex; static bool DEEP;
#define FAIL(...) do { char _b[600]; snprintf(_b, sizeof(_b), __VA_ARGS__); why = _b; return false; } while (0)
static const size_t CH = LIB842_CUDA_CHUNK_SIZE, SLOT = 2 * CH;
static string num(long long v) { return std::to_string(v); }

#ifdef RELAXED
// The relaxed format has no runs, and its indexes count units from the start of the chunk
static int lg(size_t n) { int r = 0; while (n >>= 1) r++; return r; }
static int ibits(int size) { return lg(CH) - (size == 2 ? 1 : size == 4 ? 2 : 3); }
#endif
// The output of a well-formed stream, by the model of the format
static bool expect(const uint8_t *s, size_t n, bytes &out) {
#ifndef RELAXED
	auto r = ref::decode(s, n, 1 << 20); out = r.out; return r.st == ref::OK && !r.has_short;
#else
	size_t pos = 0; out.clear();
	auto get = [&](int b) { uint64_t x = 0; while (b--) { x = x << 1 | (pos / 8 < n ? s[pos / 8] >> (7 - pos % 8) & 1 : 0); pos++; } return x; };
	for (;;) { unsigned op = get(5); if (op == ref::END) return pos + 32 <= n * 8; if (op >= 26) return false;
		uint8_t w[8]; int o = 0; for (int i = 0; i < 4 && ref::TPL[op][i]; i++) { int f = ref::TPL[op][i]; if (f > 0) { uint64_t x = get(8 * f); for (int k = f - 1; k >= 0; k--) w[o + k] = x, x >>= 8; o += f; } else { uint64_t x = get(ibits(-f)) * -f; if (x - f > out.size()) return false; memcpy(w + o, &out[x], -f); o -= f; } }
		out.insert(out.end(), w, w + 8); if (out.size() > CH) return false; }
#endif
}
// p = {threads per block, order of the threads, chunk sizes...}, a = the chunks
static bool run_batch(const Case &c, string &why) {
	static Guarded *gi = new Guarded(1 << 20), *go = new Guarded(1 << 19);
	size_t n = c.p.size() - 2, bd = c.p[0]; uint8_t *pi = gi->place(n * SLOT, 0), *po = go->place(n * CH, 0);
	memset(po, 0x3C, n * CH); vector<bytes> want(n); size_t o = 0;
	for (size_t i = 0; i < n; i++) {
		memset(pi + i * SLOT, 0xF5, SLOT); memcpy(pi + i * SLOT, c.a.data() + o, c.p[2 + i]);
		if (!expect(c.a.data() + o, c.p[2 + i], want[i]) || want[i].size() > CH || c.p[2 + i] > SLOT) { printf("bad stream in a case: chunk %zu of %zu bytes -> %zu\n", i, (size_t)c.p[2 + i], want[i].size()); fflush(stdout); _exit(90); }
		o += c.p[2 + i]; ex.state(mix(hash64(want[i].data(), want[i].size()), c.p[2 + i])); ex.transitions(want[i].size() / 8 + 1); ex.nontrivial(!want[i].empty());
	}
	bytes before(pi, pi + n * SLOT);
	for (size_t k = 0; k < n; k++) { size_t i = c.p[1] == 0 ? k : c.p[1] == 1 ? n - 1 - k : (k * 7 + 3) % n; if (c.p[1] == 2 && n % 7 == 0) i = k; blockDim.x = bd; blockIdx.x = i / bd; threadIdx.x = i % bd; gridDim.x = (n + bd - 1) / bd; cuda842_decompress((const uint64_t *)pi, (uint64_t *)po); }
	if (!gi->intact() || !go->intact() || memcmp(pi, before.data(), n * SLOT)) FAIL("bytes outside the output were modified");
	for (size_t i = 0; i < n; i++) {
		if (memcmp(po + i * CH, want[i].data(), want[i].size())) { size_t k = 0; while (po[i * CH + k] == want[i][k]) k++; FAIL("chunk %zu: byte %zu of %zu is %02x instead of %02x", i, k, want[i].size(), po[i * CH + k], want[i][k]); }
		for (size_t k = want[i].size(); k < CH; k++) if (po[i * CH + k] != 0x3C) FAIL("chunk %zu: byte %zu beyond its %zu bytes was written", i, k, want[i].size());
	}
	return true;
}
// One thread of a big grid. p = {chunk number, threads per block}
static bool run_far(const Case &c, string &why) {
	static uint8_t *in, *out; static const size_t MAXC = (1ull << 26) + 64;
	if (!in) { in = (uint8_t *)mmap(nullptr, MAXC * SLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); out = (uint8_t *)mmap(nullptr, MAXC * CH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (in == MAP_FAILED || out == MAP_FAILED) { printf("no address space\n"); _exit(90); } }
	size_t i = c.p[0], bd = c.p[1]; Builder b; b.d8(distinct_word(i)); uint64_t f[4] = {0, 0, 0, 0};
#ifndef RELAXED
	b.tpl(25, f); b.repeat(3);
#endif
	b.end();
	memcpy(in + i * SLOT, b.w.v.data(), b.w.v.size()); ex.state(mix(i, bd)); ex.transitions(1); ex.nontrivial();
	blockDim.x = bd; blockIdx.x = i / bd; threadIdx.x = i % bd; gridDim.x = (i + bd) / bd; cuda842_decompress((const uint64_t *)in, (uint64_t *)out);
	bool ok = !memcmp(out + i * CH, b.out.data(), b.out.size());
	memset(in + i * SLOT, 0, b.w.v.size()); memset(out + i * CH, 0, b.out.size());
	if (!ok) FAIL("chunk %zu was not decompressed to its place", i);
	return true;
}
static bool run_case(const Case &c, string &why) { if (c.kind == "far") return run_far(c, why); return run_batch(c, why); }
struct Batcher {
	Explorer &e; size_t max; Case c{"batch", {32, 0}, {}, {}}; uint64_t k = 0;
	void add(const bytes &s, size_t outlen) { if (s.size() > SLOT || outlen > CH) return; c.p.push_back(s.size()); c.a.insert(c.a.end(), s.begin(), s.end()); if (c.p.size() >= max + 2) flush(); }
	void flush() { if (c.p.size() == 2) return; c.p[1] = k++ % 3; e.exec(c); static const int B[] = {32, 1, 64, 7}; c.p = {(uint64_t)B[k % 4], 0}; c.a.clear(); }
	~Batcher() { flush(); }
};
#ifndef RELAXED
static void K01() {
	for (int pre : {0, 1, 2, 3, 31, 62, 63, 64, 65, 66, 125, 126, 127}) {
		auto leaf = [](Batcher &B) { return [&B](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v, c.out.size()); }; };
		ex.family("1 token after " + num(pre) + " words", [&](Explorer &e) { Batcher B{e, 60}; walk(e, prefix(pre), 1, {3}, false, false, leaf(B)); });
		if (pre > 3) ex.family("1 token after " + num(pre) + " words made of runs", [&](Explorer &e) { Batcher B{e, 60}; walk(e, prefix_runs(pre), 1, {2}, false, false, leaf(B)); });
		if (pre < 127) ex.family("2 tokens after " + num(pre) + " words", [&](Explorer &e) { Batcher B{e, 60}; walk(e, prefix(pre), 2, pre > 3 ? vector<int>{1, 0} : DEEP ? vector<int>{2, 2} : vector<int>{2, 1}, false, false, leaf(B)); });
		if (pre <= 3) ex.family("3 tokens after " + num(pre) + " words", [&](Explorer &e) { Batcher B{e, 60}; walk(e, prefix(pre), 3, DEEP ? vector<int>{2, 1, 1} : pre < 2 ? vector<int>{1, 1, 0} : vector<int>{1, 0, 0}, false, false, leaf(B)); });
		if (pre == 1 && DEEP) ex.family("4 tokens after " + num(pre) + " words", [&](Explorer &e) { Batcher B{e, 60}; walk(e, prefix(pre), 4, {1, 0, 0, 0}, false, false, leaf(B)); });
	}
	ex.family("every template at every bit offset of a 64-bit word", [&](Explorer &e) {
		Batcher B{e, 60}; for (int z = 0; z < 64; z++) for (auto &t : tokens(prefix(1), 2, false, false)) if (e.mine()) { Builder b = prefix(1); for (int i = 0; i < z; i++) b.zeros(); apply(b, t); b.end(); B.add(b.w.v, b.out.size()); }
	});
	ex.family("every single operand bit of every template", [&](Explorer &e) {
		Batcher B{e, 60}; for (int pre : {70, 127}) for (int t = 0; t < 26; t++) for (int i = 0; i < 4 && ref::TPL[t][i]; i++) { int s = ref::TPL[t][i], nb = ref::field_bits(s); for (int k = 0; k <= nb; k++) if (e.mine()) { Builder b = prefix(pre); uint64_t f[4] = {0, 0, 0, 0}; f[i] = k == nb ? (nb == 64 ? ~0ull : (1ull << nb) - 1) : 1ull << k; if (s < 0 && !b.g.valid(-s, f[i])) continue; b.tpl(t, f); b.end(); B.add(b.w.v, b.out.size()); } }
	});
	ex.family("every REPEAT operand", [&](Explorer &e) {
		Batcher B{e, 60}; for (int n = 0; n < 64; n++) for (int m = 0; m < 63; m++) if (e.mine()) { Builder b = prefix(1); b.repeat(n); if (m) b.repeat(m); uint64_t f[4] = {0, 0, 0, 0}; b.tpl(25, f); b.end(); B.add(b.w.v, b.out.size()); }
	});
	ex.family("every index value of every width at every position", [&](Explorer &e) {
		Batcher B{e, 60};
		for (int t = 1; t < 128; t++) { if (!DEEP && t % 8 > 1 && (t < 60 || t > 68)) continue; Builder p = prefix(t);
			auto go = [&](int op, int field, unsigned idx) { if (!e.mine() || !p.g.valid(-ref::TPL[op][field], idx)) return; Builder b = p; uint64_t f[4] = {0, 0, 0, 0}; for (int i = 0; i < 4; i++) if (ref::TPL[op][i] > 0) f[i] = 0x1111 * (i + 1); f[field] = idx; b.tpl(op, f); b.end(); B.add(b.w.v, b.out.size()); };
			for (unsigned i = 0; i < 256; i++) { go(0x19, 0, i); go(0x0a, 0, i); go(0x05, 1, i); go(0x02, 1, i); go(0x01, 2, i); go(0x06, 3, i); }
			for (unsigned i = 0; i < 512; i++) { go(0x14, 0, i); go(0x04, 1, i); go(0x09, 2, i); }
		}
	});
#else
// streams of the relaxed format: words as in `tokens`, but with absolute indexes
struct RB { ref::BitWriter w; size_t words = 0; void d8(uint64_t v) { w.put(0, 5); w.put(v, 64); words++; }
	void tpl(int t, const uint64_t *f) { w.put(t, 5); for (int i = 0; i < 4 && ref::TPL[t][i]; i++) { int s = ref::TPL[t][i]; w.put(f[i], s > 0 ? 8 * s : ibits(-s)); } words++; }
	void end() { w.put(ref::END, 5); w.put(0, 32); w.pad8(); } };
static RB rprefix(int n) { RB b; for (int i = 0; i < n; i++) b.d8(distinct_word(i)); return b; }
static void rwalk(Explorer &e, const RB &b, int depth, Batcher &B) {
	for (int t = 0; t < 26; t++) { vector<vector<uint64_t>> ch; bool ok = true;
		for (int i = 0; i < 4 && ref::TPL[t][i]; i++) { int s = ref::TPL[t][i]; if (s > 0) { uint64_t m = s == 8 ? ~0ull : (1ull << 8 * s) - 1; ch.push_back(depth > 1 ? vector<uint64_t>{0x9F3C5A7142D08B6Eull >> i & m} : vector<uint64_t>{0x9F3C5A7142D08B6Eull >> i & m, i & 1 ? m : 0}); } else { size_t have = b.words * 8 / -s; if (!have) { ok = false; break; } vector<uint64_t> c = {0}; if (have > 1) c.push_back(have - 1); if (have > 2 && depth == 1) c.push_back(have / 2); ch.push_back(c); } }
		if (!ok) continue;
		size_t tot = 1; for (auto &c : ch) tot *= c.size();
		for (size_t s = 0; s < tot; s++) { if (depth == 1 && !e.mine()) continue; uint64_t f[4]; size_t x = s; for (size_t i = 0; i < ch.size(); i++) { f[i] = ch[i][x % ch[i].size()]; x /= ch[i].size(); } RB c = b; c.tpl(t, f); if (depth == 1) { c.end(); B.add(c.w.v, c.words * 8); } else rwalk(e, c, depth - 1, B); }
	}
}
static void K01() {
	for (int pre : {0, 1, 2, 3, 63, 64, 65, 127}) { ex.family("1 token after " + num(pre) + " words (relaxed format)", [&](Explorer &e) { Batcher B{e, 60}; rwalk(e, rprefix(pre), 1, B); });
		if (pre < 4) ex.family("2 tokens after " + num(pre) + " words (relaxed format)", [&](Explorer &e) { Batcher B{e, 60}; rwalk(e, rprefix(pre), 2, B); }); }
	ex.family("every index value of every width (relaxed format)", [&](Explorer &e) {
		Batcher B{e, 60};
		for (int t : {1, 2, 32, 64, 100, 127}) { auto go = [&](int op, int field, unsigned idx) { int s = -ref::TPL[op][field]; if ((idx + 1) * s > (unsigned)t * 8 || !e.mine()) return; RB b = rprefix(t); uint64_t f[4] = {0, 0, 0, 0}; f[field] = idx; b.tpl(op, f); b.end(); B.add(b.w.v, b.words * 8); };
			for (unsigned i = 0; i < CH; i++) { go(0x19, 0, i); go(0x0a, 0, i); go(0x05, 1, i); go(0x02, 1, i); go(0x01, 2, i); go(0x14, 0, i); go(0x04, 1, i); } }
	});
#endif
	ex.family("every number of chunks, block size and order of the threads", [&](Explorer &e) {
		for (int n = 1; n <= (DEEP ? 300 : 100); n++) for (int bd : {1, 7, 32, 33, 1024}) for (int o = 0; o < 3; o++) if (e.mine()) { Case c{"batch", {(uint64_t)bd, (uint64_t)o}, {}, {}}; for (int i = 0; i < n; i++) { Builder b; b.d8(distinct_word(i * 5 + n)); if (i % 3 == 1) b.d8(i);
#ifndef RELAXED
			if (i % 3 == 2) b.repeat(i % 64);
#endif
			b.end(); c.p.push_back(b.w.v.size()); c.a.insert(c.a.end(), b.w.v.begin(), b.w.v.end()); } e.exec(c); }
	});
	ex.family("chunks far into a big grid", [&](Explorer &e) {
		vector<uint64_t> N; for (int b = 5; b <= 26; b++) for (int d = -2; d <= 2; d++) N.push_back((1ull << b) + d);
		for (auto i : N) for (int bd : {32, 256, 1024}) if (e.mine()) e.exec(Case{"far", {i, (uint64_t)bd}, {}, {}});
	});
}
int main(int argc, char **argv) {
	if (argc < 4) return 2;
	ex.property = argv[1]; ex.tier = argv[2]; ex.run = run_case; DEEP = ex.tier == "thorough";
	const char *od = getenv("MC_OUT"); ex.outdir = od ? od : "/tmp"; ex.set_bits = 23; ex.hang_s = 10;
	if (ex.tier == "replay") { ex.workers = 1; return ex.replay(argv[3]); }
	ex.init(); if (ex.property == "K01") K01(); else return 2;
	ex.write_result(argv[3]); return ex.failed ? 1 : 0;
}

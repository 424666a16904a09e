// Exploration of the AIX interface on stand-ins of the accelerator's functions (property A01).
#include "../common/mc.hpp"
extern "C" {
#include <lib842/aix.h>
}
using namespace mc;
using std::string; using std::vector;
static Explorer ex; static bool DEEP;
#define FAIL(...) do { char _b[600]; snprintf(_b, sizeof(_b), __VA_ARGS__); why = _b; return false; } while (0)
struct Call { bool comp; void *src; size_t n; void *dst; size_t *dl; size_t cap; int fl; };
static vector<Call> calls; static vector<int> results;
static const size_t LENS[] = {0, 1, 8, 4096, 65536, (size_t)-2, 1ull << 33};
static int accel(bool c, void *s, size_t n, void *d, size_t *dl, int fl) { size_t k = calls.size(); calls.push_back({c, s, n, d, dl, *dl, fl}); *dl = 1000 + 8 * k; return k < results.size() ? results[k] : 0; }
extern "C" int accel_compress(void *s, size_t n, void *d, size_t *dl, int fl) { return accel(true, s, n, d, dl, fl); }
extern "C" int accel_decompress(void *s, size_t n, void *d, size_t *dl, int fl) { return accel(false, s, n, d, dl, fl); }
// p = {function (0..3), through the record, istride, ostride, chunks, [length, capacity, result]...}; length SIZE_MAX: skipped
static bool run_case(const Case &c, string &why) {
	auto *im = get_aix842_implementation(); if (!im || im != get_aix842_implementation()) FAIL("the implementation record changes");
	if (c.kind == "record") {
		ex.state(1); ex.transitions(1); ex.nontrivial();
		size_t r = im->required_alignment, p = im->preferred_alignment;
		if (!r || r & (r - 1) || !p || p & (p - 1)) FAIL("alignments %zu, %zu are not powers of two", r, p);
		if (r != 4096) FAIL("required alignment %zu", r);
		if (p % r) FAIL("buffers with the preferred alignment %zu do not satisfy the required one, %zu", p, r);
		if (65536 % r) FAIL("streams reject the implementation");
		return true;
	}
	int fn = c.p[0]; size_t is = c.p[2], os = c.p[3], n = c.p[4]; calls.clear(); results.clear();
	uint8_t *in = (uint8_t *)0x100000, *out = (uint8_t *)0x40000000; // never dereferenced
	vector<size_t> il, ol; vector<int> res, rets(n + 1, 99); for (size_t i = 0; i < n; i++) { il.push_back(c.p[5 + 3 * i]); ol.push_back(c.p[6 + 3 * i]); res.push_back((int)c.p[7 + 3 * i]); if (!(fn >= 2 && il[i] == SIZE_MAX)) results.push_back(res[i]); }
	auto ol0 = ol; auto il0 = il; ol.push_back(77); int ret; bool rec = c.p[1];
	ex.state(hash64(c.p.data(), 8 * c.p.size())); ex.transitions(1 + n); ex.nontrivial(n > 0);
	switch (fn) {
	case 0: ret = (rec ? im->compress : aix842_compress)(in, il[0], out, &ol[0]); break;
	case 1: ret = (rec ? im->decompress : aix842_decompress)(in, il[0], out, &ol[0]); break;
	case 2: ret = (rec ? im->compress_chunked : aix842_compress_chunked)(n, rets.data(), in, is, il.data(), out, os, ol.data()); break;
	default: ret = (rec ? im->decompress_chunked : aix842_decompress_chunked)(n, rets.data(), in, is, il.data(), out, os, ol.data()); break;
	}
	if (il != il0) FAIL("the input lengths were modified");
	if (rets[n] != 99 || ol[n] != 77) FAIL("results stored beyond the last chunk");
	if (calls.size() != results.size()) FAIL("%zu operations instead of %zu", calls.size(), results.size());
	size_t k = 0; int first = 0;
	for (size_t i = 0; i < n; i++) {
		if (fn >= 2 && il[i] == SIZE_MAX) { if (ol[i] != ol0[i] || rets[i] != 99) FAIL("chunk %zu is skipped, but has results", i); continue; }
		auto &q = calls[k];
		if (q.comp != !(fn & 1)) FAIL("chunk %zu: wrong operation", i);
		if (q.src != in + i * is || q.dst != out + i * os || q.n != il[i] || q.cap != ol0[i] || q.fl) FAIL("chunk %zu: wrong buffers", i);
		if (ol[i] != 1000 + 8 * k) FAIL("chunk %zu: length %zu instead of %zu", i, ol[i], 1000 + 8 * k);
		if (fn >= 2 && rets[i] != res[i]) FAIL("chunk %zu: result %d instead of %d", i, rets[i], res[i]);
		if (!first && res[i] && (fn < 2 || res[i] != -ENOSPC)) first = res[i];
		k++;
	}
	if (ret != first) FAIL("returned %d instead of %d", ret, first);
	return true;
}
static void A01() {
	ex.family("the implementation record", [&](Explorer &e) { if (e.mine()) e.exec(Case{"record", {}, {}, {}}); });
	const int R[] = {0, -ENOSPC, -EINVAL, -1, 5};
	ex.family("single chunks: every length, capacity and result", [&](Explorer &e) { for (int fn = 0; fn < 2; fn++) for (int rec = 0; rec < 2; rec++) for (auto l : LENS) for (auto o : LENS) for (int r : R) if (e.mine()) e.exec(Case{"call", {(uint64_t)fn, (uint64_t)rec, 0, 0, 1, l, o, (uint64_t)(int64_t)r}, {}, {}}); });
	ex.family("every sequence of chunks", [&](Explorer &e) {
		struct K { uint64_t l, o; int r; }; vector<K> S = {{8, 64, 0}, {(uint64_t)-1, 3, 0}, {0, 0, -ENOSPC}, {4096, 8192, -EINVAL}, {(uint64_t)-2, 1, -EIO}, {1, 1ull << 33, 0}};
		for (int fn = 2; fn < 4; fn++) for (int rec = 0; rec < 2; rec++) for (auto st : {std::pair<uint64_t, uint64_t>{0, 0}, {4096, 8192}, {65536, 1}, {1ull << 33, 1ull << 34}}) for (int n = 0; n <= (DEEP ? 6 : 5); n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= S.size(); for (size_t s = 0; s < tot; s++) { if (!e.mine()) continue; Case c{"call", {(uint64_t)fn, (uint64_t)rec, st.first, st.second, (uint64_t)n}, {}, {}}; size_t x = s; for (int i = 0; i < n; i++) { auto &k = S[x % S.size()]; x /= S.size(); c.p.insert(c.p.end(), {k.l, k.o, (uint64_t)(int64_t)k.r}); } e.exec(c); } }
	});
	ex.family("every chunk count, with one special chunk anywhere", [&](Explorer &e) { for (int fn = 2; fn < 4; fn++) for (int n = 1; n <= 64; n++) for (int k = 0; k < n; k++) for (int w = 0; w < 4; w++) if (e.mine()) { Case c{"call", {(uint64_t)fn, (uint64_t)(n & 1), 8, 16, (uint64_t)n}, {}, {}}; for (int i = 0; i < n; i++) c.p.insert(c.p.end(), {i == k && !w ? (uint64_t)-1 : (uint64_t)i, (uint64_t)i + 5, i == k ? (uint64_t)(int64_t)R[w] : 0}); e.exec(c); } });
}
int main(int argc, char **argv) {
	if (argc < 4) return 2;
	ex.property = argv[1]; ex.tier = argv[2]; ex.run = run_case; DEEP = ex.tier == "thorough";
	const char *od = getenv("MC_OUT"); ex.outdir = od ? od : "/tmp"; ex.set_bits = 22;
	if (ex.tier == "replay") { ex.workers = 1; return ex.replay(argv[3]); }
	ex.init(); if (ex.property == "A01") A01(); else return 2;
	ex.write_result(argv[3]); return ex.failed ? 1 : 0;
}

// Exploration of the tokenizer for synthesis (property L01).
#include "../codec/gen.hpp"
#include <ap_int.h>
#include <hls_stream.h>
std::string hls_misuse; bool hls_blocked;
#define main hls_example_main
#include HLS_SOURCE
#undef main
using namespace mc;
using std::string; using std::vector;
static Explorer ex; static bool DEEP;
#define FAIL(...) do { char _b[600]; snprintf(_b, sizeof(_b), __VA_ARGS__); why = _b; return false; } while (0)
static string num(long long v) { return std::to_string(v); }
struct T { unsigned op; uint64_t par; int bits; };
static int payload(unsigned op) { return op < 26 ? ref::tpl_bits(op) : op == ref::REPEAT ? 6 : 0; }
// kind "stream": a = bytes of well-formed streams, p = their lengths; kind "any": any data in whole transfers of 16 bytes
static bool one(const uint8_t *d, size_t n, bool well, string &why) {
	size_t total = (n + 15) / 16 * 128, pos = 0; bytes v(d, d + n); v.resize(total / 8);
	auto get = [&](int b) { uint64_t x = 0; while (b--) { x = x << 1 | (v[pos / 8] >> (7 - pos % 8) & 1); pos++; } return x; };
	vector<T> want;
	for (;;) { if (pos + 5 > total) { want.push_back({ref::END, 0, 0}); break; } size_t p0 = pos; unsigned op = get(5); int b = payload(op); if (pos + b > total) { want.push_back({ref::END, 0, 0}); break; } want.push_back({op, b ? get(b) : 0, b}); ex.state(mix(mix(op, p0 % 128), total - p0 > 400 ? 400 : total - p0)); if (op == ref::END) break; }
	ex.transitions(want.size()); ex.nontrivial(want.size() > 1);
	input_stream in; tokenized_stream out; hls_misuse.clear(); hls_blocked = false;
	for (size_t i = 0; i < total / 128; i++) { input_stream_element e; e.keep = e.strb = 0xFFFF; for (int k = 0; k < 16; k++) e.data(8 * k + 7, 8 * k) = v[16 * i + k]; e.last = i + 1 == total / 128; in.write(e); }
	try { opcode_tokenizer(in, out); } catch (hls_block) {}
	if (!hls_misuse.empty()) { why = hls_misuse; return false; }
	if (hls_blocked) FAIL("waits for data beyond the end of the stream, or never ends (%zu tokens)", out.q.size());
	if (out.q.size() != want.size()) FAIL("%zu tokens instead of %zu", out.q.size(), want.size());
	for (size_t i = 0; i < want.size(); i++) {
		auto &t = out.q[i]; auto &w = want[i];
		hls_wide e = hls_wide(w.op) << 64; if (w.bits) e |= hls_wide(w.par) << (64 - w.bits);
		if (t.data.b != e) FAIL("token %zu of %zu: operation %02x with operands %016llx instead of %02x with %016llx", i, want.size(), (unsigned)hls_low(t.data.b >> 64), hls_low(t.data.b), w.op, hls_low(e));
		if ((bool)t.last != (i + 1 == want.size())) FAIL("token %zu of %zu: wrong mark of the last token", i, want.size());
	}
	if (well && !in.empty()) FAIL("%zu transfers of the stream are left behind", in.q.size());
	return true;
}
static bool run_case(const Case &c, string &why) {
	if (c.kind == "params") { for (unsigned op = 0; op < 32; op++) { ex.state(op); if ((unsigned)get_parameter_length(op) != (unsigned)payload(op)) FAIL("operation %02x: %u bits of operands instead of %d", op, (unsigned)get_parameter_length(op), payload(op)); } return true; }
	size_t o = 0; for (auto n : c.p) { if (!one(c.a.data() + o, n, c.kind == "stream", why)) { why = "stream " + hex(bytes(c.a.begin() + o, c.a.begin() + o + n)) + ": " + why; return false; } o += n; }
	return true;
}
struct Batcher { Explorer &e; Case c; Batcher(Explorer &e, const char *k) : e(e) { c.kind = k; }
	void add(const bytes &s) { c.p.push_back(s.size()); c.a.insert(c.a.end(), s.begin(), s.end()); if (c.p.size() >= 50) flush(); }
	void flush() { if (c.p.empty()) return; e.exec(c); c.p.clear(); c.a.clear(); }
	~Batcher() { flush(); } };
static void L01() {
	ex.family("operand lengths", [&](Explorer &e) { if (e.mine()) e.exec(Case{"params", {}, {}, {}}); });
	for (int pre : {0, 1, 2, 3}) for (int n = 1; n <= (pre < 2 ? 3 : 2); n++) ex.family(num(n) + " tokens after " + num(pre) + " words", [&](Explorer &e) { Batcher B(e, "stream"); walk(e, prefix(pre), n, n == 1 ? vector<int>{3} : n == 2 ? vector<int>{2, 1} : DEEP ? vector<int>{1, 1, 1} : vector<int>{1, 0, 0}, false, false, [&](Explorer &, Builder &b) { Builder c = b; c.end(); B.add(c.w.v); }); });
	ex.family("every template at every bit offset of a transfer", [&](Explorer &e) { Batcher B(e, "stream"); for (int z = 0; z < 128; z++) for (auto &t : tokens(prefix(1), 1, false, false)) for (int after = 0; after < 3; after++) if (e.mine()) { Builder b = prefix(1); for (int i = 0; i < z; i++) b.zeros(); ::apply(b, t); for (int i = 0; i < after; i++) b.d8(~0ull - i); b.end(); B.add(b.w.v); } });
	ex.family("every pair of templates at every bit offset of a transfer", [&](Explorer &e) { Batcher B(e, "stream"); for (int z = 0; z < 128; z++) for (int t = 0; t < 26; t++) for (int u = 0; u < 26; u++) if (e.mine()) { Builder b = prefix(1); for (int i = 0; i < z; i++) b.zeros(); uint64_t f[4] = {0, 0, 0, 0}; b.tpl(t, f); b.tpl(u, f); b.end(); B.add(b.w.v); } });
	ex.family("every single operand bit of every template", [&](Explorer &e) { Batcher B(e, "stream"); for (int pre : {1, 2, 300}) for (int t = 0; t < 26; t++) for (int i = 0; i < 4 && ref::TPL[t][i]; i++) { int nb = ref::field_bits(ref::TPL[t][i]); for (int k = 0; k < nb; k++) if (e.mine()) { Builder b = prefix(pre); uint64_t f[4] = {0, 0, 0, 0}; f[i] = 1ull << k; b.tpl(t, f); b.end(); B.add(b.w.v); } } });
	ex.family("every truncation and every operation after the cut", [&](Explorer &e) { Batcher B(e, "any"); for (int t = 0; t < 32; t++) for (int z = 0; z < 60; z++) for (int fill = 0; fill < 3; fill++) if (e.mine()) { ref::BitWriter w; for (int i = 0; i < z; i++) w.put(i % 4 ? ref::ZEROS : 0x12, 5), (void)(i % 4 ? 0 : (w.put(0x01020304, 32), 0)); w.put(t, 5); for (int i = 0; i < 40; i++) w.put(fill == 0 ? 0 : fill == 1 ? ~0ull : 0xE739CE739CE739CEull >> (i % 5), fill == 2 ? 60 : 64); size_t full = w.v.size() / 16 * 16; for (size_t n = 16; n <= full && n <= 96; n += 16) B.add(bytes(w.v.begin(), w.v.begin() + n)); } });
	ex.family("every sequence of operations without regard to the format", [&](Explorer &e) { Batcher B(e, "any"); int L = DEEP ? 5 : 4; for (int n = 1; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= 32; for (size_t s = 0; s < tot; s++) if (e.mine()) { ref::BitWriter w; size_t x = s; for (int i = 0; i < n; i++) { unsigned op = x % 32; x /= 32; w.put(op, 5); int b = payload(op); if (b) w.put(0x0123456789ABCDEFull >> i, b); } while (w.v.size() % 16) w.v.push_back(0xF7); B.add(w.v); } } });
	ex.family("streams of every length", [&](Explorer &e) { Batcher B(e, "stream"); for (int n = 0; n <= (DEEP ? 1200 : 300); n++) for (int k = 0; k < 2; k++) if (e.mine()) { Builder b = k ? prefix_runs(n) : prefix(n); b.end(); B.add(b.w.v); } });
}
int main(int argc, char **argv) {
	if (argc < 4) return 2;
	ex.property = argv[1]; ex.tier = argv[2]; ex.run = run_case; DEEP = ex.tier == "thorough";
	const char *od = getenv("MC_OUT"); ex.outdir = od ? od : "/tmp"; ex.set_bits = 22; ex.hang_s = 60;
	if (ex.tier == "replay") { ex.workers = 1; return ex.replay(argv[3]); }
	ex.init(); if (ex.property == "L01") L01(); else return 2;
	ex.write_result(argv[3]); return ex.failed ? 1 : 0;
}

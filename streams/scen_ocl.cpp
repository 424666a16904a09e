// Scenarios: threads use the real OpenCL decompressor at the same time, on a simulated device (ocl/fakecl.cpp). The host
// code is monitored for races; every use of a queue, a kernel object, an event or a file is a scheduling point. OpenCL
// allows concurrent calls except that a kernel object's arguments must not be set while another call uses it.
#include "mcrt.h"
#include "../ocl/fakecl.h"
#include <lib842/cl.h>
#include <lib842/sw.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
using namespace lib842;
extern "C" char __data_start[], _end[];
#define QUIET __attribute__((no_sanitize("thread")))

static const size_t C = 64, N = 2;
static const size_t STRIDE[] = {112, 64}; // by format
struct In { uint8_t comp[N * 112]; size_t il[N]; uint8_t raw[N * C]; bool bad[N]; };
struct Bank { In in[2][4]; uint8_t one[4][256]; size_t onelen[4], oneraw[4]; };
static Bank *const B = (Bank *)0x310000000000ull; // built by another process
static CLDecompressorInputFormat FMT(int f) { return f ? CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS : CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS; }

static size_t comp(const uint8_t *in, size_t n, uint8_t *out, size_t cap) { alignas(16) static uint8_t a[512], b[1024]; memcpy(a, in, n); size_t l = sizeof b; if (sw842_compress(a, n, b, &l) || l > cap) _exit(1); memcpy(out, b, l); return l; }
static void build_bank() {
	for (int f = 0; f < 2; f++) for (int v = 0; v < 4; v++) {
		In &in = B->in[f][v]; memset(&in, 0, sizeof in);
		for (size_t i = 0; i < N; i++) {
			uint8_t *raw = in.raw + i * C, *c = in.comp + i * STRIDE[f];
			for (size_t k = 0; k < C; k++) raw[k] = k % 16 < 8 ? (uint8_t)(v * 50 + i * 20 + k % 8) : "zyxwvuts"[(k + v) % 8];
			uint8_t t[112]; size_t l = comp(raw, C, t, f ? C - 24 : 112);
			if (v == 3 && i == 1) { t[0] = 0xF8; in.bad[i] = true; } // an operation that does not exist
			if (!f) { memcpy(c, t, l); in.il[i] = l; }
			else if (v == 1 && i == 0) { memcpy(c, raw, C); in.il[i] = C; } // stored as it is
			else { uint64_t n = l; memcpy(c, LIB842_COMPRESSED_CHUNK_MARKER, 16); memcpy(c + 16, &n, 8); memset(c + 24, 0, C - 24); memcpy(c + C - l, t, l); in.il[i] = C; }
		}
	}
	for (int v = 0; v < 4; v++) { B->oneraw[v] = 8 + v * 24; B->onelen[v] = comp(B->in[0][v].raw, B->oneraw[v], B->one[v], 256); }
	B->one[3][0] = 0xF8;
}

// ---- what one thread does
enum { SHARED, OWN, CAPI, OTHER };
struct Res { int err; int rv[N]; size_t ol[N]; uint8_t out[N * C + 16]; };
struct Job { int what, fmt, ncalls, data[2], opt; const CLHostDecompressor *d; Res r[2]; };

static void call(const CLHostDecompressor &d, const Job &j, int k, Res &r) {
	const In &in = B->in[j.fmt][j.data[k]];
	size_t shuffle[N] = {1, 0}; long long t;
	try {
		d.decompress(in.comp, N * STRIDE[j.fmt], j.opt & 1 ? nullptr : in.il, r.out, N * C, j.opt & 1 ? nullptr : r.ol, j.opt & 2 ? shuffle : nullptr, j.opt & 4 ? nullptr : r.rv, &t);
	} catch (const cl::Error &e) { r.err = e.err(); } catch (...) { r.err = 1; }
}
static void *run(void *p) {
	Job &j = *(Job *)p;
	for (int k = 0; k < j.ncalls; k++) {
		Res &r = j.r[k];
		if (j.what == CAPI) { r.ol[0] = B->oneraw[j.data[k]]; r.rv[0] = cl842_decompress(B->one[j.data[k]], B->onelen[j.data[k]], r.out, &r.ol[0]); continue; }
		if (j.what == SHARED) { call(*j.d, j, k, r); continue; }
		try {
			CLHostDecompressor d(C, STRIDE[j.fmt], FMT(j.fmt), false, false);
			call(d, j, k, r);
		} catch (const cl::Error &e) { r.err = e.err(); } catch (...) { r.err = 1; }
	}
	return nullptr;
}
QUIET static void prepare(Job &j) {
	for (auto &r : j.r) { memset(&r, 0, sizeof r); memset(r.out, 0xA5, sizeof r.out); for (size_t i = 0; i < N; i++) { r.ol[i] = C; r.rv[i] = 77; } }
}
QUIET static void check(const Job &j, int t) {
	for (int k = 0; k < j.ncalls; k++) {
		const Res &r = j.r[k];
		if (r.err) mc_fail("thread %d call %d: exception (%d)", t, k, r.err);
		if (j.what == CAPI) {
			int v = j.data[k]; bool ok = v != 3;
			if ((r.rv[0] == 0) != ok) mc_fail("thread %d call %d: cl842_decompress returned %d for a %s stream", t, k, r.rv[0], ok ? "valid" : "malformed");
			if (ok && (r.ol[0] != B->oneraw[v] || memcmp(r.out, B->in[0][v].raw, r.ol[0]))) mc_fail("thread %d call %d: cl842_decompress delivered other data or another length (%zu)", t, k, r.ol[0]);
			continue;
		}
		const In &in = B->in[j.fmt][j.data[k]];
		for (size_t i = 0; i < N; i++) {
			if (!(j.opt & 4) && (r.rv[i] == 0) != !in.bad[i]) mc_fail("thread %d call %d: chunk %zu returned %d, it is %s", t, k, i, r.rv[i], in.bad[i] ? "malformed" : "valid");
			if (in.bad[i]) continue;
			// chunks stored uncompressed are not written by the decompressor
			bool stored = j.fmt && in.il[i] == C && memcmp(in.comp + i * C, LIB842_COMPRESSED_CHUNK_MARKER, 16);
			(void)stored;
			if (!(j.opt & 1) && r.ol[i] != C) mc_fail("thread %d call %d: chunk %zu has length %zu", t, k, i, r.ol[i]);
			if (memcmp(r.out + i * C, in.raw + i * C, C)) mc_fail("thread %d call %d: chunk %zu differs from the data that was compressed", t, k, i);
		}
		for (size_t i = N * C; i < sizeof r.out; i++) if (r.out[i] != 0xA5) mc_fail("memory behind the output was changed");
	}
}
static size_t dev_used;
QUIET static void on_step(const void *o) { mc_step(o); }
QUIET static uint8_t *on_devmem(size_t n) { uint8_t *r = mc_region(0) + 64 + dev_used; dev_used += (n + 127) / 64 * 64; return r; }
QUIET static int on_file(const iohook::Op &o, size_t *) {
	const char *f = strstr(o.path.c_str(), " -> "); f = f ? f + 4 : o.path.c_str();
	uint64_t h = 1469598103934665603ull; for (; *f; f++) h = (h ^ (uint8_t)*f) * 1099511628211ull;
	mc_step((void *)(h | 1)); return 0;
}
void wipe(const char *);
QUIET static void begin() {
	close_range(200, ~0u, 0); // files of abandoned executions
	wipe(iohook::dir().c_str()); // forget the program cache of the previous execution
	dev_used = 0;
	fakecl::step = on_step; fakecl::devmem = on_devmem; iohook::hook = on_file;
}
// args: what thread 1 does, what thread 2 does, format, threads, calls per thread, calls of the second thread
static void sc_ocl(const long *a) {
	begin();
	int nt = a[3] ? a[3] : 2, nc = a[4] ? a[4] : 1, fmt = (int)a[2];
	bool cached = mc_choose(a[7] ? a[7] : 2); // the program is in the cache already
	{
		std::unique_ptr<CLHostDecompressor> shared;
		Job J[3]; bool want = false;
		for (int t = 0; t < nt; t++) {
			Job &j = J[t]; j.what = (int)a[t % 2]; j.fmt = j.what == OTHER ? !fmt : fmt; j.ncalls = a[5] && t % 2 ? (int)a[5] : nc; want |= j.what == SHARED;
			static const int opts[] = {0, 7, 2};
			j.opt = opts[t == 0 ? mc_choose(a[6] ? 3 : a[7] ? 2 : 1) : a[6] ? mc_choose(3) : 0]; if (fmt == 0 && j.opt & 1) j.opt &= ~1;
			j.data[0] = t == 0 ? (int)mc_choose(2) * 3 : t == 1 && a[6] ? (int)mc_choose(4) : 1; j.data[1] = (j.data[0] + 1) % 4;
			prepare(j);
		}
		if (cached) { try { CLHostDecompressor d(C, STRIDE[fmt], FMT(fmt), false, false); } catch (...) { mc_fail("cannot construct a decompressor"); } }
		if (want) { try { shared.reset(new CLHostDecompressor(C, STRIDE[fmt], FMT(fmt), false, false)); } catch (...) { mc_fail("cannot construct a decompressor"); } }
		for (int t = 0; t < nt; t++) J[t].d = shared.get();
		pthread_t th[3];
		for (int t = 0; t < nt; t++) if (pthread_create(&th[t], nullptr, run, &J[t])) mc_fail("pthread_create");
		for (int t = 0; t < nt; t++) pthread_join(th[t], nullptr);
		for (int t = 0; t < nt; t++) check(J[t], t);
		shared.reset();
		char b[64]; snprintf(b, sizeof b, "%ld%ld%d%d/%d%d%d%d", a[0], a[1], fmt, cached, J[0].data[0], J[1].data[0], J[0].opt, J[1].opt); mc_nontrivial(b);
		// and once more: whatever they left behind works
		if (a[0] != CAPI && a[1] != CAPI) {
			Job z; z.what = OWN; z.fmt = fmt; z.ncalls = 1; z.data[0] = 2; z.opt = 0; z.d = nullptr; prepare(z); run(&z); check(z, 9);
			if (fakecl::live()) mc_fail("OpenCL objects are left: %s", fakecl::live_desc().c_str());
		}
	}
	if (!fakecl::st.misuse.empty()) mc_fail("misuse of OpenCL: %s", fakecl::st.misuse.c_str());
}
static const mc_scenario scenarios[] = {{"ocl", sc_ocl}, {nullptr, nullptr}};
// args: ..., [6] all data and options, [7] 1: no cached program
static const mc_plan plans[] = {
	{"O10", "ocl", {SHARED, SHARED, 0, 0, 0, 0, 0, 1}, 2, 0, 0}, {"O10", "ocl", {SHARED, SHARED, 1, 0, 0, 0, 0, 1}, 2, 0, 0}, {"O10", "ocl", {OWN, OWN, 0}, 2, 0, 0}, {"O10", "ocl", {OWN, OTHER, 0}, 2, 0, 0}, {"O10", "ocl", {OTHER, OWN, 0, 2, 1, 2, 0, 1}, 2, 0, 0}, {"O10", "ocl", {OWN, OTHER, 0, 2, 2, 0, 0, 1}, 2, 0, 1},
	{"O10", "ocl", {CAPI, CAPI, 0, 0, 0, 0, 0, 1}, 2, 0, 0}, {"O10", "ocl", {SHARED, OTHER, 0}, 2, 0, 0}, {"O10", "ocl", {SHARED, OWN, 1}, 2, 0, 0},
	{"O10", "ocl", {SHARED, SHARED, 0, 3, 0, 0, 0, 1}, 1, 0, 0}, {"O10", "ocl", {SHARED, SHARED, 1, 2, 2, 0, 0, 1}, 1, 0, 0}, {"O10", "ocl", {SHARED, CAPI, 0}, 1, 0, 0},
	{"O10", "ocl", {SHARED, SHARED, 0, 0, 0, 0, 1, 1}, 2, 0, 1}, {"O10", "ocl", {SHARED, SHARED, 1, 0, 0, 0, 1, 1}, 2, 0, 1}, {"O10", "ocl", {OWN, OWN, 1, 0, 0, 0, 1}, 2, 0, 1}, {"O10", "ocl", {OWN, OTHER, 0, 3}, 1, 0, 1},
	{"O10", "ocl", {CAPI, CAPI, 0, 3, 0, 0, 0, 1}, 2, 0, 1}, {"O10", "ocl", {SHARED, SHARED, 0, 3, 2, 0, 0, 1}, 1, 0, 1},
	{nullptr, nullptr, {}, 0, 0, 0}};

#include <dirent.h>
QUIET void wipe(const char *d) { DIR *D = opendir(d); if (!D) return; while (dirent *e = readdir(D)) if (e->d_name[0] != '.') { char b[512]; snprintf(b, sizeof b, "%s/%s", d, e->d_name); unlinkat(AT_FDCWD, b, 0); } closedir(D); }
int main(int argc, char **argv) {
	if (mmap(B, sizeof(Bank), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != B) { perror("mmap"); return 3; }
	static char mem[] = "/dev/shm/mc-oclc-XXXXXX", disk[] = "/tmp/mc-oclc-XXXXXX"; const char *tmpl = mkdtemp(mem); if (!tmpl) tmpl = mkdtemp(disk);
	if (!tmpl) { perror("mkdtemp"); return 3; }
	iohook::scratch = tmpl; fakecl::kerndir = tmpl;
	int st; pid_t p = fork();
	if (p == 0) { // test data and compiled kernels
		build_bank();
		for (int f = 0; f < 2; f++) CLHostDecompressor d(C, STRIDE[f], FMT(f), false, false);
		uint8_t o[256]; size_t ol = B->oneraw[0]; if (!freopen("/dev/null", "w", stderr)) _exit(1);
		_exit(cl842_decompress(B->one[0], B->onelen[0], o, &ol) ? 1 : 0);
	}
	waitpid(p, &st, 0);
	auto clean = [&] { char b[600]; snprintf(b, sizeof b, "exec rm -rf '%s'", tmpl); (void)!system(b); };
	if (st) { clean(); fprintf(stderr, "the library cannot prepare the test data\n"); return 3; }
	int r = mc_run(argc, argv, scenarios, plans, (uint8_t *)__data_start, (uint8_t *)_end, [] { mc_region(0); });
	clean(); return r;
}

// Exploration of the sample programs (property P01): the sample's main() runs in a child process on an environment
// (files, memory, an abstract 842 implementation or a stand-in OpenCL runtime) whose outcomes are enumerated.
#include "../common/mc.hpp"
#include <lib842/common.h>
#ifdef OCL
#include "../ocl/fakecl.h"
#include <lib842/sw.h>
#endif
#include <cstdarg>
#include <malloc.h>
#include <mutex>
#include <pthread.h>
#include <sys/stat.h>
using namespace mc;
using std::string; using std::vector;
static Explorer ex; static bool DEEP; static string SCR;
#define FAIL(...) do { char _b[900]; snprintf(_b, sizeof(_b), __VA_ARGS__); why = _b; return false; } while (0)
static const bool STREAMS = strstr(VARIANT, "streams"), HAVE_OCL = !strncmp(VARIANT, "ocl", 3), EMBEDDED = !strcmp(VARIANT, "oclinplace") || !strcmp(VARIANT, "oclmaybe");
static const size_t CH = 65536, UNIT = STREAMS ? 16 * CH : CH; // what the sample pads files to

// What can happen to a chunk
enum Kind { GOOD, EXPAND, NOSPC, CFAIL, DFAIL, DFAILOK, DNOSPC, WRONGFIRST, WRONGLAST, SHORT, NKINDS };
static const char *KINDS[] = {"good", "grows", "not compressible", "compression fails", "decompression fails", "decompression fails after writing the data", "decompression reports missing room", "first byte wrong", "last byte wrong", "length short"};
struct Rec { // what the sample did; shared with the child
	char bad[400]; int faults; // calls that failed although success requires them
	int env_calls, live, opens, returned; uint32_t comp[128], dec[128]; uint32_t zcomp, zdec; int transitions; long clcalls; int clfault;
};
static Rec *R;
static vector<uint8_t> E; static size_t flen; // contents of the file, padded
static uint8_t kind_of[128]; static int zero_kind; // per chunk; of the chunks that only consist of padding
static long env_fault = -1, env_fault2 = -1; static bool have_file;
static std::recursive_mutex mu;
typedef std::lock_guard<std::recursive_mutex> Lock;
static void bad(const char *fmt, ...) { va_list a; va_start(a, fmt); Lock l(mu); if (!R->bad[0]) vsnprintf(R->bad, sizeof R->bad, fmt, a); va_end(a); }

// ---- environment of the sample
static bool armed, eof;
static bool fault() { if (!armed) return false; Lock l(mu); int k = R->env_calls++; R->transitions++; if (k != env_fault && k != env_fault2) return false; R->faults++; return true; }
struct Block { uint8_t *p, *map; size_t n, len; bool live; };
static vector<Block> blocks;
static void *give(size_t n, size_t align) { // ends at an inaccessible page; kept (inaccessible) when freed
	size_t pg = std::max<size_t>(align, 4096), len = (n + pg - 1) / pg * pg + 2 * pg;
	uint8_t *m = (uint8_t *)mmap(nullptr, len + pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	uint8_t *b = (uint8_t *)(((uintptr_t)m + pg - 1) / pg * pg) + pg, *end = b + (n + pg - 1) / pg * pg, *p = (uint8_t *)((uintptr_t)(end - n) / align * align);
	mprotect(b, end - b, PROT_READ | PROT_WRITE); memset(b, 0xE5, end - b);
	Lock l(mu); blocks.push_back({p, b, n, (size_t)(end - b), true}); R->live++;
	return p;
}
extern "C" {
void *mc_malloc(size_t n) { if (!armed) return malloc(n); return fault() ? (errno = ENOMEM, nullptr) : give(n, 16); }
void *mc_calloc(size_t a, size_t b) { if (!armed) return calloc(a, b); if (fault()) return errno = ENOMEM, nullptr; void *p = give(a * b, 16); memset(p, 0, a * b); return p; }
void *mc_aligned_alloc(size_t al, size_t n) { if (!armed) return aligned_alloc(al, n); if (!al || al & (al - 1)) bad("aligned_alloc with alignment %zu", al); return fault() ? (errno = ENOMEM, nullptr) : give(n, std::max<size_t>(al, 1)); }
void *mc_memalign(size_t al, size_t n) { return mc_aligned_alloc(al, n); }
int mc_posix_memalign(void **o, size_t al, size_t n) { if (!armed) return posix_memalign(o, al, n); if (fault()) return ENOMEM; *o = give(n, al); return 0; }
void mc_free(void *p) {
	if (!p) return;
	Lock l(mu);
	for (auto &b : blocks) if (b.p == p && b.n + 1) { if (!b.live) { bad("memory freed twice"); return; } b.live = false; R->live--; for (uint8_t *q = b.map; q < b.p; q++) if (*q != 0xE5) { bad("memory in front of an allocation was written"); break; } for (uint8_t *q = b.p + b.n; q < b.map + b.len; q++) if (*q != 0xE5) { bad("memory behind an allocation was written"); break; } mprotect(b.map, b.len, PROT_NONE); return; }
	free(p);
}
void *mc_realloc(void *p, size_t n) {
	if (!armed) return realloc(p, n);
	if (fault()) return errno = ENOMEM, nullptr;
	void *q = give(n, 16); if (p) { Lock l(mu); for (auto &b : blocks) if (b.p == p && b.live) memcpy(q, p, std::min(n, b.n)); } mc_free(p); return q;
}
FILE *mc_fopen(const char *f, const char *m) { if (fault()) return errno = EACCES, nullptr; FILE *r = fopen(f, m); if (r && armed) R->opens++; return r; }
int mc_fclose(FILE *f) { if (armed) R->opens--; return fclose(f); }
int mc_fseek(FILE *f, long o, int w) { if (fault()) return errno = EIO, -1; return fseek(f, o, w); }
long mc_ftell(FILE *f) { if (fault()) return errno = EIO, -1; return ftell(f); }
size_t mc_fread(void *p, size_t s, size_t n, FILE *f) { if (eof) return 0; if (!n || !s) return fread(p, s, n, f); if (fault()) { eof = true; return s == 1 ? fread(p, 1, n / 2, f) : 0; } return fread(p, s, n, f); }
}

// ---- which chunk of the file is this? -1: padding, -2: none
static long identify(const uint8_t *in, size_t n) {
	if (!have_file) return 0;
	uint64_t w = 0; memcpy(&w, in, std::min<size_t>(8, n));
	if (!w) { for (size_t i = 0; i < n; i++) if (in[i]) return -2; return -1; }
	size_t k = w - 1;
	if (k >= 128 || k * CH + n > E.size() || memcmp(in, &E[k * CH], n)) return -2;
	return k;
}
static int kind_at(long k) { return k < 0 ? zero_kind : kind_of[k]; }
static void count(uint32_t *c, uint32_t &z, long k, size_t n) { Lock l(mu); R->transitions++; for (size_t i = 0; i < std::max<size_t>(1, n / CH); i++) if (k < 0) z++; else if ((k + i) * CH < flen || !have_file) c[k + i]++; else z++; }
static void failed_call() { Lock l(mu); R->faults++; }
static vector<bytes> stored; // originals of what was compressed
static vector<long> stored_id;
#ifdef FAKE
static const size_t ALIGN = 64;
static bool simple() { return !have_file || E.size() <= UNIT; }
static int compress_one(const uint8_t *in, size_t n, uint8_t *out, size_t *olen) {
	if ((uintptr_t)in % ALIGN || (uintptr_t)out % ALIGN) bad("the implementation is given unaligned buffers");
	if (have_file && n != (simple() ? E.size() : CH)) bad("a chunk of %zu bytes is compressed", n);
	long k = identify(in, n);
	if (k == -2) { bad("data that is not part of the file is compressed"); return -EINVAL; }
	count(R->comp, R->zcomp, k, n);
	int kd = kind_at(k); size_t need = kd == EXPAND ? n + n / 16 + 64 : 64;
	if (kd == CFAIL) { failed_call(); *olen = 0; return -EIO; }
	if (kd == NOSPC || need > *olen) { if (simple() || kd != NOSPC && kd != EXPAND) failed_call(); *olen = 0; return -ENOSPC; }
	Lock l(mu);
	uint64_t h[4] = {0x842842842ull, stored.size(), n, need}; memset(out, 0x77, need); memcpy(out, h, sizeof h); *olen = need;
	stored.push_back(bytes(in, in + n)); stored_id.push_back(k);
	return 0;
}
static int decompress_one(const uint8_t *in, size_t n, uint8_t *out, size_t *olen) {
	if ((uintptr_t)in % ALIGN || (uintptr_t)out % ALIGN) bad("the implementation is given unaligned buffers");
	uint64_t h[4]; if (n < sizeof h) { bad("%zu bytes are decompressed", n); return -EINVAL; }
	memcpy(h, in, sizeof h);
	if (h[0] != 0x842842842ull || h[3] != n) { bad("something that was not compressed is decompressed"); return -EINVAL; }
	bytes d; long k; { Lock l(mu); d = stored[h[1]]; k = stored_id[h[1]]; }
	if (*olen < d.size()) { bad("only %zu bytes of room for %zu decompressed bytes", *olen, d.size()); return -ENOSPC; }
	count(R->dec, R->zdec, k, d.size());
	int kd = kind_at(k);
	if (kd == DFAIL) { failed_call(); *olen = 0; return -EINVAL; }
	if (kd == DNOSPC) { failed_call(); *olen = 0; return -ENOSPC; }
	memcpy(out, d.data(), d.size()); *olen = d.size();
	if (kd == WRONGFIRST) { failed_call(); out[0] ^= 1; }
	if (kd == WRONGLAST) { failed_call(); out[d.size() - 1] ^= 0x80; }
	if (kd == SHORT) { failed_call(); *olen -= 8; }
	if (kd == DFAILOK) { failed_call(); return -EIO; }
	return 0;
}
template <int (*F)(const uint8_t *, size_t, uint8_t *, size_t *)>
static int chunked(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) {
	int ret = 0;
	for (size_t i = 0; i < n; i++) { if (il[i] == SIZE_MAX) continue; rets[i] = F(in + i * is, il[i], out + i * os, &ol[i]); if (!ret && rets[i] && rets[i] != -ENOSPC) ret = rets[i]; }
	return ret;
}
static const lib842_implementation impl = {compress_one, decompress_one, chunked<compress_one>, chunked<decompress_one>, ALIGN, 4096};
static const lib842_implementation *getter(const char *n) { const char *want = !strcmp(VARIANT, "serial") ? "sw" : !strncmp(VARIANT, "cryptodev", 9) ? "hw" : "optsw"; if (strcmp(n, want)) bad("the sample uses the wrong implementation (%s)", n); return &impl; }
extern "C" {
const lib842_implementation *get_sw842_implementation() { return getter("sw"); }
const lib842_implementation *get_optsw842_implementation() { return getter("optsw"); }
const lib842_implementation *get_hw842_implementation() { return getter("hw"); }
}
#else
extern "C" int mc_optsw842_compress(const uint8_t *in, size_t n, uint8_t *out, size_t *olen) {
	long k = identify(in, n);
	if (k == -2) { bad("data that is not part of the file is compressed"); return -EINVAL; }
	count(R->comp, R->zcomp, k, n);
	int kd = kind_at(k);
	if (kd == CFAIL) { failed_call(); *olen = 0; return -EIO; }
	if (kd == WRONGFIRST || kd == WRONGLAST) { // what the device gets is something else
		bytes d(in, in + n); d[kd == WRONGFIRST ? 0 : n - 1] ^= 1; bytes t(2 * n + 64); size_t tn = t.size();
		if (optsw842_compress(d.data(), n, t.data(), &tn) || tn > n - 64) { bad("harness: chunk not compressible"); return -EIO; }
		failed_call(); memcpy(out, t.data(), std::min(tn, *olen)); *olen = tn; return 0;
	}
	int r = optsw842_compress(in, n, out, olen);
	if (kd == DFAIL && !r) { failed_call(); out[*olen - 6] ^= 0x10; } // the checksum or the end is damaged
	if (kd == SHORT && !r) { failed_call(); *olen -= 16; }
	return r;
}
#endif
extern "C" int sample_main(int, const char *[]);

#ifdef OCL
// chunks that compress to the largest size that is stored compressed (0), the next one (1), and exactly the chunk size (2)
static vector<uint8_t> special[3];
static void make_special() {
	static uint64_t rnd[CH / 8]; uint64_t z = 88172645463325252ull; for (auto &r : rnd) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; r = z; } rnd[0] = 2;
	const size_t want[3] = {CH - sizeof(LIB842_COMPRESSED_CHUNK_MARKER) - 8, CH - sizeof(LIB842_COMPRESSED_CHUNK_MARKER), CH};
	auto size = [](const uint8_t *p) { static uint8_t out[2 * CH]; size_t n = sizeof out; return optsw842_compress(p, CH, out, &n) ? (size_t)0 : n; };
	for (int t = 0; t < 3; t++) {
		vector<uint8_t> b(CH); bool found = false;
		for (int n = 7600; n > 7300 && !found; n--) {
			std::fill(b.begin(), b.end(), 0); memcpy(&b[0], rnd, n * 8);
			if (n % 50 && size(&b[0]) + 64 < want[t]) continue;
			for (int x = 0; x < 40 && !found; x++) { for (int y = 0; y < x; y++) memcpy(&b[(n + 1 + 2 * y) * 8], (uint8_t *)rnd + 11 + y * 2, 4); size_t s = size(&b[0]); if (s == want[t]) found = true; else if (s > want[t]) break; }
		}
		if (!found) { printf("no chunk of %zu bytes\n", want[t]); fflush(stdout); _exit(90); }
		special[t] = b;
	}
}
#endif

// ---- one execution. p = {file length + 1 (0: no argument), fault, second fault, kind of padding chunks, threads, OpenCL fault + 1, fill, chunk, kind, chunk, kind...}
static string path;
static int sample(int argc, const char **argv);
static bool run_case(const Case &c, string &why) {
	have_file = c.p[0] > 0; flen = have_file ? c.p[0] - 1 : 32; env_fault = (long)c.p[1] - 1; env_fault2 = (long)c.p[2] - 1; zero_kind = c.p[3];
	memset(kind_of, 0, sizeof kind_of); for (size_t i = 7; i + 1 < c.p.size(); i += 2) kind_of[c.p[i]] = c.p[i + 1];
	E.assign((flen + UNIT - 1) / UNIT * UNIT, 0);
	uint64_t z = 99; for (size_t i = 0; i < flen; i++) { bool rnd = c.p[6] == 1 && i / CH % 3 == 1; z = z * 6364136223846793005ull + 1442695040888963407ull; E[i] = rnd ? z >> 56 : (i / 8) % 251; }
	for (size_t k = 0; k * CH < flen; k++) for (size_t i = 0; i < 8 && k * CH + i < flen; i++) E[k * CH + i] = i ? 0 : k + 1;
#ifdef OCL
	if (c.p[6] >= 2) { if (special[0].empty()) make_special(); memcpy(&E[CH], &special[c.p[6] - 2][0], CH); }
#endif
	if (!R) R = (Rec *)mmap(nullptr, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(R, 0, sizeof *R);
	path = SCR + "/" + std::to_string(getpid());
	if (have_file) { FILE *f = fopen(path.c_str(), "wb"); if (!f || fwrite(E.data(), 1, flen, f) != flen || fclose(f)) { printf("scratch file\n"); fflush(stdout); _exit(90); } }
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (!pid) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(20);
		int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 2);
		setenv("COMPDECOMP_NUM_THREADS", std::to_string(c.p[4]).c_str(), 1); if (c.p[4] == 2) setenv("COMPDECOMP_NUMA_SPREAD", "1", 1);
#ifdef OCL
		fakecl::reset(); fakecl::cfg.fail_at = (long)c.p[5] - 1;
#endif
		const char *av[] = {"sample", path.c_str(), nullptr};
		armed = true;
		int r = sample(have_file ? 2 : 1, av);
		armed = false;
		for (auto &b : blocks) if (b.live) { for (uint8_t *q = b.map; q < b.p; q++) if (*q != 0xE5) bad("memory in front of an allocation was written"); }
		R->returned = 1;
#ifdef OCL
		R->clcalls = fakecl::st.calls; R->clfault = !fakecl::st.last_failed.empty(); if (!fakecl::st.misuse.empty()) bad("OpenCL: %s", fakecl::st.misuse.c_str());
#endif
		_exit(r & 0xff);
	}
	int st; waitpid(pid, &st, 0); unlink(path.c_str());
	ex.transitions(R->transitions + 1); ex.nontrivial(R->faults || R->clfault || E.size() > UNIT);
	uint64_t h = hash64(c.p.data(), 8 * c.p.size()); ex.state(h);
	if (R->bad[0]) FAIL("%s", R->bad);
	if (WIFSIGNALED(st)) FAIL("the sample died: %s", strsignal(WTERMSIG(st)));
	if (R->returned && R->live) FAIL("%d allocations are never freed", R->live);
	if (R->returned && R->opens) FAIL("the file is not closed");
	if (getenv("MC_SHOW")) printf("exit %d faults %d env calls %d OpenCL calls %ld live %d\n", WEXITSTATUS(st), R->faults, R->env_calls, R->clcalls, R->live);
	int code = WEXITSTATUS(st); bool fault = R->faults || R->clfault;
	if (fault && !code) FAIL("the sample reports success although %s failed", R->clfault ? "an OpenCL call" : "something it depends on");
	if (!fault && code) FAIL("the sample ends with %d although nothing failed", code);
	if (!code) {
		uint32_t pad = 0; bool smp = !have_file || E.size() <= UNIT;
		for (size_t k = 0; k < (have_file ? E.size() / CH : 1); k++) {
			bool isz = have_file && k * CH >= flen; if (isz) { pad++; continue; }
			if (R->comp[k] != 1) FAIL("success although chunk %zu was compressed %u times", k, R->comp[k]);
			if (!HAVE_OCL && R->dec[k] != 1 && (smp || kind_of[k] != NOSPC && kind_of[k] != EXPAND)) FAIL("success although chunk %zu was decompressed %u times", k, R->dec[k]);
		}
		if (!HAVE_OCL && R->zcomp != pad) FAIL("success although %u of %u padding chunks were compressed", R->zcomp, pad);
	}
	return true;
}
static int sample(int argc, const char **argv) { return sample_main(argc, argv); }

static void P01() {
	vector<size_t> sizes = {1, 5, 9, CH - 1, CH, CH + 1, 2 * CH, 3 * CH + 17, 16 * CH - 1, 16 * CH, 16 * CH + 1, 17 * CH + 3, 32 * CH, 33 * CH - 5};
	if (DEEP) for (size_t s : {2 * CH - 1, 2 * CH + 1, 15 * CH, 31 * CH + 9, 32 * CH + 1, 48 * CH, 49 * CH + 2, 64 * CH + 1}) sizes.push_back(s);
	vector<uint64_t> threads = STREAMS ? vector<uint64_t>{1, 3} : vector<uint64_t>{1}; if (STREAMS && DEEP) threads.push_back(2);
	vector<int> kinds; for (int k = 1; k < NKINDS; k++) if (!HAVE_OCL || k == CFAIL || k == DFAIL && 0 || k == WRONGFIRST || k == WRONGLAST) kinds.push_back(k);
	auto nch = [](size_t s) { return (s + CH - 1) / CH; };
	ex.family("lengths of the file", [&](Explorer &e) {
		for (auto t : threads) { e.one([&] { return Case{"run", {0, 0, 0, 0, t, 0, 0}, {}, {}}; }); for (size_t s : sizes) for (uint64_t f : {0, 1}) e.one([&] { return Case{"run", {s + 1, 0, 0, 0, t, 0, f}, {}, {}}; });
		for (size_t d = 2; d < (DEEP ? 300 : 40); d++) for (size_t m : {(size_t)0, UNIT}) e.one([&] { return Case{"run", {m + d + 1, 0, 0, 0, t, 0, 0}, {}, {}}; }); }
	});
	ex.family("one chunk behaves differently", [&](Explorer &e) {
		for (auto t : threads) { for (int k : kinds) e.one([&] { return Case{"run", {0, 0, 0, 0, t, 0, 0, 0, (uint64_t)k}, {}, {}}; });
		for (size_t s : sizes) for (size_t i = 0; i < nch(s); i++) { if (!DEEP && (nch(s) > 17 || STREAMS) && i % 5 && i + 2 < nch(s)) continue; for (int k : kinds) e.one([&] { return Case{"run", {s + 1, 0, 0, 0, t, 0, 0, i, (uint64_t)k}, {}, {}}; }); } }
	});
	if (!HAVE_OCL) ex.family("two chunks behave differently", [&](Explorer &e) {
		for (auto t : threads) for (size_t s : {3 * CH + 17, 17 * CH + 3}) for (size_t i : STREAMS && !DEEP ? vector<size_t>{0} : vector<size_t>{0, 1, nch(s) - 2}) for (int k : kinds) for (int l : kinds) for (size_t j : {nch(s) - 1, (size_t)2}) if (i != j) e.one([&] { return Case{"run", {s + 1, 0, 0, 0, t, 0, 0, i, (uint64_t)k, j, (uint64_t)l}, {}, {}}; });
	});
	if (STREAMS) ex.family("the padding behaves differently", [&](Explorer &e) { for (auto t : threads) for (size_t s : {CH + 1, 16 * CH + 1, 31 * CH}) for (int k : kinds) e.one([&] { return Case{"run", {s + 1, 0, 0, (uint64_t)k, t, 0, 0}, {}, {}}; }); });
	ex.family("every call into the environment fails in turn", [&](Explorer &e) {
		for (auto t : threads) for (size_t s : sizes) for (uint64_t f = 1; f <= 16; f++) for (uint64_t k : {(uint64_t)GOOD, HAVE_OCL ? (uint64_t)WRONGLAST : (uint64_t)EXPAND}) e.one([&] { return Case{"run", {s + 1, f, DEEP ? f + 1 : 0, 0, t, 0, 0, 0, k}, {}, {}}; });
		for (uint64_t f = 1; f <= 6; f++) e.one([&] { return Case{"run", {0, f, 0, 0, 1, 0, 0}, {}, {}}; });
	});
	if (HAVE_OCL) ex.family("compressed sizes around the limit for storing a chunk compressed", [&](Explorer &e) { for (uint64_t f : {2, 3, 4}) for (size_t s : {2 * CH, 2 * CH + 1, 3 * CH + 17}) e.one([&] { return Case{"run", {s + 1, 0, 0, 0, 1, 0, f}, {}, {}}; }); });
	if (HAVE_OCL) ex.family("every OpenCL call fails in turn", [&](Explorer &e) { for (size_t s : {(size_t)5, CH + 1, 3 * CH + 17}) for (uint64_t f = 1; f <= 60; f++) e.one([&] { return Case{"run", {s + 1, 0, 0, 0, 1, f, 0}, {}, {}}; }); });
}
int main(int argc, char **argv) {
	if (argc < 4) return 2;
	ex.property = argv[1]; ex.tier = argv[2]; ex.run = run_case; DEEP = ex.tier == "thorough";
	const char *od = getenv("MC_OUT"), *bd = getenv("MC_BUILD"); ex.outdir = od ? od : "/tmp";
	SCR = "/tmp/mc-samples-" + std::to_string(getpid()); mkdir(SCR.c_str(), 0700); ex.set_bits = 22; ex.hang_s = 60;
#ifdef OCL
	iohook::scratch = SCR; fakecl::kerndir = string(bd ? bd : "/tmp") + "/kern"; mkdir(fakecl::kerndir.c_str(), 0700);
#endif
	static pid_t owner = getpid(); atexit([] { if (getpid() == owner) (void)!system(("rm -rf '" + SCR + "'").c_str()); });
	if (ex.tier == "replay") { ex.workers = 1; return ex.replay(argv[3]); }
	ex.init();
	if (ex.property == "P01") P01(); else return 2;
	ex.write_result(argv[3]); return ex.failed ? 1 : 0;
}

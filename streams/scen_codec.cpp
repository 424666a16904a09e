// Scenarios: threads call the real (de)compressors at the same time, on buffers that touch each other or are shared
// for reading. The library promises nothing but separate calls, so any unordered access to common memory is a race.
#include "mcrt.h"
#include <lib842/sw.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" char __data_start[], _end[];
struct Item { size_t rawlen, complen[2]; uint8_t raw[4608], comp[2][6144]; };
struct Bank { int n, nbad; Item it[12]; size_t badlen[8]; uint8_t bad[8][256]; };
static Bank *const B = (Bank *)0x310000000000ull; // built by another process: the library's static data stay as loaded

static uint64_t rnd; static uint32_t next() { rnd = rnd * 6364136223846793005ull + 1442695040888963407ull; return rnd >> 33; }
static void fill(int i, Item &t) {
	static const size_t len[] = {8, 24, 64, 20, 0, 512, 4096, 4603, 1032, 13};
	t.rawlen = len[i]; rnd = i * 77 + 5;
	for (size_t k = 0; k < t.rawlen; k++) switch (i) {
	case 0: t.raw[k] = next(); break;
	case 1: t.raw[k] = k < 8 ? 0 : "abcdefgh"[k % 8]; break;
	case 2: t.raw[k] = "abcdefgh"[(k % 8) ^ (k / 8 % 4 * 2)]; break;
	case 3: case 9: t.raw[k] = k * 31; break;
	case 5: t.raw[k] = (k / 8) % 3 ? next() % 3 : 7; break;
	default: t.raw[k] = k % 16 < 8 ? next() % 5 : t.raw[k - 8 - 8 * (next() % 4 % (k / 8))]; break;
	}
}
static void build_bank() {
	B->n = 10;
	for (int i = 0; i < B->n; i++) {
		Item &t = B->it[i]; fill(i, t);
		for (int o = 0; o < 2; o++) {
			if (o && t.rawlen % 8) continue;
			alignas(16) static uint8_t in[4608], out[6144]; memcpy(in, t.raw, t.rawlen);
			size_t n = sizeof out; if ((o ? optsw842_compress : sw842_compress)(in, t.rawlen, out, &n)) _exit(1);
			t.complen[o] = n; memcpy(t.comp[o], out, n);
		}
	}
	Item &t = B->it[2];
	for (int k = 0; k < 4; k++) { B->badlen[k] = t.complen[0]; memcpy(B->bad[k], t.comp[0], t.complen[0]); }
	B->badlen[0] -= 8; B->bad[1][1] ^= 0x55; B->bad[2][0] = 0xF8; B->bad[3][t.complen[0] - 4] ^= 1; B->nbad = 4;
}

enum { SWC, SWD, OPTC, OPTD };
typedef int (*Fn)(const uint8_t *, size_t, uint8_t *, size_t *);
static const Fn FN[] = {sw842_compress, sw842_decompress, optsw842_compress, optsw842_decompress};
typedef int (*ChFn)(size_t, int *, const uint8_t *, size_t, const size_t *, uint8_t *, size_t, size_t *);
static const ChFn CFN[] = {sw842_compress_chunked, sw842_decompress_chunked, optsw842_compress_chunked, optsw842_decompress_chunked};

struct Call { int fn; const uint8_t *src; size_t ilen, cap; size_t in, out; int ret; size_t olen; uint8_t *base; };
struct Job { int n; Call c[2]; };
static void perform(Call &c) { c.olen = c.cap; c.ret = FN[c.fn](c.base + c.in, c.ilen, c.base + c.out, &c.olen); }
static void *run_job(void *p) { Job *j = (Job *)p; for (int i = 0; i < j->n; i++) perform(j->c[i]); return nullptr; }

// data: 0..9 items, 10.. malformed streams; var: capacity variant
static bool setup(Call &c, int fn, int data, int var) {
	c.fn = fn;
	int o = fn == OPTC || fn == OPTD;
	if (data >= B->n) {
		if (fn != SWD && fn != OPTD) return false;
		c.src = B->bad[data - B->n]; c.ilen = B->badlen[data - B->n]; c.cap = B->it[2].rawlen + (var == 1 ? 8 : 0);
		return true;
	}
	Item &t = B->it[data];
	if (o && t.rawlen % 8) return false;
	static const int delta[] = {0, 8, -8, 5, -1};
	if (fn == SWC || fn == OPTC) { c.src = t.raw; c.ilen = t.rawlen; c.cap = t.complen[o] + delta[var]; }
	else { c.src = t.comp[o]; c.ilen = t.complen[o]; c.cap = t.rawlen; if (delta[var] < 0 && t.rawlen < (size_t)-delta[var]) return false; c.cap += delta[var]; }
	return !(o && c.cap % 8);
}
static uint8_t *M[2];
static const size_t LO = 4096, HI = LO + 65536;
static void paint(uint8_t *m) { memset(m, 0xC5, HI + 4096); }

// args: function of thread 1, function of thread 2, layout, threads, calls per thread
static void sc_conc(const long *a) {
	int nt = a[3] ? a[3] : 2, ncalls = a[4] ? a[4] : 1;
	Job J[3] = {}, R[3]; 
	int d0 = mc_choose(B->n + B->nbad);
	for (int t = 0; t < nt; t++) {
		J[t].n = ncalls;
		int d = t == 0 || a[2] == 3 ? d0 : mc_choose(B->n + B->nbad), v = t > 1 ? 0 : a[5] ? (int)mc_choose(5) : t ? (int)mc_choose(2) * 2 : (int)mc_choose(3) * 2;
		for (int k = 0; k < ncalls; k++) if (!setup(J[t].c[k], (int)a[k == 0 ? t % 2 : (t + 1) % 2], k == 0 ? d : (d + k) % B->n, k == 0 ? v : 0)) return;
	}
	static const int offs[] = {0, 1, 4, 7}; size_t p = LO + (a[2] == 0 ? 0 : a[5] ? mc_choose(8) : offs[mc_choose(4)]);
	for (int t = 0; t < nt; t++) for (int k = 0; k < ncalls; k++) if (J[t].c[k].fn >= OPTC && p % 8) return;
	auto place = [&](const Call &c, size_t n) { size_t al = c.fn >= OPTC || a[2] == 0 ? 8 : 1; p = (p + al - 1) / al * al; size_t r = p; p += n; if (a[2] == 0) p += 256; return r; };
	switch (a[2]) {
	case 0: case 1: // inputs together, outputs together
		for (int t = 0; t < nt; t++) for (int k = 0; k < ncalls; k++) J[t].c[k].in = place(J[t].c[k], J[t].c[k].ilen);
		for (int k = 0; k < ncalls; k++) for (int t = 0; t < nt; t++) J[t].c[k].out = place(J[t].c[k], J[t].c[k].cap);
		break;
	case 2: // a thread's input between the outputs of the other
		for (int k = 0; k < ncalls; k++) for (int t = 0; t < nt; t++) { Call &c = J[t].c[k], &e = J[(t + 1) % nt].c[k]; c.out = place(c, c.cap); e.in = place(e, e.ilen); }
		break;
	case 3: // one input for all threads
		J[0].c[0].in = place(J[0].c[0], J[0].c[0].ilen);
		for (int t = 0; t < nt; t++) for (int k = 0; k < ncalls; k++) {
			if (k == 0 && (J[t].c[k].src == J[0].c[0].src || (J[t].c[k].ilen == J[0].c[0].ilen && !memcmp(J[t].c[k].src, J[0].c[0].src, J[0].c[0].ilen)))) { J[t].c[k].in = J[0].c[0].in; if (J[t].c[k].fn >= OPTC && J[t].c[k].in % 8) return; }
			else J[t].c[k].in = place(J[t].c[k], J[t].c[k].ilen);
			J[t].c[k].out = place(J[t].c[k], J[t].c[k].cap);
		}
		break;
	}
	for (int m = 0; m < 2; m++) { paint(M[m]); for (int t = 0; t < nt; t++) for (int k = 0; k < ncalls; k++) memcpy(M[m] + J[t].c[k].in, J[t].c[k].src, J[t].c[k].ilen); }
	memcpy(R, J, sizeof R);
	pthread_t th[3];
	for (int t = 0; t < nt; t++) { for (int k = 0; k < ncalls; k++) J[t].c[k].base = M[0], R[t].c[k].base = M[1]; }
	for (int t = 0; t < nt; t++) if (pthread_create(&th[t], nullptr, run_job, &J[t])) mc_fail("pthread_create");
	for (int t = 0; t < nt; t++) pthread_join(th[t], nullptr);
	for (int t = 0; t < nt; t++) run_job(&R[t]); // the same calls one after the other
	size_t w = LO - 64;
	for (int t = 0; t < nt; t++) for (int k = 0; k < ncalls; k++) {
		Call &c = J[t].c[k], &r = R[t].c[k];
		if (c.ret != r.ret) mc_fail("thread %d call %d (function %d): returned %d next to the other thread, %d alone", t, k, c.fn, c.ret, r.ret);
		if (c.ret == 0 && c.olen != r.olen) mc_fail("thread %d call %d (function %d): length %zu next to the other thread, %zu alone", t, k, c.fn, c.olen, r.olen);
		if (c.ret == 0 && memcmp(M[0] + c.out, M[1] + r.out, c.olen)) mc_fail("thread %d call %d (function %d): other bytes than when called alone", t, k, c.fn);
		memset(M[0] + c.out, 0, c.cap); memset(M[1] + c.out, 0, c.cap);
	}
	if (memcmp(M[0] + w, M[1] + w, p + 64 - w)) mc_fail("memory outside the output buffers was changed");
	char b[64]; snprintf(b, sizeof b, "c%ld%ld%ld/%d%d/%zu", a[0], a[1], a[2], J[0].c[0].ret, J[1].c[0].ret, J[0].c[0].olen + 10000 * J[1].c[0].olen); mc_nontrivial(b);
}

// Both threads work on one array of chunks: thread t takes the chunks t, t + 2, ... ; args: functions, first chunk's data
struct ChJob { int fn; size_t n, istride, ostride; uint8_t *in, *out; int rets[3]; size_t ilens[3], olens[3]; int ret; };
struct ChState { ChJob j[2]; };
static void *run_chunks(void *p) { ChJob *j = (ChJob *)p; j->ret = CFN[j->fn](j->n, j->rets, j->in, j->istride, j->ilens, j->out, j->ostride, j->olens); return nullptr; }
static void sc_chunks(const long *a) {
	static const int set[] = {0, 1, 2, 5};
	ChState S[2]; size_t SL = 640; 
	int d[6], v = mc_choose(3);
	for (int i = 0; i < 6; i++) d[i] = i < 4 ? set[mc_choose(4)] : set[(d[i - 4] + i) % 4];
	for (int m = 0; m < 2; m++) {
		paint(M[m]);
		for (int t = 0; t < 2; t++) {
			ChJob &j = S[m].j[t]; memset(&j, 0, sizeof j); j.fn = (int)a[t]; j.n = 3; j.istride = j.ostride = 2 * SL;
			j.in = M[m] + LO + t * SL; j.out = M[m] + LO + 6 * SL + t * SL;
			for (int i = 0; i < 3; i++) {
				Item &it = B->it[d[2 * i + t]]; int o = j.fn >= OPTC; bool dec = j.fn & 1;
				j.ilens[i] = dec ? it.complen[o] : it.rawlen; memcpy(j.in + i * 2 * SL, dec ? it.comp[o] : it.raw, j.ilens[i]);
				j.olens[i] = v == 2 && i == 1 ? (dec ? it.rawlen : it.complen[o]) - 8 : v == 1 ? (dec ? it.rawlen : it.complen[o]) : SL;
				if (v == 0 && dec && i == 1) j.in[i * 2 * SL] = 0xF8; // unknown operation
			}
		}
	}
	pthread_t th[2];
	for (int t = 0; t < 2; t++) if (pthread_create(&th[t], nullptr, run_chunks, &S[0].j[t])) mc_fail("pthread_create");
	for (int t = 0; t < 2; t++) pthread_join(th[t], nullptr);
	for (int t = 0; t < 2; t++) {
		run_chunks(&S[1].j[t]);
		ChJob &j = S[0].j[t], &r = S[1].j[t];
		if (j.ret != r.ret) mc_fail("thread %d: chunked call returned %d next to the other thread, %d alone", t, j.ret, r.ret);
		for (int i = 0; i < 3; i++) {
			if (j.rets[i] != r.rets[i] || (j.rets[i] == 0 && (j.olens[i] != r.olens[i] || memcmp(j.out + i * 2 * SL, r.out + i * 2 * SL, j.olens[i])))) mc_fail("thread %d: chunk %d differs from the same call alone", t, i);
		}
	}
	char b[64]; snprintf(b, sizeof b, "k%ld%ld%d/%d%d%d%d", a[0], a[1], v, d[0], d[1], d[2], d[3]); mc_nontrivial(b);
}

static const mc_scenario scenarios[] = {{"conc", sc_conc}, {"chunks", sc_chunks}, {nullptr, nullptr}};
#define PAIRS(L, TIER, ...) {"C15", "conc", {0, 0, L, ##__VA_ARGS__}, 2, 0, TIER}, {"C15", "conc", {0, 1, L, ##__VA_ARGS__}, 2, 0, TIER}, {"C15", "conc", {1, 1, L, ##__VA_ARGS__}, 2, 0, TIER}, \
	{"C15", "conc", {2, 2, L, ##__VA_ARGS__}, 2, 0, TIER}, {"C15", "conc", {2, 3, L, ##__VA_ARGS__}, 2, 0, TIER}, {"C15", "conc", {3, 3, L, ##__VA_ARGS__}, 2, 0, TIER}, \
	{"C15", "conc", {0, 2, L, ##__VA_ARGS__}, 2, 0, TIER}, {"C15", "conc", {1, 3, L, ##__VA_ARGS__}, 2, 0, TIER}, {"C15", "conc", {0, 3, L, ##__VA_ARGS__}, 2, 0, TIER}, {"C15", "conc", {1, 2, L, ##__VA_ARGS__}, 2, 0, TIER},
static const mc_plan plans[] = {
	PAIRS(1, 0) PAIRS(2, 0) PAIRS(3, 0) PAIRS(0, 0, 2, 2) PAIRS(1, 1, 2, 1, 1) PAIRS(2, 1, 2, 1, 1) PAIRS(3, 1, 2, 1, 1) PAIRS(1, 1, 2, 2) PAIRS(2, 1, 2, 2) PAIRS(3, 1, 3, 1)
	{"C15", "chunks", {0, 0}, 2, 0, 0}, {"C15", "chunks", {0, 1}, 2, 0, 0}, {"C15", "chunks", {1, 1}, 2, 0, 0}, {"C15", "chunks", {2, 2}, 2, 0, 0}, {"C15", "chunks", {2, 3}, 2, 0, 0}, {"C15", "chunks", {3, 3}, 2, 0, 0}, {"C15", "chunks", {0, 2}, 2, 0, 0}, {"C15", "chunks", {1, 3}, 2, 0, 0},
	{nullptr, nullptr, {}, 0, 0, 0}};

int main(int argc, char **argv) {
	if (mmap(B, sizeof(Bank), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != B) { perror("mmap"); return 3; }
	pid_t p = fork(); if (p == 0) { build_bank(); _exit(0); }
	int st; waitpid(p, &st, 0); if (st) { fprintf(stderr, "the library cannot compress the test data\n"); return 3; }
	return mc_run(argc, argv, scenarios, plans, (uint8_t *)__data_start, (uint8_t *)_end, [] { M[0] = mc_region(0); M[1] = mc_region(1); });
}

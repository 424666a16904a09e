// Exploration of the cryptodev interface on a simulated device: every schedule of the callers' threads up to a bound on
// preemptions, every position of failing system calls, every small request (properties H01, H02).
#include "../common/mc.hpp"
#include <crypto/cryptodev.h>
extern "C" {
#include <lib842/hw.h>
}
#include <cstdarg>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <thread>
using namespace mc;
using std::string; using std::vector;
static Explorer ex; static bool DEEP;
#define FAIL(...) do { char _b[800]; snprintf(_b, sizeof(_b), __VA_ARGS__); why = _b; return false; } while (0)
static string num(long long v) { return std::to_string(v); }

// ---------------------------------------------------------------- restoring the interface's variables
extern "C" { extern char __start_hwdata[] __attribute__((weak)), __stop_hwdata[] __attribute__((weak)), __start_hwbss[] __attribute__((weak)), __stop_hwbss[] __attribute__((weak)); }
static void fresh() {
	static bool saved; static string d, b;
	if (!saved) { saved = true; d.assign(__start_hwdata, __stop_hwdata); b.assign(__start_hwbss, __stop_hwbss); }
	memcpy(__start_hwdata, d.data(), d.size()); memcpy(__start_hwbss, b.data(), b.size());
}

// ---------------------------------------------------------------- the world the interface runs in
static const int MAXT = 4;
static int FD0 = 500; // the lowest descriptor there is
struct Fault { int thread, op, err; };
struct Event { int thread; string what; int err; }; // failures that were injected
struct Request { int thread, fd; crypt_op c; vector<__u32> il, ol; };
struct World {
	struct File { bool open = false, cloexec = false; int owner = -1; std::set<__u32> sess; };
	vector<File> fds; __u32 nextsess = 7;
	std::map<void *, size_t> mem; std::set<void *> freed;
	struct Key { bool alive; void (*dtor)(void *); }; vector<Key> keys; vector<void *> tls[MAXT];
	std::map<void *, int> once;      // 1 running, 2 done
	bool key_failed = false, present = true;
	__u16 alignmask = 0;
	string misuse;
	vector<Fault> faults; vector<Event> fired; int opno[MAXT] = {}; vector<string> names[MAXT];
	vector<Request> reqs; int devret = 0; // results the device gives
	long ops = 0;
	int sessions(int t) { int n = 0; for (auto &f : fds) if (f.open && f.owner == t) n += f.sess.size(); return n; }
	void bad(const string &s) { if (misuse.empty()) misuse = s; }
};
static World W;
static thread_local int self = -1;

// ---------------------------------------------------------------- scheduler: one thread runs at a time
struct Sched {
	int n = 0, cur = 0, bound = 0, preempt = 0; sem_t sem[MAXT], main;
	enum { READY, BLOCKED, DONE } st[MAXT]; void *waits[MAXT];
	vector<int> plan, width; size_t pos = 0; uint64_t hist = 0; bool stuck = false;
	// Choose who runs next; `must` = the running thread cannot go on
	int pick(bool must) {
		vector<int> opt; if (!must) opt.push_back(cur);
		if (must || preempt < bound) for (int t = 0; t < n; t++) if (t != cur && st[t] == READY) opt.push_back(t);
		if (opt.empty()) return -1;
		int k = 0;
		if (opt.size() > 1) { if (pos >= plan.size()) plan.push_back(0); if (pos >= width.size()) width.push_back(0); width[pos] = opt.size(); k = plan[pos++]; }
		if (!must && k) preempt++;
		return opt[k];
	}
	void switch_to(int t, bool wait) {
		int me = cur; cur = t; hist = mix(hist, t);
		if (t < 0) sem_post(&main); else if (t != me) sem_post(&sem[t]);
		if (wait && t != me) while (sem_wait(&sem[me])) {}
	}
	void point() { if (self < 0) return; W.ops++; switch_to(pick(false), true); }
	void block(void *on) { st[self] = BLOCKED; waits[self] = on; int t = pick(true); if (t < 0) { stuck = true; } switch_to(t, true); }
	void wake(void *on) { for (int t = 0; t < n; t++) if (st[t] == BLOCKED && waits[t] == on) st[t] = READY; }
	void done() { st[self] = DONE; int t = pick(true); if (t < 0) for (int i = 0; i < n; i++) if (st[i] != DONE) stuck = true; switch_to(t, false); }
};
static Sched S;

// an operation of the interface; returns the error to inject
static int op(const char *name, bool fallible) {
	if (self < 0) return 0;
	S.point();
	if (!fallible) return 0;
	int k = W.opno[self]++; W.names[self].push_back(name);
	for (auto &f : W.faults) if (f.thread == self && f.op == k) { W.fired.push_back({self, name, f.err}); return f.err; }
	return 0;
}

// ---------------------------------------------------------------- what the interface calls
static World::File *file(int fd, const char *who) {
	if (fd < FD0 || fd >= FD0 + (int)W.fds.size() || !W.fds[fd - FD0].open) { W.bad(string(who) + " on a descriptor that is not open"); return nullptr; }
	auto *f = &W.fds[fd - FD0]; if (f->owner != self) W.bad(string(who) + " on the descriptor of another thread");
	return f;
}
static int do_open(const char *p, int fl) {
	int e = op("open", true);
	if (strcmp(p, "/dev/crypto")) W.bad(string("opens ") + p);
	if ((fl & O_ACCMODE) != O_RDWR) W.bad("the device is not opened for reading and writing");
	if (!e && !W.present) e = ENOENT;
	if (e) { errno = e; return -1; }
	size_t i = 0; while (i < W.fds.size() && W.fds[i].open) i++; if (i == W.fds.size()) W.fds.emplace_back();
	W.fds[i] = World::File(); W.fds[i].open = true; W.fds[i].owner = self; W.fds[i].cloexec = fl & O_CLOEXEC;
	int mine = 0; for (auto &f : W.fds) mine += f.open && f.owner == self; if (mine > 1) W.bad("a thread has two descriptors open");
	return FD0 + i;
}
static int do_ioctl(int fd, unsigned long rq, void *a) {
	const char *nm = rq == CIOCGSESSION ? "CIOCGSESSION" : rq == CIOCFSESSION ? "CIOCFSESSION" : rq == CIOCCRYPT ? "CIOCCRYPT" :
#ifdef CIOCGSESSINFO
		rq == CIOCGSESSINFO ? "CIOCGSESSINFO" :
#endif
		"?";
	int e = op(nm, true); auto *f = file(fd, nm);
	if (!f) { errno = EBADF; return -1; }
	if (rq == CIOCGSESSION) {
		auto *s = (session_op *)a;
		if (s->compr != CRYPTO_842 || s->cipher || s->mac || s->keylen || s->mackeylen || s->key || s->mackey) W.bad("session of the wrong kind requested");
		if (e) { errno = e; return -1; }
		s->ses = W.nextsess++; f->sess.insert(s->ses);
		if (W.sessions(self) > 1) W.bad("a thread has two sessions");
		return 0;
	}
	if (rq == CIOCFSESSION) {
		__u32 s = *(__u32 *)a; if (!f->sess.count(s)) W.bad("a session that does not exist is closed");
		if (e) { errno = e; return -1; }
		f->sess.erase(s); return 0;
	}
#ifdef CIOCGSESSINFO
	if (rq == CIOCGSESSINFO) {
		auto *s = (session_info_op *)a; if (!f->sess.count(s->ses)) W.bad("information about a session that does not exist");
		if (e) { errno = e; return -1; }
		s->alignmask = W.alignmask; s->flags = SIOP_FLAG_KERNEL_DRIVER_ONLY; strcpy(s->compr_info.cra_name, "842"); strcpy(s->compr_info.cra_driver_name, "842-fake"); return 0;
	}
#endif
	if (rq == CIOCCRYPT) {
		auto *c = (crypt_op *)a; if (!f->sess.count(c->ses)) W.bad("request for a session that does not exist");
		if (!f->cloexec) W.bad("the descriptor is not close-on-exec");
		Request r{self, fd, *c, {}, {}};
		for (__u32 i = 0; i < c->numchunks && i < 5000; i++) { r.il.push_back(c->chunklens[i]); r.ol.push_back(c->chunkdlens[i]); }
		W.reqs.push_back(r);
		if (e) { errno = e; return -1; }
		for (__u32 i = 0; i < c->numchunks && i < 5000; i++) {
			switch (W.devret) {
			case 0: c->chunkrets[i] = 0; c->chunkdlens[i] = i * 37 + 8; break;
			case 1: c->chunkrets[i] = i % 2 ? -ENOSPC : 0; c->chunkdlens[i] = i % 2 ? 0 : 0xffffffffu - i; break;
			case 2: c->chunkrets[i] = -EINVAL; c->chunkdlens[i] = 0; break;
			case 3: c->chunkrets[i] = i % 3 == 1 ? -EIO : i % 3 ? 0 : -ENOSPC; c->chunkdlens[i] = 1u << (i % 32); break;
			}
		}
		return 0;
	}
	W.bad("unknown request"); errno = ENOTTY; return -1;
}
extern "C" {
int hw_open(const char *p, int fl, ...) { return do_open(p, fl); }
int hw_open64(const char *p, int fl, ...) { return do_open(p, fl); }
int hw_openat(int, const char *p, int fl, ...) { return do_open(p, fl); }
int hw_openat64(int, const char *p, int fl, ...) { return do_open(p, fl); }
int hw___open_2(const char *p, int fl) { return do_open(p, fl); }
int hw___open64_2(const char *p, int fl) { return do_open(p, fl); }
int hw_ioctl(int fd, unsigned long rq, void *a) { return do_ioctl(fd, rq, a); }
int hw_fcntl(int fd, int cmd, long a) {
	int e = op("fcntl", true); auto *f = file(fd, "fcntl"); if (!f) { errno = EBADF; return -1; }
	if (e) { errno = e; return -1; }
	if (cmd == F_SETFD) { f->cloexec = a & FD_CLOEXEC; return 0; }
	if (cmd == F_GETFD) return f->cloexec ? FD_CLOEXEC : 0;
	W.bad("unknown fcntl"); errno = EINVAL; return -1;
}
int hw_fcntl64(int fd, int cmd, long a) { return hw_fcntl(fd, cmd, a); }
int hw_close(int fd) { int e = op("close", true); auto *f = file(fd, "close"); if (!f) { errno = EBADF; return -1; } f->open = false; if (e) { errno = e; return -1; } return 0; } // Linux: closed in any case
int hw_access(const char *p, int) { op("access", false); if (strcmp(p, "/dev/crypto")) W.bad(string("looks for ") + p); if (W.present) return 0; errno = ENOENT; return -1; }
int hw_faccessat(int, const char *p, int m, int) { return hw_access(p, m); }
// stderr may be closed: printing then changes errno
int hw_fprintf(FILE *, const char *, ...) { errno = EBADF; return -1; }
int hw___fprintf_chk(FILE *, int, const char *, ...) { errno = EBADF; return -1; }
int hw_vfprintf(FILE *, const char *, va_list) { errno = EBADF; return -1; }
int hw_dprintf(int, const char *, ...) { errno = EBADF; return -1; }
int hw_printf(const char *, ...) { errno = EBADF; return -1; }
int hw_puts(const char *) { errno = EBADF; return -1; }
int hw_putchar(int) { errno = EBADF; return -1; }
int hw_fputs(const char *, FILE *) { errno = EBADF; return -1; }
int hw_fputc(int, FILE *) { errno = EBADF; return -1; }
size_t hw_fwrite(const void *, size_t, size_t, FILE *) { errno = EBADF; return 0; }
void hw_perror(const char *) { errno = EBADF; }
void *hw_malloc(size_t n) { if (op("malloc", true)) { errno = ENOMEM; return nullptr; } void *p = malloc(n ? n : 1); memset(p, 0xEE, n); W.mem[p] = n; return p; }
void *hw_calloc(size_t a, size_t b) { void *p = hw_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void hw_free(void *p) { op("free", false); if (!p) return; auto it = W.mem.find(p); if (it == W.mem.end()) { W.bad(W.freed.count(p) ? "memory freed twice" : "something is freed that was not allocated"); return; } memset(p, 0xDD, it->second); W.mem.erase(it); W.freed.insert(p); }
void *hw_realloc(void *p, size_t n) { void *q = hw_malloc(n); if (q && p) { memcpy(q, p, std::min(n, W.mem[p])); hw_free(p); } return q; }
long hw_sysconf(int n) { return sysconf(n); }
int hw_getpagesize() { return getpagesize(); }
static int key_create(unsigned *k, void (*d)(void *), int fail) { if (op("tss_create", true)) { W.key_failed = true; return fail; } W.keys.push_back({true, d}); *k = W.keys.size() - 1; return 0; }
static void *key_get(unsigned k) { op("tss_get", false); if (k >= W.keys.size() || !W.keys[k].alive) { W.bad("a thread-specific key is used that was never created"); return nullptr; } auto &v = W.tls[self]; return k < v.size() ? v[k] : nullptr; }
static int key_set(unsigned k, void *p, int fail) { if (op("tss_set", true)) return fail; if (k >= W.keys.size() || !W.keys[k].alive) { W.bad("a thread-specific key is used that was never created"); return fail; } auto &v = W.tls[self]; if (k >= v.size()) v.resize(k + 1); v[k] = p; return 0; }
static void once(void *flag, void (*fn)()) {
	op("once", false);
	for (;;) { int &s = W.once[flag]; if (s == 2) return; if (s == 0) { s = 1; fn(); W.once[flag] = 2; S.wake(flag); return; } S.block(flag); if (S.stuck) return; }
}
int hw_tss_create(unsigned *k, void (*d)(void *)) { return key_create(k, d, 2); }
int hw_pthread_key_create(unsigned *k, void (*d)(void *)) { return key_create(k, d, EAGAIN); }
void hw_tss_delete(unsigned k) { if (k < W.keys.size()) W.keys[k].alive = false; }
int hw_pthread_key_delete(unsigned k) { hw_tss_delete(k); return 0; }
void *hw_tss_get(unsigned k) { return key_get(k); }
void *hw_pthread_getspecific(unsigned k) { return key_get(k); }
int hw_tss_set(unsigned k, void *p) { return key_set(k, p, 2); }
int hw_pthread_setspecific(unsigned k, const void *p) { return key_set(k, (void *)p, ENOMEM); }
void hw_call_once(void *f, void (*fn)()) { once(f, fn); }
int hw_pthread_once(void *f, void (*fn)()) { once(f, fn); return 0; }
}
static void run_dtors() { // as at the exit of a thread
	for (int round = 0; round < 4; round++) { bool any = false; for (size_t k = 0; k < W.tls[self].size(); k++) if (void *p = W.tls[self][k]) { W.tls[self][k] = nullptr; if (W.keys[k].dtor) W.keys[k].dtor(p); any = true; } if (!any) break; }
}

// ---------------------------------------------------------------- H01: sequences of calls
static uint8_t *IN, *OUT; // 64 KiB aligned
static const char *CALL[] = {"hw842_compress", "hw842_decompress", "hw842_compress_chunked", "hw842_decompress_chunked", "get_hw842_implementation", "hw842_available"};
static string threadwhy[MAXT];
static bool implfail; // get_hw842_implementation has failed to ask the device before
static void call(int code, string &why) {
	size_t fired0 = 0; vector<Event> mine; string at = string(CALL[code]) + " of thread " + num(self) + ": ";
	size_t f0 = W.fired.size(), r0 = W.reqs.size(); bool kf0 = W.key_failed; int ops0 = W.opno[self]; (void)fired0;
	int ret = 0; size_t ol[2] = {100, 200}, il[2] = {64, 72}; int rets[2] = {99, 99}; const lib842_implementation *im = nullptr; int av = -1;
	switch (code) {
	case 0: ret = hw842_compress(IN, 64, OUT, ol); break;
	case 1: ret = hw842_decompress(IN, 64, OUT, ol); break;
	case 2: ret = hw842_compress_chunked(2, rets, IN, 4096, il, OUT, 8192, ol); break;
	case 3: ret = hw842_decompress_chunked(2, rets, IN, 4096, il, OUT, 8192, ol); break;
	case 4: im = get_hw842_implementation(); break;
	case 5: av = hw842_available(); break;
	}
	auto fail = [&](const string &s) { if (why.empty()) why = at + s; };
	for (size_t i = f0; i < W.fired.size(); i++) if (W.fired[i].thread == self) mine.push_back(W.fired[i]);
	vector<Request> rq; for (size_t i = r0; i < W.reqs.size(); i++) if (W.reqs[i].thread == self) rq.push_back(W.reqs[i]);
	if (code == 5) { if ((av != 0) != W.present) fail("returned " + num(av)); if (W.opno[self] != ops0) fail("more than a look at the device"); return; }
	int expect = 0; string cause;
	if (!mine.empty()) { auto &m = mine[0]; cause = m.what; expect = m.what == "malloc" || !m.what.compare(0, 3, "tss") ? -ENOMEM : -m.err; }
	else if (W.key_failed) { expect = -ENOMEM; cause = "tss_create, earlier"; if (kf0 && W.opno[self] != ops0) fail("continues although the thread-specific key could not be created"); }
	else if (!W.present) { expect = -ENOENT; cause = "the device is missing"; }
	if (code == 4) {
		if (!im || im->compress != hw842_compress || im->decompress != hw842_decompress || im->compress_chunked != hw842_compress_chunked || im->decompress_chunked != hw842_decompress_chunked) { fail("wrong functions published"); return; }
		size_t need = (size_t)W.alignmask + 1;
#ifdef FAKE_NO_SESSINFO
		need = 1;
#endif
		if (expect) implfail = true;
		if (implfail ? im->required_alignment < need || im->required_alignment % need : im->required_alignment != need) fail("alignment " + num(im->required_alignment) + " published instead of " + num(need));
		// pages, unless the device requires more; whatever it is, it satisfies the requirement
		size_t page = sysconf(_SC_PAGESIZE), pref = im->preferred_alignment;
		if (implfail ? pref < page || pref % page || pref < im->required_alignment || pref % im->required_alignment : pref != std::max(page, im->required_alignment)) fail("preferred alignment " + num(im->preferred_alignment) + " published with a required one of " + num(im->required_alignment));
		if (!rq.empty()) fail("request made");
		return;
	}
	if (expect) { if (ret != expect) fail("returned " + num(ret) + " instead of " + num(expect) + " (" + cause + ")"); return; }
	if (ret) { fail("returned " + num(ret) + " although nothing failed"); return; }
	if (rq.size() != 1) { fail(num(rq.size()) + " requests made"); return; }
	if (rq[0].c.op != (code & 1 ? COP_DECRYPT : COP_ENCRYPT)) fail("wrong operation requested");
	if (rq[0].c.src != IN || rq[0].c.dst != OUT || rq[0].c.numchunks != (code < 2 ? 1u : 2u)) fail("wrong request");
	if (code < 2 ? ol[0] != 8 : ol[0] != 8 || ol[1] != 45 || rets[0] || rets[1]) fail("the device's results are not returned");
}
// p = {preemptions, alignmask, device missing, threads, [calls..] per thread (count first), faults: thread, op, errno ...}
static bool run_seq(const Case &c, string &why) {
	size_t o = 4; int n = c.p[3]; vector<int> calls[MAXT]; for (int t = 0; t < n; t++) { int k = c.p[o++]; while (k--) calls[t].push_back(c.p[o++]); }
	vector<Fault> faults; for (; o + 2 < c.p.size(); o += 3) faults.push_back({(int)c.p[o], (int)c.p[o + 1], (int)c.p[o + 2]});
	S.plan.clear(); uint64_t schedules = 0;
	for (;;) {
		fresh(); for (auto &m : W.mem) free(m.first); for (auto *p : W.freed) free(p);
		W = World(); W.alignmask = c.p[1]; W.present = !(c.p[2] & 1); FD0 = c.p[2] & 2 ? 0 : 500; W.nextsess = c.p[2] & 4 ? 0 : c.p[2] & 8 ? 0xffffffff : 7; W.faults = faults; implfail = false;
		S.n = n; S.bound = c.p[0]; S.preempt = 0; S.pos = 0; S.hist = 1; S.stuck = false; S.width.assign(S.plan.size(), 0);
		sem_init(&S.main, 0, 0); for (int t = 0; t < n; t++) { sem_init(&S.sem[t], 0, 0); S.st[t] = Sched::READY; threadwhy[t].clear(); }
		auto body = [&](int t) {
			while (sem_wait(&S.sem[t])) {}
			self = t;
			for (int k : calls[t]) { if (threadwhy[t].empty()) call(k, threadwhy[t]); S.point(); }
			run_dtors();
			S.done(); self = -1;
		};
		if (n == 1) { self = 0; S.cur = 0; for (int k : calls[0]) if (threadwhy[0].empty()) call(k, threadwhy[0]); run_dtors(); self = -1; }
		else {
			vector<std::thread> T; for (int t = 0; t < n; t++) T.emplace_back(body, t);
			S.cur = -1; int first = S.pick(true); S.cur = first; sem_post(&S.sem[first]);
			while (sem_wait(&S.main)) {}
			if (S.stuck) FAIL("deadlock");
			for (auto &t : T) t.join();
		}
		schedules++; if (ex.me >= 0) ex.slots[ex.me].seq++; ex.transitions(W.ops); ex.state(mix(S.hist, hash64(c.p.data(), c.p.size() * 8))); ex.nontrivial(W.fired.size() || n > 1);
		for (int t = 0; t < n; t++) if (!threadwhy[t].empty()) { why = threadwhy[t]; return false; }
		if (!W.misuse.empty()) { why = W.misuse; return false; }
		// afterwards: everything is given back
		std::set<int> nofree; for (auto &f : W.fired) if (f.what == "CIOCFSESSION") nofree.insert(f.thread);
		for (auto &f : W.fds) { if (f.open) FAIL("a descriptor of thread %d stays open", f.owner); if (!f.sess.empty() && !nofree.count(f.owner)) FAIL("a session of thread %d was never closed", f.owner); }
		if (!W.mem.empty()) FAIL("memory leaked");
		while (S.plan.size() > S.pos) S.plan.pop_back();
		while (!S.plan.empty() && S.plan.back() + 1 >= S.width[S.plan.size() - 1]) S.plan.pop_back();
		if (S.plan.empty()) break;
		S.plan.back()++;
	}
	ex.outcome(schedules > 1);
	return true;
}

// ---------------------------------------------------------------- H02: requests
// p = {function, chunks, istride, ostride, input misalignment, output misalignment, alignmask, device results, [ilen, olen]..}
static bool run_req(const Case &c, string &why) {
	fresh(); for (auto &m : W.mem) free(m.first); for (auto *p : W.freed) free(p);
	W = World(); W.alignmask = c.p[6]; W.devret = c.p[7]; S.n = 1; S.bound = 0; S.st[0] = Sched::READY; S.cur = 0; S.plan.clear(); S.pos = 0;
	int fn = c.p[0]; size_t n = c.p[1], is = c.p[2], os = c.p[3]; const uint8_t *in = IN + c.p[4]; uint8_t *out = OUT + c.p[5];
	vector<size_t> il, ol; for (size_t i = 8; i + 1 < c.p.size(); i += 2) { il.push_back(c.p[i]); ol.push_back(c.p[i + 1]); }
	while (il.size() < n) { il.push_back(il.empty() ? 8 : il[il.size() % 2 ? 0 : il.size() - 1]); ol.push_back(ol.empty() ? 8 : ol[ol.size() % 2 ? 0 : ol.size() - 1]); }
	if (fn < 2) { n = 1; is = il[0]; os = ol[0]; }
	auto il0 = il, ol0 = ol; vector<int> rets(n + 1, 99);
	ex.state(hash64(c.p.data(), c.p.size() * 8)); ex.transitions(1 + n);
	int ret; self = 0;
	switch (fn) {
	case 0: ret = hw842_compress(in, il[0], out, &ol[0]); break;
	case 1: ret = hw842_decompress(in, il[0], out, &ol[0]); break;
	case 2: ret = hw842_compress_chunked(n, rets.data(), in, is, il.data(), out, os, ol.data()); break;
	default: ret = hw842_decompress_chunked(n, rets.data(), in, is, il.data(), out, os, ol.data()); break;
	}
	size_t nreq = W.reqs.size(); run_dtors(); self = -1;
	size_t need = (size_t)W.alignmask + 1;
#ifdef FAKE_NO_SESSINFO
	need = 1; // the device's requirement is not known
#endif
	// the masks are of the form 2^k - 1
	bool fits = n <= CRYPTODEV_COMP_MAX_CHUNKS && (uintptr_t)in % need == 0 && (uintptr_t)out % need == 0;
	fits = fits && (unsigned __int128)is * n <= UINT32_MAX && (unsigned __int128)os * n <= UINT32_MAX;
	for (size_t i = 0; i < n; i++) { bool skip = il0[i] == SIZE_MAX && fn >= 2; fits = fits && (skip || il0[i] < UINT32_MAX) && ol0[i] <= UINT32_MAX; }
	ex.outcome(fits); ex.nontrivial(n > 0);
	if (!W.misuse.empty()) { why = W.misuse; return false; }
	if (il != il0) FAIL("the input lengths were modified");
	if (rets[n] != 99) FAIL("a return value was stored beyond the last chunk");
	if (!fits) {
		if (ret != -EINVAL) FAIL("returned %d for a request that cannot be made", ret);
		if (nreq) FAIL("a request was made although it cannot describe the caller's chunks");
		return true;
	}
	if (nreq != 1) FAIL("%zu requests made (returned %d)", nreq, ret);
	auto &r = W.reqs[0];
	if (r.c.op != (fn & 1 ? COP_DECRYPT : COP_ENCRYPT)) FAIL("operation %d", r.c.op);
	if (r.c.src != in || r.c.dst != out) FAIL("wrong buffers");
	if (r.c.numchunks != n) FAIL("%u chunks", r.c.numchunks);
	if (r.c.len != (__u32)(is * n) || r.c.dlen != (__u32)(os * n)) FAIL("lengths %u, %u instead of %zu, %zu", r.c.len, r.c.dlen, is * n, os * n);
	for (size_t i = 0; i < n; i++) {
		__u32 e = il0[i] == SIZE_MAX ? UINT32_MAX : il0[i];
		if (r.il[i] != e) FAIL("chunk %zu: input length %u instead of %u", i, r.il[i], e);
		if (r.ol[i] != (__u32)ol0[i]) FAIL("chunk %zu: capacity %u instead of %zu", i, r.ol[i], ol0[i]);
	}
	if (r.c.flags || r.c.mac || r.c.iv) FAIL("fields set that are not used");
	// the device's results (see do_ioctl)
	auto dr = [&](size_t i) -> int { switch (W.devret) { case 0: return 0; case 1: return i % 2 ? -ENOSPC : 0; case 2: return -EINVAL; } return i % 3 == 1 ? -EIO : i % 3 ? 0 : -ENOSPC; };
	auto dl = [&](size_t i) -> __u32 { switch (W.devret) { case 0: return i * 37 + 8; case 1: return i % 2 ? 0 : 0xffffffffu - i; case 2: return 0; } return 1u << (i % 32); };
	if (ret != (fn < 2 ? dr(0) : 0)) FAIL("returned %d instead of %d", ret, fn < 2 ? dr(0) : 0);
	for (size_t i = 0; i < n; i++) {
		if (fn >= 2 && rets[i] != dr(i)) FAIL("chunk %zu: return value %d instead of %d", i, rets[i], dr(i));
		if (ol[i] != dl(i)) FAIL("chunk %zu: length %zu instead of %u", i, ol[i], dl(i));
	}
	return true;
}

static bool run_case(const Case &c, string &why) { if (c.kind == "seq") return run_seq(c, why); return run_req(c, why); }

// ---------------------------------------------------------------- families
static const int ERRS[] = {EIO, EMFILE, ENODEV, EBUSY, ENOMEM, EINVAL};
static Case seqcase(int bound, int mask, int missing, const vector<vector<int>> &calls, const vector<Fault> &f) {
	Case c{"seq", {(uint64_t)bound, (uint64_t)mask, (uint64_t)missing, calls.size()}, {}, {}};
	for (auto &v : calls) { c.p.push_back(v.size()); for (int k : v) c.p.push_back(k); }
	for (auto &x : f) for (int v : {x.thread, x.op, x.err}) c.p.push_back(v);
	return c;
}
static const int OPS = 22; // more fallible operations than any of the sequences has per thread
static void H01() {
	ex.family("one thread: every sequence of calls x up to two failing operations", [&](Explorer &e) {
		for (int L = 1; L <= (DEEP ? 5 : 4); L++) { int tot = 1; for (int i = 0; i < L; i++) tot *= 6; for (int s = 0; s < tot; s++) {
			vector<int> q; int x = s; for (int i = 0; i < L; i++) { q.push_back(x % 6); x /= 6; }
			int nops = 6 + 8 * L; // upper bound while every set-up fails
			for (int a = -1; a < nops; a++) { if (a < 0) { if (e.mine()) for (int mask : {0, 7, 127, 0xffff}) for (int m : {0, 1, 2, 6, 8}) e.exec(seqcase(0, mask, m, {q}, {})); continue; }
				if (L > 3 && a > 18) continue;
				if (!e.mine()) continue;
				for (int er : ERRS) { e.exec(seqcase(0, 7, 0, {q}, {{0, a, er}})); if (L > 3) break; }
				e.exec(seqcase(0, 7, 6, {q}, {{0, a, EIO}})); // descriptor and session may be 0
				if (L <= 3) for (int b = a + 1; b < std::min(nops, a + 12); b++) e.exec(seqcase(0, 0, 0, {q}, {{0, a, ERRS[a % 6]}, {0, b, ERRS[(a + b) % 6]}}));
			}
		} }
	});
	ex.family("one thread: up to three failing operations in a row of calls", [&](Explorer &e) {
		vector<vector<int>> Q = {{0, 1, 0}, {2, 3, 2, 3}, {4, 0, 4}, {0, 4, 2}};
		for (auto &q : Q) for (int a = 0; a < OPS; a++) for (int b = a + 1; b < OPS; b++) for (int d = b + 1; d < OPS; d++) if (e.mine()) e.exec(seqcase(0, 15, 0, {q}, {{0, a, EIO}, {0, b, ENOMEM}, {0, d, EBUSY}}));
	});
	ex.family("two threads: every schedule up to a bound on preemptions", [&](Explorer &e) {
		vector<vector<int>> Q = {{0}, {1}, {0, 1}, {2}, {3, 2}, {4}, {4, 0}, {0, 4}, {5, 0}};
		for (auto &a : Q) for (auto &b : Q) if (e.mine()) e.exec(seqcase(DEEP ? 3 : 2, 7, 0, {a, b}, {}));
	});
	ex.family("two threads: schedules x one failing operation of each", [&](Explorer &e) {
		vector<vector<int>> Q = {{0}, {0, 1}, {4, 3}};
		for (auto &a : Q) for (auto &b : Q) for (int f = 0; f < 12; f++) for (int g = -1; g < 12; g++) if (e.mine()) { vector<Fault> F = {{0, f, EIO}}; if (g >= 0) F.push_back({1, g, ENODEV}); e.exec(seqcase(DEEP ? 2 : 1, 0, 0, {a, b}, F)); }
	});
	ex.family("three threads: every schedule up to a bound on preemptions", [&](Explorer &e) {
		vector<vector<int>> Q = {{0}, {1, 2}, {4}};
		for (auto &a : Q) for (auto &b : Q) for (auto &d : Q) if (e.mine()) { e.exec(seqcase(DEEP ? 2 : 1, 0, 0, {a, b, d}, {})); for (int f = 0; f < 9; f++) e.exec(seqcase(1, 0, 0, {a, b, d}, {{(int)(f % 3), f, EMFILE}})); }
	});
}
static void H02() {
	const uint64_t M = UINT32_MAX, MAXC = CRYPTODEV_COMP_MAX_CHUNKS;
	vector<uint64_t> LEN = {0, 1, 8, 65536, M - 1, M, M + 1, 1ull << 40, (uint64_t)-2, (uint64_t)-1};
	auto rq = [](Explorer &e, vector<uint64_t> p) { if (e.mine()) e.exec(Case{"req", p, {}, {}}); };
	ex.family("every combination of lengths of up to three chunks", [&](Explorer &e) {
		for (int fn = 2; fn < 4; fn++) for (int n = 0; n <= (DEEP ? 3 : 2); n++) { size_t tot = 1; for (int i = 0; i < 2 * n; i++) tot *= LEN.size(); for (size_t s = 0; s < tot; s++) { vector<uint64_t> p = {(uint64_t)fn, (uint64_t)n, 65536, 131072, 0, 0, 0, s % 4}; size_t x = s; for (int i = 0; i < 2 * n; i++) { p.push_back(LEN[x % LEN.size()]); x /= LEN.size(); } rq(e, p); } }
		for (int s = 0; s < 1000; s++) { vector<uint64_t> p = {2, 3, 65536, 131072, 0, 0, 0, 3}; int x = s; for (int i = 0; i < 3; i++) { p.push_back(LEN[x % 10]); p.push_back(8 + i); x /= 10; } rq(e, p); p[0] = 3; for (int i = 0; i < 3; i++) std::swap(p[8 + 2 * i], p[9 + 2 * i]); rq(e, p); }
	});
	ex.family("single-chunk functions: every combination of lengths", [&](Explorer &e) {
		vector<uint64_t> L = LEN; for (uint64_t v = 2; v < 40; v++) L.push_back(v); for (int b = 3; b < 64; b++) { L.push_back(1ull << b); L.push_back((1ull << b) - 1); }
		for (int fn = 0; fn < 2; fn++) for (auto a : L) for (auto b : L) for (int d = 0; d < 4; d++) rq(e, {(uint64_t)fn, 1, 0, 0, 0, 0, 0, (uint64_t)d, a, b});
	});
	ex.family("every chunk count x strides around what a request can represent", [&](Explorer &e) {
		vector<uint64_t> N; for (uint64_t n = 0; n <= 20; n++) N.push_back(n); for (uint64_t n = MAXC - std::min<uint64_t>(MAXC, 3); n <= MAXC + 3; n++) N.push_back(n); N.insert(N.end(), {2000, 4096, 1ull << 13});
		for (auto n : N) { vector<uint64_t> ST = {0, 1, 8, 4096, M, M + 1, 1ull << 33, 1ull << 63, (uint64_t)-1}; if (n) for (int d = -2; d <= 2; d++) { ST.push_back(M / n + d); ST.push_back((M + 1) / n + d); ST.push_back(((unsigned __int128)1 << 64) / n + d); ST.push_back((((unsigned __int128)1 << 64) + 4096) / n + d); }
			for (auto a : ST) for (auto b : ST) for (int fn = 2; fn < 4; fn++) rq(e, {(uint64_t)fn, n, a, b, 0, 0, 0, 3, 8, 16}); }
	});
	ex.family("one special chunk at every position", [&](Explorer &e) {
		for (int fn = 2; fn < 4; fn++) for (uint64_t n = 1; n <= std::min<uint64_t>(MAXC, DEEP ? 1024 : 200); n++) for (uint64_t k = 0; k < n; k += n > 40 ? n / 7 : 1) for (auto v : LEN) for (int which = 0; which < 2; which++) {
			vector<uint64_t> p = {(uint64_t)fn, n, 4096, 8192, 0, 0, 0, 1}; for (uint64_t i = 0; i < n; i++) { p.push_back(i == k && !which ? v : 100 + i); p.push_back(i == k && which ? v : 300 + i); } rq(e, p); }
	});
	ex.family("every alignment", [&](Explorer &e) {
		for (int k = 0; k <= 16; k++) { uint64_t mask = (1u << k) - 1; vector<uint64_t> A = {0, 1, 2, 3, 4, 7, 8, 12, 16, 64, 100, 127, 128, 255, 256, 4096, 32768, 65535}; for (int b = 0; b <= 16; b++) A.push_back(1u << b); for (auto a : A) for (auto b : A) for (int fn = 0; fn < 4; fn++) rq(e, {(uint64_t)fn, fn < 2 ? 1u : 2u, 65536, 65536, a, b, mask, 0, 64, 64}); }
	});
}
int main(int argc, char **argv) {
	if (argc < 4) return 2;
	ex.property = argv[1]; ex.tier = argv[2]; ex.run = run_case; DEEP = ex.tier == "thorough";
	const char *od = getenv("MC_OUT"); ex.outdir = od ? od : "/tmp"; ex.set_bits = 25;
	fresh(); IN = (uint8_t *)aligned_alloc(65536, 1 << 18); OUT = (uint8_t *)aligned_alloc(65536, 1 << 18);
	if (ex.tier == "replay") { ex.workers = 1; return ex.replay(argv[3]); }
	ex.init();
	if (ex.property == "H01") H01(); else if (ex.property == "H02") H02(); else return 2;
	ex.write_result(argv[3]); return ex.failed ? 1 : 0;
}

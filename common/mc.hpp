// Bounded-exhaustive exploration driver: forks workers that share one enumeration,
// keeps the case being executed in shared memory, turns a failed oracle, a crash or a
// hang into a replayable case file, and counts model states and transitions.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>

namespace mc {

using bytes = std::vector<uint8_t>;

// A self-contained case: everything needed to execute it again.
struct Case {
	std::string kind;          // which oracle
	std::vector<uint64_t> p;   // parameters
	bytes a, b;                // data
};

static inline uint64_t hash64(const void *d, size_t n, uint64_t h = 1469598103934665603ull) {
	auto *c = (const uint8_t *)d;
	while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; c += 8; n -= 8; }
	while (n--) { h = (h ^ *c++) * 1099511628211ull; }
	h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
	return h;
}
static inline uint64_t mix(uint64_t h, uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; return h; }

static constexpr size_t CASE_MAX = 1 << 21;
struct Slot {
	std::atomic<uint64_t> seq;       // heartbeats
	uint64_t evals, nontrivial, transitions;
	uint64_t outcomes[16];
	uint32_t case_len;
	char why[2048];
	uint8_t casebuf[CASE_MAX];
};

struct Shared {
	std::atomic<uint64_t> states;
	std::atomic<uint64_t> overflow;
	std::atomic<int> stop;
};

inline size_t ser(const Case &c, uint8_t *out, size_t cap) {
	size_t need = 4 + c.kind.size() + 4 + 8 * c.p.size() + 8 + c.a.size() + 8 + c.b.size();
	if (need > cap) { fprintf(stdout, "case too big\n"); _exit(90); }
	uint8_t *o = out;
	auto w32 = [&](uint32_t v) { memcpy(o, &v, 4); o += 4; };
	auto w64 = [&](uint64_t v) { memcpy(o, &v, 8); o += 8; };
	auto wb = [&](const void *d, size_t n) { if (n) memcpy(o, d, n); o += n; };
	w32(c.kind.size()); wb(c.kind.data(), c.kind.size());
	w32(c.p.size()); wb(c.p.data(), 8 * c.p.size());
	w64(c.a.size()); wb(c.a.data(), c.a.size());
	w64(c.b.size()); wb(c.b.data(), c.b.size());
	return o - out;
}
inline bool deser(const uint8_t *in, size_t n, Case &c) {
	const uint8_t *e = in + n;
	auto need = [&](size_t k) { return (size_t)(e - in) >= k; };
	uint32_t k; uint64_t q;
	if (!need(4)) return false; memcpy(&k, in, 4); in += 4;
	if (!need(k)) return false; c.kind.assign((const char *)in, k); in += k;
	if (!need(4)) return false; memcpy(&k, in, 4); in += 4;
	if (!need(8ull * k)) return false; c.p.resize(k); if (k) memcpy(c.p.data(), in, 8ull * k); in += 8ull * k;
	if (!need(8)) return false; memcpy(&q, in, 8); in += 8;
	if (!need(q)) return false; c.a.assign(in, in + q); in += q;
	if (!need(8)) return false; memcpy(&q, in, 8); in += 8;
	if (!need(q)) return false; c.b.assign(in, in + q);
	return true;
}

inline std::string hex(const bytes &v, size_t max = 64) {
	static const char *d = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < v.size() && i < max; i++) { s += d[v[i] >> 4]; s += d[v[i] & 15]; }
	if (v.size() > max) s += "...(" + std::to_string(v.size()) + " bytes)";
	return s;
}
inline std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
inline std::string describe(const Case &c) {
	std::string s = c.kind + "(";
	for (size_t i = 0; i < c.p.size(); i++) s += (i ? "," : "") + std::to_string((long long)c.p[i]);
	s += ")";
	if (!c.a.empty()) s += " a=" + hex(c.a);
	if (!c.b.empty()) s += " b=" + hex(c.b);
	return s;
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

class Explorer {
public:
	// returns true if the case satisfies the property, else fills why
	using RunFn = std::function<bool(const Case &, std::string &why)>;
	std::string property, tier, outdir;
	RunFn run;
	int workers = 8;
	double hang_s = 30;
	bool quiet_stderr = true;

	Slot *slots = nullptr;
	Shared *sh = nullptr;
	std::atomic<uint64_t> *set = nullptr;
	size_t set_bits = 24;
	int me = -1;
	uint64_t counter = 0;
	std::vector<std::string> samples;
	uint64_t tot_evals = 0, tot_nontrivial = 0, tot_trans = 0, outcomes[16] = {};
	std::vector<std::pair<std::string, uint64_t>> families;

	void init() {
		const char *ob = getenv("MC_WORKERS");
		if (ob) workers = atoi(ob);
		slots = (Slot *)mmap(nullptr, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		set = (std::atomic<uint64_t> *)mmap(nullptr, sizeof(uint64_t) << set_bits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (slots == MAP_FAILED || sh == MAP_FAILED || set == MAP_FAILED) { perror("mmap"); exit(2); }
	}

	// ---- called from run(): record the model state / transitions covered
	bool state(uint64_t h) {
		if (!set) return true;
		if (!h) h = 1;
		size_t mask = (size_t(1) << set_bits) - 1, i = h & mask;
		for (size_t k = 0; k < 64; k++, i = (i + 1) & mask) {
			uint64_t v = set[i].load(std::memory_order_relaxed);
			if (v == h) return false;
			if (v == 0) {
				uint64_t z = 0;
				if (set[i].compare_exchange_strong(z, h)) { sh->states++; return true; }
				if (z == h) return false;
			}
		}
		sh->overflow++;
		return true;
	}
	void transitions(uint64_t n) { if (me >= 0) slots[me].transitions += n; }
	void nontrivial(bool b = true) { if (me >= 0 && b) slots[me].nontrivial++; }
	void outcome(int k) { if (me >= 0) slots[me].outcomes[k & 15]++; }

	// ---- called from the enumeration (executed identically by each worker)
	bool mine() { return (int)(counter++ % workers) == me; }
	void exec(const Case &c) {
		Slot &s = slots[me];
		s.case_len = ser(c, s.casebuf, CASE_MAX);
		s.seq++;
		if ((s.seq & 255) == 0 && sh->stop) _exit(0);
		std::string why;
		s.evals++;
		if (!run(c, why)) {
			snprintf(s.why, sizeof(s.why), "%s", why.c_str());
			_exit(77);
		}
	}
	// counts this case for the worker; builds it only when it is ours
	template <class F> void one(F mk) { if (mine()) exec(mk()); }

	bool failed = false, restart = false; // restart: a worker asked for the family to be explored again (exit status 79)
	// Enumerate a family in parallel. Returns false when a violation was found.
	bool family(const std::string &name, std::function<void(Explorer &)> gen, const std::string &sample = "") {
		if (failed) return false;
		double t0 = now();
		sh->stop = 0;
		std::vector<pid_t> pid(workers);
		fflush(stdout); fflush(stderr);
		for (int w = 0; w < workers; w++) {
			slots[w].evals = slots[w].nontrivial = slots[w].transitions = 0; slots[w].why[0] = 0; slots[w].case_len = 0;
			memset(slots[w].outcomes, 0, sizeof(slots[w].outcomes));
			pid[w] = fork();
			if (pid[w] < 0) { perror("fork"); exit(2); }
			if (pid[w] == 0) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				me = w; counter = 0;
				if (quiet_stderr) {
					int fd = open("/dev/null", O_WRONLY);
					dup2(fd, 2); close(fd);
					static char eb[1 << 16];
					setvbuf(stderr, eb, _IOFBF, sizeof(eb));
				}
				gen(*this);
				_exit(0);
			}
		}
		std::vector<uint64_t> last(workers, 0); std::vector<double> lt(workers, now());
		int alive = workers;
		std::vector<bool> dead(workers, false);
		int bad = -1; std::string why;
		while (alive > 0) {
			bool any = false;
			for (int w = 0; w < workers; w++) {
				if (dead[w]) continue;
				int st;
				pid_t r = waitpid(pid[w], &st, WNOHANG);
				if (r == pid[w]) {
					any = true; dead[w] = true; alive--;
					if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
					if (WIFEXITED(st) && WEXITSTATUS(st) == 79) { restart = true; sh->stop = 1; continue; }
					if (WIFEXITED(st) && WEXITSTATUS(st) == 90) { fprintf(stderr, "internal error\n"); exit(3); }
					if (bad < 0) {
						bad = w;
						if (WIFEXITED(st) && WEXITSTATUS(st) == 77) why = slots[w].why;
						else if (WIFSIGNALED(st)) why = std::string("process died: signal ") + strsignal(WTERMSIG(st)) + (slots[w].why[0] ? std::string(" during: ") + slots[w].why : "");
						else why = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer or abort)";
						if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker was killed (out of memory?)\n"); exit(3); }
						sh->stop = 1;
					}
				} else {
					uint64_t q = slots[w].seq;
					if (q != last[w]) { last[w] = q; lt[w] = now(); }
					else if (slots[w].case_len && now() - lt[w] > hang_s && bad < 0) {
						bad = w; why = "call did not return within " + std::to_string((int)hang_s) + " s";
						sh->stop = 1; kill(pid[w], SIGKILL);
					} else if (sh->stop && now() - lt[w] > 5) kill(pid[w], SIGKILL);
				}
			}
			if (!any) usleep(2000);
		}
		if (restart && bad < 0) return true;
		restart = false;
		uint64_t ev = 0;
		for (int w = 0; w < workers; w++) {
			ev += slots[w].evals; tot_nontrivial += slots[w].nontrivial; tot_trans += slots[w].transitions;
			for (int k = 0; k < 16; k++) outcomes[k] += slots[w].outcomes[k];
		}
		tot_evals += ev;
		families.push_back({name, ev});
		if (slots[0].case_len && samples.size() < 12) {
			Case c; if (deser(slots[0].casebuf, slots[0].case_len, c)) samples.push_back(name + ": " + describe(c));
		}
		printf("  [%s] %s: %llu cases, %.1f s\n", property.c_str(), name.c_str(), (unsigned long long)ev, now() - t0);
		fflush(stdout);
		if (bad >= 0) {
			failed = true;
			report(bad, why);
			return false;
		}
		return true;
	}

	std::string replay_path;
	std::string violation_why;
	void report(int w, const std::string &why) {
		Case c;
		if (!slots[w].case_len || !deser(slots[w].casebuf, slots[w].case_len, c)) {
			fprintf(stderr, "worker failed before its first case: %s\n", why.c_str());
			exit(3);
		}
		(void)!system(("mkdir -p '" + outdir + "'").c_str());
		replay_path = outdir + "/" + property + "-" + (getenv("MC_TAG") ? std::string(getenv("MC_TAG")) + "-" : std::string()) + std::to_string(hash64(slots[w].casebuf, slots[w].case_len)) + ".case";
		FILE *f = fopen(replay_path.c_str(), "wb");
		if (!f) { perror("replay file"); exit(3); }
		fwrite(slots[w].casebuf, 1, slots[w].case_len, f); fclose(f);
		violation_why = why;
		printf("  case: %s\n  why:  %s\n", describe(c).c_str(), why.c_str());
	}

	// Execute one saved case in a child; 0 = holds, 1 = violated
	int replay(const std::string &path) {
		FILE *f = fopen(path.c_str(), "rb");
		if (!f) { perror(path.c_str()); return 2; }
		bytes d; int ch; while ((ch = fgetc(f)) != EOF) d.push_back(ch);
		fclose(f);
		Case c;
		if (!deser(d.data(), d.size(), c)) { fprintf(stderr, "bad case file\n"); return 2; }
		printf("replaying %s\n", describe(c).c_str()); fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			alarm((unsigned)hang_s);
			std::string why;
			bool ok = run(c, why);
			printf("%s %s\n", ok ? "holds" : "violated:", why.c_str()); fflush(stdout);
			_exit(ok ? 0 : 77);
		}
		int st; waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
		if (WIFSIGNALED(st)) printf("died with signal %d (%s)\n", WTERMSIG(st), strsignal(WTERMSIG(st)));
		return 1;
	}

	void write_result(const std::string &path, const std::string &extra = "") {
		FILE *f = fopen(path.c_str(), "w");
		if (!f) { perror(path.c_str()); exit(3); }
		fprintf(f, "{\"violations\": %d, \"replay\": %s, \"why\": %s,\n", failed ? 1 : 0, jstr(replay_path).c_str(), jstr(violation_why).c_str());
		fprintf(f, " \"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"states\": %llu, \"transitions\": %llu, \"state_set_overflow\": %llu,\n",
			(unsigned long long)tot_evals, (unsigned long long)tot_nontrivial, (unsigned long long)sh->states.load(), (unsigned long long)tot_trans, (unsigned long long)sh->overflow.load());
		fprintf(f, " \"families\": {");
		for (size_t i = 0; i < families.size(); i++) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(families[i].first).c_str(), (unsigned long long)families[i].second);
		fprintf(f, "},\n \"samples\": [");
		for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
		fprintf(f, "]%s}\n", extra.c_str());
		fclose(f);
	}
};

// A buffer with inaccessible pages on both sides. place(n, align): n bytes ending as close as possible
// to the upper guard with start % 8 == align; canaries fill the slack.
struct Guarded {
	uint8_t *base = nullptr; size_t cap = 0;
	uint8_t *cur = nullptr; size_t curn = 0;
	static constexpr uint8_t CAN = 0xC7;
	explicit Guarded(size_t capacity) {
		size_t pg = 4096; cap = (capacity + 64 + pg - 1) / pg * pg;
		uint8_t *m = (uint8_t *)mmap(nullptr, cap + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); _exit(90); }
		base = m + pg;
		mprotect(base, cap, PROT_READ | PROT_WRITE);
	}
	// high: against the upper guard; otherwise against the lower one
	uint8_t *place(size_t n, unsigned align, bool high = true) {
		if (n + 64 > cap) { fprintf(stdout, "guarded buffer too small %zu\n", n); fflush(stdout); _exit(90); }
		if (high) {
			uintptr_t s = (uintptr_t)(base + cap - n);
			s -= (s - align) & 7;
			cur = (uint8_t *)s;
		} else cur = base + align;
		curn = n;
		// canaries in the 32 bytes around (where mapped)
		for (int i = 1; i <= 32 && cur - i >= base; i++) cur[-i] = CAN;
		for (int i = 0; i < 32 && cur + n + i < base + cap; i++) cur[n + i] = CAN;
		return cur;
	}
	bool intact() const {
		for (int i = 1; i <= 32 && cur - i >= base; i++) if (cur[-i] != CAN) return false;
		for (int i = 0; i < 32 && cur + curn + i < base + cap; i++) if (cur[curn + i] != CAN) return false;
		return true;
	}
};

} // namespace mc

// Program cache (O05), failing OpenCL calls (O07), device selection (O09); stand-in runtime only.
#include <condition_variable>
#include <fstream>
#include <mutex>
#include <thread>

static const char *CACHE = "/tmp/cl842_cache.bin";
static string cache_path() { return iohook::path(CACHE); }
static void cache_clear() { iohook::hook = nullptr; string d = iohook::dir(); (void)!system(("rm -rf '" + d + "' && mkdir -p '" + d + "'").c_str()); }
static void cache_set(const bytes &b) { auto h = iohook::hook; iohook::hook = nullptr; FILE *f = fopen(cache_path().c_str(), "wb"); if (!f) { printf("cannot write the cache file\n"); fflush(stdout); _exit(90); } fwrite(b.data(), 1, b.size(), f); fclose(f); iohook::hook = h; }
static bool cache_get(bytes &b) { b.clear(); FILE *f = fopen(cache_path().c_str(), "rb"); if (!f) return false; int c; while ((c = fgetc(f)) != EOF) b.push_back(c); fclose(f); return true; }
static void quick_clear() { iohook::hook = nullptr; ::unlink(cache_path().c_str()); }

// ---- configurations of decompressors
struct Conf { int fmt; size_t chunk, stride; int kernel; int devs; const char *name; };
static const Conf CONF[] = {
	{0, 64, 128, 0, 0, "base"}, {0, 64, 136, 0, 0, "stride"}, {0, 72, 128, 0, 0, "chunk"}, {1, 128, 128, 0, 0, "maybe"}, {2, 128, 128, 0, 0, "inplace"}, {0, 128, 128, 0, 0, "always"},
	{0, 64, 128, 1, 0, "other kernel"}, {0, 64, 128, 0, 1, "other device"}, {0, 64, 128, 0, 2, "two devices"}, {0, 64, 128, 0, 3, "two devices swapped"},
	{0, 64, 128, 0, 4, "first of two devices"}, {0, 64, 128, 0, 5, "second of two devices"}, {0, 64, 128, 0, 6, "equal devices"},
};
static const int NCONF = sizeof CONF / sizeof *CONF;
static const char *KSRC; static string KSRC1;
static int submask = -1; // which of the context's devices the device decompressor is for (-1: all)
static void conf_env(const Conf &c, bool late) {
	drop_all(); fakecl::reset();
	if (!KSRC) { KSRC = LIB842_CLDECOMPRESS_KERNEL_SOURCE; KSRC1 = string(KSRC) + "\n// another version\n"; }
	LIB842_CLDECOMPRESS_KERNEL_SOURCE = c.kernel ? KSRC1.c_str() : KSRC;
	fakecl::cfg.late_reject = late; submask = -1;
	typedef vector<fakecl::Dev> D;
	D d = {{false, true, "fake cpu"}};
	switch (c.devs) {
	case 1: d = {{false, true, "fake cpv"}}; break;
	case 2: d = {{false, true, "fake cpu"}, {false, true, "b"}}; break;
	case 3: d = {{false, true, "b"}, {false, true, "fake cpu"}}; break;
	case 4: d = {{false, true, "fake cpu"}, {false, true, "b"}}; submask = 1; break;
	case 5: d = {{false, true, "fake cpu"}, {false, true, "b"}}; submask = 2; break;
	case 6: d = {{false, true, "fake cpu"}, {false, true, "fake cpu"}}; break;
	}
	fakecl::cfg.plats = {{"fake platform", d}};
}
// A small batch for a configuration. Uses the real decompressor; constructs it first when necessary.
static bool conf_use(const Conf &c, string &why, bool data = true) {
	Batch b; b.fmt = c.fmt; b.chunk = c.chunk; b.stride = c.stride; auto K = kinds(); auto M = mkinds(128, false);
	for (int i : {0, 3, 5}) b.ch.push_back(c.fmt ? Ch{M[i % 4], 128} : K[i]);
	if (c.devs == 4 || c.devs == 5) b.flags |= DEVICE;
	if (submask > 0) {
		auto D = std::make_unique<DevCtx>(); cl::vector<cl::Platform> p; cl::Platform::get(&p); cl::vector<cl::Device> all; p[0].getDevices(CL_DEVICE_TYPE_ALL, &all);
		D->ctx = cl::Context(all); for (size_t i = 0; i < all.size(); i++) if (submask >> i & 1) D->devs.push_back(all[i]);
		D->q = cl::CommandQueue(D->ctx, D->devs[0], 0); dctx = std::move(D);
	}
	(void)data;
	return run_batch(b.mk(), why);
}
static std::map<std::pair<int, int>, string> REFKEY; static std::map<int, bytes> REFCACHE;
static void ref_tables() { // programs and cache files of each configuration when there was no cache
	for (int i = 0; i < NCONF; i++) {
		quick_clear(); conf_env(CONF[i], false); string why;
		if (!conf_use(CONF[i], why)) { REFKEY[{i, 0}] = "?"; continue; }
		REFKEY[{i, 0}] = fakecl::st.launched_key;
		bytes b; cache_get(b); REFCACHE[i] = b;
	}
	quick_clear();
}
// Construct configuration i in the current environment and use it
static bool conf_step(int i, bool late, bool expect_cached, string &why, const char *when) {
	conf_env(CONF[i], late);
	if (!conf_use(CONF[i], why)) { why = string(when) + ", configuration '" + CONF[i].name + "': " + why; return false; }
	if (fakecl::st.launched_key != REFKEY[{i, 0}]) { why = string(when) + ", configuration '" + CONF[i].name + "': a program built for something else is executed"; return false; }
	if (expect_cached && fakecl::st.from_source) { why = string(when) + ", configuration '" + CONF[i].name + "': the valid program cache is not used"; return false; }
	drop_all();
	if (fakecl::live()) { why = string(when) + ": OpenCL objects leaked: " + fakecl::live_desc(); return false; }
	return true;
}

// ---- file operation faults / crashes
struct OpRec { string name; size_t n; };
static bool conf_ops(int i, vector<OpRec> &v, string &why) { // file operations of one construction
	v.clear(); iohook::hook = [&](const iohook::Op &o, size_t *) { v.push_back({o.name, o.n}); return 0; };
	bool ok = conf_step(i, false, false, why, "recording"); iohook::hook = nullptr; return ok;
}

// ---- two constructions whose file operations interleave
struct Duo {
	std::mutex m; std::condition_variable cv; int turn = -1; bool waiting[2] = {false, false}, done[2] = {false, false};
	static thread_local int id;
};
thread_local int Duo::id = -1;

static bool run_env(const Case &c, string &why) {
	static bool init = false;
	if (!init) { init = true; rlimit r = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &r); cache_clear(); ref_tables(); }
	// content: p = {configuration, late, file exists}
	if (c.kind == "content") {
		quick_clear(); if (c.p[2]) cache_set(c.a);
		ex.state(hash64(c.a.data(), c.a.size())); ex.transitions(2); ex.nontrivial(c.p[2]);
		if (!conf_step(c.p[0], c.p[1], false, why, "first use")) return false;
		return conf_step(c.p[0], c.p[1], true, why, "second use");
	}
	if (c.kind == "history") { // p = {late, configurations...}
		quick_clear();
		ex.state(hash64(c.p.data(), c.p.size() * 8)); ex.transitions(c.p.size()); ex.nontrivial(c.p.size() > 2);
		for (size_t i = 1; i < c.p.size(); i++) if (!conf_step(c.p[i], c.p[0], i > 1 && c.p[i] == c.p[i - 1], why, ("step " + num(i)).c_str())) return false;
		return true;
	}
	if (c.kind == "iofault") { // p = {configuration, cached configuration + 1 or 0, operation, errno, bytes written before failing, times}
		quick_clear(); int i = c.p[0]; if (c.p[1]) cache_set(REFCACHE[c.p[1] - 1]);
		ex.state(hash64(c.p.data(), c.p.size() * 8)); ex.transitions(3); ex.nontrivial();
		size_t k = 0; bool hit = false;
		iohook::hook = [&](const iohook::Op &o, size_t *n) -> int { size_t me = k++; if (me < c.p[2] || me >= c.p[2] + c.p[5]) return 0; hit = true; if (!strcmp(o.name, "write") && c.p[4] && c.p[4] < *n) { *n = c.p[4]; return 0; } return c.p[3]; };
		bool ok = conf_step(i, false, false, why, "file operation failing");
		iohook::hook = nullptr; if (!ok) return false;
		for (int j : {i, (i + 1) % 6, i}) if (!conf_step(j, false, false, why, "afterwards")) return false;
		return conf_step(i, false, true, why, "and again");
	}
	if (c.kind == "dir") { // p = {configuration, what}: the cache path is a directory / unreadable / its directory is gone
		cache_clear(); int i = c.p[0];
		ex.state(hash64(c.p.data(), c.p.size() * 8)); ex.transitions(2); ex.nontrivial();
		if (c.p[1] == 0) mkdir(cache_path().c_str(), 0700);
		if (c.p[1] == 1) (void)!system(("rm -rf '" + iohook::dir() + "'").c_str());
		if (c.p[1] == 2) (void)!symlink("nowhere/at/all", cache_path().c_str());
		if (c.p[1] == 3) (void)!symlink("/dev/full", cache_path().c_str());
		bool ok = conf_step(i, false, false, why, "unusable cache path") && conf_step(i, false, false, why, "unusable cache path, again");
		cache_clear(); return ok && conf_step(i, false, false, why, "afterwards");
	}
	if (c.kind == "crash") { // p = {configuration, cached configuration + 1 or 0, operation, bytes of it that were written}
		quick_clear(); int i = c.p[0]; if (c.p[1]) cache_set(REFCACHE[c.p[1] - 1]);
		string shared = iohook::dir();
		fflush(stdout);
		pid_t p = fork();
		if (!p) {
			iohook::scratch = shared; string sub = iohook::dir(); (void)sub;
			// the child works on the parent's directory
			::rmdir(sub.c_str()); if (symlink(shared.c_str(), sub.c_str())) _exit(3);
			size_t k = 0; static bool dying; dying = false;
			iohook::hook = [&](const iohook::Op &o, size_t *n) -> int { if (dying) _exit(0); if (k++ < c.p[2]) return 0; if (strcmp(o.name, "write") || !c.p[3] || c.p[3] >= *n) _exit(0); *n = c.p[3]; dying = true; return 0; };
			string w; conf_step(i, false, false, w, ""); _exit(0);
		}
		int st; waitpid(p, &st, 0); ::unlink((shared + "/" + num(p)).c_str());
		bytes b; bool have = cache_get(b); ex.state(mix(hash64(b.data(), b.size()), have)); ex.transitions(3); ex.nontrivial(have);
		if (have) cache_set(b);
		for (int j = 0; j < 6; j++) { if (have) cache_set(b); else quick_clear(); if (!conf_step(j, false, false, why, "after a crash")) return false; if (!conf_step(j, false, true, why, "after a crash, again")) return false; }
		return true;
	}
	if (c.kind == "race") { // p = {configuration A, configuration B, cached + 1 or 0, schedule bits..}: one interleaving per case prefix, explored here by DFS
		vector<int> sched; // decisions; explored depth first
		size_t count = 0; std::set<uint64_t> checked;
		// Operations on files only one of the two ever touches commute with everything the other one does: hand over
		// only at operations on files that both touch (found while exploring; the exploration starts over when they grow).
		std::set<string> used[2], shared = {CACHE}, written, mutated; // reads commute, too, unless somebody writes into the file in place
		for (;;) {
			quick_clear(); if (c.p[2]) cache_set(REFCACHE[c.p[2] - 1]);
			Duo D; string w[2]; bool ok[2] = {true, true}; vector<int> taken; vector<int> opts; size_t pos = 0;
			// Only one construction may be inside the runtime at a time: they hand over at file operations only.
			// The decompressors are built through the device interface on contexts of their own.
			conf_env(CONF[0], false);
			auto body = [&](int t) {
				Duo::id = t;
				{ std::unique_lock<std::mutex> l(D.m); D.waiting[t] = true; D.cv.notify_all(); D.cv.wait(l, [&] { return D.turn == t; }); D.waiting[t] = false; }
				const Conf &cf = CONF[c.p[t]];
				try {
					lib842::CLHostDecompressor h(cf.chunk, cf.stride, (Fmt)cf.fmt, false, false);
					uint8_t ib[512] = {0}, ob[512]; Builder bb = prefix(2); bb.end(); bytes s = cf.fmt ? marked(cf.chunk, bb.w.v, bb.w.v.size()) : bb.w.v; std::copy(s.begin(), s.end(), ib);
					size_t isz = s.size(), osz = cf.chunk; int r = 5;
					h.decompress(cf.fmt == 2 ? ib : ib, cf.fmt ? cf.chunk : isz, &isz, cf.fmt == 2 ? ib : ob, cf.chunk, &osz, nullptr, &r, nullptr);
					if (r || osz != 16 || memcmp(cf.fmt == 2 ? ib : ob, bb.out.data(), 16)) { ok[t] = false; w[t] = "wrong result"; }
					if (fakecl::st.launched_key != REFKEY[{(int)c.p[t], 0}]) { ok[t] = false; w[t] = "a program built for something else is executed"; }
				} catch (const std::exception &e) { ok[t] = false; w[t] = string("exception ") + e.what(); }
				{ std::unique_lock<std::mutex> l(D.m); D.done[t] = true; D.turn = -1; D.cv.notify_all(); }
			};
			iohook::hook = [&](const iohook::Op &o, size_t *) -> int {
				int t = Duo::id; if (t < 0) return 0;
				size_t ar = o.path.find(" -> "); bool sh = false;
				for (auto &q : ar == string::npos ? vector<string>{o.path} : vector<string>{o.path.substr(0, ar), o.path.substr(ar + 4)}) if (q.size() < 6 || q.substr(q.size() - 6) != "XXXXXX") {
					used[t].insert(q); if (!strcmp(o.name, "write") || !strncmp(o.name, "open-w", 6) || !strcmp(o.name, "open-trunc")) mutated.insert(q);
					sh |= shared.count(q) && ((strcmp(o.name, "read") && strcmp(o.name, "close")) || written.count(q));
				}
				if (!sh) return 0;
				std::unique_lock<std::mutex> l(D.m); D.waiting[t] = true; D.turn = -1; D.cv.notify_all(); D.cv.wait(l, [&] { return D.turn == t; }); D.waiting[t] = false; return 0;
			};
			std::thread A(body, 0), B(body, 1);
			for (;;) {
				std::unique_lock<std::mutex> l(D.m);
				D.cv.wait(l, [&] { return D.turn == -1 && (D.waiting[0] || D.done[0]) && (D.waiting[1] || D.done[1]); });
				vector<int> en; for (int t = 0; t < 2; t++) if (D.waiting[t]) en.push_back(t);
				if (en.empty()) break;
				int ch = pos < sched.size() ? sched[pos] : 0; if (pos >= sched.size()) sched.push_back(0);
				opts.push_back(en.size()); pos++;
				D.turn = en[ch]; D.cv.notify_all();
			}
			A.join(); B.join(); iohook::hook = nullptr; count++; ex.transitions(pos);
			for (int t = 0; t < 2; t++) if (!ok[t]) FAIL("interleaved construction of '%s': %s", CONF[c.p[t]].name, w[t].c_str());
			bytes b; bool have = cache_get(b); ex.state(mix(hash64(b.data(), b.size()), have)); ex.nontrivial();
			bool grown = false; for (auto &q : used[0]) if (used[1].count(q)) grown |= shared.insert(q).second;
			for (auto &q : mutated) if (shared.count(q)) grown |= written.insert(q).second;
			if (grown) { sched.clear(); continue; }
			if (checked.insert(mix(hash64(b.data(), b.size()), have)).second) for (int t = 0; t < 2; t++) { if (have) cache_set(b); if (!conf_step(c.p[t], false, false, why, "after interleaved constructions")) return false; if (!conf_step(c.p[t], false, true, why, "after interleaved constructions, again")) return false; }
			// next schedule
			while (!sched.empty() && sched.back() + 1 >= opts[sched.size() - 1]) sched.pop_back();
			if (sched.empty()) break;
			sched.back()++;
		}
		return true;
	}
	if (c.kind == "apifault" || c.kind == "execfault" || c.kind == "oom") { // p = {configuration, interface, failing call (launch; allocation), code (all later ones, too), cached}
		auto arm = [&](bool on) {
			if (c.kind == "oom") { oom::on = on; oom::count = 0; oom::at = c.p[2]; oom::all = c.p[3]; oom::hit = false; }
			else if (c.kind == "execfault") { fakecl::cfg.exec_fail_at = on ? (long)c.p[2] : -1; fakecl::cfg.exec_fail_code = (int)c.p[3]; }
			else { fakecl::cfg.fail_at = on ? (long)c.p[2] : -1; fakecl::cfg.fail_code = (int)c.p[3]; }
		};
		int i = c.p[0]; bool capi = c.p[1] == 2; quick_clear(); if (c.p[4]) cache_set(REFCACHE[i]);
		ex.state(hash64(c.p.data(), c.p.size() * 8)); ex.transitions(2); ex.nontrivial();
		conf_env(CONF[i], false);
		if (capi) {
			int pfd[2]; if (pipe(pfd)) _exit(90);
			fflush(stdout); pid_t p = fork();
			if (!p) { // the C interface keeps its decompressor: one process per case
				Builder b = prefix(3); b.end(); uint8_t o[64]; size_t n = 24; string w; int r = 0;
				arm(true);
				try { oom::On on; r = cl842_decompress(b.w.v.data(), b.w.v.size(), o, &n); } catch (const std::exception &e) { w = string("a C++ exception escaped: ") + e.what(); }
				if (w.empty() && (r > 0 || (r == 0 && (n != 24 || memcmp(o, b.out.data(), 24))))) w = "returned " + num(r) + " with wrong output";
				if (w.empty() && r == 0 && !fakecl::st.last_failed.empty() && fakecl::st.last_failed == "clEnqueueNDRangeKernel") w = "success although the kernel could not be run";
				if (w.empty() && r == 0 && fakecl::st.exec_failed) w = "success although the kernel did not run";
				string f = c.kind == "oom" ? "allocation" : c.kind == "execfault" ? "kernel execution" : fakecl::st.last_failed; arm(false);
				for (int k = 0; k < 2 && w.empty(); k++) { n = 24; memset(o, 0, 64); try { r = cl842_decompress(b.w.v.data(), b.w.v.size(), o, &n); } catch (const std::exception &e) { w = string("later: a C++ exception escaped: ") + e.what(); } if (w.empty() && (r || n != 24 || memcmp(o, b.out.data(), 24))) w = "a later call fails: " + num(r); }
				if (w.empty() && !fakecl::st.misuse.empty()) w = fakecl::st.misuse;
				if (!w.empty()) w += " (failing " + f + ")";
				(void)!::write(pfd[1], w.data(), w.size()); _exit(w.empty() ? 0 : 1);
			}
			::close(pfd[1]); char buf[1000]; ssize_t n = ::read(pfd[0], buf, 999); ::close(pfd[0]); int st; waitpid(p, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st)) FAIL("C interface, call %d failing: %s", (int)c.p[2], n > 0 ? string(buf, n).c_str() : "the process died");
			return true;
		}
		const Conf &cf = CONF[i]; Builder bb = prefix(2); bb.end(); bytes s = cf.fmt ? marked(cf.chunk, bb.w.v, bb.w.v.size()) : bb.w.v;
		string w, phase = "construction"; bool thrown = false;
		arm(true);
		{
			std::unique_ptr<lib842::CLHostDecompressor> h;
			for (int round = 0; round < 3 && w.empty(); round++) {
				try {
					phase = "construction"; oom::On on; if (!h) h = std::make_unique<lib842::CLHostDecompressor>(cf.chunk, cf.stride, (Fmt)cf.fmt, false, c.p[1] == 1);
					phase = "decompression";
					uint8_t ib[1024] = {0}, ob[1024]; std::copy(s.begin(), s.end(), ib);
					size_t isz[2] = {s.size(), s.size()}, osz[2] = {cf.chunk, cf.chunk}, mp[2] = {0, 1}; int r[2] = {5, 5}; long long tm = 0; size_t one = cf.fmt ? cf.chunk : isz[0];
					h->decompress(ib, one, isz, cf.fmt == 2 ? ib : ob, cf.chunk, osz, mp, r, &tm);
					if (r[0] || osz[0] != 16 || memcmp(cf.fmt == 2 ? ib : ob, bb.out.data(), 16)) w = "wrong result without an exception";
					if (w.empty() && tm != (c.p[1] == 1 ? 7 : -1)) w = "time " + num(tm) + " reported";
					if (fakecl::cfg.fail_at >= 0 && round == 0 && fakecl::st.last_failed == "clEnqueueNDRangeKernel" && w.empty()) w = "no error although the kernel could not be run";
					if (round == 0 && fakecl::st.exec_failed && w.empty()) w = "no error although the kernel did not run";
				} catch (const cl::Error &e) { thrown = true; if (round) w = string("later ") + phase + " still fails: " + e.what() + num(e.err()); }
				catch (const std::bad_alloc &e) { thrown = true; if (round || c.kind != "oom") w = "std::bad_alloc"; }
				catch (const std::exception &e) { w = string("exception that is not a cl::Error: ") + e.what(); }
				arm(false);
			}
		}
		(void)thrown;
		if (w.empty() && fakecl::live()) w = "OpenCL objects leaked: " + fakecl::live_desc();
		if (w.empty() && !fakecl::st.misuse.empty()) w = fakecl::st.misuse;
		if (!w.empty()) FAIL("failing call %d (%s, code %d): %s: %s", (int)c.p[2], fakecl::st.last_failed.c_str(), (int)c.p[3], phase.c_str(), w.c_str());
		return true;
	}
	if (c.kind == "select") { // p = kinds of platforms
		quick_clear(); conf_env(CONF[0], false);
		typedef vector<fakecl::Dev> D; fakecl::cfg.plats.clear(); int id = 0;
		auto nm = [&](const char *x) { return string(x) + num(id++); };
		for (auto k : c.p) {
			D d;
			switch (k) {
			case 0: break;
			case 1: d = {{false, true, nm("cpu")}}; break;
			case 2: d = {{true, true, nm("gpu")}}; break;
			case 3: d = {{false, false, nm("cpu-off")}}; break;
			case 4: d = {{true, false, nm("gpu-off")}}; break;
			case 5: d = {{false, true, nm("cpu")}, {true, true, nm("gpu")}}; break;
			case 6: d = {{true, false, nm("gpu-off")}, {true, true, nm("gpu")}}; break;
			case 7: d = {{true, true, nm("gpu")}, {true, true, nm("gpu")}, {true, false, nm("gpu-off")}}; break;
			case 8: d = {{true, false, nm("gpu-off")}, {false, true, nm("cpu")}, {false, true, nm("cpu")}}; break;
			}
			fakecl::cfg.plats.push_back({"p" + num(fakecl::cfg.plats.size()), d});
		}
		string exp; for (bool gpu : {true, false}) { for (auto &p : fakecl::cfg.plats) { for (auto &d : p.devs) if (d.gpu == gpu && d.available) exp += d.name + ";"; if (!exp.empty()) break; } if (!exp.empty()) break; }
		ex.state(hash64(c.p.data(), c.p.size() * 8)); ex.transitions(c.p.size() + 1); ex.nontrivial(!exp.empty());
		for (int verbose = 0; verbose < 2; verbose++) {
			string w; fakecl::st.queue_device.clear(); fakecl::st.ctx_devices.clear();
			try {
				lib842::CLHostDecompressor h(64, 128, (Fmt)0, verbose, false);
				if (exp.empty()) FAIL("a decompressor could be constructed without any available device");
				if (fakecl::st.ctx_devices != exp) FAIL("devices %s used instead of %s", fakecl::st.ctx_devices.c_str(), exp.c_str());
				if (fakecl::st.queue_device != exp.substr(0, exp.find(';'))) FAIL("the queue is on device %s", fakecl::st.queue_device.c_str());
				uint8_t ob[64]; Builder bb = prefix(2); bb.end(); size_t isz = bb.w.v.size(), osz = 64; int r = 5;
				h.decompress(bb.w.v.data(), isz, &isz, ob, 64, &osz, nullptr, &r, nullptr);
				if (r || osz != 16 || memcmp(ob, bb.out.data(), 16)) FAIL("wrong result");
			} catch (const cl::Error &e) { if (!exp.empty()) FAIL("cl::Error %d although device %s is available", e.err(), exp.c_str()); if (!c.p.empty() && e.err() != CL_DEVICE_NOT_FOUND) FAIL("cl::Error %d instead of CL_DEVICE_NOT_FOUND", e.err()); }
			catch (const std::exception &e) { FAIL("exception %s", e.what()); }
			if (fakecl::live()) FAIL("OpenCL objects leaked: %s", fakecl::live_desc().c_str());
		}
		return true;
	}
	printf("unknown case kind %s\n", c.kind.c_str()); fflush(stdout); _exit(90);
}

// The tables need working decompressors: without them, only the smallest case is executed (and will fail)
static bool env_tables() {
	cache_clear(); fflush(stdout); pid_t p = fork(); if (!p) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); ref_tables(); _exit(0); }
	int st; waitpid(p, &st, 0); cache_clear();
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { ex.family("the first use", [&](Explorer &e) { for (int i = 0; i < NCONF; i++) if (e.mine()) e.exec(Case{"content", {(uint64_t)i, 0, 0}, {}, {}}); }); return false; }
	ref_tables(); drop_all(); fakecl::reset(); return true;
}
static int O05() {
	if (!env_tables()) return 0;
	bool ok = true;
	auto exec = [](Explorer &e, int i, bool late, bool exists, const bytes &b) { e.exec(Case{"content", {(uint64_t)i, late, exists}, b, {}}); };
	ok = ok && ex.family("histories of configurations", [&](Explorer &e) {
		int D = DEEP ? 4 : 3;
		for (int d = 1; d <= D; d++) { size_t tot = 1; for (int i = 0; i < d; i++) tot *= NCONF; for (size_t s = 0; s < tot; s++) for (int late = 0; late < 2; late++) if (e.mine()) { Case c{"history", {(uint64_t)late}, {}, {}}; size_t x = s; for (int i = 0; i < d; i++) { c.p.push_back(x % NCONF); x /= NCONF; } e.exec(c); } }
	});
	ok = ok && ex.family("unusable cache paths", [&](Explorer &e) { for (int i : {0, 3, 8, 11}) for (int w = 0; w < 4; w++) if (e.mine()) e.exec(Case{"dir", {(uint64_t)i, (uint64_t)w}, {}, {}}); });
	ok = ok && ex.family("every truncation of the cache file", [&](Explorer &e) {
		for (int i : {0, 3, 8, 11}) for (int late = 0; late < 2; late++) { const bytes &b = REFCACHE[i]; if (e.mine()) exec(e, i, late, false, {}); for (size_t n = 0; n <= b.size(); n += n < 260 || n + 80 > b.size() ? 1 : 97) if (e.mine()) exec(e, i, late, true, bytes(b.begin(), b.begin() + n)); }
	});
	auto meta = [&](int i) { const bytes &b = REFCACHE[i]; static const char M[] = "FAKEBIN1"; size_t m = std::search(b.begin(), b.end(), M, M + 8) - b.begin(); return m; };
	ok = ok && ex.family("every value of every byte of the metadata", [&](Explorer &e) {
		for (int i : {0, 8}) { const bytes &b = REFCACHE[i]; size_t m = meta(i); for (size_t k = 0; k < m; k++) for (int v = 1; v < 256; v += DEEP || i == 0 ? 1 : 5) if (e.mine()) { bytes t = b; t[k] ^= v; exec(e, i, v & 1, true, t); } }
	});
	ok = ok && ex.family("boundary values at every 4- and 8-byte position of the metadata", [&](Explorer &e) {
		vector<uint64_t> V = {0, 1, 2, 7, 8, 9, 255, 4096, 8999, 9000, 9001, 9100, 1u << 20, 0x7fffffff, 0x80000000u, 0xffffffffu, 1ull << 32, 1ull << 40, 1ull << 47, (1ull << 62) - 1, 1ull << 62, (1ull << 63) - 1, 1ull << 63, ~0ull, ~0ull - 8};
		for (int i : {0, 3, 8, 12}) { const bytes &b = REFCACHE[i]; size_t m = meta(i); for (size_t k = 0; k + 4 <= m; k++) for (auto v : V) for (size_t w : {4, 8}) if (k + w <= b.size() && e.mine()) { bytes t = b; memcpy(&t[k], &v, w); exec(e, i, v & 1, true, t); bytes u(t.begin(), t.begin() + std::min(t.size(), k + w + (v % 13))); exec(e, i, false, true, u); } }
		// second binary's size of the two-device cache
		for (auto v : V) if (e.mine()) { bytes t = REFCACHE[8]; size_t m = meta(8) + 9000; if (t.size() >= m + 8) { memcpy(&t[m], &v, 8); exec(e, 8, false, true, t); } }
	});
	ok = ok && ex.family("foreign contents", [&](Explorer &e) {
		for (int v = 0; v < 256; v++) for (size_t n : {1, 8, 32, 36, 64, 1000, 100000}) if (e.mine()) exec(e, 0, v & 1, true, bytes(n, v));
		for (int i = 0; i < NCONF; i++) for (int j = 0; j < NCONF; j++) if (e.mine() && REFCACHE.count(j)) { exec(e, i, true, true, REFCACHE[j]); bytes t = REFCACHE[j]; t.insert(t.end(), REFCACHE[i].begin(), REFCACHE[i].end()); exec(e, i, false, true, t); }
	});
	ok = ok && ex.family("every failing file operation", [&](Explorer &e) {
		for (int i : {0, 3, 8}) for (int cached : {0, 1, i + 1}) {
			quick_clear(); if (cached) cache_set(REFCACHE[cached - 1]);
			vector<OpRec> ops; string w; if (!conf_ops(i, ops, w)) ops.resize(12);
			for (size_t k = 0; k < ops.size() + 1; k++) for (int err : {EIO, ENOSPC, EACCES, ENOENT, EMFILE}) for (size_t torn : {0, 1, 30, 100, 8000, 8191}) for (int times : {1, 2, 1000}) if (e.mine()) e.exec(Case{"iofault", {(uint64_t)i, (uint64_t)cached, k, (uint64_t)err, torn, (uint64_t)times}, {}, {}});
		}
	});
	ok = ok && ex.family("crash at every file operation, with every torn write", [&](Explorer &e) {
		for (int i : {0, 3}) for (int cached : {0, 2, i + 1}) {
			quick_clear(); if (cached) cache_set(REFCACHE[cached - 1]);
			vector<OpRec> ops; string w; if (!conf_ops(i, ops, w)) ops.resize(12);
			for (size_t k = 0; k < ops.size(); k++) { if (e.mine()) e.exec(Case{"crash", {(uint64_t)i, (uint64_t)cached, k, 0}, {}, {}}); if (ops[k].name == "write") for (size_t n = 1; n < ops[k].n; n += n < 150 || n + 10 > ops[k].n ? DEEP ? 1 : 3 : 311) if (e.mine()) e.exec(Case{"crash", {(uint64_t)i, (uint64_t)cached, k, n}, {}, {}}); }
		}
	});
	ok = ok && ex.family("two constructions, every interleaving of their file operations", [&](Explorer &e) {
		int n = 0; for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) for (int cached : {0, 1, 2, 4}) { n++; if (e.mine()) e.exec(Case{"race", {(uint64_t)a, (uint64_t)b, (uint64_t)cached}, {}, {}}); }
	});
	return ok;
}
static int O07() {
	if (!env_tables()) return 0;
	bool ok = true;
	ok = ok && ex.family("every failing OpenCL call x error code, failing kernel executions, failing allocations", [&](Explorer &e) {
		for (int i : {0, 3, 4, 8}) for (int iface = 0; iface < 3; iface++) for (int cached = 0; cached < 2; cached++) {
			if (iface == 2 && i) continue;
			for (uint64_t k = 0; k < 2; k++) for (int code : {-5, -6, -14, -1, -1001}) if (e.mine()) e.exec(Case{"execfault", {(uint64_t)i, (uint64_t)iface, k, (uint64_t)(int64_t)code, (uint64_t)cached}, {}, {}});
			for (uint64_t k = 0; k < 250; k++) for (int all = 0; all < 2; all++) if (e.mine()) e.exec(Case{"oom", {(uint64_t)i, (uint64_t)iface, k, (uint64_t)all, (uint64_t)cached}, {}, {}});
			for (uint64_t k = 0; k < (iface == 2 ? 70u : 90u); k++) for (int code : {-5, -6, -1, -11, -30, -42, -1001}) if (e.mine()) e.exec(Case{"apifault", {(uint64_t)i, (uint64_t)iface, k, (uint64_t)(int64_t)code, (uint64_t)cached}, {}, {}});
		}
	});
	return ok;
}
static int O09() {
	if (!env_tables()) return 0;
	bool ok = true;
	ok = ok && ex.family("every combination of platforms and devices", [&](Explorer &e) {
		int D = DEEP ? 5 : 4;
		for (int d = 0; d <= D; d++) { size_t tot = 1; for (int i = 0; i < d; i++) tot *= 9; for (size_t s = 0; s < tot; s++) if (e.mine()) { Case c{"select", {}, {}, {}}; size_t x = s; for (int i = 0; i < d; i++) { c.p.push_back(x % 9); x /= 9; } e.exec(c); } }
	});
	return ok;
}

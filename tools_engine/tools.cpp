// Exploration of the build-time tools (properties T01, T02).
#include "../common/mc.hpp"
#include <dlfcn.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace mc;
using std::string; using std::vector;
extern char **environ;
static Explorer ex; static bool DEEP; static string B, SCR, REPO;
#define FAIL(...) do { char _b[900]; snprintf(_b, sizeof(_b), __VA_ARGS__); why = _b; return false; } while (0)
extern "C" { extern const uint32_t (*TBL_a_le)[256], (*TBL_b_le)[256], (*TBL_a_be)[256], (*TBL_b_be)[256]; extern int ROWS_a_le, ROWS_b_le, ROWS_a_be, ROWS_b_be; }
static void die(const char *s) { printf("%s\n", s); fflush(stdout); _exit(90); }
static string dir() { string d = SCR + "/" + std::to_string(getpid()); mkdir(d.c_str(), 0700); return d; }
static void put(const string &f, const void *p, size_t n) { FILE *o = fopen(f.c_str(), "wb"); if (!o || fwrite(p, 1, n, o) != n || fclose(o)) die("scratch file"); }
static bool get(const string &f, string &s) { s.clear(); FILE *i = fopen(f.c_str(), "rb"); if (!i) return false; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return true; }
// exit status, or 1000 + signal
static int run(vector<string> a, long limit = -1) {
	pid_t p;
	if (limit < 0) {
		vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
		posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
		if (posix_spawn(&p, a[0].c_str(), &fa, nullptr, v.data(), environ)) die("spawn");
		posix_spawn_file_actions_destroy(&fa);
	} else {
		p = fork();
		if (!p) { rlimit c = {0, 0}; setrlimit(RLIMIT_CORE, &c); signal(SIGXFSZ, SIG_IGN); rlimit r = {(rlim_t)limit, (rlim_t)limit}; setrlimit(RLIMIT_FSIZE, &r); int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 2); vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr); execv(a[0].c_str(), v.data()); _exit(99); }
	}
	int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
// Texts embedded with the tool, compiled, loaded and compared. p = lengths, a = the texts
static bool run_embed(const Case &c, string &why) {
	string d = dir(), all, gen; vector<string> texts; size_t o = 0;
	for (auto n : c.p) { texts.push_back(string((const char *)c.a.data() + o, n)); o += n; }
	for (size_t i = 0; i < texts.size(); i++) {
		put(d + "/in", texts[i].data(), texts[i].size()); unlink((d + "/out.c").c_str());
		int r = run({B + "/cl2c", d + "/in", d + "/out.c", "V" + std::to_string(i)});
		if (r) FAIL("text %zu: the tool ended with %d", i, r);
		if (!get(d + "/out.c", gen)) FAIL("text %zu: no output", i);
		all += gen; ex.state(hash64(texts[i].data(), texts[i].size())); ex.transitions(texts[i].size()); ex.nontrivial(!texts[i].empty());
	}
	put(d + "/all.c", all.data(), all.size());
	if (run({"/usr/bin/gcc", "-std=gnu11", "-w", "-O0", "-fPIC", "-shared", "-o", d + "/all.so", d + "/all.c"})) {
		if (texts.size() > 1) { // which one?
			for (size_t i = 0; i < texts.size(); i++) { Case k{"embed", {texts[i].size()}, bytes(texts[i].begin(), texts[i].end()), {}}; string w; if (!run_embed(k, w)) { why = "text " + std::to_string(i) + ": " + w; return false; } }
		}
		FAIL("the generated source does not compile (text %s)", hex(bytes(texts[0].begin(), texts[0].end()), 200).c_str());
	}
	void *h = dlopen((d + "/all.so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) die(dlerror());
	for (size_t i = 0; i < texts.size(); i++) {
		auto v = (const char **)dlsym(h, ("V" + std::to_string(i)).c_str()); if (!v || !*v) FAIL("text %zu: the variable is missing", i);
		if (strcmp(*v, texts[i].c_str())) { size_t k = 0; while ((*v)[k] == texts[i][k]) k++; FAIL("text %zu (%s) differs at byte %zu", i, hex(bytes(texts[i].begin(), texts[i].end()), 100).c_str(), k); }
	}
	dlclose(h); unlink((d + "/all.so").c_str());
	return true;
}
// A failing environment. p = {what, size limit}, a = text
static bool run_fault(const Case &c, string &why) {
	string d = dir(), in = d + "/in", out = d + "/fout.c", full, part; ex.transitions(1); ex.nontrivial(); ex.state(hash64(c.p.data(), 16) ^ hash64(c.a.data(), c.a.size()));
	put(in, c.a.data(), c.a.size()); unlink(out.c_str()); int r;
	switch (c.p[0]) {
	case 0: r = run({B + "/cl2c", d + "/missing", out, "V"}); if (!r) FAIL("success although the input file does not exist"); break;
	case 1: r = run({B + "/cl2c", d, out, "V"}); if (!r) FAIL("success although the input is a directory"); break;
	case 2: r = run({B + "/cl2c", in, d + "/no/such/dir.c", "V"}); if (!r) FAIL("success although the output cannot be created"); break;
	case 3: r = run({B + "/cl2c", in, "/dev/full", "V"}); if (!r) FAIL("success although nothing could be written"); break;
	case 4: for (int k = 0; k < 3; k++) { vector<string> v = {B + "/cl2c", in, out, "V"}; v.resize(k + 1); if (!run(v)) FAIL("success with %d arguments", k); } if (!run({B + "/cl2c", in, out, "V", "W"})) FAIL("success with 4 arguments"); break;
	case 5: // the output file can only take the first p[1] bytes
		if (run({B + "/cl2c", in, out, "V"}) || !get(out, full)) FAIL("fails without a reason");
		if (c.p[1] >= full.size() + 2) return true;
		unlink(out.c_str()); r = run({B + "/cl2c", in, out, "V"}, c.p[1]); get(out, part);
		if (!r && part != full) FAIL("success although only %zu of %zu bytes could be written", part.size(), full.size());
		if (r && c.p[1] >= full.size()) FAIL("fails (%d) although everything could be written", r);
		break;
	}
	return true;
}
// One entry of the table. p = {row, byte}
static bool run_entry(const Case &c, string &why) {
	int j = c.p[0], i = c.p[1]; uint32_t crc = (uint32_t)i << 24;
	for (int b = 0; b < 8 * (j + 1); b++) { crc = crc & 0x80000000u ? crc << 1 ^ 0x04c11db7u : crc << 1; ex.state(mix(crc, 7)); } // the register of the definition, bit by bit
	ex.transitions(8 * (j + 1)); ex.nontrivial(i != 0);
	if (ROWS_a_le != 8 || ROWS_b_le != 8 || ROWS_a_be != 8 || ROWS_b_be != 8) FAIL("the table does not have 8 rows");
	uint32_t sw = __builtin_bswap32(crc);
	if (TBL_b_le[j][i] != sw) FAIL("checked-in table [%d][%d] is %08x instead of %08x", j, i, TBL_b_le[j][i], sw);
	if (TBL_a_le[j][i] != sw) FAIL("generated table [%d][%d] is %08x instead of %08x", j, i, TBL_a_le[j][i], sw);
	if (TBL_b_be[j][i] != crc) FAIL("checked-in table, big endian, [%d][%d] is %08x instead of %08x", j, i, TBL_b_be[j][i], crc);
	if (TBL_a_be[j][i] != crc) FAIL("generated table, big endian, [%d][%d] is %08x instead of %08x", j, i, TBL_a_be[j][i], crc);
	return true;
}
static bool run_case(const Case &c, string &why) { if (c.kind == "embed") return run_embed(c, why); if (c.kind == "fault") return run_fault(c, why); return run_entry(c, why); }

struct Batch { // cases are executed in batches; all workers enumerate alike
	Explorer &e; size_t max; Case c{"embed", {}, {}, {}};
	void add(const string &s) { c.p.push_back(s.size()); c.a.insert(c.a.end(), s.begin(), s.end()); if (c.p.size() >= max) flush(); }
	void flush() { if (c.p.empty()) return; if (e.mine()) e.exec(c); c.p.clear(); c.a.clear(); }
};
static void T01() {
	ex.family("every text over the special characters up to a length", [&](Explorer &e) {
		vector<string> A = {"\"", "\\", "\n", "?", "/", "a", "0", "\t", "\xc3\xa9", "%"}; // ??/ is a trigraph in standard C; \0 \x.. octal and hexadecimal escapes
		Batch b{e, 300}; int L = DEEP ? 5 : 4;
		for (int n = 0; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= A.size(); for (size_t s = 0; s < tot; s++) { string t; size_t x = s; for (int i = 0; i < n; i++) { t += A[x % A.size()]; x /= A.size(); } b.add(t); } }
		b.flush();
	});
	ex.family("every pair of characters (bytes)", [&](Explorer &e) {
		Batch b{e, 300}; vector<int> C; for (int i = 1; i < 256; i++) C.push_back(i); // every byte but NUL, also those no text has
		for (int x : C) for (int y : C) if (DEEP || (x >= 32 && x < 127 && y >= 32 && y < 127) || strchr("\t\n\r\"\\?a0", x) || strchr("\t\n\r\"\\?a0", y)) { b.add(string(1, x) + string(1, y)); if (DEEP) b.add("\\" + string(1, x) + string(1, y) + "\""); } b.flush();
	});
	ex.family("every character outside ASCII of two bytes, and limits of longer ones", [&](Explorer &e) {
		Batch b{e, 300}; for (int x = 0xc2; x < 0xe0; x++) for (int y = 0x80; y < 0xc0; y++) b.add(string("\"") + (char)x + (char)y + "\\");
		for (const char *s : {"\xe0\xa0\x80", "\xe2\x82\xac", "\xef\xbf\xbd", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xef\xbb\xbf"}) { b.add(s); b.add(string("a") + s + "\n"); } b.flush();
	});
	ex.family("long lines and many lines", [&](Explorer &e) {
		Batch b{e, 40}; for (size_t n : {100, 509, 510, 4095, 4096, 8191, 8192, 8193, 70000}) { b.add(string(n, 'x')); b.add(string(n, '\n')); b.add(string(n, '"')); b.add(string(n, '\\')); string t; for (size_t i = 0; i < n; i++) t += i % 7 == 6 ? '\n' : "a\\\"b?"[i % 5]; b.add(t); } b.flush();
	});
	ex.family("the shipped files", [&](Explorer &e) {
		for (const char *f : {"/src/common/842.h", "/src/ocl/decompress.cl", "/src/common/endianness.h", "/src/tools/cl2c.cpp", "/README.md"}) { string s; if (get(REPO + f, s) && e.mine()) e.exec(Case{"embed", {s.size()}, bytes(s.begin(), s.end()), {}}); }
	});
	ex.family("failing environment", [&](Explorer &e) {
		string s1 = "a\nb\"c\\", s2; for (int i = 0; i < 3000; i++) s2 += i % 60 == 59 ? "\n" : "\\x\"";
		for (auto &s : {string(), s1, s2}) { bytes t(s.begin(), s.end()); for (int w = 0; w < 5; w++) if (e.mine()) e.exec(Case{"fault", {(uint64_t)w, 0}, t, {}}); for (size_t n = 0; n < 2 * s.size() + 800; n += s.size() < 100 || DEEP ? 1 : 23) if (e.mine()) e.exec(Case{"fault", {5, n}, t, {}}); }
		for (int d = -3; d <= 3; d++) for (int k : {4096, 8191, 8192, 16384}) if (e.mine()) e.exec(Case{"fault", {5, (uint64_t)(k + d)}, bytes(s2.begin(), s2.end()), {}});
	});
}
static void T02() { ex.family("every entry of the tables", [&](Explorer &e) { for (uint64_t j = 0; j < 8; j++) for (uint64_t i = 0; i < 256; i++) if (e.mine()) e.exec(Case{"entry", {j, i}, {}, {}}); }); }
int main(int argc, char **argv) {
	if (argc < 4) return 2;
	ex.property = argv[1]; ex.tier = argv[2]; ex.run = run_case; DEEP = ex.tier == "thorough";
	const char *od = getenv("MC_OUT"), *bd = getenv("MC_BUILD"), *rd = getenv("REPO"); ex.outdir = od ? od : "/tmp"; B = bd ? bd : "."; REPO = rd ? rd : "/repo";
	SCR = "/tmp/mc-tools-" + std::to_string(getpid()); mkdir(SCR.c_str(), 0700); ex.set_bits = 22; ex.hang_s = 120;
	static pid_t owner = getpid(); atexit([] { if (getpid() == owner) (void)!system(("rm -rf '" + SCR + "'").c_str()); });
	if (ex.tier == "replay") { ex.workers = 1; return ex.replay(argv[3]); }
	ex.init();
	if (ex.property == "T01") T01(); else if (ex.property == "T02") T02(); else return 2;
	ex.write_result(argv[3]); return ex.failed ? 1 : 0;
}

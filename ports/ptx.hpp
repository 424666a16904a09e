// Interpreter of the subset of PTX that inline assembly uses.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
namespace ptx {
struct Opnd { void *p; uint64_t v; int w; };
template <class T> inline Opnd Ref(T &x, int w) { return {&x, (uint64_t)x, (int)sizeof(T) < w ? (int)sizeof(T) : w}; }
inline Opnd Val(uint64_t v, int w) { return {nullptr, w == 8 ? v : v & ((1ull << 8 * w) - 1), w}; }
[[noreturn]] inline void bad(const std::string &s) { printf("PTX not understood: %s\n", s.c_str()); fflush(stdout); _exit(90); }
struct Arg { enum { REG, IMM, MEM, PACK } k; int r = 0; int64_t imm = 0; std::vector<int> pack; };
struct Ins { int pred = -1; bool neg = false; std::vector<std::string> op; std::vector<Arg> a; int kind = 0, w = 0, w2 = 0; };
enum { MOV, PRMT, SETP_LS, SETP_LO, SETP_HI, SETP_HS, SETP_EQ, SETP_NE, LD, CVT, SHL, SHR, ADD, SUB, MUL, OR, AND, XOR, SELP, NOT };
struct Prog {
	std::vector<Ins> v; int nops, nregs; std::vector<int> width;
	std::map<std::string, int> names;
	static int bits(const std::string &t) { int n = atoi(t.c_str() + 1); if (!strchr("bus", t[0]) || (n != 8 && n != 16 && n != 32 && n != 64)) bad(t); return n; }
	int reg(const std::string &n) { auto it = names.find(n); if (it == names.end()) bad("register " + n); return it->second; }
	Arg arg(std::string s) {
		Arg a; if (s[0] == '{') { a.k = Arg::PACK; s = s.substr(1, s.size() - 2); for (size_t i = 0; i <= s.size();) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); a.pack.push_back(reg(s.substr(i, j - i))); i = j + 1; } return a; }
		if (s[0] == '[') { a.k = Arg::MEM; s = s.substr(1, s.size() - 2); size_t p = s.find('+'); a.r = reg(s.substr(0, p)); a.imm = p == std::string::npos ? 0 : atoll(s.c_str() + p + 1); return a; }
		if (s[0] == '%') { a.k = Arg::REG; a.r = reg(s); return a; }
		char *e; a.k = Arg::IMM; a.imm = strtoll(s.c_str(), &e, 0); if (*e) bad(s); return a;
	}
	Prog(const char *text, int nops) : nops(nops) {
		for (int i = 0; i < nops; i++) { names["%" + std::to_string(i)] = i; width.push_back(64); }
		std::string t; for (const char *c = text; *c; c++) { if (c[0] == '/' && c[1] == '/') { while (*c && *c != '\n') c++; if (!*c) break; continue; } if (c[0] == '%' && c[1] == '%') c++; t += *c; }
		// statements end with ';'; the outermost braces are a scope
		std::string s; int depth = 0; std::vector<std::string> st;
		for (size_t i = 0; i < t.size(); i++) {
			char c = t[i];
			if (c == '{' && s.find_first_not_of(" \t\n") == std::string::npos) { depth++; continue; }
			if (c == '}' && s.find_first_not_of(" \t\n") == std::string::npos) { depth--; continue; }
			if (c == ';') { st.push_back(s); s.clear(); continue; }
			s += c;
		}
		if (s.find_first_not_of(" \t\n") != std::string::npos) bad(s);
		for (auto &q : st) parse(q);
		nregs = width.size(); if (nregs > 64) bad("too many registers");
	}
	void parse(std::string q) {
		size_t b = q.find_first_not_of(" \t\n"); if (b == std::string::npos) return; q = q.substr(b);
		Ins in;
		if (q[0] == '@') { size_t e = q.find_first_of(" \t\n"); std::string p = q.substr(1, e - 1); if (p[0] == '!') { in.neg = true; p = p.substr(1); } in.pred = reg(p); q = q.substr(q.find_first_not_of(" \t\n", e)); }
		size_t e = q.find_first_of(" \t\n"); std::string m = q.substr(0, e), rest; for (size_t i = e; i < q.size(); i++) if (!strchr(" \t\n", q[i])) rest += q[i];
		for (size_t i = 0; i <= m.size();) { size_t j = m.find('.', i); if (j == std::string::npos) j = m.size(); in.op.push_back(m.substr(i, j - i)); i = j + 1; }
		auto &o = in.op;
		if (m.compare(0, 4, ".reg") == 0) { // declaration: .reg .b32 %a,%b or the type is in the rest
			std::string ty = rest.substr(1, rest.find('%') - 1); int w = ty == "pred" ? 1 : bits(ty); rest = rest.substr(rest.find('%'));
			for (size_t i = 0; i <= rest.size();) { size_t j = rest.find(',', i); if (j == std::string::npos) j = rest.size(); names[rest.substr(i, j - i)] = width.size(); width.push_back(w); i = j + 1; }
			return;
		}
		int d = 0; std::string cur; for (char c : rest) { if (c == '{' || c == '[') d++; if (c == '}' || c == ']') d--; if (c == ',' && !d) { in.a.push_back(arg(cur)); cur.clear(); } else cur += c; } if (!cur.empty()) in.a.push_back(arg(cur));
		const std::string &k = o[0]; in.w = bits(o.back()); size_t n = in.a.size(), want = 3;
		if (k == "mov" || k == "not") { in.kind = k == "mov" ? MOV : NOT; want = 2; }
		else if (k == "prmt") { in.kind = PRMT; want = 4; }
		else if (k == "setp") { static const std::map<std::string, int> C = {{"ls", SETP_LS}, {"le", SETP_LS}, {"lo", SETP_LO}, {"lt", SETP_LO}, {"hi", SETP_HI}, {"gt", SETP_HI}, {"hs", SETP_HS}, {"ge", SETP_HS}, {"eq", SETP_EQ}, {"ne", SETP_NE}}; if (!C.count(o[1]) || o.back()[0] == 's') bad(m); in.kind = C.at(o[1]); }
		else if (k == "ld") { in.kind = LD; want = 2; if (n > 1 && in.a[1].k != Arg::MEM) bad(q); }
		else if (k == "cvt") { in.kind = CVT; want = 2; if (o.back()[0] == 's') bad(m); in.w2 = in.w; in.w = bits(o[o.size() - 2]); }
		else if (k == "shl") in.kind = SHL; else if (k == "shr" && o.back()[0] != 's') in.kind = SHR;
		else if (k == "add") in.kind = ADD; else if (k == "sub") in.kind = SUB; else if (k == "mul" && o[1] == "lo") in.kind = MUL;
		else if (k == "or") in.kind = OR; else if (k == "and") in.kind = AND; else if (k == "xor") in.kind = XOR;
		else if (k == "selp") { in.kind = SELP; want = 4; }
		else bad(q);
		if (n != want) bad(q);
		v.push_back(in);
	}
	static uint64_t mask(int w) { return w == 64 ? ~0ull : (1ull << w) - 1; }
	void run(std::initializer_list<Opnd> ops) const {
		uint64_t R[64]; memset(R, 0xA5, sizeof R); // registers start undefined
		int i = 0; for (auto &o : ops) R[i++] = o.v;
		for (auto &n : v) {
			if (n.pred >= 0 && ((R[n.pred] & 1) != 0) == n.neg) continue;
			auto get = [&](int k, int w) -> uint64_t { auto &a = n.a[k]; if (a.k == Arg::REG) return R[a.r] & mask(w); if (a.k == Arg::IMM) return a.imm & mask(w);
				if (a.k == Arg::PACK) { uint64_t x = 0; int each = w / a.pack.size(); for (size_t q = 0; q < a.pack.size(); q++) x |= (R[a.pack[q]] & mask(each)) << (each * q); return x; } bad("operand"); };
			auto put = [&](uint64_t x, int w) { auto &a = n.a[0]; if (a.k == Arg::REG) { R[a.r] = x & mask(w); return; }
				if (a.k == Arg::PACK) { int each = w / a.pack.size(); for (size_t q = 0; q < a.pack.size(); q++) R[a.pack[q]] = x >> (each * q) & mask(each); return; } bad("destination"); };
			int w = n.w;
			switch (n.kind) {
			case MOV: put(get(1, w), w); break; case NOT: put(~get(1, w), w); break;
			case PRMT: { uint64_t ab = get(1, 32) | get(2, 32) << 32, s = get(3, 32), x = 0; for (int q = 0; q < 4; q++) { int c = s >> (4 * q) & 15; uint64_t byte = ab >> (8 * (c & 7)) & 255; if (c & 8) byte = byte & 128 ? 255 : 0; x |= byte << (8 * q); } put(x, 32); break; }
			case SETP_LS: put(get(1, w) <= get(2, w), 1); break; case SETP_LO: put(get(1, w) < get(2, w), 1); break;
			case SETP_HI: put(get(1, w) > get(2, w), 1); break; case SETP_HS: put(get(1, w) >= get(2, w), 1); break;
			case SETP_EQ: put(get(1, w) == get(2, w), 1); break; case SETP_NE: put(get(1, w) != get(2, w), 1); break;
			case LD: { uint64_t ad = R[n.a[1].r] + n.a[1].imm, x = 0; memcpy(&x, (const void *)ad, w / 8); put(x, w); break; }
			case CVT: put(get(1, n.w2), w); break;
			case SHL: { uint64_t c = get(2, 32); put(c >= (uint64_t)w ? 0 : get(1, w) << c, w); break; } // shift counts are clamped
			case SHR: { uint64_t c = get(2, 32); put(c >= (uint64_t)w ? 0 : get(1, w) >> c, w); break; }
			case ADD: put(get(1, w) + get(2, w), w); break; case SUB: put(get(1, w) - get(2, w), w); break; case MUL: put(get(1, w) * get(2, w), w); break;
			case OR: put(get(1, w) | get(2, w), w); break; case AND: put(get(1, w) & get(2, w), w); break; case XOR: put(get(1, w) ^ get(2, w), w); break;
			case SELP: put(R[n.a[3].r] & 1 ? get(1, w) : get(2, w), w); break;
			}
		}
		i = 0; for (auto &o : ops) { if (o.p) memcpy(o.p, &R[i], o.w); i++; }
	}
};
}

#pragma once
#include <deque>
extern bool hls_blocked;
struct hls_block {};
namespace hls {
template <class T> struct stream {
	std::deque<T> q; size_t reads = 0, writes = 0;
	T read() { if (q.empty()) { hls_blocked = true; throw hls_block(); } T t = q.front(); q.pop_front(); reads++; return t; }
	void write(const T &t) { q.push_back(t); if (++writes > 100000) { hls_blocked = true; throw hls_block(); } }
	void read(T &t) { t = read(); }
	bool read_nb(T &t) { if (q.empty()) return false; t = read(); return true; }
	bool write_nb(const T &t) { write(t); return true; }
	bool full() const { return false; }
	size_t size() const { return q.size(); }
	stream(const char * = nullptr) {}
	bool empty() const { return q.empty(); }
	void operator>>(T &t) { t = read(); }
	void operator<<(const T &t) { write(t); }
};
}

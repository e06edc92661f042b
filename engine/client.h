// Client side of the simulated world: request builders, strict response parser, reference map.
#pragma once
#include "mc.h"
#include <algorithm>
#include <stdio.h>
#include <stdlib.h>

// ---------------------------------------------------------------- boot
inline std::vector<str> args(std::vector<str> extra = {}) {
	std::vector<str> a = {"scache", "-r", "/db", "-b", "127.0.0.1:8000", "-B", "127.0.0.1:8001"};
	a.insert(a.end(), extra.begin(), extra.end()); return a;
}
inline void need_running(const char* when) {
	if (w.status == ST_RUNNING) return;
	if (w.status == ST_SIGNALED) violation("the server was killed by signal %d %s", w.exit_code, when);
	violation("the server ended with exit status %d %s", w.exit_code, when);
}
struct Killed {};                // the driver asked for the server to be killed here
struct Ended {};                 // the server ended after the driver asked it to
inline void run() { sut_run(); if (env.may_end && env.stop_sent && w.status == ST_RUNNING) { advance(600000); sut_run(); } if (env.may_end && w.status == ST_EXITED) throw Ended(); if (w.status == ST_CRASHED) throw Killed(); need_running("while serving"); }
inline void boot(const std::vector<str>& argv) { sut_boot(argv); if (env.may_end && w.status == ST_EXITED) throw Ended(); if (w.status == ST_CRASHED) throw Killed(); need_running("while starting"); }
inline void shut(int sig) {      // orderly end
	post_signal(sig); sut_run(); if (w.status == ST_CRASHED) throw Killed();
	if (w.status == ST_RUNNING) violation("the server does not end after signal %d", sig);
	if (w.status != ST_EXITED || w.exit_code != 0) violation("the server ends with %s %d after signal %d", w.status == ST_EXITED ? "exit status" : "signal", w.exit_code, sig);
}
inline void settle() {         // finish save processes, let the server reap them
	for (int i = 0; i < 8; i++) { int k = live_child(); if (k >= 0) child_finish(k); run(); if (live_child() < 0 && w.pend.empty()) break; }
}
inline void tick(int64_t us) { advance(us); run(); }
inline void tick_s(int64_t s) { tick(s * 1000000ll); }

// ---------------------------------------------------------------- values: distinct content for every tag, no two positions alike by chance
inline str mkval(int tag, size_t len) {
	str s(len, 0); uint32_t x = tag * 2654435761u + 12345;
	for (size_t i = 0; i < len; i++) { x = x * 1664525u + 1013904223u; s[i] = (char)('a' + tag % 26); if (i % 4 == 1) s[i] = (char)('0' + (x >> 16) % 10); if (i % 4 == 3) s[i] = (char)(33 + (x >> 20) % 90); }
	return s;
}
inline str itos(int64_t v) { return std::to_string(v); }
// ---------------------------------------------------------------- requests
inline str rq(const str& m, const str& path, const str& hdr = "") { return m + " " + path + " HTTP/1.1\r\n" + hdr + "\r\n"; }
inline str rq_put(const str& t, const str& k, const str& v, int64_t ttl = -1) { return rq("PUT", "/" + t + "/" + k, (ttl >= 0 ? "X-Ttl: " + itos(ttl) + "\r\n" : str()) + "Content-Length: " + itos(v.size()) + "\r\n") + v; }
inline str rq_get(const str& t, const str& k) { return rq("GET", "/" + t + "/" + k); }
inline str rq_head(const str& t, const str& k) { return rq("HEAD", "/" + t + "/" + k); }
inline str rq_del(const str& t, const str& k) { return rq("DELETE", "/" + t + "/" + k); }
inline str rq_delt(const str& t) { return rq("DELETE", "/" + t); }
inline str rq_list(const str& t, int64_t start = -1, int64_t limit = -1) { return rq("GET", "/" + t, (start >= 0 ? "X-Start: " + itos(start) + "\r\n" : str()) + (limit >= 0 ? "X-Limit: " + itos(limit) + "\r\n" : str())); }
inline str rq_bulk(const str& t, const std::vector<str>& ks) { str h; for (auto& k : ks) h += "X-Delete: " + k + "\r\n"; return rq("BULK", "/" + t, h); }
inline str rq_stats() { return rq("GET", "/"); }
inline str rq_gc() { return rq("ADMIN", "/gc"); }

// ---------------------------------------------------------------- responses
struct Resp {
	int status = 0; std::map<str, str> h; str body; bool conn_close = false;
	bool has(const char* n) const { return h.count(n) != 0; }
	int64_t num(const char* n) const { auto it = h.find(n); return it == h.end() ? -1 : atoll(it->second.c_str()); }
};
// 1 parsed, 0 incomplete so far, -1 not a well-formed response
inline int parse_resp(const str& s, size_t& p, bool head, bool eof, Resp& r, str& why) {
	r = Resp(); size_t q = p;
	static const char ver[] = "HTTP/1.1 ";
	if (s.compare(q, std::min<size_t>(9, s.size() - q), str(ver).substr(0, std::min<size_t>(9, s.size() - q))) != 0) { why = "bytes that do not start a response"; return -1; }
	size_t he = s.find("\r\n\r\n", q); if (he == str::npos) { if (s.size() - q > 4000) { why = "endless response header"; return -1; } return 0; }
	size_t le = s.find("\r\n", q); str line = s.substr(q, le - q);
	if (line.size() < 13 || !isdigit(line[9]) || !isdigit(line[10]) || !isdigit(line[11]) || line[12] != ' ') { why = "bad status line"; return -1; }
	r.status = atoi(line.c_str() + 9);
	size_t a = le + 2;
	while (a < he + 2) {
		size_t e = s.find("\r\n", a); str l = s.substr(a, e - a); a = e + 2;
		size_t c = l.find(": "); if (c == str::npos || c == 0) { why = "bad header line"; return -1; }
		str n; for (size_t i = 0; i < c; i++) { char ch = l[i]; if (!isalnum((unsigned char)ch) && ch != '-') { why = "bad header name"; return -1; } n += (char)tolower(ch); }
		if (r.h.count(n)) { why = "duplicate header " + n; return -1; }
		str v = l.substr(c + 2);
		if (n == "content-length" || n == "x-ttl" || n == "x-entries" || n == "x-total") { if (v.empty()) { why = "bad number"; return -1; } for (char ch : v) if (!isdigit((unsigned char)ch)) { why = "bad number in " + n + ": " + v; return -1; } }
		r.h[n] = v;
	}
	auto c = r.h.find("connection"); if (c != r.h.end()) { str v = c->second; for (auto& ch : v) ch = (char)tolower(ch); r.conn_close = v == "close"; }
	q = he + 4;
	if (r.has("content-length")) {
		size_t n = (size_t)atoll(r.h["content-length"].c_str());
		if (head && r.status == 200) n = 0;
		else if (head && (s.size() == q || s.compare(q, std::min<size_t>(5, s.size() - q), str("HTTP/").substr(0, std::min<size_t>(5, s.size() - q))) == 0)) n = 0;
		if (s.size() - q < n) return 0;
		r.body = s.substr(q, n); q += n;
	} else if (r.conn_close) { if (!eof) return 0; r.body = s.substr(q); q = s.size(); }
	else if (!head) { why = "a response with neither length nor close"; return -1; }
	p = q; return 1;
}
struct Cl {
	int s = -1; size_t pos = 0;
	bool eof() const { return w.socks[s].sut_closed || w.socks[s].sut_shutwr; }
	const str& out() const { return w.socks[s].out; }
	bool pending() const { return pos < out().size(); }
};
inline Cl cl_open(int port = 8000) { Cl c; c.s = cl_connect(port); if (c.s < 0) violation("nobody listens on port %d", port); run(); return c; }
inline str show(const str& s, size_t n = 120) { str r; for (unsigned char ch : s.substr(0, n)) { if (ch == '\r') r += "\\r"; else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) r += '?'; else r += (char)ch; } if (s.size() > n) r += "..."; return r; }
// next response, which must be complete now
inline Resp expect_resp(Cl& c, bool head, const str& what) {
	Resp r; str why; int k = parse_resp(c.out(), c.pos, head, c.eof(), r, why);
	if (k < 0) violation("%s: %s: %s", what.c_str(), why.c_str(), show(c.out().substr(c.pos)).c_str());
	if (k == 0) violation("%s: %s", what.c_str(), c.pending() ? ("answer incomplete: " + show(c.out().substr(c.pos))).c_str() : c.eof() ? "connection closed without an answer" : "no answer");
	return r;
}
inline void no_more(Cl& c, const str& what) { if (c.pending()) violation("%s: extra bytes after the answer: %s", what.c_str(), show(c.out().substr(c.pos)).c_str()); }
inline Resp ask(Cl& c, const str& data, const str& what, bool head = false) {
	cl_send(c.s, data); run();
	Resp r = expect_resp(c, head, what); no_more(c, what); return r;
}
// one request on a connection of its own
inline Resp ask1(const str& data, const str& what, bool head = false) { Cl c = cl_open(); Resp r = ask(c, data, what, head); cl_close(c.s); run(); return r; }

// ---------------------------------------------------------------- statistics page
struct Stats { int64_t keys = -1, tables = -1, bytes = -1, bfree = -1, bexist = -1, dels = -1, gets = -1, ins = -1; };
inline int64_t stat_line(const str& b, const char* n) { size_t i = b.find(n); if (i == str::npos) violation("statistics page lacks '%s': %s", n, show(b).c_str()); return (int64_t)strtoull(b.c_str() + i + strlen(n), nullptr, 10); }
inline Stats parse_stats(const Resp& r) {
	if (r.status != 200) violation("statistics page answered %d", r.status);
	Stats s; const str& b = r.body; s.keys = stat_line(b, "DB Keys: "); s.tables = stat_line(b, "DB Tables: "); s.bytes = stat_line(b, "DB Size Bytes: ");
	s.bfree = stat_line(b, "DB Blocks Free: "); size_t i = b.find("DB Blocks Free: "); i = b.find('/', i); s.bexist = atoll(b.c_str() + i + 1);
	s.dels = stat_line(b, "DB Stats Deletes: "); s.gets = stat_line(b, "DB Stats Gets: "); s.ins = stat_line(b, "DB Stats Inserts: "); return s;
}
inline Stats stats(Cl& c) { return parse_stats(ask(c, rq_stats(), "GET /")); }

// ---------------------------------------------------------------- reference map
struct Val { str data; int64_t exp = 0; };   // exp: absolute seconds, 0 = never
typedef std::map<str, std::map<str, Val>> Model;
inline int64_t now_sec() { return w.now / 1000000; }
inline void check_value(const Resp& r, const Val* v, bool head, const str& what) {
	if (!v) { if (r.status != 404) violation("%s: answered %d with %zu bytes, expected 404", what.c_str(), r.status, r.body.size()); return; }
	if (r.status != 200) violation("%s: answered %d, expected the stored value of %zu bytes", what.c_str(), r.status, v->data.size());
	if (r.num("content-length") != (int64_t)v->data.size()) violation("%s: length %lld, expected %zu", what.c_str(), (long long)r.num("content-length"), v->data.size());
	if (!head && r.body != v->data) { size_t i = 0; while (i < r.body.size() && r.body[i] == v->data[i]) i++; violation("%s: wrong bytes at offset %zu: got %s expected %s", what.c_str(), i, show(r.body.substr(i), 16).c_str(), show(v->data.substr(i), 16).c_str()); }
	int64_t ttl = v->exp ? v->exp - now_sec() : 0;
	if (r.num("x-ttl") != ttl) violation("%s: X-Ttl %lld, expected %lld", what.c_str(), (long long)r.num("x-ttl"), (long long)ttl);
}
inline const Val* m_find(const Model& m, const str& t, const str& k) { auto i = m.find(t); if (i == m.end()) return nullptr; auto j = i->second.find(k); if (j == i->second.end()) return nullptr; return &j->second; }
inline void m_erase(Model& m, const str& t, const str& k) { auto i = m.find(t); if (i == m.end()) return; i->second.erase(k); if (i->second.empty()) m.erase(i); }
inline size_t m_keys(const Model& m) { size_t n = 0; for (auto& t : m) n += t.second.size(); return n; }
inline size_t m_bytes(const Model& m) { size_t n = 0; for (auto& t : m) for (auto& k : t.second) n += k.second.data.size(); return n; }
inline size_t m_blocks(const Model& m) { size_t n = 0; for (auto& t : m) for (auto& k : t.second) if (k.second.data.size() <= 4096) n++; return n; }
inline void check_get(Cl& c, const Model& m, const str& t, const str& k, const char* when = "") { check_value(ask(c, rq_get(t, k), "GET /" + t + "/" + k + when), m_find(m, t, k), false, "GET /" + t + "/" + k + when); }
inline void check_head(Cl& c, const Model& m, const str& t, const str& k, const char* when = "") { check_value(ask(c, rq_head(t, k), "HEAD /" + t + "/" + k + when, true), m_find(m, t, k), true, "HEAD /" + t + "/" + k + when); }
inline void check_stats(Cl& c, const Model& m, const str& when) {
	Stats s = stats(c);
	if (s.keys != (int64_t)m_keys(m)) violation("%s: statistics report %lld keys, there are %zu", when.c_str(), (long long)s.keys, m_keys(m));
	if (s.tables != (int64_t)m.size()) violation("%s: statistics report %lld tables, there are %zu", when.c_str(), (long long)s.tables, m.size());
	if (s.bytes != (int64_t)m_bytes(m)) violation("%s: statistics report %lld bytes, there are %zu", when.c_str(), (long long)s.bytes, m_bytes(m));
	if (s.bfree < 0 || s.bexist - s.bfree != (int64_t)m_blocks(m)) violation("%s: statistics report %lld of %lld blocks free, %zu are in use", when.c_str(), (long long)s.bfree, (long long)s.bexist, m_blocks(m));
}
inline std::vector<str> value_files() { std::vector<str> v; for (auto& n : w.fs.names) if (n.first.compare(0, 10, "/db/files/") == 0) v.push_back(n.first); return v; }
// a listing, parsed: keys in order; 404 -> found=false
struct Listing { bool found = false; std::vector<str> keys; int64_t total = -1, entries = -1; };
inline Listing parse_listing(const Resp& r, const str& what) {
	Listing l; if (r.status == 404) return l; if (r.status != 200) violation("%s: answered %d", what.c_str(), r.status);
	l.found = true; l.total = r.num("x-total"); l.entries = r.num("x-entries");
	if (!r.conn_close) violation("%s: listing does not announce the close", what.c_str());
	const str& b = r.body; size_t p = 0;
	while (p < b.size()) { size_t e = b.find("\r\n", p); if (e == str::npos) violation("%s: listing ends inside a line: %s", what.c_str(), show(b.substr(p)).c_str()); l.keys.push_back(b.substr(p, e - p)); p = e + 2; }
	return l;
}
inline Listing listing(const str& t, const str& what, int64_t start = -1, int64_t limit = -1) {
	Cl c = cl_open(); cl_send(c.s, rq_list(t, start, limit)); run();
	Resp r = expect_resp(c, false, what);
	if (r.status == 200 && !c.eof()) violation("%s: listing not closed", what.c_str());
	no_more(c, what); cl_close(c.s); run();
	return parse_listing(r, what);
}

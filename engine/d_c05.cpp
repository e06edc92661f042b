// C05: malformed requests built from a grammar. C06: uploads that end at every byte.
#include "client.h"
namespace {

static void pro5() {
	Cl c = cl_open(); ask(c, rq_put("t", "a", mkval(1, 20)), "PUT"); ask(c, rq_put("t", "zz", mkval(2, 5000)), "PUT"); ask(c, rq_put("u", "canary", mkval(3, 40)), "PUT"); ask(c, rq_put("u", "x", mkval(4, 10)), "PUT"); cl_close(c.s); run();
}
// number of responses in s[p..], -1 if it is not a sequence of well-formed responses (HEAD answers may or may not carry a body)
static int count_resp(const str& s, size_t p, bool eof, std::vector<int>& status, str& why, bool& last_close) {
	if (p == s.size()) return 0;
	for (int head = 0; head < 2; head++) {
		Resp r; size_t q = p; int k = parse_resp(s, q, head, eof, r, why);
		if (k == 0) { if (why.empty()) why = "an incomplete answer"; continue; } if (k < 0 || q <= p) continue;
		std::vector<int> st; bool lc = r.conn_close; str w2; int n = count_resp(s, q, eof, st, w2, lc);
		if (n < 0) { why = w2; continue; }
		status.push_back(r.status); status.insert(status.end(), st.begin(), st.end()); last_close = n ? lc : r.conn_close; why.clear(); return n + 1;
	}
	if (why.empty()) why = "malformed answer"; return -1;
}
struct Line { str data, target; };         // target: "t/a" when the line may change that key, "t" for a table
static std::vector<Line> firsts() { str z(1, 0); return {
	{"GET /t/a HTTP/1.1", ""}, {"GET / HTTP/1.1", ""}, {"GET /t HTTP/1.1", ""}, {"GET /t/nokey HTTP/1.1", ""}, {"PUT /t/a HTTP/1.1", "t/a"}, {"PUT /t HTTP/1.1", ""}, {"PUT / HTTP/1.1", ""}, {"DELETE /t/a HTTP/1.1", "t/a"}, {"DELETE / HTTP/1.1", ""}, {"HEAD /t/a HTTP/1.1", ""}, {"HEAD /t HTTP/1.1", ""}, {"HEAD / HTTP/1.1", ""}, {"BULK /t HTTP/1.1", "t/a"}, {"BULK /t/a HTTP/1.1", ""}, {"BULK / HTTP/1.1", ""}, {"ADMIN /gc HTTP/1.1", ""}, {"ADMIN / HTTP/1.1", ""}, {"ADMIN /x/y HTTP/1.1", ""},
	{"GET", ""}, {"G", ""}, {"", ""}, {"GET ", ""}, {"GET /", ""}, {"GET /t", ""}, {"GET /t/", ""}, {"GET /t/a", ""}, {"GET  /t/a HTTP/1.1", ""}, {"GET t/a HTTP/1.1", ""}, {"GET /t/a/b HTTP/1.1", ""}, {"GET //a HTTP/1.1", ""}, {"GET /t// HTTP/1.1", ""}, {"GET /t/a HTTP/9.9 junk", ""}, {" GET /t/a HTTP/1.1", ""},
	{"GETX /t/a HTTP/1.1", ""}, {"POST /t/a HTTP/1.1", ""}, {"get /t/a HTTP/1.1", ""}, {"DELETEX /t/a HTTP/1.1", ""}, {"PUT", ""}, {"PUT /t/a", "t/a"}, {"PUT /t/ HTTP/1.1", "t/"}, {"PUT //", "/"}, {"DELETE /t/ HTTP/1.1", ""},
	{"HTTP/1.1 200 OK", ""}, {z + "GET /t/a HTTP/1.1", ""}, {"GET /t" + z + "/a HTTP/1.1", ""}, {"GET" + z + "/t/a HTTP/1.1", ""}, {"\xff\xfe\x80 \xff", ""}, {str(300, 'M'), ""}, {"GET /t/" + str(200, 'k') + " HTTP/1.1", ""}, {"GET /" + str(260, 'k') + "/a HTTP/1.1", ""}, {"PUT /t/" + str(600, 'k') + " HTTP/1.1", "t/"} }; }
static std::vector<str> heads() { str z(1, 0); return {
	"Content-Length: 5", "Content-Length: 0", "Content-Length: -1", "Content-Length: abc", "Content-Length: 99999999999999999999", "Content-Length: 4294967301", "Content-Length: 2147483648", "Content-Length:5", "Content-Length:", "Content-Length: 5 ", "Content-Length", "content-length: 5",
	"X-Ttl: 5", "X-Ttl: -5", "X-Ttl: 99999999999999", "X-Ttl: ", "X-Start: 4294967295", "X-Start: -1", "X-Limit: 0", "X-Limit: 4294967295", "X-Limit: 3",
	"X-Delete: nokey", "X-Delete: ", "X-Delete:nokey", "X-Delete", "DELETE /t/zz HTTP/1.1", "PUT /t/evil HTTP/1.1", "GET /t/zz HTTP/1.1", "X: DELETE /t/zz HTTP/1.1", "DELETE /u HTTP/1.1", ": x", "A", " ", z, "X-Ttl: 5" + z + "7", "\r", "X-D" + z, "\xff\xff\xff: \xff", str(300, 'h'), "X-" + str(300, 'y') + ": 5", "Content-Length: " + str(40, '0') + "5", "Content-Length: " + str(280, '1'), "X-Delete: " + str(300, 'd') }; }
static size_t blocks(const str& s) { // blank-line terminated blocks with something in them
	size_t n = 0; bool any = false, linenonempty = false; for (char c : s) { if (c == '\n') { if (!linenonempty) { if (any) { n++; any = false; } } linenonempty = false; } else if (c != '\r') { linenonempty = true; any = true; } } return n; }
static void malformed(const char* variant, int nh, bool full, int delivery) {
	use_variant(variant); base_restore("c05", args(), pro5);
	static auto F = firsts(); static auto H = heads();
	const Line& f = F[choose((int)F.size(), "request line")]; str s = f.data; std::vector<str> dels;
	static const char* eols[] = {"\r\n", "\n"}; const char* eol = eols[full ? choose(2, "line end") : 0];
	int used = 0; str hs; for (; used < nh; used++) { if (f.data.empty()) break; int k = choose((int)H.size() + 1, "header"); if (!k) break; s += eol + H[k - 1]; if (H[k - 1] == "\r") break; }
	static const char* terms[] = {"\r\n\r\n", "\n\n", "\r\n", ""}; s += terms[choose(full ? 4 : 1, "terminator")];
	static const str tails[] = {"hello", "", "GET /u/x HTTP/1.1\r\n\r\n", str(2, 0) + "\r\n\r\nhello"}; int tl = choose(full ? 4 : 2, "tail"); s += tails[tl];
	LOG("bytes: %s\n", show(s, 500).c_str());
	Cl can = cl_open(), c = cl_open(); cl_send(can.s, "GET /u/can"); run();
	if (delivery == 0) { cl_send(c.s, s); run(); } else for (size_t i = 0; i < s.size(); i += delivery) { cl_send(c.s, s.substr(i, delivery)); run(); }
	str what = "after bytes " + show(s, 90);
	std::vector<int> st; str why; bool close = false; int n = count_resp(c.out(), 0, c.eof(), st, why, close);
	if (n < 0) violation("%s: answered with %s: %s", what.c_str(), why.c_str(), show(c.out(), 100).c_str());
	size_t lim = blocks(s); if (n > (int)lim && !(n == (int)lim + 1 && st.back() == 400 && close)) violation("%s: %d answers to %zu requests", what.c_str(), n, lim);
	// the rest of the world
	cl_send(can.s, "ary HTTP/1.1\r\n\r\n"); run(); Resp r = expect_resp(can, false, what + ", another connection"); Val cv{mkval(3, 40), 0}; check_value(r, &cv, false, what + ", another connection");
	cl_close(c.s); run();
	Model m; m["t"]["a"] = {mkval(1, 20), 0}; m["t"]["zz"] = {mkval(2, 5000), 0}; m["u"]["canary"] = cv; m["u"]["x"] = {mkval(4, 10), 0};
	Cl o = cl_open(); str w2 = " " + what;
	for (auto& t : m) for (auto& k : t.second) if (f.target != t.first + "/" + k.first) check_get(o, m, t.first, k.first, w2.c_str());
	for (const char* k : {"evil", "nokey", "b"}) check_get(o, m, "t", k, w2.c_str());
	if (f.target == "t/a") { Resp x = ask(o, rq_get("t", "a"), "GET /t/a" + w2); if (x.status == 200 && x.body != mkval(1, 20) && s.find(x.body, f.data.size()) == str::npos) violation("%s: /t/a holds %s", what.c_str(), show(x.body).c_str()); }
	if (f.target.empty()) { Stats z = stats(o); if (z.keys != 4 || z.tables != 2) violation("%s: the server reports %lld keys in %lld tables, 4 in 2 were stored", what.c_str(), (long long)z.keys, (long long)z.tables); }
	Resp p = ask(o, rq_put("u", "new", "value"), "PUT" + w2); if (p.status != 200) violation("%s: a PUT is answered %d", what.c_str(), p.status); m["u"]["new"] = {"value", 0}; check_get(o, m, "u", "new", w2.c_str());
	outcome(hash_str(c.out()));
}
// very long parts, to the limits of every buffer
static void longparts(const char* variant, size_t bufsz) {
	use_variant(variant); base_restore("c05", args(), pro5);
	std::vector<size_t> lens; for (size_t b : {bufsz, bufsz / 2}) for (int d = -12; d <= 12; d++) lens.push_back(b + d); lens.push_back(3 * bufsz + 1); for (size_t x : {65535u, 65536u, 65537u}) lens.push_back(x); for (size_t x = 1; x < 40; x++) lens.push_back(x * 7);
	static const char* pre[] = {"", "GET /", "GET /t/", "PUT /t/", "GET /t/a HTTP/1.1", "GET /t/a HTTP/1.1\r\n", "GET /t/a HTTP/1.1\r\nX-Y: ", "PUT /t/q HTTP/1.1\r\nContent-Length: ", "BULK /t HTTP/1.1\r\nX-Delete: ", "DELETE /t/", "ADMIN /", "HEAD /t/", "GET /t HTTP/1.1\r\nX-Start: "};
	static const char* post[] = {" HTTP/1.1\r\n\r\n", "\r\n\r\n", "\r\n\r\n\r\n", "", " HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello"};
	static const char fill[] = {'x', '\r', '\n', 0, '1', '0', '/', ' ', ':'};
	int a = choose(sizeof pre / sizeof *pre, "start"), l = choose((int)lens.size(), "length"), b = choose(sizeof fill, "filler"), z = choose(sizeof post / sizeof *post, "end");
	str s = str(pre[a]) + str(lens[l], fill[b]) + post[z]; int piece = choose(2, "delivery");
	LOG("%zu bytes: %s %zu*%d %s\n", s.size(), pre[a], lens[l], fill[b], post[z]);
	Cl c = cl_open(); if (piece == 0) { cl_send(c.s, s); run(); } else for (size_t i = 0; i < s.size(); i += 1 + s.size() / 7) { cl_send(c.s, s.substr(i, 1 + s.size() / 7)); run(); }
	str what = "after " + show(pre[a]) + itos(lens[l]) + " times " + itos(fill[b]) + show(post[z]); std::vector<int> st; str why; bool close = false; int n = count_resp(c.out(), 0, c.eof(), st, why, close);
	if (n < 0) violation("%s: answered with %s: %s", what.c_str(), why.c_str(), show(c.out(), 100).c_str());
	size_t lim = blocks(s); if (n > (int)lim && !(n == (int)lim + 1 && st.back() == 400 && close)) violation("%s: %d answers to %zu requests", what.c_str(), n, lim);
	cl_close(c.s); run(); Model m; m["t"]["a"] = {mkval(1, 20), 0}; m["t"]["zz"] = {mkval(2, 5000), 0}; m["u"]["canary"] = {mkval(3, 40), 0}; m["u"]["x"] = {mkval(4, 10), 0};
	Cl o = cl_open(); for (auto& t : m) for (auto& k : t.second) check_get(o, m, t.first, k.first, (" " + what).c_str());
	outcome(hash_str(c.out()));
}
// every short string over an alphabet that matters
static void strings(const char* variant, int n, const std::vector<str>& al) {
	use_variant(variant); base_restore("c05", args(), pro5);
	str s; for (int i = 0; i < n; i++) s += al[choose((int)al.size(), "token")];
	LOG("bytes: %s\n", show(s, 300).c_str());
	Cl c = cl_open(); cl_send(c.s, s); run(); str what = "after bytes " + show(s); std::vector<int> st; str why; bool close = false; int k = count_resp(c.out(), 0, c.eof(), st, why, close);
	if (k < 0) violation("%s: answered with %s: %s", what.c_str(), why.c_str(), show(c.out(), 100).c_str());
	size_t lim = blocks(s); if (k > (int)lim && !(k == (int)lim + 1 && st.back() == 400 && close)) violation("%s: %d answers to %zu requests", what.c_str(), k, lim);
	Model m; m["u"]["canary"] = {mkval(3, 40), 0}; Cl o = cl_open(); check_get(o, m, "u", "canary", (" " + what).c_str()); cl_close(c.s); cl_close(o.s); run();
	outcome(hash_str(c.out()));
}
// the monitoring port takes anything as well
static void monport(int nh) {
	use_variant("std"); base_restore("c05", args(), pro5);
	static auto F = firsts(); static auto H = heads(); static std::vector<Line> G = [] { auto g = F; for (const char* x : {"GET /conn HTTP/1.1", "GET /conn", "GET /con HTTP/1.1", "GET /connx HTTP/1.1", "GET /conn/ HTTP/1.1", "HEAD /conn HTTP/1.1", "PUT /conn HTTP/1.1", "GET  /conn"}) g.push_back({x, ""}); return g; }();
	str s = G[choose((int)G.size(), "request line")].data; for (int i = 0; i < nh; i++) { int k = choose((int)H.size() + 1, "header"); if (!k) break; s += "\r\n" + H[k - 1]; }
	static const char* terms[] = {"\r\n\r\n", "\n\n", "\r\n", ""}; s += terms[choose(4, "terminator")]; static const str tails[] = {"", "hello", "GET / HTTP/1.1\r\n\r\n"}; s += tails[choose(3, "tail")];
	LOG("bytes: %s\n", show(s, 300).c_str()); str what = "monitoring port, after bytes " + show(s);
	Cl c = cl_open(8001), o = cl_open(); int d = choose(2, "delivery"); if (d) for (char x : s) { cl_send(c.s, str(1, x)); run(); } else { cl_send(c.s, s); run(); }
	tick_s(6); if (!c.out().empty() && c.out().compare(0, 9, "HTTP/1.1 ")) violation("%s: answered with %s", what.c_str(), show(c.out()).c_str());
	size_t p = 0; str why; int n = 0; bool stream = c.out().find("x-streaming") != str::npos;
	if (!stream) { std::vector<int> st; bool cl = false; n = count_resp(c.out(), p, c.eof(), st, why, cl); if (n < 0) violation("%s: answered with %s: %s", what.c_str(), why.c_str(), show(c.out()).c_str()); size_t lim = blocks(s); if (n > (int)lim && !(n == (int)lim + 1 && st.back() == 400 && cl)) violation("%s: %d answers to %zu requests", what.c_str(), n, lim); }
	Model m; m["u"]["canary"] = {mkval(3, 40), 0}; m["t"]["zz"] = {mkval(2, 5000), 0}; check_get(o, m, "u", "canary", (" " + what).c_str()); check_get(o, m, "t", "zz", (" " + what).c_str()); cl_close(c.s); tick_s(6); check_get(o, m, "u", "canary", (" " + what).c_str());
	outcome(hash_str(c.out()));
}
// methods, paths and headers that are almost those which are served: nothing may be done
static void almost(const char* variant) {
	static const std::vector<str> real = {"GET", "PUT", "HEAD", "DELETE", "BULK", "PURGE", "ADMIN"}; static const std::vector<str> R = [] { std::vector<str> v; std::set<str> have(real.begin(), real.end());
		auto add = [&](const str& m) { if (!have.insert(m).second) return; for (const char* p : {"/t/a", "/t", "/gc", "/"}) v.push_back(m + " " + p); };
		for (auto& m : real) { for (size_t i = 0; i <= m.size(); i++) { add(m.substr(0, i)); add(m.substr(0, i) + "X" + m.substr(i)); if (i < m.size()) { add(m.substr(0, i) + m.substr(i + 1)); str x = m; x[i] ^= 32; add(x); x = m; x[i]++; add(x); x = m; x[i] = '\0'; add(x); } } str l = m; for (auto& c : l) c ^= 32; add(l); add(m + m); for (auto& o : real) add(m + o); add(m + "/"); }
		for (const char* p : {"/g", "/gcx", "/gc/", "/gc/a", "/GC", "/Gc", "/xgc", "/", "/t", "/t/a", "//gc", "/g/c", "/cg", "/gd"}) v.push_back(str("ADMIN ") + p); for (const char* p : {"PUT /", "PUT /t", "HEAD /", "HEAD /t", "BULK /t/a", "PURGE /t/a"}) v.push_back(p); v.push_back(str("ADMIN /gc") + '\0'); v.push_back(str("ADMIN /g") + '\0' + "c"); return v; }();
	use_variant(variant); base_restore("c05almost", args({"-s", "4000"}), [] { Cl c = cl_open(); ask(c, rq_put("t", "a", mkval(1, 20)), "PUT"); ask(c, rq_put("t", "b", mkval(2, 5000)), "PUT"); ask(c, rq_put("u", "c", mkval(3, 1000), 1), "PUT"); settle(); tick_s(3); cl_close(c.s); run(); }); // over the limit, one value is past its time, nothing is collected yet
	int k = choose((int)R.size(), "request line"), hd = choose(3, "headers"), bybyte = choose(2, "delivery"); str s = R[k] + " HTTP/1.1\r\n" + (hd == 0 ? "" : hd == 1 ? "X-Delete: a\r\nX-Limit: 0\r\n" : "Content-Length: 3\r\n") + "\r\n"; LOG("%s\n", show(s).c_str());
	Cl o = cl_open(); Stats z0 = stats(o); size_t kids = w.kids.size(); Cl c = cl_open(); if (bybyte) for (char x : s) { cl_send(c.s, str(1, x)); run(); } else { cl_send(c.s, s); run(); } str what = show(R[k]); bool empty = s[0] == ' ' || s[0] == '\r';
	Resp r; str why; int n = parse_resp(c.out(), c.pos, s.compare(0, 5, "HEAD ") == 0, c.eof(), r, why); if (n < 0) violation("'%s' is answered with %s", what.c_str(), why.c_str()); if (n == 0 && !empty) violation("'%s' is not answered", what.c_str());
	if (n > 0 && r.status < 400 && !(s.compare(0, 5, "BULK ") == 0 || s.compare(0, 6, "PURGE ") == 0)) violation("'%s', which is not a request that is served, is answered %d", what.c_str(), r.status); if (n > 0 && c.pos < c.out().size()) violation("'%s' is answered more than once", what.c_str()); cl_close(c.s); run();
	if (w.kids.size() != kids) violation("'%s' starts a save", what.c_str()); Stats z = stats(o); if (z.keys != z0.keys || z.tables != z0.tables || z.bytes != z0.bytes || z.bfree != z0.bfree || z.bexist != z0.bexist || z.dels != z0.dels || z.ins != z0.ins || z.gets != z0.gets) violation("'%s', which is not a request that is served, changes the statistics: %lld keys, %lld bytes, %lld inserts, %lld deletes, %lld gets, before %lld, %lld, %lld, %lld, %lld", what.c_str(), (long long)z.keys, (long long)z.bytes, (long long)z.ins, (long long)z.dels, (long long)z.gets, (long long)z0.keys, (long long)z0.bytes, (long long)z0.ins, (long long)z0.dels, (long long)z0.gets);
	Model m; m["t"]["a"] = {mkval(1, 20), 0}; m["t"]["b"] = {mkval(2, 5000), 0}; check_get(o, m, "t", "a"); check_get(o, m, "t", "b"); outcome(r.status * 1000 + hash_str(c.out()) % 1000);
}
static Reg r05("C05", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"one header at most", [=] { malformed("std", 1, true, 0); }});
	v.push_back({"one header at most, small buffer", [=] { malformed("b256", 1, true, 0); }});
	v.push_back({"one header at most, byte by byte, small buffer", [=] { malformed("b256", 1, false, 1); }});
	v.push_back({"two headers", [=] { malformed("std", 2, false, 0); }});
	v.push_back({"long parts", [=] { longparts("std", 4096); }});
	v.push_back({"long parts, small buffer", [=] { longparts("b256", 256); }});
	v.push_back({"token strings", [=] { strings("std", th ? 6 : 5, {"GET ", "PUT ", "/", "t", " ", "\r\n", "\n\n", "Content-Length: ", "3", "X-Delete: "}); }});
	v.push_back({"almost requests", [=] { almost("std"); }});
	v.push_back({"almost requests, small buffer", [=] { almost("b256"); }});
	v.push_back({"monitoring port", [=] { monport(th ? 2 : 1); }});
	if (th) {
		v.push_back({"two headers, every end", [=] { malformed("std", 2, true, 0); }});
		v.push_back({"two headers, every end, small buffer", [=] { malformed("b256", 2, true, 0); }});
		v.push_back({"two headers, byte by byte, small buffer", [=] { malformed("b256", 2, false, 1); }});
		v.push_back({"token strings of bulk requests", [=] { strings("b256", 6, {"BULK /t", "DELETE ", "/", "a", " ", "\n", "\n\n", "X-Delete: ", "X-Delete", str(1, 0)}); }});
	}
}, {"inputs are those of the request-line, header, terminator and tail menus of engine/d_c05.cpp in all combinations up to the stated number of headers"});

// ---------------------------------------------------------------- C06
static void aborted(const char* variant, size_t len, int prev, int other, bool bytewise) {
	use_variant(variant); base_restore("c06", args(), [] { Cl c = cl_open(); ask(c, rq_put("t", "n", mkval(8, 33)), "PUT"); ask(c, rq_put("u", "k", mkval(9, 4500)), "PUT"); cl_close(c.s); run(); });
	Model m; m["t"]["n"] = {mkval(8, 33), 0}; m["u"]["k"] = {mkval(9, 4500), 0};
	if (prev == 1) { ask1(rq_put("t", "k", mkval(1, 25)), "PUT"); m["t"]["k"] = {mkval(1, 25), 0}; } else if (prev == 2) { ask1(rq_put("t", "k", mkval(1, 6000)), "PUT"); m["t"]["k"] = {mkval(1, 6000), 0}; }
	str v = mkval(2, len), s = rq_put("t", "k", v); size_t hl = s.size() - len; std::vector<size_t> at; for (size_t i = 1; i < s.size(); i++) if (i <= hl + 3 || i > s.size() - 3 || len < 300 || (i - hl) % 1024 < 2 || (i - hl) % 1024 == 1023) at.push_back(i);
	size_t cut = at[choose((int)at.size(), "upload ends after")]; int mode = choose(3, "how it ends"); static const char* mn[] = {"closed", "half-closed", "reset"};
	Cl o = cl_open(), c = cl_open(), g; bool slow = false; str what = "upload of " + itos(len) + " bytes " + mn[mode] + " after byte " + itos(cut) + " of " + itos(s.size()) + (other == 1 ? ", a reader of the old value" : other == 2 ? ", a second upload before" : other == 3 ? ", a second upload after" : other == 4 ? ", a delete meanwhile" : other == 5 ? ", the table deleted meanwhile" : "");
	if (other == 1 && prev) { g = cl_open(); cl_window(g.s, 100); cl_send(g.s, rq_get("t", "k")); run(); slow = true; }
	str v2 = mkval(3, 4100), s2 = rq_put("t", "k", v2); size_t c2 = s2.size() - 2000; Cl p;
	if (other == 2) { p = cl_open(); cl_send(p.s, s2.substr(0, c2)); run(); }
	size_t q = 0; if (bytewise) for (; q + 1 < cut; q++) { cl_send(c.s, str(1, s[q])); run(); }
	cl_send(c.s, s.substr(q, cut - q)); if (choose(2, "the end arrives") == 0) run();
	if (other == 3) { p = cl_open(); cl_send(p.s, s2.substr(0, c2)); run(); }
	size_t le = s.find(" ", 5); bool begun = cut > le || other == 2 || other == 3;   // the key has been read
	if (other == 4) ask(o, rq_del("t", "k"), "DELETE");
	if (other == 5) ask(o, rq_delt("t"), "DELETE");
	if (mode == 0) cl_close(c.s); else if (mode == 1) cl_fin(c.s); else cl_reset(c.s);
	run();
	if (!w.socks[c.s].sut_closed) violation("%s: the connection is not closed", what.c_str());
	if (mode == 1 && c.pending()) violation("%s: answered %s", what.c_str(), show(c.out()).c_str());
	if (slow) { cl_window(g.s, -1); run(); Resp r = expect_resp(g, false, what + ", the reader"); check_value(r, m_find(m, "t", "k"), false, what + ", the reader"); cl_close(g.s); run(); }
	if (other == 5) m.erase("t"); else if (other == 4) m_erase(m, "t", "k");
	auto look = [&](const char* when) {
		Resp r = ask(o, rq_get("t", "k"), "GET after " + what); const Val* old = m_find(m, "t", "k");
		if (r.status == 200 && (!old || r.body != old->data)) violation("%s: %s a GET returns %zu bytes: %s", what.c_str(), when, r.body.size(), show(r.body, 30).c_str());
		if (r.status != 200 && r.status != 404) violation("%s: %s a GET is answered %d", what.c_str(), when, r.status);
		if (r.status == 404 && old && !begun) violation("%s: %s the previous value is gone", what.c_str(), when);
		if (r.status == 404) m_erase(m, "t", "k");
	};
	look("then");
	for (auto& x : std::vector<std::pair<str, str>>{{"t", "n"}, {"u", "k"}}) check_get(o, m, x.first, x.second, (" after " + what).c_str());
	if (other == 2 || other == 3) { // the second upload goes on; it may win or lose, not mix
		cl_send(p.s, s2.substr(c2)); run(); Resp r = expect_resp(p, false, what + ", the second upload"); if (r.status != 200) violation("%s: the second upload is answered %d", what.c_str(), r.status);
		Resp x = ask(o, rq_get("t", "k"), "GET"); if (x.status == 200) { if (x.body != v2) violation("%s: after the second upload a GET returns %zu bytes: %s", what.c_str(), x.body.size(), show(x.body, 30).c_str()); m["t"]["k"] = {v2, 0}; } else m_erase(m, "t", "k"); cl_close(p.s); run();
	}
	settle(); check_stats(o, m, what);
	str nv = mkval(5, 40); Resp r = ask(o, rq_put("t", "k", nv), "PUT after " + what); if (r.status != 200) violation("%s: storing again is answered %d", what.c_str(), r.status); m["t"]["k"] = {nv, 0}; check_get(o, m, "t", "k", (" stored again after " + what).c_str());
	str n2 = mkval(6, 5000); r = ask(o, rq_put("t", "k", n2), "PUT after " + what); m["t"]["k"] = {n2, 0}; check_get(o, m, "t", "k", (" stored again after " + what).c_str()); check_get(o, m, "t", "n", " at the end"); check_get(o, m, "u", "k", " at the end");
	check_stats(o, m, what); outcome(cut * 8 + mode + len * 131);
}
static Reg r06("C06", [](std::vector<Scenario>& v, bool th) {
	for (int other = 0; other < 6; other++) { static const char* on[] = {"alone", "with a reader", "second upload before", "second upload after", "key deleted", "table deleted"};
		v.push_back({str("small upload, ") + on[other], [=] { aborted("std", 30, choose(3, "previous value"), other, false); }});
		v.push_back({str("large upload, ") + on[other], [=] { aborted("std", 9000, choose(3, "previous value"), other, false); }}); }
	v.push_back({"upload of one block, small buffer", [=] { aborted("b256", 4096, choose(3, "previous value"), 0, false); }});
	v.push_back({"small upload, byte by byte, small buffer", [=] { aborted("b256", 30, choose(3, "previous value"), 0, true); }});
	v.push_back({"upload of one block, expiry scan on every insert", [=] { aborted("lru1", 4096, choose(3, "previous value"), choose(6, "meanwhile"), false); }});
	if (th) { v.push_back({"upload byte by byte", [=] { aborted("std", 290, choose(3, "previous value"), choose(6, "meanwhile"), true); }}); v.push_back({"large upload byte by byte, small buffer", [=] { aborted("b256", 4200, choose(3, "previous value"), choose(6, "meanwhile"), true); }}); }
});
}

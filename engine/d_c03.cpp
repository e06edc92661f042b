// C03: the same bytes cut into reads in every way give the same answers and the same data.
// C04: the same answers however little the socket takes at each write.
#include "client.h"
namespace {

static void prologue() {
	Cl c = cl_open(); ask(c, rq_put("t", "a", mkval(1, 30)), "PUT"); ask(c, rq_put("t", "b", mkval(2, 5000)), "PUT"); ask(c, rq_put("t", "c", mkval(3, 4096), 100), "PUT"); ask(c, rq_put("u", "key-of-u", mkval(4, 9)), "PUT"); cl_close(c.s); run();
}
// the parts of the state a client can see
static str observe() {
	str s; Cl c = cl_open();
	auto one = [&](const str& r) { size_t p = c.out().size(); cl_send(c.s, r); run(); s += c.out().substr(p); s += "|"; };
	for (const char* t : {"t", "u"}) for (const char* k : {"a", "b", "c", "d", "key-of-u"}) one(rq_get(t, k));
	one(rq_stats()); one(rq_list("t")); cl_close(c.s); run();
	Cl d = cl_open(); size_t p = 0; cl_send(d.s, rq_list("u")); run(); s += d.out().substr(p); cl_close(d.s); run();
	return s;
}
struct Menu { str name, data; bool last; };
static std::vector<Menu> menu(bool big) {
	std::vector<Menu> m = {
		{"PUT a", rq_put("t", "a", "twenty bytes of body"), false},
		{"PUT d ttl", "PUT /t/d HTTP/1.1\r\nHost: x\r\nX-Ttl: 77\r\nContent-Length: 7\r\nX-Ttl-Not: 5\r\n\r\nabc\r\n\r\n", false},
		{"GET a", rq_get("t", "a"), false},
		{"GET b", rq_get("t", "b"), false},
		{"GET nothing", rq_get("t", "no-such-key"), false},
		{"HEAD c", rq_head("t", "c"), false},
		{"DELETE a", rq("DELETE", "/t/a", "X-Ttl: 5\r\nAccept: */*\r\n"), false},
		{"BULK a b", rq_bulk("t", {"a", "b"}), false},
		{"GET /", rq_stats(), false},
		{"ADMIN /gc", rq_gc(), false},
		{"DELETE t", rq_delt("t"), false},
		{"GET a, newlines only", "GET /t/a HTTP/1.1\nA: b\n\n", false},
		{"newlines, HEAD a", "\r\n\r\n\nHEAD /t/a HTTP/1.1\r\n\r\n", false},
		{"PUT d overlong length header", "PUT /t/d HTTP/1.1\r\nContent-Length: 000003\r\nA-Header-That-Is-Not-Known: with a value of its own\r\n\r\nxyz", false},
		{"LIST t", rq_list("t"), true},
		{"LIST t 3 2", rq_list("t", 3, 2), true},
		{"bad method", "FETCH /t/a HTTP/1.1\r\nA: b\r\n\r\n", true},
		{"bad length", "PUT /t/e HTTP/1.1\r\nContent-Length: x7\r\nA: b\r\n\r\n", true},
		{"no length", "PUT /t/e HTTP/1.1\r\nA: b\r\n\r\n", true},
	};
	if (big) m.push_back({"PUT b large", rq_put("t", "b", mkval(9, 4400)), false});
	return m;
}
struct Ref { str out; bool eof; str state; };
static std::map<str, Ref> refs;
static str out_so_far(Cl& c) { return c.out(); }
// deliver the stream request by request: the reference
static const Ref& reference(const str& base, const std::vector<Menu>& reqs, std::function<void()> restore) {
	str key = base; for (auto& r : reqs) key += "\1" + r.name;
	auto it = refs.find(key); if (it != refs.end()) return it->second;
	restore(); Cl c = cl_open();
	for (auto& r : reqs) { size_t p = c.out().size(); cl_send(c.s, r.data); run(); if (c.out().size() == p) violation("%s: no answer", r.name.c_str()); if (c.eof()) break; }
	Ref f; f.out = c.out(); f.eof = c.eof(); cl_close(c.s); run(); f.state = observe(); return refs[key] = f;
}
static void compare(const Ref& f, const str& out, bool eof, bool fin, const str& what) {
	if (out != f.out) { size_t i = 0; while (i < out.size() && i < f.out.size() && out[i] == f.out[i]) i++; if (i == out.size()) violation("%s: only %zu of %zu answer bytes arrive", what.c_str(), out.size(), f.out.size()); violation("%s: answers differ at byte %zu: %s instead of %s", what.c_str(), i, show(out.substr(i), 40).c_str(), show(f.out.substr(i), 40).c_str()); }
	if (eof != (fin || f.eof)) violation("%s: connection %s", what.c_str(), eof ? "closed" : "not closed");
}
static void splits(const char* variant, int nreq, int nsplit, bool bytewise, const std::vector<str>& only = {}, bool big = false) {
	use_variant(variant); auto restore = [] { base_restore("c03", args(), prologue); };
	auto m = menu(big); if (!only.empty()) { std::vector<Menu> k; for (auto& x : m) if (std::find(only.begin(), only.end(), x.name) != only.end()) k.push_back(x); m = k; }
	std::vector<Menu> rs; for (int i = 0; i < nreq; i++) { std::vector<Menu> can; for (auto& x : m) if (i == nreq - 1 || !x.last) can.push_back(x); rs.push_back(can[choose((int)can.size(), "request")]); LOG("request: %s\n", rs.back().name.c_str()); }
	const Ref& f = reference(variant, rs, restore);
	str all; for (auto& r : rs) all += r.data;
	restore(); Cl c = cl_open(); bool fin = false; str what = "requests"; for (auto& r : rs) what += " [" + r.name + "]";
	if (bytewise) { int step = 1 + choose(3, "bytes per read"); for (size_t i = 0; i < all.size(); i += step) { cl_send(c.s, all.substr(i, step)); run(); } what += " in reads of " + itos(step) + " bytes"; }
	else {
		fin = choose(2, "half-close with the last byte"); size_t p = 0; what += " cut at";
		for (int i = 0; i < nsplit; i++) { size_t left = all.size() - p; size_t a = choose((int)left, "cut"); if (a == 0 && i > 0) break; if (a) { cl_send(c.s, all.substr(p, a)); run(); } p += a; what += " " + itos(p); if (a == 0) break; }
		cl_send(c.s, all.substr(p)); if (fin) { cl_fin(c.s); what += ", then half-closed"; } run();
	}
	compare(f, c.out(), c.eof(), fin, what);
	cl_close(c.s); run(); str st = observe(); if (st != f.state) violation("%s: the data stored afterwards differs", what.c_str());
	outcome(hash_str(c.out()));
}
static Reg r03("C03", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"two requests, one cut", [=] { splits("std", 2, 1, false); }});
	v.push_back({"two requests, one cut, small buffer", [=] { splits("b256", 2, 1, false); }});
	v.push_back({"three requests byte by byte, small buffer", [=] { splits("b256", 3, 0, true); }});
	v.push_back({"two requests byte by byte", [=] { splits("std", 2, 0, true); }});
	v.push_back({"three requests, one cut, small buffer", [=] { splits("b256", 3, 1, false, {"PUT a", "GET nothing", "PUT d ttl", "BULK a b", "GET a, newlines only", "newlines, HEAD a", "LIST t"}); }});
	v.push_back({"one request, two cuts, small buffer", [=] { splits("b256", 1, 2, false); }});
	v.push_back({"a large upload, one cut", [=] { splits("std", 1, 1, false, {"PUT b large"}, true); }});
	v.push_back({"a large upload among others, one cut, small buffer", [=] { splits("b256", 2, 1, false, {"PUT b large", "GET b"}, true); }});
	if (th) {
		v.push_back({"two requests, two cuts, small buffer", [=] { splits("b256", 2, 2, false); }});
		v.push_back({"three requests, one cut", [=] { splits("b256", 3, 1, false); }});
		v.push_back({"four requests, one cut, small buffer", [=] { splits("b256", 4, 1, false, {"PUT a", "GET nothing", "PUT d ttl", "BULK a b", "newlines, HEAD a", "LIST t"}); }});
	}
}, {"the small-buffer scenarios use the same sources compiled with -DBUFFER_SIZE=256"});

// ---------------------------------------------------------------- C04
static void pro4() {
	prologue(); Cl c = cl_open(); for (int i = 0; i < 9; i++) { str k(1 + i * 3, (char)('a' + i)); ask(c, rq_put("w", k, "v"), "PUT"); } cl_close(c.s); run();
}
static std::vector<Menu> menu4() { return {
	{"GET a", rq_get("t", "a"), false}, {"GET b", rq_get("t", "b"), false}, {"GET c", rq_get("t", "c"), false}, {"HEAD c", rq_head("t", "c"), false}, {"GET nothing", rq_get("t", "x"), false},
	{"PUT a", rq_put("t", "a", "twenty bytes of body"), false}, {"DELETE a", rq_del("t", "a"), false}, {"BULK", rq_bulk("t", {"a"}), false}, {"GET /", rq_stats(), false}, {"ADMIN /gc", rq_gc(), false}, {"DELETE t", rq_delt("t"), false},
	{"LIST w", rq_list("w"), true}, {"LIST w 1 5", rq_list("w", 1, 5), true}, {"LIST nothing", rq_list("zz"), false}, {"bad method", "FETCH /t/a HTTP/1.1\r\nA: b\r\n\r\n", true}, {"no length", "PUT /t/e HTTP/1.1\r\n\r\n", true}, {"GET a GET b", rq_get("t", "a") + rq_get("t", "b"), false}, {"GET a LIST w", rq_get("t", "a") + rq_list("w"), true} }; }
// every pattern with at most dev deviations of how much the socket takes
static void writes(int dev, int nreq) {
	use_variant("std"); auto restore = [] { base_restore("c04", args(), pro4); };
	auto m = menu4(); std::vector<Menu> rs; for (int i = 0; i < nreq; i++) { std::vector<Menu> can; for (auto& x : m) if (i == nreq - 1 || !x.last) can.push_back(x); rs.push_back(can[choose((int)can.size(), "request")]); LOG("request: %s\n", rs.back().name.c_str()); }
	const Ref& f = reference("w", rs, restore);
	restore(); Cl c = cl_open(); str all, what; for (auto& r : rs) { all += r.data; what += " [" + r.name + "]"; }
	int left = dev; std::map<size_t, int> zeros;
	env.outpolicy = [&](int s, size_t n) -> int {
		if (s != c.s || left <= 0) return -1;
		std::vector<int> o = {-1}; size_t at = w.socks[s].out.size(); if (zeros[at] < 2) o.push_back(0); if (n > 1) o.push_back(1); if (n > 3) o.push_back((int)n / 2); if (n > 2) o.push_back((int)n - 1);
		int k = choose((int)o.size(), "bytes taken"); if (k == 0) return -1; left--; LOG("socket takes %d of %zu\n", o[k], n); if (o[k] == 0) zeros[at]++; return o[k]; };
	cl_send(c.s, all); run();
	for (int i = 0; i < 2 * dev + 2; i++) { touch(c.s); run(); }
	env.outpolicy = nullptr; touch(c.s); run();
	compare(f, c.out(), c.eof(), false, "requests" + what);
	cl_close(c.s); run(); if (observe() != f.state) violation("requests%s: the data stored afterwards differs", what.c_str());
	outcome(hash_str(c.out()) ^ left);
}
// the client takes k bytes and then nothing for a while
static void windows(int steps, bool all) {
	use_variant("std"); auto restore = [] { base_restore("c04", args(), pro4); };
	auto m = menu4(); std::vector<Menu> rs = {m[choose((int)m.size(), "request")]}; LOG("request: %s\n", rs[0].name.c_str());
	const Ref& f = reference("w", rs, restore); std::vector<int> at; int L = (int)f.out.size();
	for (int i = 0; i < L; i++) if (all || L < 700 || i < 140 || i % 1024 < 2 || i > L - 6) at.push_back(i);
	restore(); Cl c = cl_open(), o = cl_open(); int from = 0; str what = "request [" + rs[0].name + "] taken up to";
	int k = choose((int)at.size(), "bytes taken before the stall"); cl_window(c.s, at[k]); what += " " + itos(at[k]); cl_send(c.s, rs[0].data); run(); from = k;
	if ((int)c.out().size() != at[k]) violation("%s: the server sent %zu bytes", what.c_str(), c.out().size());
	ask(o, rq_get("u", "missing"), "another client meanwhile");
	for (int i = 1; i < steps && from + 1 < (int)at.size(); i++) { int k2 = choose((int)at.size() - from, "then"); if (!k2) break; from += k2; cl_window(c.s, at[from] - (int)c.out().size()); what += " " + itos(at[from]); run(); ask(o, rq_get("u", "missing"), "another client meanwhile"); }
	cl_window(c.s, -1); run(); compare(f, c.out(), c.eof(), false, what);
	if (!c.eof()) { size_t p = c.out().size(); cl_send(c.s, rq_get("u", "key-of-u")); run(); if (c.out().size() == p) violation("%s: no answer to the next request", what.c_str()); }
	cl_close(c.s); cl_close(o.s); run();
	outcome(hash_str(c.out()));
}
// values far larger than any buffer, taken in portions of every interesting size
static void portions(bool deep) {
	use_variant("std"); static const size_t L[] = {32768, 65535, 65536, 65537, 131072, 131077, 262144, 1048576, 1048577, 4194304}, W[] = {4096, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 1000000}; size_t len = L[choose(deep ? 10 : 9, "length")], first = W[choose(10, "first portion")], then = W[choose(10, "portions")]; if (len / then > 300) return;
	base_restore("plain", args(), nullptr); Model m; Cl c = cl_open(), o = cl_open(); str v = mkval(len % 100, len); if (ask(o, rq_put("t", "a", v), "PUT").status != 200) violation("PUT is refused"); int next = choose(2, "another request follows");
	env.steplimit = 3000000; cl_window(c.s, (int)first); cl_send(c.s, rq_get("t", "a") + (next ? rq_get("t", "none") : str())); run(); size_t had = 0;
	for (int i = 0; i < 5000 && c.out().size() > had; i++) { had = c.out().size(); if (i % 16 == 1) ask(o, rq_get("t", "none"), "another client meanwhile"); cl_window(c.s, (int)then); run(); }
	cl_window(c.s, -1); run(); Resp r = expect_resp(c, false, "GET of a large value in portions"); if (r.status != 200 || r.body != v) { size_t i = 0; while (i < r.body.size() && i < len && r.body[i] == v[i]) i++; violation("GET of %zu bytes taken in portions of %zu, then %zu, answers %d with %zu bytes, wrong at %zu", len, first, then, r.status, r.body.size(), i); }
	if (next) { r = expect_resp(c, false, "the next request"); if (r.status != 404) violation("the request after a GET of a large value answers %d", r.status); } no_more(c, "GET of a large value"); if (c.eof()) violation("the connection ends after a GET of a large value"); outcome(len + first + then);
}
// two clients that stall at any two places, mostly around the ends of lines; either goes on first
static void two_stall(bool deep) {
	use_variant("std"); auto restore = [] { base_restore("c04", args(), pro4); };
	std::vector<Menu> m; for (auto& x : menu4()) if (!(x.name.compare(0, 3, "GET") && x.name.compare(0, 4, "HEAD") && x.name.compare(0, 4, "LIST") && x.name != "bad method" && x.name != "no length") && x.name != "GET /") m.push_back(x);
	const Menu* q[2]; const Ref* f[2]; for (int i = 0; i < 2; i++) { q[i] = &m[choose((int)m.size(), i ? "the other's request" : "request")]; f[i] = &reference("w", {*q[i]}, restore); }
	restore(); Cl c[2] = {cl_open(), cl_open()}; int at[2]; str what = "two requests";
	for (int i = 0; i < 2; i++) {
		const str& o = f[i]->out; int L = (int)o.size(); std::vector<int> ps; for (int k = 0; k <= L; k++) { bool nl = (k > 0 && o[k - 1] == '\n') || (k > 1 && o[k - 2] == '\n') || (k < L && o[k] == '\n'); if (k == 0 || k == L || (nl && k < 600) || (deep && k < 300)) ps.push_back(k); }
		at[i] = ps[choose((int)ps.size(), "bytes taken before the stall")]; what += " [" + q[i]->name + "] taken up to " + itos(at[i]);
		cl_window(c[i].s, at[i]); cl_send(c[i].s, q[i]->data); run(); if ((int)c[i].out().size() != at[i]) violation("%s: the server sent %zu bytes", what.c_str(), c[i].out().size());
	}
	int first = choose(2, "the other goes on first"); for (int i : {first, 1 - first}) { cl_window(c[i].s, -1); run(); compare(*f[i], c[i].out(), c[i].eof(), false, what + ", " + (i ? "the second" : "the first")); }
	for (auto& x : c) { if (!x.eof()) { size_t p = x.out().size(); cl_send(x.s, rq_get("u", "key-of-u")); run(); if (x.out().size() == p) violation("%s: no answer to the next request", what.c_str()); } cl_close(x.s); run(); }
	outcome(hash_str(c[0].out() + c[1].out()));
}
static Reg r04("C04", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"short writes, one request", [=] { writes(th ? 4 : 3, 1); }});
	v.push_back({"short writes, two requests", [=] { writes(th ? 3 : 2, 2); }});
	v.push_back({"reader stalls at every byte", [=] { windows(1, true); }});
	v.push_back({"two readers stall", [=] { two_stall(th); }});
	v.push_back({"large values in portions", [=] { portions(th); }});
	v.push_back({"reader stalls twice", [=] { windows(2, false); }});
	if (th) v.push_back({"reader stalls twice at any byte", [=] { windows(2, true); }});
	if (th) v.push_back({"short writes, three requests", [=] { writes(2, 3); }});
}, {"a write takes all, none (would block), one byte, half or all but one byte; the number of such deviations in one execution is bounded"});
}

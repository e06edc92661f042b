// C01: every sequence of requests up to a depth, against the exact map. C08: statistics after every one of them.
#include "client.h"
namespace {

struct Op { str name; std::function<void(Cl&, Model&, int step)> f; };
struct Counters { int64_t ins = 0, dels = 0, gets = 0; };
static Counters cnt;

static Op o_put(const str& t, const str& k, size_t len) {
	return {"PUT " + t + "/" + k + " " + itos(len), [=](Cl& c, Model& m, int step) {
		str v = mkval(step + 1, len); Resp r = ask(c, rq_put(t, k, v), "PUT /" + t + "/" + k);
		cnt.ins++;
		if (r.status != 200) violation("PUT /%s/%s of %zu bytes answered %d", t.c_str(), k.c_str(), len, r.status);
		m[t][k] = Val{v, 0}; }};
}
static Op o_del(const str& t, const str& k) {
	return {"DELETE " + t + "/" + k, [=](Cl& c, Model& m, int) {
		bool had = m_find(m, t, k); Resp r = ask(c, rq_del(t, k), "DELETE /" + t + "/" + k);
		if (r.status != (had ? 200 : 404)) violation("DELETE /%s/%s answered %d, the key was %s", t.c_str(), k.c_str(), r.status, had ? "there" : "not there");
		if (had) cnt.dels++;
		m_erase(m, t, k); }};
}
static Op o_get(const str& t, const str& k, bool head) {
	return {(head ? "HEAD " : "GET ") + t + "/" + k, [=](Cl& c, Model& m, int) { if (m_find(m, t, k)) cnt.gets++; if (head) check_head(c, m, t, k); else check_get(c, m, t, k); }};
}
static Op o_delt(const str& t) {
	return {"DELETE " + t, [=](Cl& c, Model& m, int) {
		bool had = m.count(t); Resp r = ask(c, rq_delt(t), "DELETE /" + t);
		if (r.status != (had ? 200 : 404)) violation("DELETE /%s answered %d, the table was %s", t.c_str(), r.status, had ? "there" : "not there");
		m.erase(t); }};
}
static Op o_bulk(const str& t, std::vector<str> ks) {
	str n = "BULK " + t; for (auto& k : ks) n += " " + k;
	return {n, [=](Cl& c, Model& m, int) {
		Resp r = ask(c, rq_bulk(t, ks), n); if (r.status != 200) violation("%s answered %d", n.c_str(), r.status);
		for (auto& k : ks) { if (m_find(m, t, k)) cnt.dels++; m_erase(m, t, k); } }};
}
static Op o_list(const str& t) {
	return {"LIST " + t, [=](Cl&, Model& m, int) {
		Listing l = listing(t, "GET /" + t); std::vector<str> want; auto i = m.find(t); if (i != m.end()) for (auto& k : i->second) want.push_back(k.first);
		if (l.found != (i != m.end())) violation("listing of %s answered %s, the table was %s", t.c_str(), l.found ? "200" : "404", l.found ? "not there" : "there");
		std::sort(l.keys.begin(), l.keys.end()); if (l.keys != want) violation("listing of %s has %zu keys, expected %zu", t.c_str(), l.keys.size(), want.size()); }};
}
static void verify(Model& m, const std::vector<str>& ts, const std::vector<str>& ks) {
	Cl c = cl_open();
	for (auto& t : ts) for (auto& k : ks) { check_get(c, m, t, k, " at the end"); }
	for (auto& t : ts) for (auto& k : ks) { check_head(c, m, t, k, " at the end"); }
	uint64_t h = 7; for (auto& t : m) for (auto& k : t.second) h = hash_str(t.first + "/" + k.first + k.second.data, h);
	outcome(h);
}
// every sequence of at most depth operations; conns: 1 = one keep-alive connection, 2 = alternating, 0 = one per request
static void seq(const std::vector<Op>& ops, int depth, int conns, bool statmode, const std::vector<str>& ts, const std::vector<str>& ks, const char* variant = "std") {
	use_variant(variant); base_restore("plain", args(), nullptr);
	cnt = Counters(); Model m; Cl c[2];
	if (conns >= 1) c[0] = cl_open();
	if (conns >= 2) c[1] = cl_open();
	int step = 0;
	for (; step < depth; step++) {
		int o = choose((int)ops.size() + (step ? 1 : 0), "operation"); if (step) { if (o == 0) break; o--; }
		LOG("operation %s\n", ops[o].name.c_str());
		if (conns == 0) { Cl x = cl_open(); ops[o].f(x, m, step); cl_close(x.s); run(); }
		else ops[o].f(c[step % conns], m, step);
	}
	if (statmode) {
		settle(); Cl x = cl_open(); check_stats(x, m, "at the end");
		Stats s = stats(x);
		if (s.ins != cnt.ins) violation("statistics report %lld inserts, %lld were accepted", (long long)s.ins, (long long)cnt.ins);
		if (s.dels != cnt.dels) violation("statistics report %lld deletes, %lld were accepted", (long long)s.dels, (long long)cnt.dels);
		if (s.gets != cnt.gets) violation("statistics report %lld gets, %lld were accepted", (long long)s.gets, (long long)cnt.gets);
		outcome(hash_bytes(&s, sizeof s));
	} else verify(m, ts, ks);
}
static std::vector<Op> set_a() { return {o_put("t", "a", 1), o_put("t", "a", 4096), o_put("t", "a", 4097), o_put("t", "b", 5), o_put("t", "b", 9000), o_put("u", "a", 100), o_del("t", "a"), o_del("t", "b"), o_delt("t"), o_bulk("t", {"a", "b"}), o_bulk("u", {"a"}), o_get("t", "a", false), o_list("t")}; }
static std::vector<Op> set_b() { return {o_put("t", "a", 4097), o_put("t", "a", 7), o_put("t", "b", 8), o_del("t", "a"), o_delt("t"), o_bulk("t", {"b"}), o_get("t", "b", true)}; }
static std::vector<Op> set_c() { return {o_put("t", "a", 20000), o_put("t", "a", 4095), o_put("t", "ab", 3), o_put("ta", "b", 4), o_del("t", "ab"), o_bulk("t", {"x", "a"}), o_bulk("nope", {"a"}), o_delt("nope"), o_get("nope", "a", false), o_del("nope", "a"), o_delt("ta"), o_list("ta")}; }

// two names that differ in one place only, of every length and at every kind of place, as keys and as tables
static void similar_names() {
	use_variant("std"); base_restore("plain", args(), nullptr);
	static const int L[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 6000, 8191, 8192, 8193, 12000, 16000, 16300};
	int len = L[choose(sizeof L / sizeof *L, "length")]; std::set<int> P = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 100, 127, 128, 254, 255, 256, 512, 1000, 1023, 1024, 2048, len / 2, len - 5, len - 4, len - 3, len - 2, len - 1}; std::vector<int> ps; for (int x : P) if (x >= 0 && x < len) ps.push_back(x);
	int at = choose((int)ps.size() + 2, "difference at"); int kind = choose(3, "names of"); size_t n1 = choose(2, "size") ? 4200 : 20;
	str x(len, 'q'); for (int i = 0; i < len; i += 7) x[i] = (char)('a' + i % 13); str y = x; if (at < (int)ps.size()) y[ps[at]] ^= 1; else if (at == (int)ps.size()) y += "q"; else y = "q" + y;
	str t1 = kind == 0 ? "t" : x, t2 = kind == 0 ? "t" : y, k1 = kind == 1 ? "k" : x, k2 = kind == 1 ? "k" : y; Model m; Cl c = cl_open();
	auto put = [&](const str& t, const str& k, int tag, size_t n) { str v = mkval(tag, n); Resp r = ask(c, rq_put(t, k, v), "PUT"); if (r.status != 200) violation("PUT of a name of %zu bytes answered %d", k.size(), r.status); m[t][k] = {v, 0}; };
	auto all = [&](const char* when) { check_get(c, m, t1, k1, when); check_get(c, m, t2, k2, when); check_head(c, m, t1, k2, when); check_head(c, m, t2, k1, when); };
	put(t1, k1, 1, n1); all(" first"); put(t2, k2, 2, 30); all(" both"); put(t1, k1, 3, 50); all(" overwritten");
	ask(c, rq_del(t2, k2), "DELETE"); m_erase(m, t2, k2); all(" deleted"); put(t2, k2, 4, n1); all(" again"); if (kind == 1) { ask(c, rq_delt(t1), "DELETE"); m.erase(t1); } else { ask(c, rq_bulk(t1, {k1}), "BULK"); m_erase(m, t1, k1); } all(" at the end"); outcome(len * 100 + at);
}
// every pair of interesting lengths: a value, then another in its place
static void lengths(bool th) {
	use_variant("std"); base_restore("plain", args(), nullptr); std::vector<size_t> L; for (size_t i = 1; i <= 40; i++) L.push_back(i); for (size_t b : {63, 127, 255, 511, 1023, 2047, 4095, 4096 * 2 - 1, 4096 * 4 - 1, 32767, 65535}) for (size_t d = 0; d < 3; d++) L.push_back(b + d); for (size_t b : {131072, 200001, 1048576}) L.push_back(b); if (th) for (size_t b : {16777215, 16777216, 33554433}) L.push_back(b);
	for (size_t b : {4094, 4098, 4099, 4100, 16300, 16350, 16370, 16383, 16384, 16385, 5000, 6000, 12288, 12289}) L.push_back(b); env.steplimit = 3000000;
	size_t a = L[choose((int)L.size(), "first length")]; std::vector<size_t> M = {1, 4096, 4097, 16384, 70000}; size_t b = M[choose((int)M.size(), "second length")]; if (choose(2, "order")) std::swap(a, b);
	Model m; Cl c = cl_open(); auto put = [&](const str& k, int tag, size_t n) { str v = mkval(tag, n); Resp r = ask(c, rq_put("t", k, v), "PUT"); if (r.status != 200) violation("PUT of %zu bytes answered %d", n, r.status); m["t"][k] = {v, 0}; };
	put("x", 1, 10); put("a", 2, a); put("y", 3, a); check_get(c, m, "t", "a"); check_head(c, m, "t", "a"); put("a", 4, b); for (auto k : {"x", "a", "y"}) check_get(c, m, "t", k, " after an overwrite"); ask(c, rq_del("t", "y"), "DELETE"); m_erase(m, "t", "y"); put("z", 5, a); for (auto k : {"x", "a", "y", "z"}) check_get(c, m, "t", k, " at the end"); check_stats(c, m, "at the end"); outcome(a * 1000003 + b);
}
// statistics when requests overlap: uploads that end in any way, readers that keep what was removed
static void stats_overlap(const char* variant, int depth, int set) {
	use_variant(variant); base_restore("plain", args(), nullptr); Cl c = cl_open(); int tag = 0; std::map<str, std::set<str>> ever; struct Up { Cl c; str rest; }; std::vector<Up> ups; std::vector<std::pair<Cl, str>> rd;
	struct X { str name; std::function<void()> f; }; std::vector<X> ops;
	auto put = [&](const str& k, size_t n) { ops.push_back({"PUT t/" + k + " " + itos(n), [&, k, n] { str v = mkval(++tag, n); ever[k].insert(v); Resp r = ask(c, rq_put("t", k, v), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); }}); };
	auto begin = [&](const str& k, size_t n) { ops.push_back({"an upload of t/" + k + " begins (" + itos(n) + ")", [&, k, n] { Up u; u.c = cl_open(); str v = mkval(++tag, n), s = rq_put("t", k, v); ever[k].insert(v); cl_send(u.c.s, s.substr(0, s.size() - 7)); run(); u.rest = s.substr(s.size() - 7); ups.push_back(u); }}); };
	auto endup = [&](bool ok) { if (ups.empty()) return; Up u = ok ? ups.front() : ups.back(); if (ok) ups.erase(ups.begin()); else ups.pop_back(); if (ok) { cl_send(u.c.s, u.rest); run(); } cl_close(u.c.s); run(); };
	auto half = [&](const str& s, const str& what) { ops.push_back({what, [&, s] { Cl g = cl_open(); size_t e = s.find("\r\n") + 2; cl_send(g.s, s.substr(0, e)); run(); rd.push_back({g, s.substr(e)}); }}); };
	put("a", 20); if (set == 0) put("a", 5000); put("b", 10); begin("a", set == 0 ? 4200 : 40); if (set == 1) begin("b", 5000);
	half(rq_get("t", "a"), "half a GET of t/a"); half(set == 0 ? rq_delt("t") : rq_del("t", "b"), "half a DELETE");
	ops.push_back({"a slow GET of t/a", [&] { Cl g = cl_open(); cl_window(g.s, 60); cl_send(g.s, rq_get("t", "a")); run(); rd.push_back({g, ""}); }});
	ops.push_back({"the first upload ends", [&] { endup(true); }}); ops.push_back({"the last upload is aborted", [&] { endup(false); }});
	ops.push_back({"the first reader goes on", [&] { if (rd.empty()) return; auto r = rd[0]; rd.erase(rd.begin()); cl_window(r.first.s, -1); if (!r.second.empty()) cl_send(r.first.s, r.second); run(); cl_close(r.first.s); run(); }});
	ops.push_back({"DELETE t/a", [&] { ask(c, rq_del("t", "a"), "DELETE"); }}); ops.push_back({"DELETE t", [&] { ask(c, rq_delt("t"), "DELETE"); }}); if (set == 1) ops.push_back({"BULK", [&] { ask(c, rq_bulk("t", {"a", "b"}), "BULK"); }});
	ask(c, rq_put("u", "z", mkval(90, 33)), "PUT"); ever["z"].insert(mkval(90, 33));
	for (int i = 0; i < depth; i++) { int o = choose((int)ops.size() + (i ? 1 : 0), "operation"); if (i) { if (!o) break; o--; } LOG("%s\n", ops[o].name.c_str()); ops[o].f(); }
	int how = choose(2, "the uploads"); while (!ups.empty()) endup(how);
	auto truth = [&](bool blocks, const str& when) { settle(); Model m; for (auto& tk : std::vector<std::pair<str, str>>{{"t", "a"}, {"t", "b"}, {"u", "z"}}) { Resp r = ask(c, rq_get(tk.first, tk.second), "GET"); if (r.status == 404) continue; if (!ever[tk.second].count(r.body)) violation("GET /%s/%s answers bytes that were never stored there", tk.first.c_str(), tk.second.c_str()); m[tk.first][tk.second] = {r.body, 0}; }
		Stats s = stats(c); if (s.keys != (int64_t)m_keys(m) || s.tables != (int64_t)m.size() || s.bytes != (int64_t)m_bytes(m)) violation("%s statistics report %lld keys, %lld tables, %lld bytes; there are %zu, %zu, %zu", when.c_str(), (long long)s.keys, (long long)s.tables, (long long)s.bytes, m_keys(m), m.size(), m_bytes(m));
		if (blocks) check_stats(c, m, when); uint64_t h = 3; for (auto& t : m) for (auto& k : t.second) h = hash_str(k.first + k.second.data, h); outcome(h); };
	if (!rd.empty()) truth(false, "while clients are still reading"); for (auto& r : rd) { cl_close(r.first.s); run(); } truth(true, "at the end");
}
// header names that only look like the ones with a meaning
static std::vector<str> near(const str& n) {
	std::set<str> o; auto lower = [](str s) { for (auto& c : s) c = (char)tolower(c); return s; };
	auto add = [&](const str& s) { if (!s.empty() && lower(s) != lower(n)) o.insert(s); };
	for (size_t i = 0; i < n.size(); i++) { str s = n; s.erase(i, 1); add(s); for (char ch : {'x', '-', '\x7f'}) { s = n; s[i] = ch; add(s); s = n; s[i] = (char)(n[i] ^ 1); if (s[i] != ':') add(s); } add(n.substr(0, i)); add(n.substr(i)); }
	for (size_t i = 0; i <= n.size(); i++) for (char ch : {'x', '-'}) { str s = n; s.insert(i, 1, ch); add(s); } add(n + n); add("X-" + n); add(n + str(300, 'y')); return std::vector<str>(o.begin(), o.end());
}
static void lookalike(int which) {
	use_variant("std"); base_restore("plain", args(), nullptr); static const char* H[] = {"Content-Length", "X-Ttl", "X-Start", "X-Limit", "X-Delete"}; std::vector<str> N = near(H[which]); str n = N[choose((int)N.size(), "name")], l = n + ": " + (which == 4 ? "a" : "3") + "\r\n"; int place = choose(3, "place");
	Model m; Cl c = cl_open(); str what = " with a header " + show(n, 40); for (auto k : {"a", "b", "c", "d", "e"}) { str v = mkval(k[0], 20); ask(c, rq_put("t", k, v), "PUT"); m["t"][k] = {v, 0}; }
	auto put = [&](const char* hdr, bool ok, int64_t ttl) { str h = hdr, v = mkval(9, 21), s = rq("PUT", "/t/b", place == 0 ? l + h : place == 1 ? h + l : l + h + l); Cl p = cl_open(); cl_send(p.s, s + (ok ? v : str())); run(); Resp r = expect_resp(p, false, "PUT" + what); no_more(p, "PUT" + what); if ((r.status == 200) != ok) violation("PUT%s answered %d", what.c_str(), r.status); if (ok) { m["t"]["b"] = {v, ttl ? now_sec() + ttl : 0}; if (p.eof()) violation("PUT%s ends the connection", what.c_str()); check_get(p, m, "t", "b", what.c_str()); } else m_erase(m, "t", "b"); cl_close(p.s); run(); };
	if (which == 0) { put("Content-Length: 21\r\n", true, 0); put("Content-Length: 21\r\nX-Ttl: 50\r\n", true, 50); put("X-Ttl: 50\r\n", false, 0); put("", false, 0); }
	else if (which == 1) { put("Content-Length: 21\r\n", true, 0); tick_s(5); check_get(c, m, "t", "b", what.c_str()); put("Content-Length: 21\r\nX-Ttl: 70\r\n", true, 70); }
	else if (which < 4) for (const char* hdr : {"", "Host: x\r\n"}) { str h = hdr; Cl g = cl_open(); cl_send(g.s, rq("GET", "/t", place == 0 ? l + h : place == 1 ? h + l : l + h + l)); run(); Listing x = parse_listing(expect_resp(g, false, "listing" + what), "listing" + what); if (x.keys.size() != 5) violation("a listing%s has %zu keys of 5", what.c_str(), x.keys.size()); cl_close(g.s); run(); }
	else { str h = "X-Delete: d\r\n"; Resp r = ask(c, rq("BULK", "/t", place == 0 ? l + h : place == 1 ? h + l : l + h + l), "BULK" + what); if (r.status != 200) violation("BULK%s answered %d", what.c_str(), r.status); m_erase(m, "t", "d"); }
	for (auto k : {"a", "b", "c", "d", "e"}) { check_get(c, m, "t", k, what.c_str()); Resp r = ask(c, rq("GET", str("/t/") + k, l), "GET" + what); check_value(r, m_find(m, "t", k), false, "GET" + what); } check_stats(c, m, "after a request" + what); outcome(hash_str(n));
}
static void stats_long(bool deep) { // more of everything than 16 bits count
	use_variant("std"); base_restore("plain", args(), nullptr); env.steplimit = 100000000; Cl c = cl_open(); int kind = choose(deep ? 4 : 3, "what there is much of"); Model m; Counters n; ask(c, rq_put("t", "k", mkval(1, 33)), "PUT"); n.ins = 1; m["t"]["k"] = {mkval(1, 33), 0};
	env.forkfault = [] { return EAGAIN; }; auto quick = [&](const str& s, int i) { cl_send(c.s, s); run(); c.pos = c.out().size(); if (i % 256 == 0) { w.socks[c.s].out.clear(); w.socks[c.s].in.clear(); w.socks[c.s].inpos = 0; c.pos = 0; } };
	auto same = [&](int i) { str when = "after " + itos(i) + (kind == 0 ? " stores" : kind == 1 ? " requests for a value" : kind == 2 ? " stores and deletes" : " keys"); check_stats(c, m, when); Stats s = stats(c); if (s.ins != n.ins || s.gets != n.gets || s.dels != n.dels) violation("%s statistics report %lld inserts, %lld gets, %lld deletes; there were %lld, %lld, %lld", when.c_str(), (long long)s.ins, (long long)s.gets, (long long)s.dels, (long long)n.ins, (long long)n.gets, (long long)n.dels); };
	for (int i = 1; i <= 66000; i++) {
		if (kind == 0) { quick(rq_put("t", "k", i % 2 ? "odd" : "evens"), i); n.ins++; m["t"]["k"] = {i % 2 ? "odd" : "evens", 0}; } else if (kind == 1) { quick(rq_get("t", "k"), i); n.gets++; } else if (kind == 2) { quick(rq_put("u", "k", "v") + rq_del("u", "k"), i); n.ins++; n.dels++; } else { str k = "k" + itos(i); quick(rq_put("n" + itos(i % 3), k, mkval(1, 5)), i); n.ins++; m["n" + itos(i % 3)][k] = {mkval(1, 5), 0}; }
		if ((i & (i - 1)) == 0 || ((i + 1) & i) == 0 || (i > 65530 && i < 65542) || i == 66000) { if (i % 256) quick(rq_head("t", "none"), 0); same(i); } }
	env.forkfault = nullptr; outcome(kind);
}
static Reg r01("C01", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"all sequences, one connection", [=] { seq(set_a(), th ? 6 : 4, 1, false, {"t", "u"}, {"a", "b"}); }});
	v.push_back({"all sequences, one connection, memory is used again", [=] { env.reuse = true; seq(set_a(), th ? 5 : 3, 1, false, {"t", "u"}, {"a", "b"}); }});
	v.push_back({"all sequences, a connection per request", [=] { seq(set_b(), th ? 7 : 5, 0, false, {"t", "u"}, {"a", "b"}); }});
	v.push_back({"all sequences, a connection per request, memory is used again", [=] { env.reuse = true; seq(set_b(), th ? 6 : 4, 0, false, {"t", "u"}, {"a", "b"}); }});
	v.push_back({"all sequences, two connections", [=] { seq(set_c(), th ? 5 : 4, 2, false, {"t", "ta", "nope"}, {"a", "ab", "b", "x"}); }});
	v.push_back({"all sequences, two connections, memory is used again", [=] { env.reuse = true; seq(set_c(), th ? 4 : 3, 2, false, {"t", "ta", "nope"}, {"a", "ab", "b", "x"}); }});
	v.push_back({"expiry scan on every insert", [=] { seq(set_b(), th ? 6 : 5, 1, false, {"t", "u"}, {"a", "b"}, "lru1"); }});
	v.push_back({"names that differ in one place", [=] { similar_names(); }});
	v.push_back({"value lengths", [=] { lengths(th); }});
	v.push_back({"headers that look like the length", [=] { lookalike(0); }});
	v.push_back({"headers that look like the keys of a bulk delete", [=] { lookalike(4); }});
}, {"sequential requests only; overlapping ones are C02"});
static Reg r08("C08", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"statistics after all sequences", [=] { seq(set_a(), th ? 5 : 4, 1, true, {}, {}); }});
	v.push_back({"statistics, other operations", [=] { seq(set_c(), th ? 5 : 4, 2, true, {}, {}); }});
	v.push_back({"statistics when requests overlap", [=] { stats_overlap("std", th ? 5 : 4, 0); }});
	v.push_back({"statistics when requests overlap, more uploads", [=] { stats_overlap("lru1", th ? 5 : 4, 1); }});
	v.push_back({"statistics with background saves", [=] { seq(set_b(), th ? 6 : 5, 0, true, {}, {}, "lru1"); }});
	v.push_back({"more of everything than 16 bits count", [=] { stats_long(th); }});
});
static Reg r09("C09", [](std::vector<Scenario>& v, bool) { v.push_back({"headers that look like the time to live", [=] { lookalike(1); }}); });
static Reg r11("C11", [](std::vector<Scenario>& v, bool) { for (int i : {2, 3}) v.push_back({i == 2 ? "headers that look like X-Start" : "headers that look like X-Limit", [=] { lookalike(i); }}); });
}

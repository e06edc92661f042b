// C09: time to live. C10: least recently used eviction, against an exact model. C07: storage is given back.
#include "client.h"
namespace {

// ---------------------------------------------------------------- C09
static void ttl_seq(const char* variant, int depth, int set) {
	use_variant(variant); base_restore("plain", args(), nullptr);
	static const int64_t frac[] = {0, 300000, 994000}; int fr = choose(3, "fraction of the second"); if (frac[fr]) tick(frac[fr]);
	struct O { str name; std::function<void(Cl&, Model&, int)> f; };
	auto put = [](const str& t, const str& k, size_t n, int64_t ttl) { return O{"PUT " + t + "/" + k + " ttl " + itos(ttl), [=](Cl& c, Model& m, int s) { str v = mkval(s + 1, n); Resp r = ask(c, rq_put(t, k, v, ttl), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); m[t][k] = Val{v, ttl > 0 ? now_sec() + ttl : 0}; }}; };
	auto tk = [](int64_t us) { return O{"wait " + itos(us / 1000) + " ms", [=](Cl&, Model&, int) { tick(us); }}; };
	auto expire = [](Model& m) { for (auto t = m.begin(); t != m.end();) { for (auto k = t->second.begin(); k != t->second.end();) if (k->second.exp && k->second.exp < now_sec()) k = t->second.erase(k); else ++k; if (t->second.empty()) t = m.erase(t); else ++t; } };
	auto get = [](const str& t, const str& k, bool head) { return O{(head ? "HEAD " : "GET ") + t + "/" + k, [=](Cl& c, Model& m, int) { if (head) check_head(c, m, t, k); else check_get(c, m, t, k); }}; };
	auto del = [](const str& t, const str& k) { return O{"DELETE " + t + "/" + k, [=](Cl& c, Model& m, int) { bool had = m_find(m, t, k); Resp r = ask(c, rq_del(t, k), "DELETE"); if (had && r.status != 200) violation("DELETE of a live key answered %d", r.status); m_erase(m, t, k); }}; };
	O gc{"GC", [](Cl& c, Model&, int) { ask(c, rq_gc(), "ADMIN /gc"); settle(); }};
	O list{"LIST t", [](Cl&, Model& m, int) { Listing l = listing("t", "LIST"); std::set<str> have(l.keys.begin(), l.keys.end()), want; auto i = m.find("t"); if (i != m.end()) for (auto& k : i->second) want.insert(k.first); if (have != want || have.size() != l.keys.size()) violation("listing has %zu keys, %zu are live", l.keys.size(), want.size()); }};
	std::vector<O> ops;
	if (set == 0) ops = {put("t", "a", 20, 1), put("t", "a", 5000, 2), put("t", "a", 9, -1), put("t", "b", 5000, 1), put("t", "b", 30, 0), get("t", "a", false), del("t", "a"), tk(700000), tk(1000000), tk(2006000), gc};
	else if (set == 1) ops = {put("t", "a", 20, 2), put("t", "b", 4096, 1), put("u", "a", 4097, 1), put("u", "c", 40, -1), get("t", "a", true), get("u", "a", false), list, tk(1000000), tk(600000), gc};
	else ops = {put("t", "a", 20, 1), put("t", "b", 30, 3600), put("t", "a", 40, 86400 * 30), put("t", "c", 50, 40000000), put("u", "a", 60, 2147483647), tk(1000000), tk(3599000000ll), tk(86400ll * 30 * 1000000), tk(39999999ll * 1000000), get("t", "b", true), gc};
	std::vector<std::pair<Cl, str>> rd; Cl half;
	if (set == 3) ops = {put("t", "a", 20, 1), put("t", "a", 5000, 2), put("t", "b", 30, -1), get("t", "a", false), get("t", "a", true), list, tk(1000000), tk(2006000), gc,
		{"a slow GET of t/a begins", [&](Cl&, Model& m, int) { Cl g = cl_open(); cl_window(g.s, 20); cl_send(g.s, rq_get("t", "a")); run(); const Val* v = m_find(m, "t", "a"); rd.push_back({g, v ? v->data : str("-")}); }},
		{"the slow GET ends", [&](Cl&, Model&, int) { if (rd.empty()) return; auto r = rd[0]; rd.erase(rd.begin()); cl_window(r.first.s, -1); run(); Resp x = expect_resp(r.first, false, "slow GET"); if (r.second == "-" ? x.status != 404 : x.status != 200 || x.body != r.second) violation("a slow GET of t/a answers %d, %zu bytes", x.status, x.body.size()); cl_close(r.first.s); run(); }},
		{"half a GET of t/a", [&](Cl&, Model&, int) { if (half.s >= 0) return; half = cl_open(); cl_send(half.s, "GET /t/a HTTP/1.1\r\n"); run(); }}};
	auto again = [](int64_t us) { return O{"restart after " + itos(us / 1000) + " ms", [=](Cl& c, Model&, int) { shut(15); w.now += us; boot(args()); c = cl_open(); }}; };
	if (set == 4) ops = {put("t", "a", 20, 1), put("t", "a", 5000, 2), put("t", "b", 5000, 1), put("u", "a", 4096, 0), put("u", "a", 30, 3600), put("t", "b", 30, -1), get("t", "a", false), list, tk(1000000), gc, again(0), again(1600000), again(3000000), again(3600000000ll)};
	Model m; Cl c = cl_open();
	for (int i = 0; i < depth; i++) { int o = choose((int)ops.size() + (i ? 1 : 0), "operation"); if (i) { if (!o) break; o--; } LOG("%s\n", ops[o].name.c_str()); expire(m); ops[o].f(c, m, i); expire(m); }
	for (const char* t : {"t", "u"}) for (const char* k : {"a", "b", "c"}) check_get(c, m, t, k, " at the end");
	uint64_t h = w.now; for (auto& t : m) for (auto& k : t.second) h = hash_str(t.first + k.first + k.second.data, h) + k.second.exp; outcome(h);
	for (auto& r : rd) { cl_close(r.first.s); run(); } if (half.s >= 0) { cl_close(half.s); run(); }
	// later on everything with a time to live is gone, and the storage with it
	int64_t last = 0; for (auto& t : m) for (auto& k : t.second) last = std::max(last, k.second.exp);
	if (last) { tick((last + 1) * 1000000 - w.now); expire(m); for (const char* t : {"t", "u"}) for (const char* k : {"a", "b", "c"}) check_get(c, m, t, k, " after the last time to live"); settle(); check_stats(c, m, "after the last time to live"); }
}
// the exact second at which a value disappears, for every time to live and fraction, and the headers until then
static void ttl_edge(const char* variant, bool collected) {
	use_variant(variant); base_restore("plain", args(), nullptr);
	static const int64_t ns[] = {1, 2, 3, 10, 60, 2147483, 31536000, 31536001, 1000000000, 2147483646, 2147483647}; int64_t n = ns[choose(11, "time to live")], f = choose(10, "tenth of a second") * 100000; int kind = choose(3, "kind of value"); size_t len = kind == 0 ? 10 : kind == 1 ? 4096 : 7000;
	if (f) tick(f);
	Cl c = cl_open(); Model m; str v = mkval(1, len); int64_t t0 = now_sec(); ask(c, rq_put("t", "a", v, n), "PUT"); m["t"]["a"] = {v, t0 + n}; ask(c, rq_put("t", "keep", "kept"), "PUT"); m["t"]["keep"] = {"kept", 0};
	std::vector<int64_t> at; for (int64_t s : {(int64_t)0, (int64_t)1, n - 1, n, n + 1, n + 2}) for (int64_t u : {0, 5000, 500000, 995000}) { int64_t x = (t0 + s) * 1000000 + u; if (x > w.now && s >= 0) at.push_back(x); }
	std::sort(at.begin(), at.end()); int stop = choose((int)at.size(), "instant"); tick(at[stop] - w.now);
	if (collected) { ask(c, rq_gc(), "ADMIN /gc"); settle(); }
	int how = choose(3, "request"); bool gone = now_sec() > t0 + n; if (gone) m["t"].erase("a");
	if (how == 0) check_get(c, m, "t", "a"); else if (how == 1) check_head(c, m, "t", "a"); else { Listing l = listing("t", "listing"); if (l.keys.size() != m["t"].size()) violation("listing %lld us after the store with time to live %lld has %zu keys", (long long)(w.now - t0 * 1000000), (long long)n, l.keys.size()); }
	check_get(c, m, "t", "keep"); outcome(stop * 100 + n);
}
// time passes while the request or the upload is under way
static void ttl_during() {
	use_variant("std"); base_restore("plain", args(), nullptr); tick(500000);
	Cl c = cl_open(), o = cl_open(); str v = mkval(1, 5000); str s = rq_put("t", "a", v, 2); size_t h = s.find("\r\n\r\n") + 4; std::vector<size_t> cuts = {3, 9, s.find("\r\n") + 2, s.find("X-Ttl") + 8, h - 2, h, h + 100, s.size() - 1};
	size_t cut = cuts[choose((int)cuts.size(), "pause at")]; int64_t pause = choose(6, "pause") * 600000; int64_t a = now_sec();
	cl_send(c.s, s.substr(0, cut)); run(); if (pause) tick(pause);
	int mw = choose(8, "meanwhile"); if (mw) { LOG("meanwhile %d\n", mw); if (mw == 1) { ask(o, rq_get("t", "a"), "GET"); ask(o, rq_get("t", "a"), "GET"); } else if (mw == 2) ask(o, rq_head("t", "a"), "HEAD", true); else if (mw == 3) listing("t", "listing"); else if (mw == 4) { ask(o, rq_gc(), "GC"); settle(); } else if (mw >= 6) ask(o, rq_put("t", "a", "another value", mw == 6 ? -1 : 3600), "overlapping PUT"); else { ask(o, rq_put("t", "b", "other", 1), "PUT"); ask(o, rq_get("t", "b"), "GET"); } }
	 cl_send(c.s, s.substr(cut)); run(); expect_resp(c, false, "PUT"); int64_t b = now_sec();
	tick(choose(9, "wait") * 500000 + 5000);
	Resp r = ask(o, rq_get("t", "a"), "GET"); int64_t n = now_sec();
	if (mw >= 6 && r.status == 200 && r.body == "another value") {}
	else if (r.status == 200) { if (n > b + 2) violation("served %lld s after the upload ended with a time to live of 2 s", (long long)(n - b)); if (r.body != v) violation("wrong bytes"); if (r.num("x-ttl") > b + 2 - n || r.num("x-ttl") < a + 2 - n) violation("X-Ttl %lld", (long long)r.num("x-ttl")); }
	else if (n <= a + 2) violation("answered %d %lld s after the upload began with a time to live of 2 s", r.status, (long long)(n - a));
	// a reader that started before the end gets everything
	Cl g = cl_open(); ask(o, rq_put("t", "z", v, 1), "PUT"); cl_window(g.s, 10); cl_send(g.s, rq_get("t", "z")); run(); tick_s(5); int how = choose(3, "collected by"); if (how == 0) ask(o, rq_get("t", "z"), "GET"); else if (how == 1) { ask(o, rq_gc(), "GC"); settle(); } else ask(o, rq_put("t", "z", "new"), "PUT"); cl_window(g.s, -1); run(); Resp x = expect_resp(g, false, "GET of a value that expires meanwhile"); if (x.status != 200 || x.body != v) violation("a reader of a value that expires meanwhile gets %d, %zu bytes", x.status, x.body.size()); outcome(cut * 100 + pause / 600000);
}
// one collection, with many tables: all that has expired goes, tables that become empty too, the rest stays
static void ttl_tables() {
	use_variant("std"); base_restore("plain", args(), nullptr); static const int N[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 25, 33, 64, 100, 257}; int nt = N[choose(15, "tables")], nk = 1 + choose(3, "keys"), pat = choose(7, "which expire"), before = choose(3, "collections before"), how = choose(3, "then"); bool file = choose(2, "values with files");
	Cl c = cl_open(); Model m; w.auto_child = false; // saves do not matter here
	for (int t = 0; t < nt; t++) for (int k = 0; k < nk; k++) {
		bool e = pat == 0 || (pat == 1 && t % 2 == 0) || (pat == 2 && t % 2) || (pat == 3 && k == 0) || (pat == 4 && k == nk - 1) || (pat == 5 && (t * 7 + k) % 3 == 0) || (pat == 6 && t % 16 == 5);
		str tn = "t" + itos(t), kn = "k" + itos(k), v = mkval(t * 4 + k, file && t % 8 == 0 ? 4100 : 12); if (ask(c, rq_put(tn, kn, v, e ? 3 : -1), "PUT").status != 200) violation("PUT is refused"); m[tn][kn] = {v, e ? now_sec() + 3 : 0}; }
	for (int i = 0; i < before; i++) ask(c, rq_gc(), "GC"); check_stats(c, m, "before");
	tick_s(5); for (auto t = m.begin(); t != m.end();) { for (auto k = t->second.begin(); k != t->second.end();) if (k->second.exp && k->second.exp < now_sec()) k = t->second.erase(k); else ++k; if (t->second.empty()) t = m.erase(t); else ++t; }
	if (how == 1) { ask(c, rq_put("t" + itos(nt / 2), "k0", "new"), "PUT"); m["t" + itos(nt / 2)]["k0"] = {"new", 0}; } else if (how == 2) { ask(c, rq_delt("t" + itos(nt - 1)), "DELETE"); m.erase("t" + itos(nt - 1)); }
	ask(c, rq_gc(), "GC"); check_stats(c, m, "after one collection"); for (int t = 0; t < nt; t++) for (int k = 0; k < nk; k++) check_get(c, m, "t" + itos(t), "k" + itos(k), " after one collection");
	for (int t = 0; t < nt; t++) { Resp r = ask(c, rq_delt("t" + itos(t)), "DELETE"); bool had = m.count("t" + itos(t)); if (r.status != (had ? 200 : 404)) violation("DELETE of table %d answered %d, it was %s", t, r.status, had ? "there" : "not there"); } m.clear(); check_stats(c, m, "at the end"); outcome(nt * 1000 + pat * 100 + how * 10 + before);
}
static Reg r09("C09", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"sequences", [=] { ttl_seq("std", th ? 6 : 4, 0); }});
	v.push_back({"sequences in two tables", [=] { ttl_seq("std", th ? 6 : 4, 1); }});
	v.push_back({"sequences, expiry scan on every insert", [=] { ttl_seq("lru1", th ? 6 : 4, 0); }});
	v.push_back({"long times", [=] { ttl_seq("std", th ? 5 : 4, 2); }});
	v.push_back({"sequences while clients are reading", [=] { ttl_seq("std", th ? 5 : 4, 3); }});
	v.push_back({"sequences while clients are reading, memory is used again", [=] { env.reuse = true; ttl_seq("std", th ? 4 : 3, 3); }});
	v.push_back({"sequences with restarts", [=] { ttl_seq("std", th ? 5 : 4, 4); }});
	v.push_back({"sequences with restarts, expiry scan on every insert", [=] { ttl_seq("lru1", th ? 5 : 3, 4); }});
	v.push_back({"the last second", [=] { ttl_edge("std", false); }});
	v.push_back({"the last second, after collection", [=] { ttl_edge("std", true); }});
	v.push_back({"many tables", [=] { ttl_tables(); }});
	v.push_back({"time passes during the requests", [=] { ttl_during(); }});
}, {"time passes in steps of at least 5 ms, the resolution of the server's clock"});

// ---------------------------------------------------------------- C10
struct Lru { // the exact model
	struct E { str k; int64_t n; int64_t exp; str v; }; std::vector<E> l; int64_t up = 0; int64_t max; int p; 
	int64_t sum() { int64_t s = up; for (auto& e : l) s += e.n; return s; }
	int find(const str& k) { for (size_t i = 0; i < l.size(); i++) if (l[i].k == k) return (int)i; return -1; }
	void gc() { bool over = max > 0 && sum() > max; for (size_t i = 0; i < l.size();) if (l[i].exp && l[i].exp < now_sec()) l.erase(l.begin() + i); else i++;
		if (over) { int64_t lim = max * (100 - p); while (!l.empty() && sum() * 100 > lim) l.erase(l.begin()); } }
};
static void lru(const char* variant, int64_t max, int p, int depth, bool ttl, bool uploads, bool saving = false, bool restarts = false) {
	use_variant(variant); bool every = !strcmp(variant, "lru1"); std::vector<str> ex; if (max) { ex.push_back("-s"); ex.push_back(itos(max)); } if (p != 20) { ex.push_back("-l"); ex.push_back(itos(p)); }
	str key = "lru" + itos(max) + "/" + itos(p); base_restore(key, args(ex), nullptr);
	Lru M; M.max = max; M.p = p; Cl c = cl_open(), u; str upv; int inserts = 0;
	struct O { str name; std::function<void(int)> f; };
	auto put = [&](const str& k, int64_t n, int64_t t) { return O{"PUT " + k + " " + itos(n) + (t ? " ttl " + itos(t) : ""), [&, k, n, t](int s) {
		str v = mkval(s + 1, n); Resp r = ask(c, rq_put("t", k, v, t ? t : -1), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status);
		int i = M.find(k); if (i >= 0) M.l.erase(M.l.begin() + i); inserts++; if (every) M.gc(); M.l.push_back({k, n, t ? now_sec() + t : 0, v}); }}; };
	auto get = [&](const str& k, bool head) { return O{(head ? "HEAD " : "GET ") + k, [&, k, head](int) {
		int i = M.find(k); if (i >= 0 && M.l[i].exp && M.l[i].exp < now_sec()) { M.l.erase(M.l.begin() + i); i = -1; }
		Resp r = ask(c, head ? rq_head("t", k) : rq_get("t", k), "GET", head); if (r.status != (i >= 0 ? 200 : 404)) violation("GET %s answered %d", k.c_str(), r.status); if (i >= 0) { if (!head && r.body != M.l[i].v) violation("GET %s: wrong bytes", k.c_str()); auto e = M.l[i]; M.l.erase(M.l.begin() + i); M.l.push_back(e); } }}; };
	auto check = [&](const char* when) { // without touching the order: the listing
		std::vector<str> have = listing("t", "listing").keys, want; for (auto& e : M.l) if (!e.exp || e.exp >= now_sec()) want.push_back(e.k); std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end());
		if (have != want) { str a, b; for (auto& k : have) a += k + " "; for (auto& k : want) b += k + " "; violation("%s the keys are [ %s], the least recently used order leaves [ %s]", when, a.c_str(), b.c_str()); } };
	std::vector<O> ops = {put("a", 1000, 0), put("b", 1500, 0), put("c", 1000, 0), put("d", 4500, 0), put("a", 2500, 0), get("a", false), get("b", true),
		{"DELETE b", [&](int) { int i = M.find("b"); Resp r = ask(c, rq_del("t", "b"), "DELETE"); (void)r; if (i >= 0) M.l.erase(M.l.begin() + i); }},
		{"GC", [&](int) { ask(c, rq_gc(), "GC"); if (!saving) settle(); M.gc(); check("after garbage collection"); }}};
	std::vector<Cl> rd; ops.push_back({"a slow GET of a begins or ends", [&](int) { if (rd.empty()) { int i = M.find("a"); if (i >= 0 && M.l[i].exp && M.l[i].exp < now_sec()) { M.l.erase(M.l.begin() + i); i = -1; } Cl g = cl_open(); cl_window(g.s, 40); cl_send(g.s, rq_get("t", "a")); run(); if (i >= 0) { auto e = M.l[i]; M.l.erase(M.l.begin() + i); M.l.push_back(e); } rd.push_back(g); } else { cl_window(rd[0].s, -1); run(); expect_resp(rd[0], false, "slow GET"); cl_close(rd[0].s); run(); rd.clear(); } }});
	if (ttl) { ops.push_back(put("c", 2000, 1)); ops.push_back(put("a", 700, 1)); ops.push_back(put("b", 900, 50)); ops.push_back({"wait 3 s", [&](int) { tick_s(3); }}); }
	if (uploads) ops.push_back({"begin or end an upload of e", [&](int s) {
		if (u.s < 0) { int i = M.find("e"); if (i >= 0) M.l.erase(M.l.begin() + i); upv = mkval(s + 1, 3000); u = cl_open(); str x = rq_put("t", "e", upv); cl_send(u.s, x.substr(0, x.size() - 100)); run(); inserts++; if (every) M.gc(); M.up = 3000; }
		else { cl_send(u.s, upv.substr(2900)); run(); Resp r = expect_resp(u, false, "upload"); if (r.status != 200) violation("PUT answered %d", r.status); cl_close(u.s); run(); u = Cl(); M.up = 0; M.l.push_back({"e", 3000, 0, upv}); } }});
	if (restarts) { // the order does not survive: it is set up again by a request for each value
		std::vector<O> few; for (auto& o : ops) if (o.name.find("slow") == str::npos && o.name != "PUT b 1500" && o.name != "PUT a 700 ttl 1" && o.name != "PUT c 1000" && o.name != "HEAD b") few.push_back(o); ops = few;
		ops.push_back({"restart", [&](int) { shut(15); if (choose(2, "the clock moves on")) { LOG("## 3 s pass\n"); w.now += 3000000; } boot(args(ex)); c = cl_open(); u = Cl(); M.up = 0; check("after a restart"); for (auto& e : M.l) if (!e.exp || e.exp >= now_sec()) { Resp r = ask(c, rq_head("t", e.k), "HEAD", true); if (r.status != 200) violation("HEAD %s answered %d after a restart", e.k.c_str(), r.status); } }});
	}
	auto settle = [&] { if (!saving) ::settle(); }; if (saving) { w.auto_child = false; ops.push_back({"the save ends", [&](int) { w.auto_child = true; ::settle(); w.auto_child = false; }}); } // otherwise a save stays in progress
	for (int i = 0; i < depth; i++) { int o = choose((int)ops.size() + (i ? 1 : 0), "operation"); if (i) { if (!o) break; o--; } LOG("%s\n", ops[o].name.c_str()); ops[o].f(i); settle(); if (every) check("then"); }
	check("at the end"); if (!ttl) { Stats s = stats(c); if (s.bytes != M.sum()) violation("statistics report %lld bytes, %lld are stored", (long long)s.bytes, (long long)M.sum()); }
	ask(c, rq_gc(), "GC"); settle(); M.gc(); check("after a final garbage collection"); int64_t S = M.sum(); Stats s = stats(c); if (s.bytes != S) violation("after garbage collection statistics report %lld bytes, %lld are stored", (long long)s.bytes, (long long)S);
	uint64_t h = 5; for (auto& e : M.l) h = hash_str(e.k + itos(e.n), h); outcome(h);
	for (size_t i = 0; i < M.l.size(); i++) { Resp r = ask(c, rq_get("t", M.l[i].k), "GET"); if (r.status != 200 || r.body != M.l[i].v) violation("%s is answered %d, %zu bytes", M.l[i].k.c_str(), r.status, r.body.size()); }
}
// a garbage collection after exactly DB_LRU_EVERY inserts, with the default settings of the release build
static void lru_default() {
	use_variant("std"); base_restore("lrud", args({"-s", "100000"}), nullptr); Cl c = cl_open(); size_t len = 1900 + 100 * choose(12, "value length"); int hot = choose(6, "key kept in use"), every = 1 + choose(4, "use every");
	Lru M; M.max = 100000; M.p = 20;
	for (int i = 0; i < 130; i++) { str k = "k" + itos(i), v = mkval(i, len); Resp r = ask(c, rq_put("t", k, v), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); if ((i + 1) % 50 == 0) M.gc(); M.l.push_back({k, (int64_t)len, 0, v});
		if (i % every == 0) { str h = "k" + itos(hot); int x = M.find(h); Resp r = ask(c, rq_get("t", h), "GET"); if (r.status != (x >= 0 ? 200 : 404)) violation("after %d stores of %zu bytes GET %s answered %d", i + 1, len, h.c_str(), r.status); if (x >= 0) { auto e = M.l[x]; M.l.erase(M.l.begin() + x); M.l.push_back(e); } } settle(); }
	Stats s = stats(c); if (s.bytes != M.sum()) violation("after 130 stores of %zu bytes statistics report %lld bytes, %lld should remain", len, (long long)s.bytes, (long long)M.sum());
	std::vector<str> have = listing("t", "listing").keys, want; for (auto& e : M.l) want.push_back(e.k); std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end()); if (have != want) violation("after 130 stores of %zu bytes the wrong keys remain", len); outcome(len * 100 + hot * 8 + every);
}
// limits and sums which do not fit in 31 or 32 bits
static void lru_far(bool deep) {
	use_variant("std"); static const int64_t L[] = {4294971296ll, 2147487648ll, 3100000000ll, 5500000000ll, 12900000000ll}; int64_t max = L[choose(deep ? 5 : 4, "limit")]; static const int PC[] = {20, 1, 60}; int p = PC[choose(3, "percent")];
	auto a = args({"-s", itos(max), "-l", itos(p)}); base_restore("lrufar" + itos(max) + "/" + itos(p), a, nullptr); Lru M; M.max = max; M.p = p; Cl c = cl_open();
	auto put = [&](const str& k, int64_t n) { str v = mkval((int)(k[0] - 'a') + 1, n); if (ask(c, rq_put("t", k, v), "PUT").status != 200) violation("PUT is refused"); M.l.push_back({k, n, 0, v}); };
	auto check = [&](const char* when) { std::vector<str> have = listing("t", "listing").keys, want; for (auto& e : M.l) want.push_back(e.k); std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end());
		if (have != want) { str x, y; for (auto& k : have) x += k + " "; for (auto& k : want) y += k + " "; violation("%s with a limit of %lld the keys are [ %s], the least recently used order leaves [ %s]", when, (long long)max, x.c_str(), y.c_str()); }
		Stats s = stats(c); if (s.bytes != M.sum()) violation("%s statistics report %lld bytes, %lld are stored", when, (long long)s.bytes, (long long)M.sum()); };
	auto gc = [&](const char* when) { ask(c, rq_gc(), "GC"); settle(); M.gc(); check(when); };
	put("a", 51231); put("b", 51232); put("c", 51233); put("d", 1000); put("f", 5001); gc("with small values");
	if (choose(2, "values of gigabytes")) { // the save of a server that had larger values
		shut(15); auto it = w.fs.names.find("/db/index.save"); if (it == w.fs.names.end()) return; str ix = w.fs.get(it->second, 0, 1 << 20);
		for (int i = 0; i < 3; i++) { str o = M.l[i].n == 51231 + i ? itos(51231 + i) : str("-"); size_t at = ix.find(o); if (at == str::npos || ix.find(o, at + 1) != str::npos) return; str n = "14000" + o; ix.replace(at, o.size(), n); int f = -1, cnt = 0; for (auto& e : w.fs.names) if (w.fs.size(e.second) == (uint64_t)(51231 + i)) { f = e.second; cnt++; } if (cnt != 1) return; w.fs.farw(f); w.fs.resize(f, (uint64_t)atoll(n.c_str())); M.l[i].n = atoll(n.c_str()); }
		w.fs.clear(it->second); w.fs.put(it->second, 0, ix.data(), ix.size()); boot(a); c = cl_open();
		std::vector<int> ord = {0, 1, 2, 3, 4}; std::vector<Lru::E> l; while (!ord.empty()) { int i = (int)ord.size() > 3 ? choose(3, "used next") : 0; Resp r = ask(c, rq_head("t", M.l[ord[i]].k), "HEAD", true); if (r.status != 200) violation("HEAD of a value of %lld bytes is answered %d", (long long)M.l[ord[i]].n, r.status); l.push_back(M.l[ord[i]]); ord.erase(ord.begin() + i); }
		M.l = l; check("with values of gigabytes"); gc("after collection of values of gigabytes"); put("g", 7000); gc("then");
	}
	int n = choose(4, "uploads under way"); std::vector<int> up; for (int i = 0; i < n; i++) { Cl u = cl_open(); cl_send(u.s, rq("PUT", "/t/u" + itos(i), "Content-Length: 2140000000\r\n") + "begin"); run(); up.push_back(u.s); M.up += 2140000000; check("during uploads of gigabytes"); }
	if (n) { gc("after collection during uploads of gigabytes"); put("h", 6000); gc("then"); for (int s : up) { cl_close(s); run(); M.up -= 2140000000; check("after an upload of gigabytes is given up"); } gc("at the end"); }
	uint64_t h = 9; for (auto& e : M.l) h = hash_str(e.k + itos(e.n), h); outcome(h + max);
	for (auto e : M.l) if (e.n < 100000000) { Resp r = ask(c, rq_get("t", e.k), "GET"); if (r.status != 200 || r.body != e.v) violation("%s is answered %d, %zu bytes", e.k.c_str(), r.status, r.body.size()); }
}
// more keys than one step of the search for expired values covers: over the limit all of it is searched, a least recently used value must not go for one that has expired
static void lru_many(bool deep) {
	const int N = 4150, tabs = deep ? 5 : 3; const int64_t max = 2ll * N * tabs + 100; use_variant("std"); int where = choose(tabs, "table with expiring values"), few = choose(2, "few or many of them"), moved = choose(3, "collections before"); base_restore("lrumany" + itos(tabs), args({"-s", itos(max)}), nullptr); Cl c = cl_open();
	w.auto_child = false; /* one save, which does not end, keeps further ones away */ struct E { str k; int64_t n, exp; }; std::vector<E> l; int n = 0;
	for (int t = 0; t < tabs; t++) for (int i = 0; i < N;) { str b; int j = 0; for (; j < 100 && i < N; j++, i++, n++) { str k = "k" + itos(i); bool e = t == where && (few ? i % 800 == 7 : i % 3 == 1); b += rq_put("t" + itos(t), k, "vv", e ? 5 : -1); l.push_back({itos(t) + "/" + k, 2, e ? now_sec() + 5 : 0}); } cl_send(c.s, b); run(); while (j--) if (expect_resp(c, false, "PUT").status != 200) violation("PUT is refused"); }
	auto check = [&](const char* when) { std::vector<str> have, want; int64_t sum = 0; for (int t = 0; t < tabs; t++) for (auto& k : listing("t" + itos(t), "listing").keys) have.push_back(itos(t) + "/" + k); for (auto& e : l) { want.push_back(e.k); sum += e.n; } std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end()); if (have != want) violation("%s there are %zu keys, the least recently used order leaves %zu", when, have.size(), want.size()); Stats s = stats(c); if (s.bytes != sum) violation("%s statistics report %lld bytes, %lld should be stored", when, (long long)s.bytes, (long long)sum); };
	for (int i = 0; i < moved; i++) { ask(c, rq_gc(), "GC"); } check("below the limit");
	tick_s(7); if ((n + 1) % 50 == 0) { ask(c, rq_put("t0", "k0", "vv"), "PUT"); l.push_back(l[0]); l.erase(l.begin()); n++; } ask(c, rq_put("t0", "large", mkval(1, 4000)), "PUT"); l.push_back({"0/large", 4000, 0}); ask(c, rq_gc(), "GC");
	std::vector<E> x; int64_t sum = 0; for (auto& e : l) if (!e.exp || e.exp >= now_sec()) { x.push_back(e); sum += e.n; } size_t go = 0; while (go < x.size() && sum * 100 > max * 80) sum -= x[go++].n; l.assign(x.begin() + go, x.end());
	check("after a collection over the limit"); outcome(l.size() * 10 + where);
}
static Reg r10("C10", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"collection on request, limit 4000, 20 percent", [=] { lru("std", 4000, 20, th ? 6 : 4, false, true); }});
	v.push_back({"collection on request, limit 6000, 50 percent", [=] { lru("std", 6000, 50, th ? 6 : 4, false, false); }});
	v.push_back({"collection on every insert, limit 4000, 20 percent", [=] { lru("lru1", 4000, 20, th ? 6 : 4, false, true); }});
	v.push_back({"collection on every insert, limit 4000, 20 percent, memory is used again", [=] { env.reuse = true; lru("lru1", 4000, 20, th ? 5 : 3, false, true); }});
	v.push_back({"collection on every insert, limit 3000, 0 percent", [=] { lru("lru1", 3000, 0, th ? 6 : 4, false, false); }});
	v.push_back({"collection on every insert, limit 5000, 100 percent", [=] { lru("lru1", 5000, 100, th ? 5 : 4, false, true); }});
	v.push_back({"with expiring values", [=] { lru("std", 4000, 20, th ? 5 : 4, true, false); }});
	v.push_back({"with expiring values, on every insert", [=] { lru("lru1", 4000, 25, th ? 5 : 4, true, true); }});
	v.push_back({"during a save, on request", [=] { lru("std", 4000, 20, th ? 5 : 4, true, false, true); }});
	v.push_back({"during a save, on every insert", [=] { lru("lru1", 4000, 20, th ? 5 : 3, true, true, true); }});
	v.push_back({"restarts, collection on request", [=] { lru("std", 4000, 20, th ? 6 : 4, true, false, false, true); }});
	v.push_back({"restarts, collection on every insert", [=] { lru("lru1", 4000, 20, th ? 5 : 4, true, true, false, true); }});
	v.push_back({"no limit", [=] { lru("lru1", 0, 20, th ? 5 : 4, true, false); }});
	v.push_back({"limits and values of gigabytes", [=] { lru_far(th); }});
	v.push_back({"more keys than one step covers", [=] { lru_many(th); }});
	v.push_back({"the usual collection interval", [=] { lru_default(); }});
}, {"at most 4096 keys below the limit and 20480 over it, which is what one garbage collection is sure to scan for expired values"});
}

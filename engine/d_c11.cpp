// C11: listings.
#include "client.h"
namespace {
static bool live(const Val& v) { return !v.exp || v.exp >= now_sec(); }
static std::set<str> live_keys(const Model& m, const str& t) { std::set<str> s; auto i = m.find(t); if (i != m.end()) for (auto& k : i->second) if (live(k.second)) s.insert(k.first); return s; }
static Listing list_hdr(const str& t, const str& hdr, const str& what) {
	Cl c = cl_open(); cl_send(c.s, rq("GET", "/" + t, hdr)); run(); Resp r = expect_resp(c, false, what); if (r.status == 200 && !c.eof()) violation("%s: listing not closed", what.c_str()); no_more(c, what); cl_close(c.s); run(); return parse_listing(r, what);
}
static void is_exact(const Listing& l, const std::set<str>& want, const str& what) {
	std::set<str> seen; for (auto& k : l.keys) { if (!want.count(k)) violation("%s lists '%s', which is not a live key of the table", what.c_str(), show(k, 30).c_str()); if (!seen.insert(k).second) violation("%s lists '%s' twice", what.c_str(), show(k, 30).c_str()); }
	for (auto& k : want) if (!seen.count(k)) violation("%s lacks the live key '%s'", what.c_str(), show(k, 30).c_str());
	if (l.entries != (int64_t)want.size()) violation("%s announces %lld entries, there are %zu", what.c_str(), (long long)l.entries, want.size());
}
static void check_table(const Model& m, const str& t, bool paging, bool exists) {
	std::set<str> want = live_keys(m, t); Listing l = listing(t, "listing of " + t);
	if (!l.found) { if (!want.empty() || exists) violation("listing of %s answered 404, it has %zu keys", t.c_str(), want.size()); return; }
	is_exact(l, want, "listing of " + t);
	if (!paging) return;
	int64_t total = l.total; if (total < (int64_t)want.size()) violation("listing of %s announces a total of %lld, it has %zu keys", t.c_str(), (long long)total, want.size());
	for (int64_t lim : {(int64_t)1, (int64_t)2, (int64_t)3, (int64_t)7, total - 1, total, total + 1}) { if (lim < 1) continue; if (total > 64 && lim < total / 8) continue;
		std::multiset<str> got; for (int64_t s = 0; s < total; s += lim) { str what = "page " + itos(s) + "+" + itos(lim) + " of " + t; Listing p = listing(t, what, s, lim); if (!p.found) violation("%s answered 404", what.c_str()); if ((int64_t)p.keys.size() > lim) violation("%s has %zu keys", what.c_str(), p.keys.size()); if (p.total != total) violation("%s announces a total of %lld instead of %lld", what.c_str(), (long long)p.total, (long long)total); if (p.entries != (int64_t)want.size()) violation("%s announces %lld entries", what.c_str(), (long long)p.entries); for (auto& k : p.keys) { if (!want.count(k)) violation("%s lists '%s', which is not a live key", what.c_str(), show(k, 30).c_str()); got.insert(k); } }
		for (auto& k : want) if (got.count(k) != 1) violation("pages of %lld of %s list '%s' %zu times", (long long)lim, t.c_str(), show(k, 30).c_str(), got.count(k)); }
	for (int64_t s : {total - 1, total, total + 1, (int64_t)256, (int64_t)32768, (int64_t)65535, (int64_t)65536, (int64_t)65537, (int64_t)131072, (int64_t)16777216, (int64_t)2147483647}) for (int64_t lim : {(int64_t)0, (int64_t)1, (int64_t)2, (int64_t)65536, (int64_t)2147483647}) { if (s < 0) continue; str what = "page " + itos(s) + "+" + itos(lim) + " of " + t; Listing p = listing(t, what, s, lim); if ((int64_t)p.keys.size() > lim) violation("%s has %zu keys", what.c_str(), p.keys.size()); if (s >= total && !p.keys.empty()) violation("%s lists keys behind the end", what.c_str()); for (auto& k : p.keys) if (!want.count(k)) violation("%s lists '%s', which is not a live key", what.c_str(), show(k, 30).c_str()); }
	for (int64_t lim : {(int64_t)256, (int64_t)32768, (int64_t)65535, (int64_t)65536, (int64_t)65537, (int64_t)131072, (int64_t)16777216, (int64_t)2147483647}) if (lim >= total) is_exact(listing(t, "whole " + t, 0, lim), want, "first " + itos(lim) + " of " + t);
	// one header only, other order, other case, alone
	{ str what = "rest of " + t + " from 1"; Listing p = list_hdr(t, "X-Start: 1\r\n", what); std::set<str> all(p.keys.begin(), p.keys.end()); Listing f = listing(t, "first of " + t, 0, 1); for (auto& k : f.keys) if (!all.insert(k).second) violation("%s lists '%s' on two pages", what.c_str(), show(k, 30).c_str()); if (all != want) violation("%s and the first slot give %zu keys of %zu", what.c_str(), all.size(), want.size()); }
	{ str what = "first " + itos(total) + " of " + t; is_exact(list_hdr(t, "X-Limit: " + itos(total) + "\r\n", what), want, what); is_exact(list_hdr(t, "Host: x\r\nx-limit: " + itos(total) + "\r\nx-start: 0\r\nAccept: */*\r\n", what), want, what); }
}
static void histories(int depth, int set) {
	use_variant("std"); base_restore("plain", args(), nullptr); Model m; Cl c = cl_open(), up; int tag = 0; bool exists = false; str upv; bool upok = false;
	static const char* K[] = {"a", "b", "key-c", "d", "e", "f"}; str longk(200, 'L'), longer = str(300, 'M') + "x";
	struct O { str name; std::function<void()> f; }; std::vector<O> ops;
	auto put = [&](const str& k, size_t n, int64_t ttl = -1) { ops.push_back({"PUT t/" + k.substr(0, 10), [&, k, n, ttl] { str v = mkval(++tag, n); ask(c, rq_put("t", k, v, ttl), "PUT"); m["t"][k] = {v, ttl > 0 ? now_sec() + ttl : 0}; if (k == "up") upok = true; }}); };
	auto del = [&](const str& k) { ops.push_back({"DELETE t/" + k, [&, k] { ask(c, rq_del("t", k), "DELETE"); m_erase(m, "t", k); }}); };
	auto delt = [&] { ops.push_back({"DELETE t", [&] { ask(c, rq_delt("t"), "DELETE"); m.erase("t"); }}); };
	if (set == 0) { for (auto k : K) put(k, 20); del("a"); del("b"); del("key-c"); delt(); ops.push_back({"BULK", [&] { ask(c, rq_bulk("t", {"a", "d", "zz", "e"}), "BULK"); for (auto k : {"a", "d", "e"}) m_erase(m, "t", k); }}); }
	else if (set == 1) { put("a", 20, 2); put("b", 5000, 2); put("a", 10); put("c", 10, 5); del("a"); ops.push_back({"wait 1 s", [&] { tick_s(1); }}); ops.push_back({"wait 2 s", [&] { tick_s(2); }}); ops.push_back({"GC", [&] { ask(c, rq_gc(), "GC"); settle(); }}); delt(); ops.push_back({"GET t/a", [&] { ask(c, rq_get("t", "a"), "GET"); }}); }
	else if (set == 2) { put("a", 20); put("b", 5000); del("a"); delt(); auto fin = [&](int how) { if (up.s < 0) return; if (how == 0) { cl_send(up.s, upv.substr(upv.size() - 5)); run(); } else { cl_close(up.s); run(); up = Cl(); return; } expect_resp(up, false, "PUT"); cl_close(up.s); run(); up = Cl(); Resp g = ask(c, rq_get("t", "up"), "GET"); if (g.status == 200) m["t"]["up"] = {g.body, 0}; };
		ops.push_back({"an upload of t/up begins", [&] { if (up.s >= 0) return; upv = mkval(++tag, 30); up = cl_open(); str s = rq_put("t", "up", upv); cl_send(up.s, s.substr(0, s.size() - 5)); run(); m_erase(m, "t", "up"); }});
		ops.push_back({"the upload ends", [=] { fin(0); }}); ops.push_back({"the upload is aborted", [=] { fin(1); }}); put("c", 1); }
	else { put(longk, 10); put(longer, 10); put("a", 5); put("k with", 5); put("\x01\xff\"<&", 5); put("a/b", 5); put("t", 5); del("a"); ops.erase(ops.begin() + 3); }
	for (int i = 0; i < depth; i++) { int o = choose((int)ops.size() + (i ? 1 : 0), "operation"); if (i) { if (!o) break; o--; } LOG("%s\n", ops[o].name.c_str()); ops[o].f(); }
	(void)upok; exists = false; check_table(m, "t", true, exists); { Listing l = listing("nosuch", "listing of a missing table"); if (l.found) violation("a table that was never stored to is listed"); } check_table(m, "t", false, false);
	uint64_t h = 9; for (auto& k : live_keys(m, "t")) h = hash_str(k, h); outcome(h);
}
static void growth(bool th) { // every number of keys through several growths of the table, with holes
	use_variant("std"); base_restore("plain", args(), nullptr); static const int big[] = {150, 190, 200, 300, 384, 400, 760, 800, 1000, 1550, 1600, 3000}; int n = choose(th ? 106 + 12 : 106 + 4, "keys"); n = n < 106 ? n : big[n - 106]; int hole = choose(6, "holes");
	Model m; Cl c = cl_open(); str batch; int inb = 0; auto flush = [&] { if (!inb) return; cl_send(c.s, batch); run(); for (int i = 0; i < inb; i++) expect_resp(c, false, "PUT"); no_more(c, "PUT"); batch.clear(); inb = 0; };
	for (int i = 0; i < n; i++) { str k = "k" + itos(i * 7919 % 100003), v = mkval(i, 3); batch += rq_put("t", k, v); inb++; m["t"][k] = {v, 0}; if (inb == 20) flush(); } flush();
	if (hole) { std::vector<str> ks; for (auto& k : m["t"]) ks.push_back(k.first); int i = 0; for (auto& k : ks) { i++; bool d = hole == 1 ? i % 2 : hole == 2 ? i % 3 != 0 : hole == 3 ? i > 1 : hole == 4 ? i % 5 == 0 : true; if (d) { batch += rq_del("t", k); inb++; m_erase(m, "t", k); if (inb == 20) flush(); } } flush(); if (hole == 4) for (int j = 0; j < n / 2 + 1; j++) { str k = "n" + itos(j), v = mkval(j, 4); batch += rq_put("t", k, v); inb++; m["t"][k] = {v, 0}; if (inb == 20) flush(); } flush(); }
	cl_close(c.s); run(); check_table(m, "t", true, false); outcome(n * 10 + hole);
}
static void large() { // more slots than the usual page of a listing has nearly: without paging everything comes
	use_variant("std"); base_restore("plain", args(), nullptr); env.steplimit = 100000000; static const int N[] = {1600, 3000, 6000}; int n = N[choose(3, "keys")], hole = choose(2, "removed"); Model m; Cl c = cl_open();
	for (int i = 0; i < n;) { str b; int j = 0; for (; j < 100 && i < n; j++, i++) { str k = "k" + itos(i * 7919 % 100003); b += rq_put("t", k, "v"); m["t"][k] = {"v", 0}; } cl_send(c.s, b); run(); while (j--) expect_resp(c, false, "PUT"); }
	if (hole) { std::vector<str> ks; for (auto& k : m["t"]) ks.push_back(k.first); int i = 0; for (auto& k : ks) if (i++ % 3) { ask(c, rq_del("t", k), "DELETE"); m_erase(m, "t", k); } }
	check_table(m, "t", false, false); outcome(n + hole);
}
static void parts() { // the request arrives in two parts and the table changes between them: the answer is the table at some moment
	use_variant("std"); base_restore("c11parts", args(), [] { Cl c = cl_open(); for (int i = 0; i < 4; i++) ask(c, rq_put("t", str(i + 1, (char)('a' + i)), mkval(i, i == 1 ? 5000 : 20), i == 2 ? 3 : -1), "PUT"); ask(c, rq_put("u", "z", "zz"), "PUT"); cl_close(c.s); run(); });
	static const str R[] = {rq_list("t"), rq("GET", "/t", "X-Start: 0\r\nX-Limit: 70000\r\n"), rq_list("new")}; const str& q = R[choose(3, "request")]; size_t at = 1 + choose((int)q.size() - 1, "cut after"); bool fresh = &q == &R[2]; str t = fresh ? "new" : "t";
	std::set<str> now; Model m; if (!fresh) { for (int i = 0; i < 4; i++) m["t"][str(i + 1, (char)('a' + i))] = {"", i == 2 ? now_sec() + 3 : 0}; } std::set<std::set<str>> seen = {live_keys(m, t)};
	Cl c = cl_open(), l = cl_open(); cl_send(l.s, q.substr(0, at)); run();
	auto put = [&](const str& k, size_t n) { ask(c, rq_put(t, k, mkval(7, n)), "PUT"); m[t][k] = {"", 0}; };
	std::vector<std::pair<str, std::function<void()>>> ops = {{"nothing", [&] { }}, {"PUT n", [&] { put("n", 30); }}, {"PUT a", [&] { put("a", 6000); }}, {"DELETE a", [&] { ask(c, rq_del(t, "a"), "DELETE"); m_erase(m, t, "a"); }}, {"DELETE table", [&] { ask(c, rq_delt(t), "DELETE"); m.erase(t); }}, {"BULK of all", [&] { ask(c, rq_bulk(t, {"a", "bb", "ccc", "dddd", "n"}), "BULK"); for (auto k : {"a", "bb", "ccc", "dddd", "n"}) m_erase(m, t, k); }}, {"40 PUTs", [&] { for (int i = 0; i < 40; i++) { put("x" + itos(i), 4); seen.insert(live_keys(m, t)); } }}, {"wait 4 s", [&] { tick_s(4); }}, {"wait 4 s, GC", [&] { tick_s(4); ask(c, rq_gc(), "GC"); settle(); }}, {"all tables are dropped", [&] { ask(c, rq_delt(t), "DELETE"); ask(c, rq_delt("u"), "DELETE"); m.clear(); }}};
	for (int i = 0; i < 2; i++) { int o = choose((int)ops.size(), "meanwhile"); LOG("%s\n", ops[o].first.c_str()); ops[o].second(); seen.insert(live_keys(m, t)); if (!o) break; }
	cl_send(l.s, q.substr(at)); run(); Resp r = expect_resp(l, false, "a listing that arrives in two parts"); if (r.status == 200 && !l.eof()) violation("a listing that arrives in two parts is not closed"); cl_close(l.s); run(); Listing p = parse_listing(r, "a listing that arrives in two parts"); std::set<str> got(p.keys.begin(), p.keys.end()); if (got.size() != p.keys.size()) violation("a listing that arrives in two parts has a key twice"); if (!seen.count(got)) violation("a listing that arrives in two parts has %zu keys, at no time the table had these", got.size()); if (p.found && p.entries != (int64_t)got.size()) violation("a listing of %zu keys announces %lld", got.size(), (long long)p.entries);
	tick_s(4); check_table(m, t, false, false); Cl o = cl_open(); for (str d : {str("t"), str("u"), str("new")}) ask(o, rq_delt(d), "DELETE"); settle(); Stats z = stats(o); if (z.keys || z.tables || z.bytes || z.bfree != z.bexist) violation("everything is deleted, but there are %lld keys, %lld tables, %lld bytes", (long long)z.keys, (long long)z.tables, (long long)z.bytes); outcome(got.size() * 200 + at);
}
static void slow(int chunks, int muts) { // a slow reader while the table changes
	use_variant("std"); base_restore("slow", args(), [] { Cl c = cl_open(); for (int i = 0; i < 6; i++) ask(c, rq_put("t", str(i + 1, (char)('a' + i)), mkval(i, 20), i == 2 ? 3 : -1), "PUT"); ask(c, rq_put("other", "z", "zz"), "PUT"); cl_close(c.s); run(); });
	std::set<str> ever, now; for (int i = 0; i < 6; i++) now.insert(str(i + 1, (char)('a' + i))); ever = now; int tag = 40; size_t n0 = now.size();
	Cl l = cl_open(), c = cl_open(), up; cl_window(l.s, choose(3, "first window") * 35 + 1); cl_send(l.s, rq_list("t")); run(); str upv; bool dropped = false, resized = false; int64_t exp3 = now_sec() + 3;
	std::vector<std::pair<str, std::function<void()>>> ops = {
		{"DELETE t/a", [&] { ask(c, rq_del("t", "a"), "DELETE"); now.erase("a"); }}, {"DELETE t/ffffff", [&] { ask(c, rq_del("t", "ffffff"), "DELETE"); now.erase("ffffff"); }}, {"PUT t/new", [&] { ask(c, rq_put("t", "new", mkval(++tag, 30)), "PUT"); now.insert("new"); ever.insert("new"); }},
		{"PUT t/dddd", [&] { ask(c, rq_put("t", "dddd", mkval(++tag, 30)), "PUT"); now.insert("dddd"); ever.insert("dddd"); }}, {"60 PUTs", [&] { str s; for (int i = 0; i < 60; i++) { s += rq_put("t", "x" + itos(i), "v"); now.insert("x" + itos(i)); ever.insert("x" + itos(i)); } cl_send(c.s, s); run(); for (int i = 0; i < 60; i++) expect_resp(c, false, "PUT"); resized = true; }},
		{"DELETE t", [&] { ask(c, rq_delt("t"), "DELETE"); now.clear(); dropped = true; }}, {"BULK", [&] { ask(c, rq_bulk("t", {"a", "bb", "ccc", "eeeee"}), "BULK"); for (auto k : {"a", "bb", "ccc", "eeeee"}) now.erase(k); }},
		{"wait 4 s", [&] { tick_s(4); now.erase("ccc"); }}, {"wait 4 s, GC", [&] { tick_s(4); now.erase("ccc"); ask(c, rq_gc(), "GC"); settle(); }},
		{"an upload begins or ends", [&] { if (up.s < 0) { up = cl_open(); upv = mkval(++tag, 20); str s = rq_put("t", "bb", upv); cl_send(up.s, s.substr(0, s.size() - 3)); run(); now.erase("bb"); } else { cl_send(up.s, upv.substr(17)); run(); now.insert("bb"); ever.insert("bb"); cl_close(up.s); run(); up = Cl(); } }},
		{"another listing", [&] { Listing o = listing("t", "another listing"); for (auto& k : o.keys) if (!now.count(k) && !(k == "bb")) violation("another listing has '%s', which is not a live key", k.c_str()); }},
		{"all tables are dropped", [&] { ask(c, rq_delt("t"), "DELETE"); ask(c, rq_delt("other"), "DELETE"); now.clear(); dropped = true; }} };
	bool touched = false; int left = muts; bool gone = false;
	for (int i = 0; i < chunks && !gone; i++) { if (left > 0) { int o = choose((int)ops.size() + 2, "change"); if (o == (int)ops.size() + 1) { LOG("the reader goes away\n"); cl_close(l.s); run(); gone = true; break; } if (o) { left--; touched = true; LOG("%s\n", ops[o - 1].first.c_str()); if (o == 3 || o == 4 || o == 5 || o == 10) resized = true; ops[o - 1].second(); } } static const int win[] = {3, 11}; cl_window(l.s, win[choose(2, "window")]); run(); }
	if (!gone) { cl_window(l.s, -1); run(); Resp r; str why; int k = parse_resp(l.out(), l.pos, false, l.eof(), r, why); if (k != 1) violation("the listing of a table that changes does not end cleanly: %s", k < 0 ? why.c_str() : show(l.out()).c_str()); if (r.status == 404) violation("a listing of a table with keys answers 404");
		Listing p = parse_listing(r, "the listing of a table that changes"); for (auto& x : p.keys) if (!ever.count(x)) violation("the listing has '%s', which was never a key of the table", show(x, 30).c_str()); if (!touched) { std::set<str> s(p.keys.begin(), p.keys.end()); if (now_sec() <= exp3 && (s != now || p.keys.size() != now.size() || p.entries != (int64_t)n0)) violation("a slowly read listing has %zu of %zu keys", p.keys.size(), now.size()); }
		if (!resized && !dropped) { std::multiset<str> s(p.keys.begin(), p.keys.end()); for (auto& x : ever) if (s.count(x) > 1 && x != "new" && x != "dddd" && x != "bb") violation("the listing has '%s' twice", x.c_str()); for (auto x : {"dddd", "eeeee", "a"}) if (now.count(x) && !s.count(x) && !(str(x) == "dddd" && touched)) violation("the listing lacks '%s', which was live all the time", x); } }
	if (up.s >= 0) { cl_close(up.s); run(); now.erase("bb"); }
	Model m; for (auto& k : now) m["t"][k] = {"", 0}; if (!dropped) { Resp r = ask(c, rq_get("t", "bb"), "GET"); if (now.count("bb") && r.status == 404) m_erase(m, "t", "bb"); if (now_sec() > exp3) m_erase(m, "t", "ccc"); } else m_erase(m, "t", "ccc");
	std::set<str> want = live_keys(m, "t"); { Listing f = listing("t", "listing afterwards"); std::set<str> s(f.keys.begin(), f.keys.end()); if (dropped) { for (auto& k : s) if (!now.count(k)) violation("listing afterwards has '%s'", k.c_str()); } else if (s != want || f.keys.size() != s.size()) violation("listing afterwards has %zu keys of %zu", f.keys.size(), want.size()); uint64_t h = 4; for (auto& k : s) h = hash_str(k, h); outcome(h); }
	Resp z = ask(c, rq_stats(), "GET /"); if (z.status != 200) violation("statistics fail after a listing"); ask(c, rq_delt("t"), "DELETE"); ask(c, rq_put("t", "again", "x"), "PUT"); Listing g = listing("t", "listing of the new table"); if (g.keys.size() != 1 || g.keys[0] != "again") violation("a table that was dropped and stored to again lists %zu keys", g.keys.size());
}
static void two_tables(int depth) { // tables do not appear in each other's listings
	use_variant("std"); base_restore("plain", args(), nullptr); Model m; Cl c = cl_open(); int tag = 0; static const char* T[] = {"t", "u", "tt"}; static const char* K[] = {"a", "t"};
	for (int i = 0; i < depth; i++) { int o = choose(3 * 2 * 2 + 3, "operation"); if (o < 6) { str v = mkval(++tag, 9); ask(c, rq_put(T[o / 2], K[o % 2], v), "PUT"); m[T[o / 2]][K[o % 2]] = {v, 0}; } else if (o < 12) { o -= 6; ask(c, rq_del(T[o / 2], K[o % 2]), "DELETE"); m_erase(m, T[o / 2], K[o % 2]); } else { ask(c, rq_delt(T[o - 12]), "DELETE"); m.erase(T[o - 12]); } }
	uint64_t h = 8; for (auto t : T) { check_table(m, t, false, false); for (auto& k : live_keys(m, t)) h = hash_str(str(t) + "/" + k, h); } outcome(h);
}
static Reg r11("C11", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"subsets of keys", [=] { histories(th ? 5 : 4, 0); }}); v.push_back({"keys with a time to live", [=] { histories(th ? 5 : 4, 1); }}); v.push_back({"uploads in progress", [=] { histories(th ? 6 : 5, 2); }}); v.push_back({"unusual keys", [=] { histories(th ? 5 : 4, 3); }});
	v.push_back({"requests in two parts", [=] { parts(); }}); v.push_back({"requests in two parts, memory is used again", [=] { env.reuse = true; parts(); }});
	v.push_back({"large tables", [=] { large(); }});
	v.push_back({"growing and shrinking tables", [=] { growth(th); }}); v.push_back({"a slow reader and changes", [=] { slow(5, th ? 3 : 2); }});
	v.push_back({"a slow reader and changes, memory is used again", [=] { env.reuse = true; slow(5, th ? 2 : 2); }}); v.push_back({"several tables", [=] { two_tables(th ? 5 : 4); }});
});
}

// C07: storage is never shared, and everything is given back. A cycle of operations that ends with everything
// closed and deleted is run twice; after the second run the server must hold exactly what it held after the first.
#include "client.h"
namespace {
struct Res { Stats s; int fds; uint64_t blocks; size_t files; str heap; };
static Res measure() {
	Cl c = cl_open(); Res r; r.s = stats(c); cl_close(c.s); run(); r.fds = open_fds(); r.blocks = heap_stat().blocks; r.files = value_files().size(); if (g_verbose) r.heap = heap_live_dump(); return r;
}
struct Cycle {
	std::vector<int> ops; std::vector<std::vector<int>> sub; size_t at = 0;   // recorded choices, replayed by the second run
	int depth, set; bool second = false; int tag = 0; std::map<str, std::set<str>> ever; std::set<str> ended;
	struct Up { Cl c; str rest, key; }; std::vector<Up> ups; std::vector<Cl> readers; std::vector<Cl> mons; Cl c;
	int pick(int n, const char* l, size_t step) { if (second) { int v = sub[step][at++]; return v; } int v = choose(n, l); sub[step].push_back(v); return v; }
	void bye(std::vector<Cl>& v, size_t i, int how) { if (how == 0) cl_close(v[i].s); else cl_reset(v[i].s); v.erase(v.begin() + i); }
	void get(const str& t, const str& k) { Resp r = ask(c, rq_get(t, k), "GET"); if (r.status == 404) return; str n = t + "/" + k; if (r.status != 200) violation("GET /%s answered %d", n.c_str(), r.status); if (!ever[n].count(r.body)) { str of; for (auto& e : ever) if (e.second.count(r.body)) of = ", it is the value of /" + e.first; violation("GET /%s answers bytes that were never stored under it%s: %s", n.c_str(), of.c_str(), show(r.body, 30).c_str()); } }
	void put(const str& t, const str& k, size_t n, int64_t ttl = -1) { str v = mkval(++tag, n); ever[t + "/" + k].insert(v); Resp r = ask(c, rq_put(t, k, v, ttl), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); }
	void begin(const str& t, const str& k, size_t n, size_t have) { Up u; u.c = cl_open(); str v = mkval(++tag, n), s = rq_put(t, k, v); ever[t + "/" + k].insert(v); cl_send(u.c.s, s.substr(0, s.size() - n + have)); u.rest = v.substr(have); u.key = t + "/" + k; ups.push_back(u); run(); }
	void bad(const str& s) { Cl b = cl_open(); cl_send(b.s, s); run(); cl_close(b.s); run(); }
	int nops() { return set == 0 ? 22 : set == 1 ? 20 : set == 2 ? 18 : 21; }
	void op(int o, size_t step) {
		static const int M0[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21};
		static const int M1[] = {0, 1, 2, 3, 6, 7, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 11, 10, 14};   // refused and odd uploads
		static const int M2[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 33, 34, 35, 36, 11, 14, 37, 38};               // simultaneous events
		static const int M3[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 39, 40, 41, 42, 43};   // eviction, saves, monitoring
		const int* M = set == 0 ? M0 : set == 1 ? M1 : set == 2 ? M2 : M3;
		switch (M[o]) {
		case 0: LOG("PUT t/a 20\n"); put("t", "a", 20); break;
		case 1: LOG("PUT t/a 5000\n"); put("t", "a", 5000); break;
		case 2: LOG("PUT t/b 4096\n"); put("t", "b", 4096); break;
		case 3: LOG("PUT u/a 30 for 2 s\n"); put("u", "a", 30, 2); break;
		case 4: LOG("an upload of t/a begins (40)\n"); begin("t", "a", 40, 10); break;
		case 5: LOG("an upload of t/c begins (5000)\n"); begin("t", "c", 5000, 4200); break;
		case 6: if (ups.empty()) break; { LOG("the first upload ends\n"); Up u = ups[0]; ups.erase(ups.begin()); cl_send(u.c.s, u.rest); run(); cl_close(u.c.s); run(); } break;
		case 7: if (ups.empty()) break; { LOG("the last upload is aborted\n"); Up u = ups.back(); ups.pop_back(); if (pick(2, "how", step)) cl_reset(u.c.s); else cl_close(u.c.s); run(); } break;
		case 8: { LOG("a slow GET of t/a\n"); Cl r = cl_open(); cl_window(r.s, pick(2, "window", step) ? 90 : 30); cl_send(r.s, rq_get("t", "a")); run(); readers.push_back(r); break; }
		case 9: if (readers.empty()) break; { LOG("a reader reads on or goes away\n"); Cl r = readers[0]; int h = pick(3, "how", step); readers.erase(readers.begin()); if (h == 0) { cl_window(r.s, -1); run(); cl_close(r.s); } else if (h == 1) cl_close(r.s); else cl_reset(r.s); run(); } break;
		case 10: LOG("DELETE t/a\n"); ask(c, rq_del("t", "a"), "DELETE"); break;
		case 11: LOG("DELETE t\n"); ask(c, rq_delt("t"), "DELETE"); break;
		case 12: LOG("BULK\n"); ask(c, rq_bulk("t", {"a", "b", "no"}), "BULK"); break;
		case 13: LOG("GC\n"); ask(c, rq_gc(), "GC"); settle(); break;
		case 14: LOG("wait 3 s\n"); tick_s(3); break;
		case 15: { LOG("a slow listing of t\n"); Cl r = cl_open(); cl_window(r.s, pick(2, "window", step) ? 70 : 10); cl_send(r.s, rq_list("t")); run(); readers.push_back(r); break; }
		case 16: LOG("a bad request\n"); bad(pick(2, "which", step) ? "NONSENSE /t/a HTTP/1.1\r\n\r\n" : "GET nothing\r\n\r\n"); break;
		case 17: LOG("requests that find nothing\n"); ask(c, rq_get("t", "none"), "GET"); ask(c, rq_head("none", "a"), "HEAD", true); ask(c, rq_del("none", "a"), "DELETE"); ask(c, rq_delt("none"), "DELETE"); ask(c, rq_bulk("none", {"a", "b"}), "BULK"); { Listing l = listing("none", "listing"); (void)l; } break;
		case 18: LOG("HEAD and statistics\n"); { Cl r = cl_open(); cl_send(r.s, rq_head("t", "a") + rq_stats()); run(); cl_close(r.s); run(); } break;
		case 19: { LOG("an unfinished request\n"); static const char* part[] = {"PUT /t/a HTTP/1.1\r\nContent-Len", "GET /t/a HTTP/1.1\r\nHost: x", "PUT /t/a HTTP/1.1\r\nContent-Length: 10\r\n", "GET /t", "DELETE /t/a HTTP/1.1\r\n"}; Cl r = cl_open(); cl_send(r.s, part[pick(5, "which", step)]); run(); readers.push_back(r); break; }
		case 20: LOG("GET of t/a by three at once\n"); { std::vector<Cl> v(3); for (auto& x : v) { x = cl_open(); cl_window(x.s, 80); cl_send(x.s, rq_get("t", "a")); } run(); cl_close(v[1].s); run(); cl_window(v[0].s, -1); cl_window(v[2].s, -1); run(); cl_close(v[0].s); cl_close(v[2].s); run(); } break;
		case 21: LOG("PUT u/b 10, PUT u/b 6000, DELETE u/b\n"); put("u", "b", 10); put("u", "b", 6000); ask(c, rq_del("u", "b"), "DELETE"); break;
		case 22: LOG("PUT without a length\n"); bad("PUT /t/n HTTP/1.1\r\n\r\n"); break;
		case 23: LOG("PUT of length 0\n"); bad("PUT /t/n HTTP/1.1\r\nContent-Length: 0\r\n\r\n"); break;
		case 24: LOG("PUT with a huge length\n"); bad("PUT /t/a HTTP/1.1\r\nContent-Length: 2147483647\r\n\r\nabc"); break;
		case 25: LOG("PUT with two lengths\n"); bad("PUT /t/a HTTP/1.1\r\nContent-Length: 20\r\nContent-Length: 5000\r\n\r\nabc"); break;
		case 26: LOG("PUT with two lengths, the other way\n"); bad("PUT /t/n HTTP/1.1\r\nContent-Length: 5000\r\nContent-Length: 2\r\n\r\nabc"); break;
		case 27: LOG("PUT with a bad length\n"); bad("PUT /t/n HTTP/1.1\r\nContent-Length: 12a\r\n\r\nabc"); break;
		case 28: LOG("PUT with a bad time to live\n"); bad("PUT /t/n HTTP/1.1\r\nContent-Length: 12\r\nX-Ttl: x\r\n\r\nabc"); break;
		case 29: LOG("PUT to a table only\n"); bad("PUT /t HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"); break;
		case 30: LOG("GET with a body\n"); bad("GET /t/a HTTP/1.1\r\nContent-Length: 30\r\n\r\nabc"); break;
		case 31: { LOG("a PUT whose disk is full\n"); env.fsfault = [](FsOpKind k, const str&, size_t) { FsFault f; if (k == OP_WRITE || k == OP_TRUNC) { f.act = ACT_ERR; f.err = ENOSPC; } return f; }; bad(pick(2, "size", step) ? rq_put("t", "n", mkval(3, 5000)) : rq_put("t", "n", mkval(3, 10))); env.fsfault = nullptr; break; }
		case 32: { LOG("a PUT whose file cannot be created\n"); env.fsfault = [](FsOpKind k, const str&, size_t) { FsFault f; if (k == OP_CREATE) { f.act = ACT_ERR; f.err = EMFILE; } return f; }; bad(rq_put("t", "a", mkval(3, 5000))); env.fsfault = nullptr; break; }
		case 33: LOG("DELETE t while a reader and an upload go away\n"); if (!readers.empty()) { cl_close(readers[0].s); readers.erase(readers.begin()); } if (!ups.empty()) { cl_close(ups[0].c.s); ups.erase(ups.begin()); } env.eporder = !second; ask(c, rq_delt("t"), "DELETE"); env.eporder = false; break;
		case 34: LOG("PUT t/a while uploads of it end\n"); { str v = mkval(++tag, 25); ever["t/a"].insert(v); for (auto& u : ups) cl_send(u.c.s, u.rest); for (auto& u : ups) cl_close(u.c.s); ups.clear(); env.eporder = !second; cl_send(c.s, rq_put("t", "a", v)); run(); env.eporder = false; expect_resp(c, false, "PUT"); } break;
		case 35: LOG("two DELETEs of t/a and one of t at once\n"); { Cl a = cl_open(), b = cl_open(); cl_send(a.s, rq_del("t", "a")); cl_send(b.s, rq_del("t", "a")); cl_send(c.s, rq_delt("t")); env.eporder = !second; run(); env.eporder = false; expect_resp(c, false, "DELETE"); cl_close(a.s); cl_close(b.s); run(); } break;
		case 36: LOG("half a GET of t/a, then DELETE, then the rest\n"); { Cl a = cl_open(); cl_send(a.s, "GET /t/a HTTP/1.1\r\n"); run(); ask(c, pick(2, "what", step) ? rq_del("t", "a") : rq_delt("t"), "DELETE"); cl_send(a.s, "\r\n"); run(); cl_close(a.s); run(); } break;
		case 37: LOG("half a DELETE of t, then PUT, then the rest\n"); { Cl a = cl_open(); cl_send(a.s, pick(2, "what", step) ? "DELETE /t HTTP/1.1\r\n" : "DELETE /t/a HTTP/1.1\r\n"); run(); put("t", "a", 33); cl_send(a.s, "\r\n"); run(); cl_close(a.s); run(); } break;
		case 38: LOG("half a listing of t, then DELETE t, then the rest\n"); { Cl a = cl_open(); cl_send(a.s, "GET /t HTTP/1.1\r\n"); run(); ask(c, rq_delt("t"), "DELETE"); if (pick(2, "again", step)) put("t", "a", 9); cl_send(a.s, "\r\n"); run(); cl_close(a.s); run(); } break;
		case 39: LOG("PUT u/c 3000\n"); put("u", "c", 3000); break;
		case 40: LOG("PUT u/d 7000\n"); put("u", "d", 7000); break;
		case 41: LOG("SIGUSR1\n"); post_signal(10); run(); settle(); break;
		case 42: { LOG("a monitoring client\n"); Cl m = cl_open(8001); if (pick(2, "reads", step)) cl_window(m.s, 120); cl_send(m.s, "GET /conn HTTP/1.1\r\n\r\n"); run(); mons.push_back(m); break; }
		case 43: if (mons.empty()) { tick_s(6); break; } { LOG("a monitoring client stalls or goes away\n"); Cl m = mons[0]; int h = pick(3, "how", step); if (h == 0) { mons.erase(mons.begin()); cl_close(m.s); run(); } else if (h == 1) { mons.erase(mons.begin()); cl_reset(m.s); run(); } else { cl_window(m.s, 0); tick_s(6); tick_s(6); tick_s(6); } } break;
		}
	}
	void go(bool sec) {
		second = sec; c = cl_open(); if (!sec) { ops.clear(); sub.clear(); }
		for (int i = 0; i < depth; i++) {
			int o; if (!sec) { o = choose(nops() + (i ? 1 : 0), "operation"); if (i) o--; ops.push_back(o); sub.emplace_back(); } else { if (i >= (int)ops.size()) break; o = ops[i]; at = 0; }
			if (o < 0) break; op(o, i);
			get("t", "a"); get("t", "b"); get("t", "c"); get("u", "a");
		}
		for (auto& u : ups) cl_close(u.c.s); for (auto& r : readers) cl_close(r.s); for (auto& m : mons) cl_close(m.s); ups.clear(); readers.clear(); mons.clear(); run(); settle();
		for (const char* t : {"t", "u"}) ask(c, rq_delt(t), "DELETE"); cl_close(c.s); run(); settle();
	}
};
static void cycles(const char* variant, const std::vector<str>& extra, int depth, int set) {
	str key = "c07"; for (auto& e : extra) key += e; use_variant(variant); base_restore(key, args(extra), [] { Cl c = cl_open(); for (int i = 0; i < 6; i++) { ask(c, rq_put("t", "k" + itos(i), mkval(i, 20 + i)), "PUT"); ask(c, rq_put("u", "k" + itos(i), mkval(i, 5000)), "PUT"); } ask(c, rq_put("v", "x", "x"), "PUT"); for (const char* t : {"t", "u", "v"}) ask(c, rq_delt(t), "DELETE"); cl_close(c.s); run(); settle(); });
	Res r0 = measure(); Cycle cy; cy.depth = depth; cy.set = set; cy.go(false); Res r1 = measure(); LOG("---- the same again\n"); cy.go(true); Res r2 = measure();
	auto clean = [&](const Res& r, const char* when) {
		if (r.s.keys || r.s.tables || r.s.bytes) violation("everything is deleted %s, but the server reports %lld keys, %lld tables, %lld bytes", when, (long long)r.s.keys, (long long)r.s.tables, (long long)r.s.bytes);
		if (r.s.bfree != r.s.bexist) violation("everything is deleted %s, but only %lld of %lld blocks are free", when, (long long)r.s.bfree, (long long)r.s.bexist);
		if (r.files) violation("everything is deleted %s, but the file %s remains", when, value_files()[0].c_str());
		if (r.fds != r0.fds) violation("%d descriptors are open %s, %d were before", r.fds, when, r0.fds); };
	clean(r1, "after one run"); clean(r2, "after two runs");
	if (r2.blocks != r1.blocks) { LOG("after one: %s\nafter two: %s\n", r1.heap.c_str(), r2.heap.c_str()); violation("%llu pieces of memory are held after the second run, %llu after the first", (unsigned long long)r2.blocks, (unsigned long long)r1.blocks); }
	if (r2.s.bexist != r1.s.bexist) violation("the block file grows from %lld to %lld blocks although all were free", (long long)r1.s.bexist, (long long)r2.s.bexist);
	outcome(hash_str(itos(r1.s.bexist) + "," + itos((int64_t)r1.blocks) + "," + itos(r1.s.ins) + "," + itos(r1.s.dels)));
}
// readers that go away, or stall, after every number of bytes of every kind of answer
static const std::vector<std::pair<str, str>>& kinds() { static const std::vector<std::pair<str, str>> K = {{"GET of a small value", rq_get("t", "a")}, {"GET of a value with a time to live", rq_get("u", "a")}, {"GET of a large value", rq_get("t", "b")}, {"HEAD", rq_head("t", "a")}, {"GET of nothing", rq_get("t", "no")}, {"GET from no table", rq_get("no", "a")}, {"listing", rq_list("t")}, {"listing of a part", rq_list("t", 1, 2)}, {"listing of nothing", rq_list("no")}, {"statistics", rq_stats()}, {"DELETE", rq_del("t", "c")}, {"DELETE of a table", rq_delt("v")}, {"BULK", rq_bulk("t", {"c", "d"})}, {"garbage collection", rq_gc()}, {"PUT", rq_put("t", "e", "value")}, {"bad method", "NONSENSE /t/a HTTP/1.1\r\n\r\n"}, {"bad path", "GET nothing\r\n\r\n"}, {"a long method", "NONSENSENONSENSENONSENSE /t HTTP/1.1\r\n\r\n"}, {"two at once", rq_get("t", "a") + rq_stats()}, {"large and small at once", rq_get("t", "b") + rq_get("t", "a")}}; return K; }
static void leaving(bool mon) {
	use_variant("std"); base_restore("c07leave", args(), nullptr); int kind = mon ? 0 : choose((int)kinds().size(), "request"); Cl c = cl_open();
	auto fill = [&] { for (int i = 0; i < 4; i++) ask(c, rq_put("t", str(1, (char)('a' + i)), mkval(i, i == 1 ? 4300 : 20)), "PUT"); ask(c, rq_put("u", "a", mkval(8, 40), 3000), "PUT"); ask(c, rq_put("v", "x", "x"), "PUT"); };
	auto drop = [&] { for (const char* t : {"t", "u", "v"}) ask(c, rq_delt(t), "DELETE"); settle(); tick_s(6); };
	int how = choose(mon ? 3 : 2, "how it ends"), at = -1;
	auto once = [&] { fill(); Cl r = cl_open(mon ? 8001 : 8000); str rq = mon ? str("GET /conn HTTP/1.1\r\n\r\n") : kinds()[kind].second; if (at < 0) { Cl f = cl_open(mon ? 8001 : 8000); cl_send(f.s, rq); run(); if (mon) for (int i = 0; i < 12; i++) tick_s(6); size_t n = f.out().size(); cl_close(f.s); run(); std::vector<size_t> pos; for (size_t i = 0; i <= n; i++) if (i < 330 || i + 40 > n || i % 512 < 3) pos.push_back(i); at = (int)pos[choose((int)pos.size(), "after")]; drop(); fill(); }
		cl_window(r.s, at); cl_send(r.s, rq); run(); if (mon) for (int i = 0; i < 12; i++) tick_s(6); if (how == 0) cl_close(r.s); else if (how == 1) cl_reset(r.s); else tick_s(40); run(); if (how == 2) { cl_close(r.s); run(); } drop(); };
	once(); cl_close(c.s); run(); Res r1 = measure(); c = cl_open(); once(); cl_close(c.s); run(); Res r2 = measure(); const str what = mon ? "monitoring" : kinds()[kind].first;
	if (r2.s.keys || r2.s.tables || r2.s.bytes || r2.s.bfree != r2.s.bexist || r2.files) violation("after a client left at byte %d of '%s' and everything is deleted: %lld keys, %lld tables, %lld bytes, %lld of %lld blocks free, %zu files", at, what.c_str(), (long long)r2.s.keys, (long long)r2.s.tables, (long long)r2.s.bytes, (long long)r2.s.bfree, (long long)r2.s.bexist, r2.files);
	if (r2.fds != r1.fds) violation("a client that leaves at byte %d of '%s' leaves a descriptor open", at, what.c_str()); if (r2.blocks != r1.blocks) { LOG("after one: %s\nafter two: %s\n", r1.heap.c_str(), r2.heap.c_str()); violation("a client that leaves at byte %d of '%s' leaves %lld pieces of memory", at, what.c_str(), (long long)(r2.blocks - r1.blocks)); } outcome(at * 40 + kind);
}
// a request cut at every byte of its line and headers; meanwhile its key or its table changes
static void halves() {
	struct K { str what, rq; }; static const std::vector<K> KS = {{"PUT of a small value", rq_put("t", "a", mkval(70, 30))}, {"PUT of a large value", rq_put("t", "a", mkval(71, 5000), 9)}, {"PUT of another key", rq_put("t", "n", mkval(72, 12))}, {"GET", rq_get("t", "a")}, {"GET of a large value", rq_get("t", "b")}, {"HEAD", rq_head("t", "a")}, {"DELETE", rq_del("t", "a")}, {"listing", rq_list("t")}, {"DELETE of the table", rq_delt("t")}, {"BULK", rq_bulk("t", {"a", "b"})}, {"GET of nothing", rq_get("t", "no")}, {"GET of a value that expires", rq_get("t", "e")}, {"PUT that is refused", rq("PUT", "/t/a", "Content-Length: 0\r\n")}};
	use_variant("std"); base_restore("c07leave", args(), nullptr); const K& k = KS[choose((int)KS.size(), "request")]; int first = choose(2, "the table exists"), mid = choose(9, "meanwhile"), end = choose(3, "the end"); size_t hdr = k.rq.find("\r\n\r\n") + 4; size_t at = 1 + choose((int)std::min(hdr + 2, k.rq.size() - 1), "cut after"); LOG("%s cut after %zu bytes\n", k.what.c_str(), at);
	auto once = [&] { Cl c = cl_open(); if (!first) { ask(c, rq_put("t", "a", mkval(1, 20)), "PUT"); ask(c, rq_put("t", "b", mkval(2, 4300)), "PUT"); ask(c, rq_put("t", "e", mkval(3, 25), 1), "PUT"); }
		Cl x = cl_open(), y; cl_send(x.s, k.rq.substr(0, at)); run();
		switch (mid) { case 0: ask(c, rq_delt("t"), "DELETE"); break; case 1: ask(c, rq_del("t", "a"), "DELETE"); ask(c, rq_del("t", "b"), "DELETE"); break; case 2: ask(c, rq_put("t", "a", mkval(4, 35)), "PUT"); ask(c, rq_put("t", "b", mkval(5, 36)), "PUT"); break; case 3: ask(c, rq_put("t", "a", mkval(6, 4400)), "PUT"); ask(c, rq_delt("t"), "DELETE"); break; case 4: ask(c, rq_delt("t"), "DELETE"); ask(c, rq_put("t", "a", mkval(7, 37)), "PUT"); break; case 5: ask(c, rq_bulk("t", {"a", "b", "e"}), "BULK"); break; case 6: tick_s(3); ask(c, rq_gc(), "GC"); settle(); break;
			case 7: y = cl_open(); cl_send(y.s, k.rq.substr(0, at)); run(); ask(c, rq_delt("t"), "DELETE"); cl_send(y.s, k.rq.substr(at)); run(); cl_close(y.s); run(); break; case 8: y = cl_open(); cl_send(y.s, k.rq); run(); cl_close(y.s); run(); break; }
		if (end == 0) { cl_send(x.s, k.rq.substr(at)); run(); cl_close(x.s); } else if (end == 1) cl_close(x.s); else cl_reset(x.s);
		run(); ask(c, rq_delt("t"), "DELETE"); ask(c, rq_put("u", "x", mkval(8, 21)), "PUT"); ask(c, rq_delt("u"), "DELETE"); settle(); cl_close(c.s); run(); };
	once(); Res r1 = measure(); once(); Res r2 = measure(); const char* what = k.what.c_str();
	if (r2.s.keys || r2.s.tables || r2.s.bytes || r2.s.bfree != r2.s.bexist || r2.files) violation("after a %s cut after %zu bytes and everything is deleted: %lld keys, %lld tables, %lld bytes, %lld of %lld blocks free, %zu files", what, at, (long long)r2.s.keys, (long long)r2.s.tables, (long long)r2.s.bytes, (long long)r2.s.bfree, (long long)r2.s.bexist, r2.files);
	if (r2.fds != r1.fds) violation("a %s cut after %zu bytes leaves a descriptor open", what, at); if (r2.blocks != r1.blocks) { LOG("after one: %s\nafter two: %s\n", r1.heap.c_str(), r2.heap.c_str()); violation("a %s cut after %zu bytes leaves %lld pieces of memory", what, at, (long long)(r2.blocks - r1.blocks)); } outcome(at * 40 + mid * 4 + end);
}
// so many free blocks that the block file is made shorter: values beside it, and stores after it
static void shrinking(int depth, const char* variant) {
	use_variant(variant); int few = choose(3, "free blocks"); int nfree = few == 0 ? 254 : few == 1 ? 256 : 258; const int live = 5; bool high = choose(2, "the live ones are"); // at the end, or one in between
	base_restore("shrink" + itos(nfree) + (high ? "h" : "m"), args(), [=] { Cl c = cl_open(); for (int i = 0; i < nfree + live; i++) ask(c, rq_put("t", "k" + itos(i), mkval(i, 30)), "PUT"); for (int i = 0; i < nfree + live; i++) { bool keep = high ? i >= nfree : i % 60 == 7 && i / 60 < live; if (!keep) ask(c, rq_del("t", "k" + itos(i)), "DELETE"); } settle(); cl_close(c.s); run(); });
	Model m; std::vector<str> ks; for (int i = 0; i < nfree + live; i++) if (high ? i >= nfree : i % 60 == 7 && i / 60 < live) { m["t"]["k" + itos(i)] = {mkval(i, 30), 0}; ks.push_back("k" + itos(i)); }
	Cl c = cl_open(); check_stats(c, m, "at the beginning"); int tag = 1000; auto put = [&](const str& k) { str v = mkval(++tag, 3000); Resp r = ask(c, rq_put("t", k, v), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); m["t"][k] = {v, 0}; };
	for (int i = 0; i < depth; i++) { int o = choose(live + 4, "operation"); if (!o) break; o--; if (o < live) { LOG("DELETE or PUT %s\n", ks[o].c_str()); if (m_find(m, "t", ks[o])) { ask(c, rq_del("t", ks[o]), "DELETE"); m_erase(m, "t", ks[o]); } else put(ks[o]); } else if (o == live) { LOG("PUT n\n"); put("n" + itos(i)); } else if (o == live + 1) { LOG("DELETE t, PUT\n"); ask(c, rq_delt("t"), "DELETE"); m.clear(); for (auto& k : ks) put(k); } else { LOG("restart\n"); settle(); shut(15); boot(args()); c = cl_open(); } }
	auto all = [&](const char* when) { for (auto& t : m) for (auto& k : t.second) check_get(c, m, t.first, k.first, when); settle(); check_stats(c, m, when); }; all(" after the block file was made shorter");
	for (int i = 0; i < 8; i++) put("z" + itos(i)); all(" after more stores"); uint64_t h = 4; for (auto& k : m["t"]) h = hash_str(k.first + k.second.data, h); outcome(h);
}
// what a restart brings back is given back like everything else: what is held once it is deleted does not depend on how much it was
static void restored(bool missing) {
	use_variant("std"); base_restore("plain", args(), nullptr); Cl c;
	auto cycle = [&](int nt, int nk, int mix, int how, int lose, const str& pre) { c = cl_open(); Model m; for (int t = 0; t < nt; t++) for (int k = 0; k < nk; k++) { size_t n = mix == 0 ? 30 : mix == 1 ? 5000 : (t + k) % 2 ? 4097 : 4096; str v = mkval(t * 8 + k, n); ask(c, rq_put(pre + itos(t), "k" + itos(k), v, how >= 4 ? 5 : -1), "PUT"); m[pre + itos(t)]["k" + itos(k)] = {v, 0}; } settle(); shut(15);
		if (lose) { std::vector<str> f = value_files(); size_t n = 0; for (auto& x : f) if (n++ % 2 == (size_t)(lose - 1)) w.fs.names.erase(x); }
		if (how == 4) { LOG("## 10 s pass\n"); w.now += 10000000; } boot(args()); c = cl_open(); if (!lose && how < 4) for (auto& t : m) for (auto& k : t.second) check_get(c, m, t.first, k.first, " after a restart");
		if (how == 5) tick_s(10); if (how >= 4) ask(c, rq_gc(), "ADMIN /gc"); else for (auto& t : m) { if (how == 0) ask(c, rq_delt(t.first), "DELETE"); else if (how == 1) for (auto& k : t.second) ask(c, rq_del(t.first, k.first), "DELETE"); else if (how == 2) { std::vector<str> ks; for (auto& k : t.second) ks.push_back(k.first); ask(c, rq_bulk(t.first, ks), "BULK"); } else { for (auto& k : t.second) ask(c, rq_put(t.first, k.first, "new"), "PUT"); ask(c, rq_delt(t.first), "DELETE"); } }
		ask(c, rq_put("w", "w", "w"), "PUT"); ask(c, rq_delt("w"), "DELETE"); settle(); cl_close(c.s); run(); Res r = measure(); if (r.s.keys || r.s.tables || r.s.bytes || r.s.bfree != r.s.bexist) violation("everything a restart brought back is deleted, but there are %lld keys, %lld tables, %lld bytes, %lld of %lld blocks free", (long long)r.s.keys, (long long)r.s.tables, (long long)r.s.bytes, (long long)r.s.bfree, (long long)r.s.bexist); if (r.files) violation("everything a restart brought back is deleted, but the file %s remains", value_files()[0].c_str()); return std::make_pair((long long)r.blocks - (long long)r.s.bfree, r); };
	static const int NK[] = {1, 2, 3, 7}; int nt = 1 + choose(4, "tables"), nk = NK[choose(4, "keys")], mix = choose(3, "values"), how = choose(6, "deleted by"), lose = missing ? 1 + choose(2, "files that are lost") : 0;
	auto a = cycle(1, 1, 0, 0, 0, "r"); auto b = cycle(nt, nk, mix, how, lose, "r"); if (a.first != b.first) { LOG("one: %s\nmore: %s\n", a.second.heap.c_str(), b.second.heap.c_str()); violation("after a restart with %d tables of %d keys and their deletion %lld pieces of memory are held, with one key %lld", nt, nk, b.first, a.first); } if (a.second.fds != b.second.fds) violation("%d descriptors are open, %d were with one key", b.second.fds, a.second.fds); outcome(nt * 1000 + nk * 100 + mix * 10 + how);
}
static Reg r07("C07", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"requests, uploads and readers", [=] { cycles("std", {}, th ? 4 : 3, 0); }});
	v.push_back({"refused and odd uploads", [=] { cycles("std", {}, th ? 4 : 3, 1); }});
	v.push_back({"simultaneous events", [=] { cycles("std", {}, th ? 4 : 3, 2); }});
	v.push_back({"simultaneous events, memory is used again", [=] { env.reuse = true; cycles("std", {}, th ? 3 : 2, 2); }});
	v.push_back({"eviction, saves, monitoring", [=] { cycles("lru1", {"-s", "6000"}, th ? 4 : 3, 3); }});
	v.push_back({"a size limit and large values", [=] { cycles("lru3", {"-s", "12000", "-l", "50"}, 3, 3); }});
	v.push_back({"clients that leave at every byte", [=] { leaving(false); }});
	v.push_back({"requests cut at every byte, changes meanwhile", [=] { halves(); }});
	v.push_back({"requests cut at every byte, changes meanwhile, memory is used again", [=] { env.reuse = true; halves(); }});
	v.push_back({"monitoring clients that leave at every byte", [=] { leaving(true); }});
	v.push_back({"a block file that becomes shorter", [=] { shrinking(th ? 5 : 4, "std"); }});
	v.push_back({"what a restart brings back", [=] { restored(false); }});
	v.push_back({"what a restart brings back, files lost", [=] { restored(true); }});
	v.push_back({"a small receive buffer", [=] { cycles("b256", {}, 3, 0); }});
});
}

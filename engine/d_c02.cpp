// C02: every interleaving of fragments of overlapping requests, checked for linearizability.
#include "conc.h"
namespace {

struct Script { std::vector<COp> ops; };
// runs the given connections; every interleaving of their next fragments is explored
static void overlap(std::vector<COp> init, std::vector<Script> conns, LinOpts lo, bool batch, int64_t tickstep, const std::vector<std::pair<str, str>>& probe, int aborts = 0) {
	int now = 0, ids = 0;
	std::vector<COp> pre = init; std::vector<COp*> all;
	{ Cl c = cl_open(); for (auto& o : pre) { o.id = ++ids; o.inv = now++; o.inv_us = w.now; str s; for (auto& f : o.frag) s += f; o.r = ask(c, s, o.name()); o.rsp = now++; o.rsp_us = w.now; o.sent_all = true; if (o.r.status != 200) violation("%s answered %d", o.name().c_str(), o.r.status); all.push_back(&o); } cl_close(c.s); run(); }
	struct St { Cl c; size_t op = 0, fr = 0; bool waiting = false, windowed = false; int win = 0; };
	std::vector<St> st(conns.size());
	for (size_t i = 0; i < conns.size(); i++) { st[i].c = cl_open(); for (auto& o : conns[i].ops) o.id = ++ids; }
	int ticks = tickstep ? 2 : 0;
	auto collect = [&]() {
		for (size_t i = 0; i < conns.size(); i++) {
			St& s = st[i]; if (!s.waiting) continue; COp& o = conns[i].ops[s.op];
			Resp r; str why; size_t p = s.c.pos; int k = parse_resp(s.c.out(), p, o.kind == K_HEAD, s.c.eof(), r, why);
			if (k < 0) violation("%s: %s: %s", o.name().c_str(), why.c_str(), show(s.c.out().substr(s.c.pos)).c_str());
			if (k == 0) { if (s.c.eof()) violation("%s: connection closed %s", o.name().c_str(), s.c.pending() ? "inside the answer" : "without an answer"); continue; }
			s.c.pos = p; o.r = r; o.rsp = now++; o.rsp_us = w.now; s.waiting = false; s.op++; s.fr = 0; s.win = 0; if (w.socks[s.c.s].cap >= 0) cl_window(s.c.s, -1);
			no_more(s.c, o.name()); if (o.kind == K_PUT && r.status != 200) violation("%s answered %d", o.name().c_str(), r.status);
		}
	};
	auto act = [&](size_t i, bool go) {
		St& s = st[i]; COp& o = conns[i].ops[s.op];
		if (s.waiting) { // slow reader takes more
			cl_window(s.c.s, s.win == 0 ? 150 : -1); s.win++;
		} else {
			if (s.fr == 0) { o.inv = now++; o.inv_us = w.now; all.push_back(&o); if (o.slow) { cl_window(s.c.s, 0); s.win = 0; } }
			cl_send(s.c.s, o.frag[s.fr++]);
			if (s.fr == o.frag.size()) { s.waiting = true; o.sent_all = true; }
		}
		if (go) { run(); collect(); }
	};
	for (int guard = 0; guard < 200; guard++) {
		std::vector<int> can; std::vector<bool> fin(conns.size(), false);
		for (size_t i = 0; i < conns.size(); i++) {
			St& s = st[i]; if (s.op >= conns[i].ops.size()) continue;
			if (s.waiting && !(conns[i].ops[s.op].slow && s.win < 2)) continue;
			can.push_back((int)i);
		}
		if (can.empty()) break;
		int n = (int)can.size() + (ticks ? 1 : 0); std::vector<int> open; if (aborts) for (size_t i = 0; i < conns.size(); i++) if (st[i].op < conns[i].ops.size() && (st[i].fr || st[i].waiting)) open.push_back((int)i);
		int c = choose(n + 2 * (int)open.size(), "who");
		if (c >= n) { // a connection is given up inside of its request
			c -= n; St& s = st[open[c / 2]]; COp& o = conns[open[c / 2]].ops[s.op]; LOG("connection %d is %s\n", open[c / 2], c % 2 ? "reset" : "closed"); aborts--; o.aborted = true; if (c % 2) cl_reset(s.c.s); else cl_close(s.c.s); run(); o.gone = now++; s.waiting = false; s.op = conns[open[c / 2]].ops.size(); collect(); continue; }
		if (c == (int)can.size()) { ticks--; tick(tickstep); collect(); continue; }
		bool go = true; if (batch && can.size() > 1) go = choose(2, "batch") == 0;
		act(can[c], go);
		if (!go) { // a second event arrives in the same instant, in either order
			std::vector<int> can2; for (int x : can) if (x != can[c]) can2.push_back(x);
			int d = can2[choose((int)can2.size(), "second")]; act(d, true);
		}
	}
	run(); collect();
	for (auto& s : st) if (s.waiting) { size_t i = &s - &st[0]; COp& o = conns[i].ops[s.op]; violation("%s: %s", o.name().c_str(), s.c.pending() ? "the answer is never completed" : "no answer"); }
	// final state
	std::vector<COp> fin; for (auto& p : probe) fin.push_back(c_get(p.first, p.second, false));
	{ Cl c = cl_open(); for (auto& o : fin) { o.id = ++ids; o.inv = now++; o.inv_us = w.now; str s; for (auto& f : o.frag) s += f; o.r = ask(c, s, o.name()); o.rsp = now++; o.rsp_us = w.now; all.push_back(&o); } cl_close(c.s); run(); }
	Lin L; L.ops = all; L.opt = lo; if (!L.check()) violation("answers cannot be explained by any order: %s", describe(all).c_str());
	uint64_t h = 3; for (auto* o : all) { h = hash_bytes(&o->r.status, 4, h); h = hash_str(o->r.body, h); } outcome(h);
}
// menus: every unordered choice of one operation for each connection
static void combos(const std::vector<COp>& init, const std::vector<COp>& menu, int n, bool batch, LinOpts lo, int64_t tickstep, const std::vector<std::pair<str, str>>& probe, const std::vector<str>& extra = {}, const char* variant = "std", int perconn = 1, int aborts = 0) {
	use_variant(variant); str key = "plain"; for (auto& e : extra) key += e; base_restore(key, args(extra), nullptr);
	if (batch) env.eporder = true;
	std::vector<Script> sc; int lo_ = 0; int tag = 10;
	for (int i = 0; i < n; i++) {
		Script s;
		for (int j = 0; j < perconn; j++) {
			int from = perconn == 1 ? lo_ : 0; int c = from + choose((int)menu.size() - from, "operation"); if (perconn == 1) lo_ = c;
			COp o = menu[c]; if (o.kind == K_PUT) { o = c_put(o.t, o.k, ++tag, o.val.size(), (int)o.frag.size(), o.ttl ? o.ttl : -1); }
			LOG("connection %d: %s\n", i, o.name().c_str()); s.ops.push_back(o);
		}
		sc.push_back(s);
	}
	overlap(init, sc, lo, batch, tickstep, probe, aborts);
}
// more requests in progress for one key and one table than a small counter holds
static void crowd(const std::vector<int>& sizes) {
	use_variant("b256"); base_restore("plain", args(), nullptr); env.steplimit = 100000000; int n = sizes[choose((int)sizes.size(), "requests in progress")]; int what = choose(4, "meanwhile"), size = n <= 2000 && choose(2, "size") ? 5000 : 60, ord = choose(2, "order"); LOG("%d requests\n", n);
	Cl c = cl_open(); str v = mkval(1, size), v2 = mkval(2, 70); if (ask(c, rq_put("t", "k", v), "PUT").status != 200) violation("PUT is refused"); str rq = rq_get("t", "k"); std::vector<Cl> g;
	for (int i = 0; i < n; i++) { Cl x; x.s = cl_connect(8000); cl_send(x.s, rq.substr(0, rq.size() - 2)); g.push_back(x); if (i % 256 == 255 || i == n - 1) run(); }
	Model m; m["t"]["k"] = {v, 0};
	if (what == 1) { ask(c, rq_del("t", "k"), "DELETE"); m.clear(); } if (what == 2) { ask(c, rq_delt("t"), "DELETE"); m.clear(); } if (what == 3) { ask(c, rq_put("t", "k", v2), "PUT"); m["t"]["k"] = {v2, 0}; }
	auto fin = [&](int i, bool say) { if (!say) { cl_close(g[i].s); return; } cl_send(g[i].s, "\r\n"); run(); Resp r = expect_resp(g[i], false, "GET"); if (r.status == 200 ? r.body != v : r.status != 404 || what == 0) violation("one of %d requests at the same time is answered %d %s", n, r.status, show(r.body, 20).c_str()); cl_close(g[i].s); run(); };
	int keep = n > 40 ? 20 : n / 2; // the first or the last of them are answered after all others are over
	if (ord) { for (int i = n - 1; i >= keep; i--) { fin(i, i % 1000 == 0); if (i % 256 == 0) run(); } run(); ask(c, rq_put("u", "x", mkval(3, 80)), "PUT"); for (int i = 0; i < keep; i++) fin(i, true); }
	else { for (int i = 0; i < n - keep; i++) { fin(i, i % 1000 == 0); if (i % 256 == 0) run(); } run(); ask(c, rq_put("u", "x", mkval(3, 80)), "PUT"); for (int i = n - keep; i < n; i++) fin(i, true); }
	m["u"]["x"] = {mkval(3, 80), 0}; check_get(c, m, "t", "k", " when all requests are over"); check_get(c, m, "u", "x", " when all requests are over"); check_stats(c, m, "when all requests are over"); ask(c, rq_put("t", "k", v2), "PUT"); m["t"]["k"] = {v2, 0}; check_get(c, m, "t", "k", " stored again"); outcome(n * 16 + what * 4 + ord);
}
static Reg r02("C02", [](std::vector<Scenario>& v, bool th) {
	static const std::vector<std::pair<str, str>> pr = {{"t", "a"}, {"t", "b"}};
	v.push_back({"three connections, small values", [=] { combos({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 20), c_put("t", "b", 0, 25), c_get("t", "a", true), c_get("t", "b", false), c_del("t", "a"), c_delt("t")}, 3, false, {}, 0, pr); }});
	v.push_back({"three connections, small values, memory is used again", [=] { env.reuse = true; combos({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 20), c_put("t", "b", 0, 25), c_get("t", "a", true), c_get("t", "b", false), c_del("t", "a"), c_delt("t")}, 3, false, {}, 0, pr); }});
	v.push_back({"three connections, files", [=] { combos({c_put("t", "a", 1, 9000, 1)}, {c_put("t", "a", 0, 5000), c_put("t", "a", 0, 10), c_get("t", "a", true, 1), c_del("t", "a"), c_delt("t")}, 3, false, {}, 0, pr); }});
	v.push_back({"three connections, files, memory is used again", [=] { env.reuse = true; combos({c_put("t", "a", 1, 9000, 1)}, {c_put("t", "a", 0, 5000), c_put("t", "a", 0, 10), c_get("t", "a", true, 1), c_del("t", "a"), c_delt("t")}, 3, false, {}, 0, pr); }});
	v.push_back({"two connections, events in one batch", [=] { combos({c_put("t", "a", 1, 4096, 1), c_put("t", "b", 2, 6000, 1)}, {c_put("t", "a", 0, 5000, 4), c_put("t", "b", 0, 20), c_get("t", "a", true), c_get("t", "b", true), c_head("t", "a"), c_del("t", "a"), c_delt("t"), c_bulk("t", {"a", "b"})}, 2, true, {}, 0, pr); }});
	v.push_back({"two connections with two requests each", [=] { combos({c_put("t", "a", 1, 5000, 1)}, {c_put("t", "a", 0, 12, 2), c_get("t", "a", true, 1), c_del("t", "a"), c_delt("t")}, 2, false, {}, 0, pr, {}, "std", 2); }});
	v.push_back({"last key of a table", [=] { combos({}, {c_put("t", "a", 0, 20, 4), c_put("t", "b", 0, 4097, 4), c_get("t", "a", false), c_del("t", "a"), c_delt("t"), c_bulk("t", {"a"})}, 3, false, {}, 0, pr); }});
	v.push_back({"last key of a table, memory is used again", [=] { env.reuse = true; combos({}, {c_put("t", "a", 0, 20, 4), c_put("t", "b", 0, 4097, 4), c_get("t", "a", false), c_del("t", "a"), c_delt("t"), c_bulk("t", {"a"})}, 3, false, {}, 0, pr); }});
	v.push_back({"two connections, urls in parts", [=] { combos({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 20, 5), c_put("t", "b", 0, 5000, 5), c_get("t", "a", true, 3), c_head("t", "b", 3), c_del("t", "a", 3), c_delt("t", 3), c_bulk("t", {"a", "b"}, 3)}, 2, false, {}, 0, pr); }});
	v.push_back({"two connections, urls in parts, memory is used again", [=] { env.reuse = true; combos({c_put("t", "a", 1, 5000, 1)}, {c_put("t", "a", 0, 20, 5), c_put("t", "b", 0, 5000, 5), c_get("t", "a", true, 3), c_head("t", "b", 3), c_del("t", "a", 3), c_delt("t", 3), c_bulk("t", {"a", "b"}, 3)}, 2, false, {}, 0, pr); }});
	v.push_back({"three connections, urls in parts", [=] { combos({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 20, th ? 5 : 2), c_get("t", "a", false, 3), c_del("t", "a", 3), c_delt("t", 3)}, 3, false, {}, 0, pr); }});
	v.push_back({"two connections, urls in parts, one is given up", [=] { combos({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 20, 5), c_put("t", "a", 0, 5000, 5), c_put("t", "b", 0, 5000, 4), c_get("t", "a", true, 3), c_head("t", "b"), c_del("t", "a", 3), c_del("t", "b"), c_delt("t", 3), c_bulk("t", {"a", "b"}, 3)}, 2, false, {}, 0, pr, {}, "std", 1, 1); }});
	v.push_back({"two connections, one is given up, memory is used again", [=] { env.reuse = true; combos({c_put("t", "a", 1, 5000, 1)}, {c_put("t", "a", 0, 20, 4), c_put("t", "a", 0, 5000, 4), c_get("t", "a", true), c_del("t", "a"), c_delt("t"), c_bulk("t", {"a", "b"})}, 2, false, {}, 0, pr, {}, "std", 1, 1); }});
	v.push_back({"two connections with two requests each, two are given up", [=] { combos({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 5000, th ? 3 : 2), c_get("t", "a", true, 1), c_del("t", "a"), c_delt("t", 1)}, 2, false, {}, 0, pr, {}, "std", 2, 2); }});
	v.push_back({"values are evicted meanwhile, one connection is given up", [=] { LinOpts o; o.evict = true; combos({c_put("t", "a", 1, 5000, 1), c_put("t", "b", 2, 3000, 1)}, {c_put("t", "c", 0, 6000), c_put("t", "a", 0, 100), c_get("t", "a", true), c_get("t", "b", true), c_gc()}, th ? 3 : 2, false, o, 0, pr, {"-s", "4000", "-l", "50"}, "lru1", 1, 1); }});
	v.push_back({"three connections, one is given up", [=] { combos({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 5000, th ? 4 : 3), c_put("t", "a", 0, 20, 2), c_get("t", "a", th, th ? 2 : 1), c_del("t", "a"), c_delt("t", 1), c_bulk("t", {"a"}, 1)}, 3, false, {}, 0, pr, {}, "std", 1, 1); }});
	v.push_back({"values expire meanwhile", [=] { LinOpts o; o.expire = true; combos({c_put("t", "a", 1, 5000, 1, 1), c_put("t", "b", 2, 3000, 1, 3)}, {c_put("t", "a", 0, 20, 3, 1), c_get("t", "a", true), c_get("t", "b", true), c_del("t", "a"), c_gc()}, 2, false, o, 2000000, pr); }});
	v.push_back({"values are evicted meanwhile", [=] { LinOpts o; o.evict = true; combos({c_put("t", "a", 1, 5000, 1), c_put("t", "b", 2, 3000, 1)}, {c_put("t", "c", 0, 6000), c_put("t", "a", 0, 100), c_get("t", "a", true), c_get("t", "b", true), c_gc()}, 3, false, o, 0, pr, {"-s", "4000", "-l", "50"}, "lru1"); }});
	if (th) {
		v.push_back({"four connections", [=] { combos({c_put("t", "a", 1, 5000, 1)}, {c_put("t", "a", 0, 20, 2), c_get("t", "a", true, 1), c_del("t", "a"), c_delt("t")}, 4, false, {}, 0, pr); }});
		v.push_back({"three connections, every fragment", [=] { combos({c_put("t", "a", 1, 4096, 1), c_put("t", "b", 2, 6000, 1)}, {c_put("t", "a", 0, 5000, 4), c_put("t", "b", 0, 20, 4), c_get("t", "a", true), c_get("t", "b", true), c_head("t", "a"), c_del("t", "a"), c_delt("t"), c_bulk("t", {"a", "b"})}, 3, false, {}, 0, pr); }});
	}
	v.push_back({"a crowd at one key", [=] { crowd(th ? std::vector<int>{127, 128, 255, 256, 257, 1025, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537} : std::vector<int>{128, 255, 256, 257, 32768}); }});
}, {"at most three (thorough: four) connections with a request in progress", "fragments are cut after the request line, before the end of the headers and inside the body"});
// C08: overlapping and abandoned requests; once all of them are over the statistics tell what is there
static void overlap_stats(std::vector<COp> init, std::vector<COp> menu, int n, bool aborts, const std::vector<str>& extra = {}, const char* variant = "std") {
	use_variant(variant); str key = "plain"; for (auto& e : extra) key += e; base_restore(key, args(extra), nullptr);
	struct St { Cl c; COp o; size_t fr = 0; bool over = false; }; std::vector<St> st(n); int from = 0, tag = 10;
	{ Cl c = cl_open(); for (auto& o : init) { str s; for (auto& f : o.frag) s += f; ask(c, s, o.name()); } cl_close(c.s); run(); }
	for (int i = 0; i < n; i++) { from += choose((int)menu.size() - from, "operation"); COp o = menu[from]; if (o.kind == K_PUT) o = c_put(o.t, o.k, ++tag, o.val.size(), (int)o.frag.size(), o.ttl ? o.ttl : -1); LOG("connection %d: %s\n", i, o.name().c_str()); st[i].o = o; st[i].c = cl_open(); }
	int left = aborts ? 1 : 0;
	for (;;) {
		std::vector<int> can; for (int i = 0; i < n; i++) if (!st[i].over) can.push_back(i); if (can.empty()) break;
		int k = choose((int)can.size() * (left ? 3 : 1), "who and what"); St& s = st[can[k % can.size()]];
		if (k >= (int)can.size()) { left--; s.over = true; LOG("connection %d is %s\n", (int)(&s - &st[0]), k / can.size() == 1 ? "closed" : "reset"); if (k / can.size() == 1) cl_close(s.c.s); else cl_reset(s.c.s); run(); continue; }
		if (s.o.slow && s.fr == 0) cl_window(s.c.s, 100);
		if (s.fr < s.o.frag.size()) { cl_send(s.c.s, s.o.frag[s.fr++]); run(); if (s.fr == s.o.frag.size() && !s.o.slow) s.over = true; }
		else { cl_window(s.c.s, -1); run(); s.over = true; }
	}
	for (auto& s : st) cl_close(s.c.s);
	run(); settle(); Cl c = cl_open(); Model m; uint64_t h = 3;
	for (auto t : {"t", "u"}) for (auto k : {"a", "b", "c"}) { Resp r = ask(c, rq_get(t, k), "GET at the end"); if (r.status == 200) { m[t][k] = {r.body, 0}; h = hash_str(str(t) + k + r.body, h); } }
	check_stats(c, m, "when all requests are over"); for (auto t : {"t", "u"}) { Resp r = ask(c, rq_delt(t), "DELETE"); if (r.status != (m.count(t) ? 200 : 404)) violation("DELETE /%s answered %d, it has %zu keys", t, r.status, m[t].size()); }
	m.clear(); check_stats(c, m, "when everything is deleted"); if (auto f = value_files(); !f.empty()) violation("the file %s is left although everything is deleted", f[0].c_str()); outcome(h);
}
static Reg r08b("C08", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"overlapping requests", [=] { overlap_stats({c_put("t", "a", 1, 30, 1), c_put("u", "a", 2, 6000, 1)}, {c_put("t", "a", 0, 20, 4), c_put("t", "a", 0, 5000, 4), c_put("t", "b", 0, 4096, 4), c_get("t", "a", true), c_del("t", "a"), c_delt("t"), c_bulk("t", {"a", "b"})}, th ? 3 : 2, false); }});
	v.push_back({"overlapping requests, one abandoned", [=] { overlap_stats({c_put("t", "a", 1, 30, 1), c_put("t", "b", 2, 6000, 1)}, {c_put("t", "a", 0, 20, 4), c_put("t", "b", 0, 5000, 4), c_get("t", "b", true), c_del("t", "a"), c_delt("t"), c_head("t", "a"), c_bulk("t", {"a", "b"})}, th ? 3 : 2, true); }});
	v.push_back({"three overlapping requests", [=] { overlap_stats({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 5000, 4), c_put("t", "a", 0, 12, 3), c_del("t", "a"), c_delt("t"), c_get("t", "a", false)}, 3, th); }});
	v.push_back({"overlapping requests, urls in parts", [=] { overlap_stats({c_put("t", "a", 1, 30, 1)}, {c_put("t", "a", 0, 5000, 5), c_put("t", "b", 0, 20, 5), c_get("t", "a", false, 3), c_del("t", "a", 3), c_delt("t", 3), c_bulk("t", {"a", "b"}, 3)}, 2, true); }});
	v.push_back({"overlapping requests and evictions", [=] { overlap_stats({c_put("t", "a", 1, 5000, 1), c_put("t", "b", 2, 3000, 1)}, {c_put("t", "c", 0, 6000, 4), c_put("t", "a", 0, 100, 4), c_get("t", "a", true), c_get("t", "b", true), c_gc()}, th ? 3 : 2, true, {"-s", "4000", "-l", "50"}, "lru1"); }});
}, {});
}

// C18: SIGTERM or SIGINT at every simulated system call of the main thread, in every state of the connections.
#include "client.h"
#include <signal.h>
namespace {
static const char* MONHDR = "HTTP/1.1 200 OK\r\nConnection: Close\r\nContent-Type: text/x-streaming\r\nX-Hostname: simhost\r\n\r\n";
struct Allowed { std::vector<str> v; bool none = true; };        // what a key may hold after the restart
struct Ending {
	std::map<str, Allowed> key; std::map<str, str> val; int tag = 0; Cl c; std::vector<Cl> mons, readers; struct Up { Cl c; str rest, key, v; }; std::vector<Up> ups; std::vector<str> rdval;
	bool sent = false; int sig = 15; const char* at = "idle"; std::map<str, int64_t> exp;
	void sure(const str& k, const str* v) { Allowed& a = key[k]; a.v.clear(); a.none = !v; if (v) { a.v.push_back(*v); val[k] = *v; } else val.erase(k); }
	void maybe(const str& k, const str* v) { Allowed& a = key[k]; if (v) a.v.push_back(*v); else a.none = true; }
	void put(const str& t, const str& k, size_t n, int64_t ttl = -1) { str v = mkval(++tag, n), nm = t + "/" + k; maybe(nm, &v); maybe(nm, nullptr); Resp r = ask(c, rq_put(t, k, v, ttl), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); for (auto& u : ups) if (u.key == nm) return; sure(nm, &v); if (ttl > 0) exp[nm] = now_sec() + ttl; else exp.erase(nm); }
	void del(const str& t, const str& k) { maybe(t + "/" + k, nullptr); ask(c, rq_del(t, k), "DELETE"); sure(t + "/" + k, nullptr); }
	void delt(const str& t) { std::vector<str> ks; for (auto& a : key) if (a.first.compare(0, t.size() + 1, t + "/") == 0) { a.second.none = true; ks.push_back(a.first); } ask(c, rq_delt(t), "DELETE"); for (auto& k : ks) sure(k, nullptr); }
};
static void ending(int depth, int set, const char* variant, int cfg, bool every) {
	std::vector<str> a = args(cfg ? std::vector<str>{"-m", "/run/scache.pid"} : std::vector<str>{}); if (cfg == 2) a.push_back("--leave-pid");
	use_variant(variant); base_restore(str("c18") + (char)('0' + cfg), a, [] { Cl c = cl_open(); ask(c, rq_put("t", "a", mkval(90, 20)), "PUT"); ask(c, rq_put("t", "b", mkval(91, 5000)), "PUT"); ask(c, rq_put("u", "c", mkval(92, 100)), "PUT"); settle(); cl_close(c.s); run(); tick(5000); });
	w.auto_child = false; Ending e; for (auto& x : std::vector<std::pair<str, str>>{{"t/a", mkval(90, 20)}, {"t/b", mkval(91, 5000)}, {"u/c", mkval(92, 100)}}) e.sure(x.first, &x.second);
	if (cfg && !w.fs.names.count("/run/scache.pid")) violation("there is no pid file");
	e.sig = choose(2, "signal") ? 2 : 15; bool ended = false;
	e.c = cl_open();
	bool opened = false;
	env.atcall = [&](const char* what) { if (e.sent) { if (set == 2 && !opened && !e.mons.empty() && w.socks[e.mons[0].s].cap == 0 && !w.socks[e.mons[0].s].sut_shutwr && !w.socks[e.mons[0].s].sut_closed && choose(2, "the monitoring client reads on")) { opened = true; cl_window(e.mons[0].s, -1); } return; } if (choose(2, "signal at this call")) { env.stop_sent = e.sent = true; e.at = what; LOG("        ## signal %d at %s\n", e.sig, what); post_signal(e.sig); } };
	if (!every) env.atcall = nullptr;
	env.may_end = true; env.stop_sent = false;
	try {
		for (int d = 0; d < depth; d++) {
			int nops = set == 0 ? 12 : set == 2 ? 8 : 9, o = choose(nops + (d ? 1 : 0), "operation"); if (d) { if (!o) break; o--; }
			static const int M1[] = {0, 1, 3, 10, 12, 13, 14, 15, 16}, M2[] = {9, 17, 18, 19, 20, 11, 0, 10};
			switch (set == 0 ? o : set == 2 ? M2[o] : M1[o]) {
			case 0: LOG("PUT t/a 30\n"); e.put("t", "a", 30); break;
			case 1: LOG("PUT t/a 6000\n"); e.put("t", "a", 6000); break;
			case 2: LOG("PUT v/n 40\n"); e.put("v", "n", 40); break;
			case 3: LOG("DELETE t/b\n"); e.del("t", "b"); break;
			case 4: LOG("DELETE t\n"); e.delt("t"); break;
			case 5: { LOG("an upload of t/b begins\n"); Ending::Up u; u.c = cl_open(); u.key = "t/b"; u.v = mkval(++e.tag, 4500); str s = rq_put("t", "b", u.v); e.key["t/b"].none = true; u.rest = s.substr(s.size() - 100); e.ups.push_back(u); cl_send(u.c.s, s.substr(0, s.size() - 100)); run(); if (e.ups.size() == 1) e.sure("t/b", nullptr); break; }
			case 6: if (e.ups.empty()) break; { LOG("the upload ends\n"); Ending::Up u = e.ups.back(); e.ups.pop_back(); e.maybe(u.key, &u.v); e.maybe(u.key, nullptr); cl_send(u.c.s, u.rest); run(); Resp r = expect_resp(u.c, false, "upload"); if (r.status != 200) violation("the upload is answered %d", r.status); Resp g = ask(e.c, rq_get("t", "b"), "GET"); if (g.status == 200 && g.body == u.v) { if (e.ups.empty()) e.sure(u.key, &u.v); } break; }
			case 7: { LOG("a slow GET of t/b\n"); Cl r = cl_open(); cl_window(r.s, 70); cl_send(r.s, rq_get("t", "b")); e.readers.push_back(r); run(); break; }
			case 8: { LOG("a slow listing of t\n"); Cl r = cl_open(); cl_window(r.s, 60); cl_send(r.s, rq_list("t")); e.readers.push_back(r); run(); break; }
			case 9: { LOG("a monitoring client\n"); Cl m = cl_open(8001); e.mons.push_back(m); cl_send(m.s, "GET /conn HTTP/1.1\r\n\r\n"); run(); tick(5000); break; }
			case 10: LOG("GC\n"); ask(e.c, rq_gc(), "GC"); break;
			case 11: LOG("5 s pass\n"); tick_s(5); break;
			case 12: LOG("SIGUSR1\n"); post_signal(10); run(); break;
			case 13: { int k = live_child(); if (k < 0) break; LOG("the save makes steps\n"); size_t n = w.kids[k].ops.size() - w.kids[k].next; static const int S[] = {1, 3, 6}; size_t st = choose(3, "left"); size_t to = n > (size_t)S[st] ? n - S[st] : 0; for (size_t i = 0; i < to; i++) child_step(k); break; }
			case 14: { int k = live_child(); if (k < 0) break; LOG("the save ends\n"); child_finish(k); run(); break; }
			case 15: { int k = live_child(); if (k < 0) break; LOG("the save is killed\n"); child_die(k, 9); run(); break; }
			case 17: { LOG("a monitoring client that reads little\n"); Cl m = cl_open(8001); e.mons.push_back(m); static const int W[] = {0, -3, 1, 2, 3, 10}; cl_window(m.s, (int)strlen(MONHDR) + W[choose(6, "bytes")]); cl_send(m.s, "GET /conn HTTP/1.1\r\n\r\n"); run(); tick(5000); break; }
			case 18: if (e.mons.empty()) break; LOG("the monitoring client reads on\n"); cl_window(e.mons[0].s, -1); run(); break;
			case 19: if (e.mons.empty()) break; LOG("the monitoring client can take more\n"); cl_window(e.mons[0].s, 1 + choose(3, "bytes")); run(); break;
			case 20: LOG("30 s pass\n"); for (int i = 0; i < 6; i++) tick_s(5); break;
			case 16: LOG("PUT t/a 10 for 100 s\n"); e.put("t", "a", 10, 100); break;
			}
			if (!e.ups.empty()) { e.key["t/b"].none = true; }
		}
		if (!e.sent) { if (set != 2 || !every) env.atcall = nullptr; env.stop_sent = e.sent = true; LOG("signal %d at the end\n", e.sig); post_signal(e.sig); run(); }
		violation("the server does not end after signal %d at %s", e.sig, e.at);
	} catch (Ended&) { ended = true; }
	env.may_end = env.stop_sent = false; env.atcall = nullptr; (void)ended;
	if (!e.sent) violation("the server ended by itself with exit status %d", w.exit_code);
	if (w.exit_code != 0) violation("the server ends with exit status %d after signal %d at %s", w.exit_code, e.sig, e.at);
	// what the clients saw
	for (size_t i = 0; i < e.mons.size(); i++) { const str& o = e.mons[i].out(); str want = MONHDR; size_t h = want.size();
		if (o.empty()) continue;                                // not subscribed yet
		if (o.size() < h ? want.compare(0, o.size(), o) != 0 : o.compare(0, h, want) != 0) violation("monitoring client: %s", show(o).c_str());
		if (o.size() <= h) continue;                            // between its header and its first line
		int n = 0; size_t p = h; for (;;) { str l = itos(n) + "\n"; if (o.compare(p, l.size(), l) != 0) break; p += l.size(); n++; }
		if (set == 2 && !w.socks[e.mons[i].s].sut_shutwr) continue; // it read too little, and was disconnected before the end
		bool stalled = w.socks[e.mons[i].s].cap == 0 || (i == 0 && opened);
		if (stalled) { str l = itos(n) + "\n", r = o.substr(p); if (str("q\n").compare(0, r.size(), r) == 0 || l.compare(0, r.size(), r) == 0) continue; }
		if (o.substr(p) != "q\n") violation("a monitoring stream ends with '%s' after signal %d at %s", show(o.substr(p)).c_str(), e.sig, e.at); }
	if (cfg) { bool there = w.fs.names.count("/run/scache.pid") != 0; if (cfg == 1 && there) violation("the pid file remains"); if (cfg == 2 && !there) violation("the pid file was removed although it was to be kept"); }
	// what it left
	w.auto_child = true; while (live_child() >= 0) child_finish(live_child());
	boot(a); Cl d = cl_open(); uint64_t oc = e.sig;
	for (auto& k : e.key) { size_t sl = k.first.find('/'); Resp r = ask(d, rq_get(k.first.substr(0, sl), k.first.substr(sl + 1)), "GET after the restart");
		if (r.status == 404) { if (!k.second.none) violation("/%s was stored before signal %d at %s, and is gone after the restart", k.first.c_str(), e.sig, e.at); oc = oc * 3 + 1; continue; }
		bool ok = false; for (auto& v : k.second.v) if (v == r.body) ok = true;
		if (r.status != 200 || !ok) violation("GET /%s answers %d '%s' after signal %d at %s and a restart%s", k.first.c_str(), r.status, show(r.body, 20).c_str(), e.sig, e.at, k.second.v.empty() ? ", it was removed or never complete" : ""); oc = hash_str(r.body, oc); }
	if (!e.mons.empty()) oc += e.mons[0].out().size(); outcome(oc);
	Resp r = ask(d, rq_put("w", "x", "later"), "PUT"); if (r.status != 200 || ask(d, rq_get("w", "x"), "GET").body != "later") violation("the restarted server does not store");
}
// the signal while the server starts: from the moment it is ready for it
static void starting(int cfg) {
	std::vector<str> a = args(cfg ? std::vector<str>{"-m", "/run/scache.pid"} : std::vector<str>{}); use_variant("std"); base_restore(str("c18") + (char)('0' + cfg), a, [] { Cl c = cl_open(); ask(c, rq_put("t", "a", mkval(90, 20)), "PUT"); ask(c, rq_put("t", "b", mkval(91, 5000)), "PUT"); ask(c, rq_put("u", "c", mkval(92, 100)), "PUT"); settle(); cl_close(c.s); run(); tick(5000); });
	shut(15); bool sent = false; int sig = choose(2, "signal") ? 2 : 15; int conn = choose(3, "a client waits");
	env.sched = choose(2, "threads") != 0;
	env.atcall = [&](const char* what) { if (sent || w.handlers[sig] == SIG_DFL) return; if (choose(2, "signal at this call")) { sent = true; LOG("        ## signal %d at %s\n", sig, what); if (conn) { int s = cl_connect(conn == 1 ? 8000 : 8001); cl_send(s, conn == 1 ? rq_get("t", "a") : str("GET /conn HTTP/1.1\r\n\r\n")); } post_signal(sig); } };
	sut_boot(a); env.atcall = nullptr; env.sched = false; if (sent && w.status == ST_RUNNING) { advance(600000); sut_run(); } if (!sent) { need_running("while starting"); shut(sig); }
	if (w.status == ST_RUNNING) violation("the server does not end after signal %d while it starts", sig);
	if (w.status != ST_EXITED || w.exit_code) violation("the server ends with %s %d after signal %d while it starts", w.status == ST_EXITED ? "exit status" : "signal", w.exit_code, sig);
	if (cfg && w.fs.names.count("/run/scache.pid")) violation("the pid file remains"); outcome(conn);
	boot(a); Cl d = cl_open(); for (auto& x : std::vector<std::pair<str, str>>{{"a", mkval(90, 20)}, {"b", mkval(91, 5000)}}) if (ask(d, rq_get("t", x.first), "GET").body != x.second) violation("/t/%s is lost", x.first.c_str());
}
// many connections of all kinds at the end
static void crowd(bool th) {
	static const int N[] = {30, 64, 65, 200, 600, 1300}; use_variant("std"); base_restore("c18crowd", args(), [] {}); env.steplimit = 10000000; int n = N[choose(th ? 6 : 5, "connections")], kinds = choose(8, "kinds"), pend = choose(2, "events pending"), sig = choose(2, "signal") ? 2 : 15; tick(5000);
	Model m; Cl c = cl_open(); for (int i = 0; i < 40; i++) { str v = mkval(i, i % 3 ? 50 + i : 5000 + i); if (ask(c, rq_put("t", "k" + itos(i), v), "PUT").status != 200) violation("PUT is refused"); m["t"]["k" + itos(i)] = {v, 0}; }
	std::vector<Cl> all, mon; for (int i = 0; i < n; i++) { int k = kinds ? kinds - 1 : i % 7; Cl x; x.s = cl_connect(k == 3 || k == 6 ? 8001 : 8000); str up = rq_put("u", "n" + itos(i), mkval(i, i % 2 ? 100 : 5000));
		switch (k) { case 0: break; case 1: cl_send(x.s, up.substr(0, up.size() - 3)); break; case 2: cl_window(x.s, 30); cl_send(x.s, rq_get("t", "k" + itos(i % 40))); break; case 3: cl_send(x.s, "GET /conn HTTP/1.1\r\n\r\n"); mon.push_back(x); break; case 4: cl_send(x.s, "GET /t/k1 HT"); break; case 5: cl_window(x.s, 30); cl_send(x.s, rq_list("t")); break; case 6: cl_window(x.s, 20); cl_send(x.s, "GET /conn HTTP/1.1\r\n\r\n"); break; }
		all.push_back(x); if (!pend && i % 50 == 0) run(); }
	if (!pend) { run(); tick_s(5); tick(5000); } shut(sig);
	for (auto& x : all) if (!x.eof() && w.socks[x.s].accepted) violation("one of %d connections is still open after the end", n);
	for (auto& x : mon) { const str& o = x.out(); if (o.empty() && pend) continue; if (o.size() < 2 || o.compare(o.size() - 2, 2, "q\n")) violation("one of %zu monitoring streams ends with '%s'", mon.size(), show(o.substr(o.size() - std::min<size_t>(8, o.size()))).c_str()); }
	boot(args()); c = cl_open(); for (auto& k : m["t"]) check_get(c, m, "t", k.first, " after the restart"); check_stats(c, m, "after the restart"); outcome(n * 16 + kinds);
}
static Reg r18("C18", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"the signal at every call of every sequence", [=] { ending(th ? 4 : 3, 0, "std", 0, true); }});
	v.push_back({"during saves", [=] { ending(th ? 4 : 3, 1, "std", 0, true); }});
	v.push_back({"with a pid file", [=] { ending(th ? 2 : 1, 0, "std", 1, true); }});
	v.push_back({"with a pid file that is kept", [=] { ending(1, 0, "std", 2, true); }});
	v.push_back({"after longer sequences", [=] { ending(th ? 5 : 4, 0, "std", 0, false); }});
	v.push_back({"a save on every insert", [=] { ending(th ? 3 : 2, 1, "lru1", 0, true); }});
	v.push_back({"monitoring clients that read little", [=] { ending(th ? 5 : 4, 2, "std", 0, false); }});
	v.push_back({"monitoring clients that read little, at every call", [=] { ending(th ? 4 : 3, 2, "std", 0, true); }});
	v.push_back({"a crowd at the end", [=] { crowd(th); }});
	v.push_back({"while the server starts", [=] { starting(choose(2, "pid file")); }});
}, {"one signal; a second one while the server ends is a forced exit by design", "the signal is delivered before a system call or during a blocking one"});
}

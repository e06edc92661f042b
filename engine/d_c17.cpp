// C17: the hand-over of accepted connections from the two accepting threads to the server loop, under every schedule
// up to a bound of preemptions. Every shared memory access of the hand-over code is a scheduling point.
#include "client.h"
namespace {
struct Want { Cl c; int type = 0; bool sent = false, gone = false, lost = false; };
static str rq_of(int type) { return type ? "GET /conn HTTP/1.1\r\n\r\n" : rq_get("t", "k"); }
static const char* MONHDR = "HTTP/1.1 200 OK\r\nConnection: Close\r\nContent-Type: text/x-streaming\r\nX-Hostname: simhost\r\n\r\n";
static bool mon_ok(const str& o) { return o == MONHDR || o == str(MONHDR) + "0\n"; }
static void verify(std::vector<Want>& ws, int base_fds, bool rest = true) {
	env.sched = env.memsched = false; env.preempt = 0; env.acceptfault = nullptr;
	int n = 0;
	for (size_t i = 0; i < ws.size(); i++) {
		Want& x = ws[i]; if (x.gone || x.lost) continue; n++; const char* k = x.type ? "monitoring" : "cache";
		if (!w.socks[x.c.s].accepted) violation("%s connection %zu was never accepted", k, i);
		if (x.c.eof()) violation("%s connection %zu was closed", k, i);
		if (x.sent) {
			if (x.c.out().empty()) violation("%s connection %zu sent its request and gets no answer", k, i);
			if (x.type) { if (!mon_ok(x.c.out())) violation("monitoring connection %zu received %s", i, show(x.c.out()).c_str()); }
			else { Resp r = expect_resp(x.c, false, "GET"); no_more(x.c, "GET"); if (r.status != 200 || r.body != "value") violation("cache connection %zu received %d '%s'", i, r.status, show(r.body).c_str()); }
		} else if (!x.c.out().empty()) violation("%s connection %zu received %s before it sent a request", k, i, show(x.c.out()).c_str());
	}
	if (open_fds() != base_fds + n) violation("%d descriptors are open for %d connections", open_fds() - base_fds, n);
	if (!rest) return;
	// those that have been silent are served as soon as they send; everything ends when they leave
	for (size_t i = 0; i < ws.size(); i++) { Want& x = ws[i]; if (x.gone || x.lost || x.sent) continue; cl_send(x.c.s, rq_of(x.type)); run(); if (x.type ? !mon_ok(x.c.out()) : x.c.out().find("value") == str::npos) violation("%s connection %zu is not served after it was silent: '%s'", x.type ? "monitoring" : "cache", i, show(x.c.out()).c_str()); }
	for (auto& x : ws) if (!x.gone && !x.lost) cl_close(x.c.s); run();
	if (open_fds() != base_fds) violation("%d descriptors stay open after all connections ended", open_fds() - base_fds);
	Cl c = cl_open(); if (ask(c, rq_get("t", "k"), "GET").body != "value") violation("the value is gone"); Cl m = cl_open(8001); cl_send(m.s, rq_of(1)); run(); if (!mon_ok(m.out())) violation("a later monitoring connection received '%s'", show(m.out()).c_str()); cl_close(c.s); cl_close(m.s); run();
}
static void pro() { Cl c = cl_open(); ask(c, rq_put("t", "k", "value"), "PUT"); cl_close(c.s); run(); }
static const int PORT[] = {8000, 8001};
// n connections arrive at once; each sends its request at once, or stays silent, or is gone before it is accepted
static void arrivals(int n, int pb, int kinds, bool active) {
	use_variant("tsan"); base_restore("c17", args(), pro); int base = open_fds();
	Cl old; if (active) { old = cl_open(); base++; }
	std::vector<Want> ws; int last = 0;
	for (int i = 0; i < n; i++) {
		int k = choose(2 * kinds, "connection"); Want x; x.type = k % 2; x.c.s = cl_connect(PORT[x.type]); 
		switch (k / 2) { case 0: cl_send(x.c.s, rq_of(x.type)); x.sent = true; break; case 1: break; case 2: cl_close(x.c.s); x.gone = true; break; case 3: cl_reset(x.c.s); x.gone = true; break; }
		ws.push_back(x); last = k; }
	(void)last; int mid = 0;
	if (active) { mid = choose(3, "meanwhile"); if (mid == 0) cl_send(old.s, rq_get("t", "k")); else if (mid == 1) { cl_close(old.s); base--; } else { post_signal(14); cl_send(old.s, "GET /t/k HTT"); } }
	env.sched = env.memsched = true; env.preempt = pb; run();
	if (active && mid == 0) { env.sched = false; Resp r = expect_resp(old, false, "GET"); if (r.body != "value") violation("the active connection received '%s'", show(r.body).c_str()); }
	int64_t ops = 0; for (auto& x : ws) ops += x.sent; outcome(ops + 10 * mid);
	verify(ws, base);
}
// the first connection arrives while the server starts its threads
static void startup(int pb) {
	use_variant("tsan"); base_restore("c17s", args(), pro); shut(15); int n = choose(2, "type");
	env.sched = true; env.memsched = true; env.preempt = pb; boot(args());
	std::vector<Want> ws; Want x; x.type = n; env.sched = false; int base = open_fds(); x.c.s = cl_connect(PORT[n]); cl_send(x.c.s, rq_of(n)); x.sent = true; run(); ws.push_back(x);
	outcome(n); verify(ws, base);
}
// connections that wait in the listen queue from the start
static void startup_queue(int pb) {
	use_variant("tsan"); base_restore("c17s", args(), pro); shut(15);
	std::vector<Want> ws; int step = 0; bool done = false;
	env.atcall = [&](const char* what) { if (!done && w.lis.size() >= 2 && w.lis[0].listening && w.lis[1].listening) { done = true; for (int t = 0; t < 2; t++) { Want x; x.type = t; x.c.s = cl_connect(PORT[t]); cl_send(x.c.s, rq_of(t)); x.sent = true; ws.push_back(x); } } step++; };
	env.sched = true; env.memsched = true; env.preempt = pb; boot(args()); env.atcall = nullptr;
	if (ws.size() != 2) violation("the server does not listen on both ports"); outcome(1);
	env.sched = false; verify(ws, open_fds() - 2);
}
// one or two accept calls fail
static void accept_errors(int n, int pb, int nf) {
	use_variant("tsan"); base_restore("c17", args(), pro); int base = open_fds();
	static const int E[] = {ECONNABORTED, EINTR, EMFILE, ENFILE, EAGAIN, EPROTO, ENOMEM, ENOBUFS, EPERM, ENETDOWN};
	std::vector<Want> ws; for (int i = 0; i < n; i++) { Want x; x.type = choose(2, "type"); x.c.s = cl_connect(PORT[x.type]); cl_send(x.c.s, rq_of(x.type)); x.sent = true; ws.push_back(x); }
	env.sched = true; env.memsched = pb > 0; env.preempt = pb; int left = nf; uint64_t o = 0;
	env.acceptfault = [&](int) -> int { if (!left) return 0; int c = choose(11, "accept error"); if (!c) return 0; left--; o = o * 11 + c; return E[c - 1]; };
	run(); outcome(o);
	for (auto& x : ws) if (w.socks[x.c.s].rst && !w.socks[x.c.s].accepted) x.lost = true;     // taken from the queue with ECONNABORTED
	verify(ws, base);
}
// more connections than the loops take at a time
static void crowd() {
	use_variant("std"); base_restore("c17", args(), pro); int base = open_fds(); static const int more[] = {60, 64, 65, 100, 128, 129, 255, 256, 257, 512, 1024, 1025, 2100}; int n = 1 + choose(45 + 13, "connections"); if (n > 45) n = more[n - 46]; int mix = choose(3, "types"), how = choose(2, "at once or later");
	std::vector<Want> ws; for (int i = 0; i < n; i++) { Want x; x.type = mix == 2 ? i % 2 : mix; x.c.s = cl_connect(PORT[x.type]); if (!how) { cl_send(x.c.s, rq_of(x.type)); x.sent = true; } ws.push_back(x); }
	run(); if (how) { for (auto& x : ws) { cl_send(x.c.s, rq_of(x.type)); x.sent = true; } run(); }
	outcome(n); verify(ws, base);
}
// several listeners of both kinds
static void listeners(int pb) {
	std::vector<str> a = {"scache", "-r", "/db", "-b", "127.0.0.1:8000,127.0.0.1:8002", "-B", "127.0.0.1:8001,[::1]:8003"};
	use_variant("tsan"); base_restore("c17l", a, pro); int base = open_fds(); static const int P[] = {8000, 8002, 8001, 8003};
	std::vector<Want> ws; for (int i = 0; i < 3; i++) { int k = choose(4, "listener"); Want x; x.type = k / 2; x.c.s = cl_connect(P[k]); cl_send(x.c.s, rq_of(x.type)); x.sent = true; ws.push_back(x); }
	env.sched = env.memsched = true; env.preempt = pb; run(); outcome(1); verify(ws, base);
}
// the server ends while connections arrive
static void ending(int pb) {
	use_variant("tsan"); base_restore("c17", args(), pro);
	for (int i = 0; i < 2; i++) { int k = choose(2, "type"); int s = cl_connect(PORT[k]); cl_send(s, rq_of(k)); }
	env.sched = env.memsched = true; env.preempt = pb; int at = choose(2, "signal"); if (at) run(); post_signal(15); sut_run(); env.sched = false;
	if (w.status != ST_EXITED || w.exit_code != 0) violation("the server does not end in order (%d, %d)", (int)w.status, w.exit_code); outcome(1);
	boot(args()); Cl c = cl_open(); if (ask(c, rq_get("t", "k"), "GET").body != "value") violation("the value is gone after the restart");
}
static Reg r17("C17", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"two connections", [=] { arrivals(2, 2, 4, false); }});
	v.push_back({"two connections and an active one", [=] { arrivals(2, 1, 2, true); }});
	v.push_back({"three connections", [=] { arrivals(3, th ? 2 : 1, th ? 2 : 1, false); }});
	if (th) v.push_back({"two connections, three preemptions", [=] { arrivals(2, 3, 1, false); }});
	if (th) v.push_back({"two connections and an active one, two preemptions", [=] { arrivals(2, 2, 2, true); }});
	v.push_back({"start of the threads", [=] { startup(th ? 3 : 2); }});
	v.push_back({"connections waiting at the start", [=] { startup_queue(th ? 2 : 1); }});
	v.push_back({"failing accepts", [=] { accept_errors(2, 0, 2); }});
	v.push_back({"a failing accept under preemption", [=] { accept_errors(2, 1, 1); }});
	v.push_back({"many connections", [=] { crowd(); }});
	v.push_back({"several listeners", [=] { listeners(1); }});
	v.push_back({"ending", [=] { ending(th ? 2 : 1); }});
}, {"threads are sequentially consistent; scheduling points are every memory access of connection.cpp outside the thread's own stack and every system call"});
}

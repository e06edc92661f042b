// C22: servers that share a pid file (foreground and daemons), every interleaving of their starts, ends and deaths.
#include "client.h"
#include <signal.h>
namespace {
static const char* PID = "/run/scache.pid";
struct P { int srv = -1; bool launcher = false, serving = false, stopped = false, ended = false, idle = false, alone = true, dbseen = false; };
struct Group {
	std::vector<std::vector<str>> specs; std::vector<P> p; size_t next = 0; int last = -1, switches, kills, stops = 0; bool parking = true; int cur = -1; bool leave = false, nopid = false, killed = false;
	std::map<str, str> saved, view, maybe; bool must = false; int tag = 0; int owner = -1; str clash; std::set<int> past;
	// the calls of the processes on the database do not mix: once another process has made one, the earlier one makes none
	void dbcall(const char* what) {
		if (cur == owner) return; if (past.count(cur)) { if (clash.empty()) clash = str(what) + " on the database by process " + itos(proc_world(cur).pid) + " after process " + itos(proc_world(owner).pid) + " has begun to use it"; return; }
		if (owner >= 0) { past.insert(owner); if (p[owner].serving && !p[owner].stopped && !p[owner].ended) clash = str(what) + " on the database by process " + itos(proc_world(cur).pid) + " while process " + itos(proc_world(owner).pid) + " serves"; }
		owner = cur;
	}
	bool daemon(int s) const { for (auto& a : specs[s]) if (a == "-d") return true; return false; }
	bool alive(int i) const { return !p[i].ended; }
	void notice() { while ((int)p.size() < proc_count()) { P x; x.srv = p[cur].srv; x.alone = p[cur].alone; p.push_back(x); p[cur].launcher = true; } int n = 0; std::set<int> s; for (size_t i = 0; i < p.size(); i++) if (!p[i].ended) s.insert(p[i].srv); n = (int)s.size(); if (n > 1) for (auto& x : p) if (!x.ended) x.alone = false; }
	str pidfile() { auto it = w.fs.names.find(PID); return it == w.fs.names.end() ? "(no file)" : w.fs.rd(it->second); }
	void check() {
		int act = -1; if (!clash.empty()) violation("%s", clash.c_str());
		for (size_t i = 0; i < p.size(); i++) if (!p[i].ended) {
			const World& o = proc_world((int)i); bool a = false;
			if (!p[i].stopped) for (auto& f : o.ofds) if (f.ref > 0 && f.kind == O_FILE && f.path.compare(0, 4, "/db/") == 0) a = true;
			for (auto& l : o.lis) if (l.listening && !l.closed) a = true;
			if (a) { if (act >= 0) violation("processes %d and %d, started with the same pid file, both work on the database or its port", proc_world(act).pid, o.pid); act = (int)i; }
			if (p[i].serving && !p[i].stopped && !nopid && pidfile() != itos(o.pid) + "\n") violation("process %d serves, the pid file says %s", o.pid, show(pidfile()).c_str());
		}
	}
	void talk(int i, bool first) {
		parking = false; Cl c = cl_open();
		if (first) { // a process that was killed while it saved leaves the old or the new save
			view = saved; int got = -1;
			for (auto& kv : maybe) if (!saved.count(kv.first)) { Resp r = ask(c, rq_get("t", kv.first), "GET"); int g = r.status == 200; if (got >= 0 && g != got) violation("process %d starts with a part of the last save", w.pid); got = g; }
			if (got == 0 && must) violation("process %d starts without what the process before it saved", w.pid); if (got == 1) view = saved = maybe; maybe.clear();
		}
		for (auto& kv : view) { Resp r = ask(c, rq_get("t", kv.first), "GET"); if (r.status != 200 || r.body != kv.second) violation("process %d: GET of %s is answered %d %s, expected %s", w.pid, kv.first.c_str(), r.status, show(r.body, 20).c_str(), show(kv.second, 20).c_str()); }
		if (first) { str k = "k" + itos(++tag), v = mkval(tag, tag % 2 ? 30 : 5000); if (ask(c, rq_put("t", k, v), "PUT").status != 200) violation("PUT refused"); view[k] = v; }
		cl_close(c.s); sut_run(); parking = true; (void)i;
	}
	void step(int i) {
		cur = i; LOG("-- process %d goes on\n", proc_world(i).pid); proc_run(i); notice(); P& x = p[i];
		if (w.status != ST_RUNNING) {
			x.ended = true; x.idle = false;
			if (w.status != ST_EXITED) violation("process %d was killed by signal %d", w.pid, w.exit_code);
			if (x.launcher) { if (w.exit_code) violation("the start of a daemon reports %d", w.exit_code); }
			else if (x.serving) { if (!x.stopped) violation("process %d ended by itself with exit status %d", w.pid, w.exit_code); if (w.exit_code) violation("process %d ends with exit status %d", w.pid, w.exit_code); }
			else if (w.exit_code == 0) violation("process %d neither serves nor reports an error", w.pid);
			else { LOG("-- process %d is refused\n", w.pid); if (x.alone) violation("a server that is alone does not start: exit status %d", w.exit_code); }
		} else if (!proc_parked()) {
			x.idle = true; if (x.stopped) violation("process %d does not end after SIGTERM", w.pid);
			bool ep = w.nthr && w.thr[0].st == T_EPOLL; if (!ep) violation("process %d waits for another one instead of serving or refusing to start", w.pid);
			if (!x.serving) { x.serving = true; check(); LOG("-- process %d serves\n", w.pid); talk(i, true); }
		}
		check();
	}
	bool steppable(int i) const { return !p[i].ended && !p[i].idle; }
	void go() {
		env.realfork = true;
		env.park = [this](const char* what) { if (g_callpath.compare(0, 4, "/db/") == 0 && strcmp(what, "close")) dbcall(what); if (!parking) return false; P& x = p[cur]; if (g_callpath == PID || (nopid && !strcmp(what, "bind"))) return true; if (!x.dbseen && g_callpath.compare(0, 4, "/db/") == 0) { x.dbseen = true; return true; } return false; };
		for (;;) {
			struct A { int kind, i; }; std::vector<A> v; bool lastok = last >= 0 && steppable(last);
			if (lastok) v.push_back({0, last});
			bool free_ = !lastok || switches > 0;
			bool starting = false, ending = false; for (auto& x : p) if (!x.ended) { if (x.stopped) ending = true; else if (!x.serving) starting = true; }
			if (free_) {
				for (size_t i = 0; i < p.size(); i++) if ((int)i != last && steppable((int)i)) v.push_back({0, (int)i});
				if (next < specs.size() && !(nopid && ending)) v.push_back({1, 0});
				for (size_t i = 0; i < p.size(); i++) if (!p[i].ended && p[i].idle && p[i].serving && !p[i].stopped && !(nopid && starting)) v.push_back({2, (int)i});
			}
			if (kills > 0) for (size_t i = 0; i < p.size(); i++) if (!p[i].ended && !p[i].launcher) v.push_back({3, (int)i});
			if (v.empty()) break;
			bool any = false; for (auto& a : v) if (a.kind != 3) any = true; if (!any) break;
			A a = v[choose((int)v.size(), "next")];
			if (lastok && !(a.kind == 0 && a.i == last) && a.kind != 3) switches--;
			switch (a.kind) {
			case 0: last = a.i; step(a.i); break;
			case 1: { int s = (int)next++; int i = proc_new(specs[s]); P x; x.srv = s; p.push_back(x); cur = i; last = i; LOG("-- server %d is started as process %d%s\n", s, w.pid, daemon(s) ? ", a daemon" : ""); notice(); step(i); break; }
			case 2: proc_switch(a.i); cur = a.i; talk(a.i, false); maybe = view; must = true; LOG("-- SIGTERM for process %d\n", w.pid); post_signal(SIGTERM); advance(600000); p[a.i].stopped = true; p[a.i].idle = false; p[a.i].dbseen = false; last = a.i; step(a.i); break;
			case 3: if (p[a.i].stopped && owner == a.i) must = false; proc_kill(a.i); p[a.i].ended = true; killed = true; kills--; if (last == a.i) last = -1; check(); break;
			}
		}
		for (size_t i = 0; i < p.size(); i++) if (!p[i].ended) violation("process %d is still there at the end", proc_world((int)i).pid);
		bool there = w.fs.names.count(PID) != 0; if (there && !killed && !leave) violation("the pid file is still there after all servers have ended: %s", show(pidfile()).c_str());
		uint64_t h = hash_str(pidfile()); for (auto& x : p) h = h * 31 + x.serving * 2 + x.stopped; outcome(h ^ saved.size());
		// a server that comes later
		killed = false; specs.push_back(specs[0]); for (auto it = specs.back().begin(); it != specs.back().end();) if (*it == "-d") it = specs.back().erase(it); else ++it;
		switches = 0; kills = 0; next = specs.size() - 1; last = -1;
		int i = proc_new(specs[next]); P x; x.srv = (int)next++; p.push_back(x); cur = i; LOG("-- a last server is started as process %d\n", w.pid); notice();
		while (steppable(i)) step(i);
		if (!p[i].serving) violation("the last server does not serve");
		proc_switch(i); cur = i; talk(i, false); post_signal(SIGTERM); advance(600000); p[i].stopped = true; p[i].idle = false; while (steppable(i)) step(i);
		if (!p[i].ended) violation("the last server does not end"); if (w.fs.names.count(PID) && !leave) violation("the last server left its pid file");
	}
};
static void group(std::vector<int> kinds, int switches, int kills, int before, bool wide = false) {
	use_variant("std"); world_reset_fs();
	Group g; g.switches = switches; g.kills = kills;
	for (int k : kinds) { std::vector<str> a = k & 8 ? args() : args({"-m", PID}); if (k & 8) g.nopid = true; if (k & 1) a.push_back("-d"); if (k & 2) { a.push_back("--leave-pid"); g.leave = true; } if (k & 4) a.push_back("-o"); g.specs.push_back(a); }
	if (wide) { static const int first[] = {5, 95, 995, 9995, 99995, 999995, 4194294}; w.next_pid = first[choose(7, "process numbers from")]; }
	static const char* B[] = {"", "4711\n", "123456789012345\n", "4000\n"};
	if (before) { int b = choose(before + 1, "pid file of an earlier run"); if (b) { int i = w.fs.mk(); w.fs.names[PID] = i; w.fs.inodes[i].nlink = 1; w.fs.wr(i) = B[b % 4]; LOG("the pid file of an earlier run holds %s", B[b % 4]); } }
	g.go();
}
static Reg r("C22", [](std::vector<Scenario>& v, bool th) {
	auto add = [&](const char* n, std::vector<int> k, int sw, int kills, int before) { v.push_back({n, [=] { group(k, sw, kills, before); }}); };
	add("one server, pid files of earlier runs", {0}, 0, 1, 3);
	v.push_back({"process numbers of every length", [=] { group({0, 0}, 1, 0, 1, true); }});
	v.push_back({"process numbers of every length, daemons", [=] { group({1, 0}, 0, 0, 0, true); }});
	add("one daemon, pid files of earlier runs", {1}, 2, 1, 3);
	add("one daemon that keeps its output", {5}, 2, 1, 0);
	add("two servers", {0, 0}, th ? 6 : 4, 0, 1);
	add("two servers, one is killed", {0, 0}, th ? 5 : 3, 1, 0);
	add("two servers, kills", {0, 0}, th ? 3 : 1, 2, 0);
	add("three servers", {0, 0, 0}, th ? 4 : 2, 0, 0);
	add("three servers, one is killed", {0, 0, 0}, th ? 2 : 1, 1, 0);
	add("a daemon and a server", {1, 0}, th ? 5 : 4, 0, 0);
	add("a server and a daemon", {0, 1}, th ? 5 : 4, 0, 0);
	add("two daemons", {1, 1}, th ? 4 : 2, 0, 0);
	add("two daemons, one is killed", {1, 1}, th ? 2 : 1, 1, 0);
	add("two servers without a pid file on the same addresses", {8, 8}, th ? 5 : 3, 1, 0);
	add("three servers without a pid file on the same addresses", {8, 8, 8}, th ? 4 : 2, th ? 1 : 0, 0);
	add("two servers that leave the pid file", {2, 2}, th ? 4 : 3, 1, 1);
}, {"processes share files, locks and the clock, and switch before every call that concerns the pid file and before the first work on the database of a start or an end, up to the stated number of preemptions; a killed process dies together with its save processes"});
}

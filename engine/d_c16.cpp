// C16: monitoring subscribers. Every subscriber gets one header and then 0, 1, 2, ... one line every five seconds,
// whatever others do; one that has not taken its line when the next is due is disconnected, and only that one.
#include "client.h"
#include <algorithm>
namespace {
static const int64_t TICK = 5000, INTERVAL = 5000000;
struct Sub { Cl c; str name; bool live = true, joined = false; int64_t due = 0; uint32_t next = 0; str want; bool gone = false; bool idle = false; str pre; };
struct MonModel {
	std::vector<Sub> subs; std::vector<Cl> cache; str header; int puts = 0; std::map<str, str> kv;
	str lines(uint32_t n) { str s; for (uint32_t i = 0; i < n; i++) s += itos(i & 0xffff) + "\n"; return s; }
	// everything that was received is a prefix of what was due, and all of it if the client reads
	void check(const char* when) {
		for (auto& s : subs) {
			if (s.gone) continue; const str& o = s.c.out();
			if (o.size() > s.want.size() || s.want.compare(0, o.size(), o) != 0) { size_t i = 0; while (i < o.size() && i < s.want.size() && o[i] == s.want[i]) i++; violation("%s: subscriber %s received '%s' where '%s' was due", when, s.name.c_str(), show(o.substr(i), 40).c_str(), show(s.want.substr(i), 40).c_str()); }
			if (s.live) {
				if (s.c.eof()) violation("%s: subscriber %s was disconnected although it took every line", when, s.name.c_str());
				if (o.size() < s.want.size() && w.socks[s.c.s].cap != 0) violation("%s: subscriber %s has not received '%s'", when, s.name.c_str(), show(s.want.substr(o.size()), 40).c_str());
			} else if (!s.c.eof()) violation("%s: subscriber %s had not taken its line when the next was due and is still connected", when, s.name.c_str());
		}
	}
	bool taken(Sub& s) { return s.c.out().size() >= s.want.size(); }
	void started() { for (auto& s : subs) if (!s.gone && s.live && s.joined && s.due == 0 && taken(s)) s.due = w.now; }  // the header is out: line 0 comes next
	void quiet() { started(); }
	void due_now() {                    // one timer tick: everybody whose time has come
		for (auto& s : subs) if (!s.gone && s.live && s.joined && s.due && s.due <= w.now) {
			if (!taken(s)) { s.live = false; LOG("  (%s is to be disconnected)\n", s.name.c_str()); continue; }
			s.want += itos(s.next++ & 0xffff) + "\n"; s.due = w.now + INTERVAL; }
	}
	void until(int64_t t) {
		while (w.now < t) {
			int64_t nd = t; for (auto& s : subs) if (!s.gone && s.live && s.joined && s.due && s.due < nd) nd = std::max(s.due, w.now);
			if (nd - w.now > 2 * TICK) { tick((nd - w.now - TICK) / TICK * TICK); check("before a line is due"); }
			if (nd > w.now) tick((nd - w.now + TICK - 1) / TICK * TICK); else tick(TICK);
			due_now(); check("after a line was due"); started();
		}
	}
};
enum { J_PLAIN, J_SPLIT, J_AFTER, J_SLOWHEAD, J_IDLE, J_N };
static void monitoring(int depth, int set, const std::vector<str>& extra = {}) {
	use_variant("std"); str bk = "c16"; for (auto& e : extra) bk += e; base_restore(bk, args(extra), [] { Cl c = cl_open(); ask(c, rq_put("t", "k", "value"), "PUT"); cl_close(c.s); run(); });
	MonModel m; str hdr = "HTTP/1.1 200 OK\r\nConnection: Close\r\nContent-Type: text/x-streaming\r\nX-Hostname: simhost\r\n\r\n"; int names = 0; w.auto_child = true;
	tick(TICK);
	auto join = [&](int how, bool now) {
		Sub s; s.name = str(1, (char)('A' + names++)); s.c.s = cl_connect(8001); LOG("subscriber %s joins\n", s.name.c_str()); str r = "GET /conn HTTP/1.1\r\nHost: x\r\n\r\n";
		s.joined = true; s.want = hdr;
		switch (how) {
		case J_PLAIN: cl_send(s.c.s, r); break;
		case J_SPLIT: { run(); cl_send(s.c.s, r.substr(0, 7)); run(); cl_send(s.c.s, r.substr(7, 20)); run(); cl_send(s.c.s, r.substr(27)); break; }
		case J_AFTER: cl_send(s.c.s, "GET / HTTP/1.1\r\n\r\n"); run(); s.pre = "HTTP/1.1 200 OK\r\nConnection: Keep-Alive\r\nContent-Length: 4\r\n\r\nOK\r\n"; cl_send(s.c.s, "GET /none HTTP/1.1\r\n\r\n"); run(); s.pre += "HTTP/1.1 404 Not Found\r\nConnection: Keep-Alive\r\nContent-Length: 16\r\n\r\nPath Not Found\r\n"; s.want = s.pre + hdr; cl_send(s.c.s, r); break;
		case J_SLOWHEAD: cl_window(s.c.s, 40); cl_send(s.c.s, r); break;
		case J_IDLE: s.joined = false; s.idle = true; s.want = ""; cl_send(s.c.s, "GET /co"); break;
		}
		m.subs.push_back(s); if (now) { run(); m.check("after joining"); } if (now) m.started();
	};
	auto alive = [&](bool in) { std::vector<int> v; for (size_t i = 0; i < m.subs.size(); i++) if (!m.subs[i].gone && m.subs[i].live && (!in || m.subs[i].joined)) v.push_back((int)i); return v; };
	auto pick = [&](std::vector<int> v) { return v.empty() ? -1 : v[choose((int)v.size(), "who")]; };
	join(choose(3, "first subscriber"), true);
	// deferred events are handled by the server together with the next timer tick
	for (int d = 0; d < depth; d++) {
		int o = choose(set == 0 ? 13 : 11, "event"); std::vector<int> al = alive(false), in = alive(true);
		static const int M1[] = {0, 1, 2, 13, 14, 15, 16, 4, 7, 17, 18};
		switch (set == 0 ? o : M1[o]) {
		case 0: LOG("5 s pass\n"); m.until(w.now + INTERVAL); break;
		case 1: LOG("12.5 s pass\n"); m.until(w.now + 12500000); break;
		case 2: LOG("2 s pass\n"); m.until(w.now + 2000000); break;
		case 3: if (alive(false).size() < 3) join(choose(J_N, "how"), true); break;
		case 4: { int i = pick(al); if (i < 0) break; Sub& s = m.subs[i]; s.gone = true; LOG("subscriber %s leaves\n", s.name.c_str()); if (choose(2, "how")) cl_reset(s.c.s); else cl_close(s.c.s); run(); m.check("after another left"); break; }
		case 5: { int i = pick(in); if (i < 0) break; LOG("subscriber %s stalls\n", m.subs[i].name.c_str()); if (w.socks[m.subs[i].c.s].cap == -1) cl_window(m.subs[i].c.s, choose(2, "room")); break; }
		case 6: { std::vector<int> st; for (int i : in) if (w.socks[m.subs[i].c.s].cap != -1) st.push_back(i); int i = pick(st); if (i < 0) break; LOG("subscriber %s reads again\n", m.subs[i].name.c_str()); cl_window(m.subs[i].c.s, -1); run(); m.check("after a stalled subscriber reads"); m.started(); break; }
		case 7: { int i = pick(in); if (i < 0) break; LOG("subscriber %s sends\n", m.subs[i].name.c_str()); static const char* g[] = {"x", "GET /conn HTTP/1.1\r\n\r\n"}; int k = choose(3, "what"); if (k < 2) cl_send(m.subs[i].c.s, g[k]); else { cl_send(m.subs[i].c.s, str(5000, 'y')); run(); cl_send(m.subs[i].c.s, str(12000, '\n')); } run(); m.check("after a subscriber sent something"); m.started(); break; }
		case 8: { LOG("a cache client connects\n"); if (m.cache.size() > 2) break; m.cache.push_back(cl_open()); break; }
		case 9: { LOG("a cache client closes\n"); if (m.cache.empty()) break; cl_close(m.cache[0].s); m.cache.erase(m.cache.begin()); run(); break; }
		case 10: { if (m.cache.empty()) m.cache.push_back(cl_open()); LOG("cache requests\n"); Cl& c = m.cache[0]; str v = mkval(++m.puts, 30); ask(c, rq_put("t", "k", v), "PUT"); if (ask(c, rq_get("t", "k"), "GET").body != v) violation("GET answers something else than the value"); break; }
		case 11: { LOG("a large upload stays open\n"); Cl u = cl_open(); str s = rq_put("t", "u", mkval(3, 6000)); cl_send(u.s, s.substr(0, 3000)); run(); m.cache.push_back(u); std::rotate(m.cache.begin(), m.cache.end() - 1, m.cache.end()); cl_close(m.cache[0].s); m.cache.erase(m.cache.begin()); run(); break; }
		case 12: LOG("a save\n"); post_signal(10); run(); break;
		// with events that the server sees together with the timer
		case 13: { int i = pick(al); if (i < 0) break; Sub& s = m.subs[i]; s.gone = true; LOG("subscriber %s leaves when lines are due\n", s.name.c_str()); int h = choose(2, "how"); int64_t t = 0; for (int j : in) if (m.subs[j].due && (!t || m.subs[j].due < t)) t = m.subs[j].due; if (t > w.now + TICK) m.until(t - TICK); if (h) cl_reset(s.c.s); else cl_close(s.c.s); env.eporder = true; m.until(w.now + 2 * TICK); env.eporder = false; m.check("after one left at its line"); break; }
		case 14: { if (al.size() >= 3) break; LOG("one joins when lines are due\n"); int64_t t = 0; for (int j : in) if (m.subs[j].due && (!t || m.subs[j].due < t)) t = m.subs[j].due; if (t > w.now + TICK) m.until(t - TICK); join(J_PLAIN, false); env.eporder = true; run(); env.eporder = false; m.check("after joining"); m.started(); m.until(w.now + 2 * TICK); break; }
		case 15: { if (in.size() < 1) break; LOG("all stall, then time passes, then all read\n"); for (int i : in) cl_window(m.subs[i].c.s, 0); m.until(w.now + 2 * TICK); int64_t t = INTERVAL; if (choose(2, "how long")) t += 2 * TICK; else t -= 3 * TICK; m.until(w.now + t); for (int i : in) if (m.subs[i].live) cl_window(m.subs[i].c.s, -1); env.eporder = true; run(); env.eporder = false; m.check("after all read again"); m.started(); break; }
		case 16: { int i = pick(in); if (i < 0) break; LOG("subscriber %s reads a byte at a time\n", m.subs[i].name.c_str()); cl_window(m.subs[i].c.s, 1); m.until(w.now + INTERVAL); for (int q = 0; q < 8 && m.subs[i].live; q++) { cl_window(m.subs[i].c.s, 1); run(); } m.check("after reading byte by byte"); m.started(); if (m.subs[i].live) { cl_window(m.subs[i].c.s, -1); run(); m.check("after reading byte by byte"); m.started(); } break; }
		case 18: { int i = pick(in); if (i < 0) break; Sub& s = m.subs[i]; LOG("subscriber %s stalls, and leaves when it is to be disconnected\n", s.name.c_str()); cl_window(s.c.s, 0); m.until((s.due ? s.due : w.now) + 2 * TICK); if (!s.live || !s.due) break; m.until(s.due - TICK); if (!s.live) break; s.gone = true; if (choose(2, "how")) cl_reset(s.c.s); else cl_close(s.c.s); env.eporder = true; m.until(w.now + 2 * TICK); env.eporder = false; m.check("after a stalled one left"); break; }
		case 17: if (al.size() >= 3) break; join(choose(J_N, "how"), true); break;
		}
	}
	LOG("to the end\n"); for (int i : alive(true)) if (w.socks[m.subs[i].c.s].cap != -1) { cl_window(m.subs[i].c.s, -1); run(); }
	m.check("at the end"); m.started(); m.until(w.now + 2 * INTERVAL); 
	Cl c = cl_open(); if (ask(c, rq_get("t", "k"), "GET").status != 200) violation("the stored value is gone"); cl_close(c.s); run();
	str oc; for (auto& s : m.subs) { oc += s.gone ? "g" : s.live ? "l" : "d"; oc += itos(s.next) + ","; }
	outcome(hash_str(oc));
	shut(15);
	for (auto& s : m.subs) if (!s.gone && s.live && s.joined) { s.want += "q\n"; if (s.c.out() != s.want) violation("subscriber %s received '%s' at the end, not '%s'", s.name.c_str(), show(s.c.out().substr(std::min(s.c.out().size(), s.want.size() - 4)), 20).c_str(), show(s.want.substr(s.want.size() - 4)).c_str()); }
}
// the counter of one stream over its whole range
static void whole_range() {
	use_variant("std"); base_restore("c16long", args(), [] {}); tick(TICK);
	str hdr; Cl a = cl_open(8001); cl_send(a.s, "GET /conn HTTP/1.1\r\n\r\n"); run(); size_t at = a.out().size();
	for (uint32_t i = 0; i < 65536 + 300; i++) {
		tick(i ? INTERVAL : TICK); str want = itos(i & 0xffff) + "\n"; const str& o = a.out();
		if (a.eof()) violation("the subscriber is disconnected at line %u", i);
		if (o.size() != at + want.size() || o.compare(at, str::npos, want) != 0) violation("line %u is '%s'", i, show(o.substr(std::min(at, o.size()))).c_str());
		at = o.size();
	}
	outcome(1);
}
// many subscribers: more than one batch of events, lines due at the same tick and at different ones, some stall, some leave, others come
static void crowd(bool th) {
	static const int N[] = {16, 33, 64, 65, 129, 257, 300, 600}; use_variant("std"); base_restore("c16crowd", args(), [] {}); tick(TICK); env.steplimit = 10000000; int n = N[choose(th ? 8 : 6, "subscribers")], groups = choose(3, "groups"), stall = choose(4, "who stalls"), leave = choose(3, "who leaves"), act = choose(3, "others");
	MonModel m; str hdr = "HTTP/1.1 200 OK\r\nConnection: Close\r\nContent-Type: text/x-streaming\r\nX-Hostname: simhost\r\n\r\n"; static const int G[] = {1, 2, 7};
	auto join = [&](int i) { Sub s; s.name = "S" + itos(i); s.c.s = cl_connect(8001); s.joined = true; s.want = hdr; cl_send(s.c.s, "GET /conn HTTP/1.1\r\n\r\n"); m.subs.push_back(s); };
	for (int g = 0; g < G[groups]; g++) { for (int i = n * g / G[groups]; i < n * (g + 1) / G[groups]; i++) join(i); run(); m.check("after joining"); m.started(); m.until(w.now + (groups == 2 ? TICK : 700 * TICK)); }
	m.until(w.now + INTERVAL); auto pat = [&](int k, int i) { return k == 1 ? i == 0 || i == n - 1 : k == 2 ? i % 2 == 1 : k == 3 && i >= n / 3; };
	for (int i = 0; i < n; i++) if (pat(stall, i)) cl_window(m.subs[i].c.s, 0);
	if (act == 1) for (int i = 0; i < 300; i++) { Cl c; c.s = cl_connect(8000); cl_send(c.s, rq_get("t", "k")); } if (act == 2) for (int i = 0; i < n; i++) if (m.subs[i].live) cl_send(m.subs[i].c.s, "\r\nGET /conn HTTP/1.1\r\n\r\n");
	run(); m.until(w.now + INTERVAL / 2 + TICK); for (int i = 0; i < n; i++) if (leave && i % 3 == leave && m.subs[i].live) { cl_close(m.subs[i].c.s); m.subs[i].gone = true; } run(); m.check("after some left");
	for (int i = n; i < n + 3; i++) join(i); run(); m.check("after more joined"); m.started(); m.until(w.now + 2 * INTERVAL + 3 * TICK); m.check("then"); int live = 0; for (auto& s : m.subs) live += !s.gone && s.live; outcome(n * 1000 + live);
	shut(15); for (auto& s : m.subs) if (!s.gone && s.live) { s.want += "q\n"; if (s.c.out() != s.want) violation("one of %d subscribers, %s, received '%s' at the end", n, s.name.c_str(), show(s.c.out().substr(s.c.out().size() - std::min<size_t>(6, s.c.out().size()))).c_str()); }
}
static Reg r16("C16", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"subscribers and others", [=] { monitoring(th ? 5 : 4, 0); }});
	v.push_back({"subscribers and others, memory is used again", [=] { env.reuse = true; monitoring(th ? 4 : 3, 0); }});
	v.push_back({"events at the due time", [=] { monitoring(4, 1); }});
	v.push_back({"a crowd of subscribers", [=] { crowd(th); }});
	v.push_back({"the whole range of the counter", [=] { whole_range(); }});
}, {"the client side of a connection is an exact window of bytes; the timer signal arrives every 5 ms of simulated time unless nothing can be due", "line numbers continue at 0 after 65535"});
}

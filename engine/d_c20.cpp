// C20: bind option strings against the listeners that result.
#include "client.h"
#include <sys/socket.h>
int cl_connect_l(int l);
namespace {
struct Want { int fam; str addr; int port; bool t; };
struct Form { str text; bool ok; Want w; };
static std::vector<Form> forms() {
	std::vector<Form> f; auto v4 = [&](const char* a, int p, bool t = false) { f.push_back({str(a) + ":" + itos(p) + (t ? "t" : ""), true, {AF_INET, a, p, t}}); };
	auto v6 = [&](const char* a, int p, bool t = false, const char* canon = nullptr) { f.push_back({"[" + str(a) + "]:" + itos(p) + (t ? "t" : ""), true, {AF_INET6, canon ? canon : a, p, t}}); };
	auto un = [&](const str& p) { f.push_back({"u:" + p, true, {AF_UNIX, p, 0, false}}); };
	v4("127.0.0.1", 8000); v4("0.0.0.0", 80); v4("127.0.0.1", 8100, true); v4("255.255.255.254", 65535); v4("10.20.30.40", 1); v4("1.2.3.4", 12345, true);
	v6("::1", 9001); v6("::", 90); v6("fe80::1", 65535, true); v6("2001:db8:1:2:3:4:5:6", 443); v6("2001:DB8:0:0:0:0:0:7", 7, false, "2001:db8::7"); v6("::ffff:1.2.3.4", 99);
	un("/run/a.sock"); un("/run/t"); un("/tmp/1:2"); un("/tmp/[x]"); un("/tmp/" + str(102, 'x')); un("/run/u:b");
	for (const char* b : {"127.0.0.1", "127.0.0.1:", "127.0.0.1:x", "127.0.0.1:65536", "127.0.0.1:99999999999", "127.0.0.1:4294975296", "127.0.0.1:80x", "127.0.0.1:80tt", "127.0.0.1:80 ", "127.0.0.1:-1", "127.0.0.1:t", "256.0.0.1:80", "1.2.3:80", "localhost:80", ":80", "", " 127.0.0.1:80", "::1:80", "[::1]", "[::1]:", "[::1]80", "[::1:80", "[zz::1]:80", "[]:80", "[127.0.0.1]:80", "[::1]:80x", "u:", "u", "U:/run/x", "127.0.0.1:80:81", "[::1]:70000"}) f.push_back({b, false, {}});
	f.push_back({"u:/tmp/" + str(103, 'x'), false, {}}); f.push_back({"u:/tmp/" + str(400, 'x'), false, {}});
	return f;
}
static const std::vector<Form>& F() { static auto f = forms(); return f; }
static void serve(int lis, bool mon, const str& what) {
	Cl c; c.s = cl_connect_l(lis); run(); if (!w.socks[c.s].accepted) violation("%s does not accept a client", what.c_str());
	if (!mon) { Resp r = ask(c, rq_stats(), what); if (r.status != 200 || r.body.find("DB Keys") == str::npos) violation("%s does not serve the cache", what.c_str()); r = ask(c, rq_put("t", "k" + itos(lis), "abc"), what); if (r.status != 200) violation("%s does not store", what.c_str()); }
	else { cl_send(c.s, "GET /conn HTTP/1.1\r\n\r\n"); run(); tick_s(6); if (c.out().find("0\n") == str::npos) violation("%s does not serve monitoring: %s", what.c_str(), show(c.out()).c_str()); }
	cl_close(c.s); run();
}
static str wstr(const Want& x) { return x.fam == AF_UNIX ? "unix " + x.addr : (x.fam == AF_INET6 ? "ipv6 " : "ipv4 ") + x.addr + " port " + itos(x.port) + (x.t ? " transparent" : ""); }
static void check(const std::vector<str>& argv, bool ok, const std::vector<Want>& cache, const std::vector<Want>& mon, const str& what, bool stale) {
	use_variant("std"); world_reset_fs(); if (stale) for (auto& x : cache) if (x.fam == AF_UNIX) { int i = w.fs.mk(); w.fs.names[x.addr] = i; w.fs.inodes[i].nlink = 1; }
	sut_boot(argv);
	if (!ok) {
		if (w.status == ST_RUNNING) violation("%s: the server starts although the list cannot be parsed", what.c_str());
		if (w.status != ST_EXITED || w.exit_code == 0) violation("%s: the server ends with %s %d instead of refusing to start", what.c_str(), w.status == ST_EXITED ? "status" : "signal", w.exit_code);
		for (auto& l : w.lis) if (l.listening) violation("%s: the server opened a listener before it refused to start", what.c_str());
		outcome(1); return; }
	if (w.status != ST_RUNNING) violation("%s: the server ends with status %d instead of starting", what.c_str(), w.exit_code);
	std::vector<int> got; for (size_t i = 0; i < w.lis.size(); i++) if (w.lis[i].listening && !w.lis[i].closed) got.push_back((int)i);
	std::vector<Want> all = cache; all.insert(all.end(), mon.begin(), mon.end());
	if (got.size() != all.size()) violation("%s: %zu listeners are open, %zu are described", what.c_str(), got.size(), all.size());
	uint64_t h = 5;
	for (size_t i = 0; i < all.size(); i++) { Listener& l = w.lis[got[i]]; Want g = {l.fd_family, l.fd_family == AF_UNIX ? l.path : l.addr, l.port, l.transparent};
		if (wstr(g) != wstr(all[i])) violation("%s: listener %zu is %s, described is %s", what.c_str(), i, wstr(g).c_str(), wstr(all[i]).c_str()); h = hash_str(wstr(g), h); }
	outcome(h);
	for (size_t i = 0; i < all.size(); i++) serve(got[i], i >= cache.size(), what + " listener " + itos(i));
	shut(15);
}
// picks: indices into F(); joined with commas
static bool join(const std::vector<int>& p, str& s, std::vector<Want>& ws, std::set<int>& used) { bool ok = true; s.clear(); for (size_t i = 0; i < p.size(); i++) { if (i) s += ","; s += F()[p[i]].text; if (!F()[p[i]].ok) ok = false; else { ws.push_back(F()[p[i]].w); if (!used.insert(p[i]).second) return false; } } (void)ok; return true; }
static void lists(int n, bool allbad, int where) {
	std::vector<int> idx; int nbad = 0; for (size_t i = 0; i < F().size(); i++) { if (!F()[i].ok && !allbad && (nbad++ % 4)) continue; idx.push_back((int)i); }
	std::vector<int> p; bool ok = true; for (int i = 0; i < n; i++) { p.push_back(idx[choose((int)idx.size(), "element")]); ok = ok && F()[p.back()].ok; }
	str s; std::vector<Want> ws, o; std::set<int> used; if (!join(p, s, ws, used)) return;
	std::vector<str> a = {"scache", "-r", "/db"}; Want oc = {AF_INET, "127.0.0.9", 4000, false}; str os = "127.0.0.9:4000";
	switch (where) {
	case 0: a.insert(a.end(), {"-b", s, "-B", os}); check(a, ok, ws, {oc}, "-b " + s, choose(2, "stale socket file")); break;
	case 1: a.insert(a.end(), {"-B", s, "-b", os}); check(a, ok, {oc}, ws, "-B " + s, false); break;
	case 2: a.insert(a.end(), {"--bind", s, "--monitor", os}); check(a, ok, ws, {oc}, "--bind " + s, false); break;
	case 3: a.insert(a.end(), {"-b", s}); check(a, ok, ws, {}, "only -b " + s, false); break;
	case 5: a.insert(a.end(), {"-B", s}); check(a, ok, {}, ws, "only -B " + s, false); break;
	case 4: a.insert(a.end(), {"--monitor=" + s, "--bind=" + os}); check(a, ok, {oc}, ws, "--monitor=" + s, false); break;
	}
}
static void both() { // lists of two for each option
	std::vector<int> good; for (size_t i = 0; i < F().size(); i++) if (F()[i].ok) good.push_back((int)i); int n = (int)good.size(); std::set<int> used; str s, t; std::vector<Want> a, b; std::vector<int> p, q;
	p = {good[choose(n, "first")], good[(choose(4, "second") * 5 + 3) % n]}; q = {good[(choose(5, "third") * 4 + 1) % n], good[choose(n, "fourth")]};
	if (!join(p, s, a, used) || !join(q, t, b, used)) return; check({"scache", "-r", "/db", "-b", s, "-B", t}, true, a, b, "-b " + s + " -B " + t, false);
}
static void many() { // long lists, with a mistake at one place or none
	int n = choose(40, "length") + 1, bad = choose(n + 1, "mistake at"); str s; std::vector<Want> ws; for (int i = 0; i < n; i++) { if (i) s += ","; bool t = i % 3 == 1; if (i + 1 == bad) { s += "127.0.0.1"; continue; } if (i % 5 == 4) { str a = "/run/s" + itos(i); s += "u:" + a; ws.push_back({AF_UNIX, a, 0, false}); } else if (i % 2) { s += "[::1]:" + itos(2000 + i) + (t ? "t" : ""); ws.push_back({AF_INET6, "::1", 2000 + i, t}); } else { s += "127.0.0.1:" + itos(2000 + i) + (t ? "t" : ""); ws.push_back({AF_INET, "127.0.0.1", 2000 + i, t}); } }
	check({"scache", "-r", "/db", "-b", s, "-B", "127.0.0.9:4000"}, bad == 0, ws, {{AF_INET, "127.0.0.9", 4000, false}}, "a list of " + itos(n) + (bad ? " with a mistake at " + itos(bad) : str()), false);
}
static void ports() { // every port number near the limits, every number of digits
	static const long long near[] = {1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535, 65536, 65537, 99999, 100000, 131072, 655350, 4294967296ll + 80, 2147483648ll, 18446744073709551ll}; int k = choose(22 + 4, "port"); int form = choose(4, "form");
	str num = k < 22 ? itos(near[k]) : k == 22 ? "00080" : k == 23 ? "18446744073709551696" : k == 24 ? "0080" : "+80"; bool ok = (k < 22 && near[k] <= 65535) || k == 22 || k == 24; int port = !ok ? 0 : k < 22 ? (int)near[k] : 80;
	str s = form == 0 ? "127.0.0.1:" + num : form == 1 ? "127.0.0.1:" + num + "t" : form == 2 ? "[::1]:" + num : "[::1]:" + num + "t"; Want x = {form < 2 ? AF_INET : AF_INET6, form < 2 ? "127.0.0.1" : "::1", port, form % 2 == 1};
	check({"scache", "-r", "/db", "-b", s, "-B", "127.0.0.9:4000"}, ok, {x}, {{AF_INET, "127.0.0.9", 4000, false}}, "-b " + s, false);
}
static Reg r20("C20", [](std::vector<Scenario>& v, bool th) {
	for (int n = 1; n <= 2; n++) for (int wh = 0; wh < (n == 1 ? 6 : 2); wh++) v.push_back({"lists of " + itos(n) + ", use " + itos(wh), [=] { lists(n, true, wh); }});
	for (int wh = 0; wh < (th ? 6 : 1); wh++) v.push_back({"lists of 3, use " + itos(wh), [=] { lists(3, th, wh); }});
	v.push_back({"both options", [=] { both(); }}); v.push_back({"long lists", [=] { many(); }}); v.push_back({"port numbers", [=] { ports(); }});
}, {"the kernel accepts every well-formed address (the simulated one does)"});
}

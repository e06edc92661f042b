// C12: equal hashes. C13: restart. C14: kill at every file operation. C15: background saves.
#include "client.h"
namespace {

// names with equal 32-bit hashes (MurmurHash3, the server's seed), and one whose hash is the next number
static const char* EQ_[3] = {"zovid", "h4pz0", "xjkq5"}; static const char* NEXT = "s75b1";
static std::vector<str> EQ2 = {"us4xi", "cth7p", "oulb2"}; static size_t NEQ2 = 3;   // the first NEQ2 of them have equal hashes
static str operator""_s(const char* p, size_t n) { return str(p, n); }
// equal hashes again: equal beginnings, equal endings, equal up to a zero byte, one the beginning of the other, two characters that differ
static void alike(int g) {
	static const std::vector<std::vector<str>> A = {{"us4xi", "cth7p", "oulb2"}, {"samebeginning-jqkjcc", "samebeginning-n3kjjh", "samebeginning-xuldlm"}, {"z2dc5d-sameend", "ulubvo-sameend", "psghmb-sameend"}, {"c\0oaujxk"_s, "c\0wfrgwf"_s, "c\0y20aji"_s}, {"givju", "givjubyp"}, {"mx6qz1tez", "mx6qz1"}, {"x1vdav3a", "xfvdavia"}, {"prhv3rs4", "prxv3ns4"}, {"ab\0p3rprl"_s, "ab\0i411mk"_s}};
	EQ2 = A[g]; NEQ2 = EQ2.size(); if (NEQ2 < 3) EQ2.push_back("another");
}
static const int ALIKE = 9;

struct O { str name; std::function<void(int)> f; };
static bool play(const std::vector<O>& ops, int depth, std::function<void()> after = nullptr) {
	for (int i = 0; i < depth; i++) { int o = choose((int)ops.size() + (i ? 1 : 0), "operation"); if (i) { if (!o) break; o--; } LOG("%s\n", ops[o].name.c_str()); ops[o].f(i); if (after) after(); }
	return true;
}
// a model in which a key may be missing because a key with the same hash was stored
struct Coll {
	Model m; std::set<str> lost;   // t/k that may be missing
	void stored(const str& t, const str& k, const Val& v, const std::vector<str>& group) { m[t][k] = v; lost.erase(t + "/" + k); if (std::find(group.begin(), group.end(), k) != group.end()) for (auto& g : group) if (g != k && m_find(m, t, g)) lost.insert(t + "/" + g); }
	void gone(const str& t, const str& k) { m_erase(m, t, k); lost.erase(t + "/" + k); }
	void gone(const str& t) { m.erase(t); for (auto i = lost.begin(); i != lost.end();) if (i->compare(0, t.size() + 1, t + "/") == 0) i = lost.erase(i); else ++i; }
	void check(Cl& c, const str& t, const str& k, const str& when, bool head = false) {
		Resp r = ask(c, head ? rq_head(t, k) : rq_get(t, k), "GET /" + t + "/" + k + when, head);
		if (lost.count(t + "/" + k) && r.status == 404) { gone(t, k); return; }
		check_value(r, m_find(m, t, k), head, "GET /" + t + "/" + k + when); }
	void check_list(const str& t, const str& when) {
		Listing l = listing(t, "listing of " + t + when); std::set<str> have(l.keys.begin(), l.keys.end()); if (have.size() != l.keys.size()) violation("listing of %s%s names a key twice", t.c_str(), when.c_str());
		auto i = m.find(t); for (auto& k : have) if (i == m.end() || !i->second.count(k)) violation("listing of %s%s names %s, which is not there", t.c_str(), when.c_str(), show(k).c_str());
		if (i != m.end()) { std::vector<str> out; for (auto& k : i->second) if (!have.count(k.first)) { if (!lost.count(t + "/" + k.first)) violation("listing of %s%s lacks %s", t.c_str(), when.c_str(), show(k.first).c_str()); out.push_back(k.first); } for (auto& k : out) gone(t, k); } }
};
static void restart(int sig, const std::vector<str>& a = args()) { shut(sig); boot(a); }

static void equal_tables(int depth, bool chain, int kind, const char* variant = "std", bool like = false) {
	use_variant(variant); std::vector<str> EQ = {EQ_[0], EQ_[1], EQ_[2]}; if (like) { alike(1 + choose(ALIKE - 1, "names")); EQ = EQ2; } base_restore("plain", args(), nullptr); Coll C; Cl c = cl_open();
	std::vector<str> ts = chain ? std::vector<str>{EQ[0], EQ[1], NEXT} : std::vector<str>{EQ[0], EQ[1], EQ[2]};
	if (kind == 2) ts = {EQ[0], EQ[1], EQ[2], NEXT};
	std::vector<O> ops;
	for (size_t i = 0; i < ts.size(); i++) { str t = ts[i]; size_t n = i % 2 ? 5000 : 20;
		ops.push_back({"PUT " + t + "/k", [&, t, n](int s) { str v = mkval(s + 1, n); Resp r = ask(c, rq_put(t, "k", v), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); C.stored(t, "k", {v, 0}, {}); }});
		if (kind != 1) ops.push_back({"DELETE " + t, [&, t](int) { bool had = C.m.count(t); Resp r = ask(c, rq_delt(t), "DELETE /" + t); if (r.status != (had ? 200 : 404)) violation("DELETE /%s answered %d, the table was %s", t.c_str(), r.status, had ? "there" : "not there"); C.gone(t); }});
		if (kind != 2) ops.push_back({"DELETE " + t + "/k", [&, t](int) { bool had = m_find(C.m, t, "k"); Resp r = ask(c, rq_del(t, "k"), "DELETE /" + t + "/k"); if (r.status != (had ? 200 : 404)) violation("DELETE /%s/k answered %d, the key was %s", t.c_str(), r.status, had ? "there" : "not there"); C.gone(t, "k"); }});
	}
	if (kind == 1) { ops.push_back({"restart", [&](int) { restart(15); c = cl_open(); }}); ops.push_back({"BULK", [&](int) { ask(c, rq_bulk(ts[1], {"k", "x"}), "BULK"); C.gone(ts[1], "k"); }}); }
	play(ops, depth);
	for (auto& t : std::vector<str>{EQ[0], EQ[1], EQ[2], NEXT}) { C.check(c, t, "k", " at the end"); C.check(c, t, "x", " at the end"); C.check_list(t, " at the end"); }
	settle(); check_stats(c, C.m, "at the end"); uint64_t h = 9; for (auto& t : C.m) h = hash_str(t.first + t.second["k"].data, h); outcome(h);
	if (choose(2, "restart at the end")) { restart(2); c = cl_open(); for (auto& t : std::vector<str>{EQ[0], EQ[1], EQ[2], NEXT}) { C.check(c, t, "k", " after a restart"); C.check_list(t, " after a restart"); } check_stats(c, C.m, "after a restart"); for (auto& t : ts) ask(c, rq_delt(t), "DELETE"); C.m.clear(); settle(); check_stats(c, C.m, "after deleting all tables"); }
}
static void equal_keys(int depth, bool overlap, bool ttl, const char* variant = "std", bool like = false) {
	alike(0); if (like) alike(1 + choose(ALIKE - 1, "names")); use_variant(variant); base_restore("plain", args(), nullptr); Coll C; Cl c = cl_open(), u, g; str upv, slowv; std::vector<str> G(EQ2.begin(), EQ2.begin() + NEQ2), seen; int dirty = 0;
	std::vector<O> ops;
	for (int i = 0; i < (overlap ? 2 : 3); i++) { str k = EQ2[i]; for (size_t n : {(size_t)20, (size_t)5000}) { if (i == 2 && n == 20) continue; if (overlap && (i + (n > 4096)) % 2) continue;
		ops.push_back({"PUT " + k + " " + itos(n), [&, k, n](int s) { str v = mkval(s + 1, n); int64_t t = ttl && n == 20 ? 1 : -1; Resp r = ask(c, rq_put("t", k, v, t), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); C.stored("t", k, {v, t > 0 ? now_sec() + t : 0}, G); if (u.s >= 0) C.lost.insert("t/" + k), seen.push_back(v); }}); }
		ops.push_back({"DELETE " + k, [&, k](int) { bool had = m_find(C.m, "t", k); Resp r = ask(c, rq_del("t", k), "DELETE"); if (!ttl && u.s < 0 && !C.lost.count("t/" + k) && r.status != (had ? 200 : 404)) violation("DELETE /t/%s answered %d, the key was %s", k.c_str(), r.status, had ? "there" : "not there"); C.gone("t", k); if (overlap && k == EQ2[0] && u.s >= 0) dirty = 1; }}); }
	ops.push_back({"BULK", [&](int) { ask(c, rq_bulk("t", {EQ2[1], EQ2[2]}), "BULK"); C.gone("t", EQ2[1]); C.gone("t", EQ2[2]); }});
	if (!overlap) ops.push_back({"GET all", [&](int) { for (auto& k : EQ2) C.check(c, "t", k, ""); C.check(c, "u", EQ2[0], ""); }});
	if (ttl) ops.push_back({"wait 3 s", [&](int) { tick_s(3); std::vector<str> out; for (auto& k : C.m["t"]) if (k.second.exp && k.second.exp < now_sec()) out.push_back(k.first); for (auto& k : out) C.gone("t", k); if (C.m["t"].empty()) C.m.erase("t"); }});
	if (overlap) {
		ops.push_back({str("begin or end an upload of ") + EQ2[0], [&](int s) {
			if (u.s < 0) { upv = mkval(s + 1, 4200); u = cl_open(); str x = rq_put("t", EQ2[0], upv); cl_send(u.s, x.substr(0, x.size() - 50)); run(); C.gone("t", EQ2[0]); for (auto& k : G) if (m_find(C.m, "t", k)) C.lost.insert("t/" + k); dirty = 0; }
			else { cl_send(u.s, upv.substr(upv.size() - 50)); run(); Resp r = expect_resp(u, false, "upload"); if (r.status != 200) violation("upload answered %d", r.status); cl_close(u.s); run(); u = Cl();
				// stored, unless a colliding upload or a delete came in between
				Resp x = ask(c, rq_get("t", EQ2[0]), "GET"); const Val* o = m_find(C.m, "t", EQ2[0]); if (x.status == 200) { if (x.body != upv && !(o && x.body == o->data)) violation("GET /t/%s after overlapping stores: %s", EQ2[0].c_str(), show(x.body, 20).c_str()); C.stored("t", EQ2[0], {x.body, 0}, G); } else C.gone("t", EQ2[0]); } }});
		ops.push_back({str("begin or end a slow GET of ") + EQ2[1], [&](int) {
			if (g.s < 0) { g = cl_open(); cl_window(g.s, 60); cl_send(g.s, rq_get("t", EQ2[1])); run(); const Val* v = m_find(C.m, "t", EQ2[1]); slowv = v ? v->data : ""; }
			else { cl_window(g.s, -1); run(); Resp r = expect_resp(g, false, "slow GET"); if (r.status == 200 && r.body != slowv) violation("a slow GET of %s returns %s", EQ2[1].c_str(), show(r.body, 20).c_str()); cl_close(g.s); run(); g = Cl(); } }});
	}
	ask(c, rq_put("u", EQ2[0], "other table"), "PUT"); C.m["u"][EQ2[0]] = {"other table", 0};
	play(ops, depth, [&] { if (overlap) { for (auto& k : {EQ2[1], EQ2[2]}) C.check(c, "t", k, " then"); if (u.s < 0) C.check(c, "t", EQ2[0], " then"); C.check_list("t", " then"); } });
	if (u.s >= 0) { cl_close(u.s); run(); for (auto& k : G) C.lost.insert("t/" + k); } if (g.s >= 0) { cl_close(g.s); run(); }
	for (auto& k : EQ2) { C.check(c, "t", k, " at the end"); C.check(c, "t", k, " at the end", true); } C.check(c, "u", EQ2[0], " at the end"); C.check_list("t", " at the end"); settle(); check_stats(c, C.m, "at the end");
	uint64_t h = 11; for (auto& t : C.m) for (auto& k : t.second) h = hash_str(t.first + k.first + k.second.data, h); outcome(h);
	restart(15); c = cl_open(); for (auto& k : EQ2) C.check(c, "t", k, " after a restart"); check_stats(c, C.m, "after a restart");
}
// more stores than the numbers that tell files of equal names apart
static void many_files() {
	use_variant("std"); base_restore("plain", args(), nullptr); env.steplimit = 100000000; Cl c = cl_open(); int first = choose(3, "large values before"); Model m; str big = mkval(1, 5000);
	auto put = [&](const str& t, const str& k, const str& v) { Resp r = ask(c, rq_put(t, k, v), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); m[t][k] = {v, 0}; };
	for (int i = 0; i < first; i++) put("x", "k" + itos(i), mkval(40 + i, 4500)); put(EQ_[0], "k", big); put(EQ_[2], "k", mkval(2, 6000));
	env.forkfault = [] { return EAGAIN; }; for (int i = 0; i < 65534; i++) { cl_send(c.s, rq_put("x", "n", "v")); run(); c.pos = c.out().size(); if (i % 1000 == 0) { w.socks[c.s].out.clear(); w.socks[c.s].in.clear(); w.socks[c.s].inpos = 0; c.pos = 0; } } env.forkfault = nullptr;
	m["x"]["n"] = {"v", 0};
	for (int i = 0; i < 6; i++) { put(EQ_[1], "k", mkval(3 + i, 5500)); for (auto& t : m) for (auto& k : t.second) check_get(c, m, t.first, k.first, " after 65536 stores"); }
	outcome(first);
}
// an upload whose value was deleted ends only after as many stores as there are file numbers
static void late_aborts(bool deep) {
	use_variant("std"); base_restore("plain", args(), nullptr); env.steplimit = 100000000; Cl c = cl_open(); int n = 65533 + choose(deep ? 6 : 4, "stores"), how = choose(2, "how the uploads end"); Model m; std::vector<Cl> up; const int U = 3; str big[U];
	for (int i = 0; i < U; i++) { Cl u = cl_open(); big[i] = mkval(50 + i, 5000); str s = rq_put("t", "u" + itos(i), big[i]); cl_send(u.s, s.substr(0, s.size() - 9)); run(); up.push_back(u); }
	for (int i = 0; i < U; i++) ask(c, rq_del("t", "u" + itos(i)), "DELETE");
	env.forkfault = [] { return EAGAIN; }; for (int i = 0; i < n - U; i++) { cl_send(c.s, rq_put("x", "n", "v")); run(); c.pos = c.out().size(); if (i % 1000 == 0) { w.socks[c.s].out.clear(); w.socks[c.s].in.clear(); w.socks[c.s].inpos = 0; c.pos = 0; } } env.forkfault = nullptr;
	m["x"]["n"] = {"v", 0};
	for (int i = 0; i < U; i++) { str v = mkval(i, 5500), k = "u" + itos(i); if (ask(c, rq_put("t", k, v), "PUT").status != 200) violation("PUT is refused"); m["t"][k] = {v, 0}; }
	for (int i = 0; i < U; i++) { if (how) cl_close(up[i].s); else cl_send(up[i].s, big[i].substr(big[i].size() - 9)); run(); for (auto& k : m["t"]) check_get(c, m, "t", k.first, " after an old upload ended"); check_stats(c, m, "after an old upload ended"); }
	outcome(n);
}
static Reg r12("C12", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"tables with equal hashes", [=] { equal_tables(th ? 5 : 4, false, 0); }});
	v.push_back({"tables with equal and neighbouring hashes", [=] { equal_tables(th ? 5 : 4, true, 0); }});
	v.push_back({"tables with equal and neighbouring hashes, memory is used again", [=] { env.reuse = true; equal_tables(th ? 5 : 4, true, 0); }});
	v.push_back({"four tables dropped and created again", [=] { equal_tables(th ? 7 : 5, false, 2); }});
	v.push_back({"tables with equal hashes across restarts", [=] { equal_tables(th ? 5 : 4, true, 1); }});
	v.push_back({"keys with equal hashes", [=] { equal_keys(th ? 5 : 4, false, false); }});
	v.push_back({"keys with equal hashes that expire", [=] { equal_keys(th ? 5 : 3, false, true); }});
	v.push_back({"overlapping requests for keys with equal hashes", [=] { equal_keys(th ? 6 : 4, true, false); }});
	v.push_back({"overlapping requests for keys with equal hashes, memory is used again", [=] { env.reuse = true; equal_keys(th ? 6 : 4, true, false); }});
	v.push_back({"tables with equal hashes and names that look alike", [=] { equal_tables(th ? 4 : 3, false, 0, "std", true); }});
	v.push_back({"tables that look alike, across restarts", [=] { equal_tables(3, false, 1, "std", true); }});
	v.push_back({"keys with equal hashes and names that look alike", [=] { equal_keys(th ? 4 : 3, false, false, "std", true); }});
	v.push_back({"keys with equal hashes and names that look alike, memory is used again", [=] { env.reuse = true; equal_keys(th ? 4 : 3, false, false, "std", true); }});
	v.push_back({"overlapping requests for keys that look alike", [=] { equal_keys(th ? 4 : 3, true, false, "std", true); }});
	v.push_back({"more stores than file numbers", [=] { many_files(); }});
	v.push_back({"uploads that end after more stores than file numbers", [=] { late_aborts(th); }});
}, {"the colliding names were computed for the hash function in use; with another hash function they are ordinary names"});

// ---------------------------------------------------------------- C13
static std::vector<str> odd_names() { std::vector<str> v = {"", "a", "A", "b:1:2", "t:", "e:0:5000:0:1:x", "f:1", "%s%n%d", "..", "../x", "a\\nb", "a\\", "\\", "\\\\n", "#", "'quoted' \"names\"", "semi;colon|pipe`x`$(y)&", "\xc3\xa9\xff\x80", str("nul\0in", 6), "tab\tinside", str(255, 'l'), str(1023, 'm'), str(1024, 'n'), str(2047, 'p'), str(2048, 'q'), str(2049, 'r'), str(3500, 's')};
	for (int i = 2044; i < 2050; i++) for (const char* e : {"\\", "\\x", "\\\\"}) v.push_back(str(i, 'p') + e);
	for (auto& s : v) for (auto& c : s) if (c == ' ') c = '_'; return v; }
static void names(int n) {
	use_variant("std"); base_restore("plain", args(), nullptr); static auto N = odd_names(); Model m; Cl c = cl_open(); int tag = 0;
	for (int i = 0; i < n; i++) {
		str t = "t", k; int part = choose(2, "odd part"); int x = choose((int)N.size(), "name"); if (part == 0) k = N[x]; else { t = N[x]; for (auto& ch : t) if (ch == '/') ch = '_'; k = "k"; }
		size_t len = choose(2, "size") ? 5000 : 30; str v = mkval(++tag, len); LOG("PUT /%s/%s %zu\n", show(t).c_str(), show(k).c_str(), len);
		Resp r = ask(c, rq_put(t, k, v), "PUT /" + show(t, 30) + "/" + show(k, 30)); if (r.status != 200) { if (r.conn_close) { c = cl_open(); continue; } violation("PUT answered %d", r.status); } m[t][k] = {v, 0};
	}
	for (int round = 0; round < 2; round++) { restart(15); c = cl_open(); str when = round ? " after the second restart" : " after a restart"; for (auto& t : m) { for (auto& k : t.second) check_get(c, m, t.first, k.first, when.c_str()); for (auto& x : {"", "a", "k", "zz"}) if (!m_find(m, t.first, x)) check_get(c, m, t.first, x, when.c_str()); if (t.first.empty()) continue; Listing l = listing(t.first, "listing"); if (l.keys.size() != t.second.size()) violation("listing of %s%s has %zu keys, %zu were stored", show(t.first, 30).c_str(), when.c_str(), l.keys.size(), t.second.size()); } check_stats(c, m, when); }
	uint64_t h = 1; for (auto& t : m) for (auto& k : t.second) h = hash_str(t.first + "/" + k.first, h); outcome(h);
}
// where the database is: any directory
static void paths() {
	static const std::vector<str> P = {"/my data", "/it's", "/\"quoted\"", "/a'b'c\"d", "/$HOME", "/semi;colon", "/a&b", "/a|b", "/a>b", "/tick`s`", "/(x)", "/sta*r", "/que?y", "/back\\slash", "/new\nline", "/tab\there", "/#hash", "/~tilde", "/\xc3\xa9\xff", "/-x", "/%s%n", "rel", "./rel dir", "-x", "#x", "~x", "/db/", "//db", "/db/../db", "/db/sub", " "};
	use_variant("std"); int n = choose((int)P.size() + 40, "path"); str p; bool lng = n >= (int)P.size();
	if (lng) { p = "/" + str(200, 'p'); size_t len = n - P.size() + 372; p += "/" + str(len - p.size() - 1, 'q'); } else p = P[n];
	world_reset_fs(); for (str d = norm(p.c_str()); d.size() > 1; d = d.substr(0, d.rfind('/'))) w.fs.dirs->insert(d); size_t before = w.fs.names.size();
	std::vector<str> a = args(); for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == "-r") a[i + 1] = p;
	LOG("-r %s (%zu)\n", show(p).c_str(), p.size()); sut_boot(a); sut_run();
	if (w.status != ST_RUNNING) { if (w.status != ST_EXITED || !w.exit_code) violation("a start with database path %s ends with status %d", show(p).c_str(), w.exit_code); if (!lng) violation("the server does not start with database path %s", show(p).c_str()); if (w.fs.names.size() != before) violation("a start that is refused for database path %s leaves files", show(p).c_str()); outcome(n); return; }
	Model m; Cl c = cl_open(); int tag = 0; auto put = [&](const str& k, size_t l) { str v = mkval(++tag, l); if (ask(c, rq_put("t", k, v), "PUT").status != 200) violation("PUT is refused with database path %s", show(p).c_str()); m["t"][k] = {v, 0}; };
	put("a", 30); put("b", 5000); put("c", 4096); auto all = [&](const str& when) { str x = when + " with database path " + show(p); for (auto& k : m["t"]) check_get(c, m, "t", k.first, x.c_str()); check_stats(c, m, x.c_str()); };
	all(" before a restart"); restart(15, a); c = cl_open(); all(" after a restart"); put("a", 6000); put("d", 31); ask(c, rq_del("t", "b"), "DELETE"); m_erase(m, "t", "b"); all(" then"); restart(2, a); c = cl_open(); all(" after two restarts");
	str root = norm(p.c_str()); if (root != "/") root += "/"; for (auto& f : w.fs.names) if (f.first.compare(0, root.size(), root)) violation("%s was created, outside of the database path %s", show(f.first).c_str(), show(p).c_str()); outcome(n);
}
// a block file of gigabytes: blocks whose place does not fit in 31 or 32 bits
static void far_blocks(bool deep) {
	use_variant("std"); base_restore("plain", args(), nullptr); Model m; Cl c = cl_open(); int tag = 0; env.steplimit = 100000000;
	auto put = [&](const str& k, size_t l) { str v = mkval(++tag, l); if (ask(c, rq_put("t", k, v), "PUT").status != 200) violation("PUT is refused"); m["t"][k] = {v, 0}; };
	put("a", 30); put("b", 5000); put("c", 4096); shut(15);
	static const uint64_t S[] = {1ull << 31, 1ull << 32, 3ull << 31}; uint64_t size = S[choose(deep ? 3 : 2, "size")] + 4096 * (choose(4, "blocks more") - 1);
	// the save of a server that had that many values
	auto it = w.fs.names.find("/db/blockfile.db.save"); if (it == w.fs.names.end()) return; w.fs.farw(it->second); w.fs.resize(it->second, size); LOG("the saved block file has %llu bytes\n", (unsigned long long)size);
	boot(args()); c = cl_open(); auto all = [&](const str& when) { for (auto& k : m["t"]) check_get(c, m, "t", k.first, when.c_str()); check_stats(c, m, when.c_str()); };
	all(" at the start"); for (int i = 0; i < 4; i++) put("n" + itos(i), i % 2 ? 4096 : 41 + i); all(" in a large block file");
	Cl g = cl_open(); cl_window(g.s, 70); cl_send(g.s, rq_get("t", "n1")); run(); ask(c, rq_del("t", "n0"), "DELETE"); m_erase(m, "t", "n0"); put("n2", 50); put("a", 4000); put("n5", 100);
	str was = m["t"]["n1"].data; if (choose(2, "delete")) { ask(c, rq_del("t", "n1"), "DELETE"); m_erase(m, "t", "n1"); put("n6", 4001); } cl_window(g.s, -1); run(); Resp r = expect_resp(g, false, "slow GET"); if (r.status != 200 || r.body != was) violation("a slow GET from a large block file returns %d %s", r.status, show(r.body, 20).c_str()); cl_close(g.s); run();
	all(" in a large block file after changes"); restart(15); c = cl_open(); all(" after a restart with a large block file"); put("n7", 60); put("c", 61); ask(c, rq_del("t", "n5"), "DELETE"); m_erase(m, "t", "n5"); all(" then"); restart(2); c = cl_open(); all(" after two restarts with a large block file"); uint64_t h = size; outcome(h);
}
static void byte_names() { // every byte a name can have
	use_variant("std"); base_restore("plain", args(), nullptr); Model m; Cl c = cl_open(); int b = choose(256, "byte"), pos = choose(3, "place"); if (b == ' ' || b == '/' || b == '\n' || b == '\r') return;
	str x = pos == 0 ? str(1, (char)b) : pos == 1 ? str("k") + (char)b + "z" : str("kz") + (char)b; str v = mkval(1, 20), v2 = mkval(2, 4500);
	auto put = [&](const str& t, const str& k, const str& val) { Resp r = ask(c, rq_put(t, k, val), "PUT"); if (r.status == 200) m[t][k] = {val, 0}; else c = cl_open(); };
	put("t", x, v); put(x, "k", v2); put(x, x, v); put("t", "kz", "plain"); put("t", "k", "plain too");
	Model before = m; restart(choose(2, "signal") ? 15 : 2); c = cl_open(); for (auto& t : before) for (auto& k : t.second) check_get(c, m, t.first, k.first, (" with byte " + itos(b) + " after a restart").c_str()); check_stats(c, m, "after a restart");
	restart(15); c = cl_open(); for (auto& t : before) for (auto& k : t.second) check_get(c, m, t.first, k.first, (" with byte " + itos(b) + " after two restarts").c_str()); outcome(b * 4 + pos);
}
static void restarts(const char* variant, int depth, int depth2, int set) {
	use_variant(variant); base_restore("plain", args(), nullptr); Model m; Cl c = cl_open(); int tag = 0; std::vector<int> open; auto closeall = [&] { for (int s : open) cl_close(s); open.clear(); run(); };
	auto put = [&](const str& t, const str& k, size_t n, int64_t ttl) { return O{"PUT " + t + "/" + k + " " + itos(n), [&, t, k, n, ttl](int) { str v = mkval(++tag, n); Resp r = ask(c, rq_put(t, k, v, ttl), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); m[t][k] = {v, ttl > 0 ? now_sec() + ttl : 0};
		if (!open.empty()) { Resp g = ask(c, rq_get(t, k), "GET after an overlapping PUT"); if (g.status == 404) m_erase(m, t, k); else check_value(g, m_find(m, t, k), false, "GET after an overlapping PUT"); } }}; };
	auto expire = [&] { for (auto t = m.begin(); t != m.end();) { for (auto k = t->second.begin(); k != t->second.end();) if (k->second.exp && k->second.exp < now_sec()) k = t->second.erase(k); else ++k; if (t->second.empty()) t = m.erase(t); else ++t; } };
	O del{"DELETE t/a", [&](int) { ask(c, rq_del("t", "a"), "DELETE"); m_erase(m, "t", "a"); }}, delt{"DELETE t", [&](int) { ask(c, rq_delt("t"), "DELETE"); m.erase("t"); }}, gc{"GC", [&](int) { ask(c, rq_gc(), "GC"); settle(); }}, rs{"restart", [&](int) { restart(15); open.clear(); c = cl_open(); }}, crash{"kill", [&](int) { }};
	O up{"upload of t/a left unfinished", [&](int) { Cl u = cl_open(); str s = rq_put("t", "a", mkval(99, 5000)); cl_send(u.s, s.substr(0, s.size() - 7)); run(); open.push_back(u.s); m_erase(m, "t", "a"); }};
	O slow{"GET of t/b left unread", [&](int) { Cl u = cl_open(); cl_window(u.s, 80); cl_send(u.s, rq_get("t", "b")); run(); open.push_back(u.s); }};
	std::vector<O> ops;
	if (set == 0) ops = {put("t", "a", 20, -1), put("t", "a", 5000, -1), put("t", "b", 4096, -1), put("t", "b", 9000, -1), put("u", "a", 30, -1), del, delt, gc, rs};
	else if (set == 1) ops = {put("t", "a", 20, 2), put("t", "a", 5000, 5), put("t", "b", 10, -1), {"wait 3 s", [&](int) { tick_s(3); }}, gc, rs, del};
	else ops = {put("t", "a", 20, -1), put("t", "b", 5000, -1), up, slow, del, delt, rs};
	play(ops, depth); expire();
	restart(choose(2, "signal") ? 15 : 2); open.clear(); c = cl_open(); expire();
	auto verify = [&](const char* when) { for (const char* t : {"t", "u", "x"}) for (const char* k : {"a", "b", "c"}) { check_get(c, m, t, k, when); } settle(); check_stats(c, m, when);
		std::vector<str> vf = value_files(); size_t big = 0; for (auto& t : m) for (auto& k : t.second) if (k.second.data.size() > 4096) big++; if (vf.size() < big) violation("%s %zu value files for %zu large values", when, vf.size(), big); };
	verify(" after a restart");
	if (depth2) { play(ops, depth2); closeall(); expire(); ask(c, rq_put("t", "c", mkval(77, 40)), "PUT"); m["t"]["c"] = {mkval(77, 40), 0}; verify(" after more requests"); restart(15); c = cl_open(); expire(); verify(" after the second restart"); }
	uint64_t h = 2; for (auto& t : m) for (auto& k : t.second) h = hash_str(t.first + k.first + k.second.data, h); outcome(h);
	// everything can still be deleted and given back
	for (const char* t : {"t", "u", "x"}) ask(c, rq_delt(t), "DELETE"); m.clear(); settle(); check_stats(c, m, "after deleting everything");
}
// shutdown while a save process is somewhere in its work, and it gets on while the final save is written
static void during_save(int depth, bool crowd) {
	use_variant("std"); base_restore(crowd ? "save13c" : "save13", args(), [=] { Cl c = cl_open(); for (int i = 0; i < (crowd ? 12 : 2); i++) ask(c, rq_put("u", "k" + itos(i), mkval(60 + i, 20 + 7 * i)), "PUT"); ask(c, rq_put("t", "b", mkval(51, 5000)), "PUT"); settle(); cl_close(c.s); run(); });
	w.auto_child = false; Model m; for (int i = 0; i < (crowd ? 12 : 2); i++) m["u"]["k" + itos(i)] = {mkval(60 + i, 20 + 7 * i), 0}; m["t"]["b"] = {mkval(51, 5000), 0}; Cl c = cl_open(); int tag = 0; Model all = m;
	auto put = [&](const str& t, const str& k, size_t n) { return O{"PUT " + t + "/" + k + " " + itos(n), [&, t, k, n](int) { str v = mkval(++tag, n); Resp r = ask(c, rq_put(t, k, v), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); m[t][k] = {v, 0}; all[t][k] = {v, 0}; }}; };
	O del{"DELETE u/k1", [&](int) { ask(c, rq_del("u", "k1"), "DELETE"); m_erase(m, "u", "k1"); }}, delt{"DELETE u", [&](int) { ask(c, rq_delt("u"), "DELETE"); m.erase("u"); }};
	std::vector<O> ops = {put("t", "a", 30), put("t", "b", 40), put("u", "k0", 4500), put("t", "c", 5000), del, delt};
	play(ops, depth); LOG("GC\n"); ask(c, rq_gc(), "GC"); int k = live_child(); if (k < 0) violation("no save starts"); size_t n = w.kids[k].ops.size(); int steps = choose((int)n + 1, "the save makes steps"); for (int i = 0; i < steps; i++) child_step(k);
	if (steps < (int)n) play(ops, 1); int left = w.kids[k].dead ? 0 : 1;
	env.fsfault = [&](FsOpKind kd, const str&, size_t) { FsFault f; if (!left || w.in_child || kd == OP_CLOSE || kd == OP_READ || kd == OP_SEEK) return f; int x = choose(3, "meanwhile the save"); if (!x) return f; left--; if (x == 1) child_finish(k); else { size_t r = w.kids[k].ops.size() - w.kids[k].next; for (size_t i = 0; i < (r + 1) / 2; i++) child_step(k); } return f; };
	shut(choose(2, "signal") ? 15 : 2); env.fsfault = nullptr; if (!w.kids[k].dead) { LOG("the save process ends after the server\n"); child_finish(k); }
	w.auto_child = true; for (int round = 0; round < 2; round++) { boot(args()); c = cl_open(); const char* when = round ? " after the second restart" : " after a restart during a save"; for (auto& t : all) for (auto& x : t.second) check_get(c, m, t.first, x.first, when); settle(); check_stats(c, m, when); if (round == 0) shut(15); }
	uint64_t h = 6; for (auto& t : m) for (auto& x : t.second) h = hash_str(t.first + x.first + x.second.data, h); outcome(h);
}
// a save process is killed at any step, keys are removed, and a later save that is shorter takes its place
static void after_killed_save() {
	use_variant("std"); base_restore("plain", args(), nullptr); w.auto_child = false; Model m, all; Cl c = cl_open(); int names = choose(4, "names"), tag = 0; std::vector<std::pair<str, str>> ks;
	for (int i = 0; i < 5; i++) { str k(names == 0 ? 1 : names == 1 ? 1 + i : names == 2 ? 12 - 2 * i : i == 2 ? 60 : 2, (char)('a' + i)), t = i < 3 ? "t" : names == 2 ? "vvvvvvv" : "u"; str v = mkval(++tag, i == 1 ? 5000 : 20 + i); Resp r = ask(c, rq_put(t, k, v), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); m[t][k] = {v, 0}; ks.push_back({t, k}); }
	all = m; ask(c, rq_gc(), "GC"); int k = live_child(); if (k < 0) violation("no save starts"); size_t n = w.kids[k].ops.size(); int steps = choose((int)n + 1, "the save makes steps"); for (int i = 0; i < steps; i++) child_step(k); if (!w.kids[k].dead) child_die(k, 9); run();
	int gone = choose(32, "removed"); for (int i = 0; i < 5; i++) if (gone >> i & 1) { Resp r = ask(c, rq_del(ks[i].first, ks[i].second), "DELETE"); if (r.status != 200) violation("DELETE answered %d", r.status); m_erase(m, ks[i].first, ks[i].second); }
	if (choose(2, "one more key")) { ask(c, rq_put("t", "n", "new"), "PUT"); m["t"]["n"] = {"new", 0}; all["t"]["n"] = {"new", 0}; }
	int how = choose(2, "saved by"); w.auto_child = true; if (how == 0) shut(15); else { ask(c, rq_gc(), "GC"); settle(); sut_kill(); w.status = ST_CRASHED; }
	boot(args()); c = cl_open(); for (auto& t : all) for (auto& x : t.second) check_get(c, m, t.first, x.first, " after a killed save, another one and a restart"); for (auto& t : all) { Listing l = listing(t.first, "listing"); auto i = m.find(t.first); if (l.keys.size() != (i == m.end() ? 0 : i->second.size())) violation("listing of %s after a killed save, another one and a restart has %zu keys", t.first.c_str(), l.keys.size()); } settle(); check_stats(c, m, "after a killed save, another one and a restart"); outcome(steps * 64 + gone);
}
// a time to live that ends when seconds no longer fit in 31 bits
static void far_times() {
	use_variant("std"); base_restore("plain", args(), nullptr); Model m; Cl c = cl_open(); static const int64_t T[] = {2147483647, 2000000000, 2147483648ll - 1600000000, 1000000000}; int64_t ttl = T[choose(4, "time to live")], early = choose(2, "asked before the end") ? ttl - 1 : ttl / 2; size_t n = choose(2, "size") ? 5000 : 30;
	auto put = [&](const str& k, int64_t t) { str v = mkval(k[0], n); if (ask(c, rq_put("t", k, v, t), "PUT").status != 200) violation("PUT is refused"); m["t"][k] = {v, t > 0 ? now_sec() + t : 0}; };
	auto all = [&](const char* when) { for (auto k : {"far", "near", "keep"}) { auto i = m["t"].find(k); if (i != m["t"].end() && i->second.exp && i->second.exp < now_sec()) m["t"].erase(i); check_get(c, m, "t", k, when); } };
	put("far", ttl); put("near", 60); put("keep", -1); all(" first"); restart(15); c = cl_open(); all(" after a restart"); tick_s(early); all(" after a long time"); restart(2); c = cl_open(); all(" after a long time and a restart"); tick_s(ttl - early + 1); all(" after the time to live"); settle(); check_stats(c, m, "after the time to live"); restart(15); c = cl_open(); all(" after the time to live and a restart"); check_stats(c, m, "after the time to live and a restart"); outcome(ttl + early);
}
// requests cut at every byte while the server is shut down, or saves and is killed: nothing but an uploaded key is different afterwards
static void halves() {
	struct K { str what, rq, key; }; static const std::vector<K> KS = {{"PUT of a small value", rq_put("t", "a", mkval(70, 30)), "a"}, {"PUT of a large value", rq_put("t", "b", mkval(71, 5000), 9), "b"}, {"PUT of a new key", rq_put("t", "n", mkval(72, 12)), ""}, {"PUT to a new table", rq_put("new", "n", mkval(72, 4400)), ""}, {"GET", rq_get("t", "a"), ""}, {"GET of a large value", rq_get("t", "b"), ""}, {"HEAD", rq_head("t", "a"), ""}, {"DELETE", rq_del("t", "a"), ""}, {"listing", rq_list("t"), ""}, {"DELETE of the table", rq_delt("t"), ""}, {"BULK to a new table", rq_bulk("new", {"a", "b"}), ""}, {"BULK", rq_bulk("t", {"x", "y"}), ""}, {"GET of nothing", rq_get("no", "no"), ""}};
	use_variant("std"); base_restore("c13half", args(), [] { Cl c = cl_open(); ask(c, rq_put("t", "a", mkval(1, 20)), "PUT"); ask(c, rq_put("t", "b", mkval(2, 4300)), "PUT"); ask(c, rq_put("u", "c", mkval(3, 25)), "PUT"); settle(); cl_close(c.s); run(); });
	const K& k = KS[choose((int)KS.size(), "request")]; int how = choose(3, "the end"), mid = choose(4, "meanwhile"); size_t hdr = k.rq.find("\r\n\r\n") + 4, url = k.rq.find(" HTTP") + 1; size_t at = 1 + choose((int)std::min(hdr + 2, k.rq.size() - 1), "cut after"); LOG("%s cut after %zu bytes\n", k.what.c_str(), at);
	Model m; m["t"]["a"] = {mkval(1, 20), 0}; m["t"]["b"] = {mkval(2, 4300), 0}; m["u"]["c"] = {mkval(3, 25), 0}; Cl c = cl_open(), x = cl_open(); cl_send(x.s, k.rq.substr(0, at)); run(); if (!k.key.empty() && at >= url) m_erase(m, "t", k.key);
	if (mid == 1) { ask(c, rq_delt("t"), "DELETE"); m.erase("t"); } if (mid == 2) { for (auto n : {"a", "b"}) { ask(c, rq_del("t", n), "DELETE"); m_erase(m, "t", n); } ask(c, rq_put("t", "d", mkval(5, 50)), "PUT"); m["t"]["d"] = {mkval(5, 50), 0}; } if (mid == 3) { ask(c, rq_del("u", "c"), "DELETE"); m.erase("u"); }
	if (how == 0) shut(15); else if (how == 1) { ask(c, rq_gc(), "GC"); settle(); sut_kill(); w.status = ST_CRASHED; } else { post_signal(10); run(); settle(); shut(2); }
	boot(args()); c = cl_open(); for (int round = 0; round < 2; round++) { const char* when = round ? " after a second restart" : " after a restart"; for (auto t : {"t", "u", "new", "no"}) { for (auto n : {"a", "b", "c", "d", "n"}) check_get(c, m, t, n, when); Listing l = listing(t, "listing"); auto i = m.find(t); if (l.keys.size() != (i == m.end() ? 0 : i->second.size())) violation("listing of %s%s has %zu keys", t, when, l.keys.size()); } settle(); check_stats(c, m, str("a ") + k.what + " cut after " + itos((int64_t)at) + " bytes:" + when); if (!round) { shut(15); boot(args()); c = cl_open(); } }
	for (const char* t : {"t", "u", "new"}) ask(c, rq_delt(t), "DELETE"); m.clear(); settle(); check_stats(c, m, "after deleting everything"); outcome(at * 16 + how * 4 + mid);
}
static Reg r13("C13", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"sequences and a restart", [=] { restarts("std", th ? 5 : 4, 0, 0); }});
	v.push_back({"sequences around two restarts", [=] { restarts("std", th ? 3 : 2, 2, 0); }});
	v.push_back({"values with a time to live", [=] { restarts("std", th ? 4 : 3, 1, 1); }});
	v.push_back({"open uploads and readers", [=] { restarts("std", th ? 4 : 3, 1, 2); }});
	v.push_back({"saves on every insert", [=] { restarts("lru1", th ? 4 : 3, 1, 0); }});
	v.push_back({"requests cut at every byte", [=] { halves(); }});
	v.push_back({"unusual names", [=] { names(2); }});
	v.push_back({"database paths", [=] { paths(); }});
	v.push_back({"a block file of gigabytes", [=] { far_blocks(th); }});
	v.push_back({"times to live of decades", [=] { far_times(); }});
	v.push_back({"every byte in a name", [=] { byte_names(); }});
	v.push_back({"shutdown during a background save", [=] { during_save(th ? 2 : 1, false); }});
	v.push_back({"a shorter save after a killed one", [=] { after_killed_save(); }});
	if (th) v.push_back({"shutdown during a background save of more keys", [=] { during_save(1, true); }});
});

// ---------------------------------------------------------------- C14
struct Hist { std::map<str, std::map<str, std::vector<Val>>> h; void add(const str& t, const str& k, const Val& v) { h[t][k].push_back(v); } };
static void crash_hook(int& left, bool boottoo) {
	(void)boottoo; env.fsfault = [&left](FsOpKind k, const str& path, size_t n) { FsFault f; if (left <= 0 || w.in_child) return f; (void)path; bool data = (k == OP_WRITE || k == OP_CPDATA) && n > 0;
		if (k == OP_READ || k == OP_SEEK || k == OP_CLOSE || k == OP_SENDFILE_IN || k == OP_SYNC || k == OP_OPEN) return f;
		int c = choose(data ? 3 : 2, "kill here"); if (c) { left--; f.act = c == 1 ? ACT_CRASH : ACT_CRASH_PARTIAL; } return f; };
}
static void step_children(int& left) { // the save process may be anywhere in its work
	int k = live_child(); if (k < 0) return; size_t n = w.kids[k].ops.size() - w.kids[k].next; std::vector<size_t> at = {0}; size_t base = n > 7 ? n - 7 : 0; for (size_t i = base; i <= n; i++) if (i) at.push_back(i);
	if (n > 9) at.push_back(n / 3);
	int c = choose((int)at.size(), "save process steps"); for (size_t i = 0; i < at[c]; i++) child_step(k);
	if (at[c] == n) { child_step(k); run(); }
	if (left > 0 && choose(2, "kill during the save")) { left--; LOG("    !! killed\n"); throw Killed(); }
}
struct Seen { int status; str body; };
static void after_kill(Hist& H, Cl& c, std::map<str, Seen>* keep, const char* when) {
	for (const char* t : {"t", "u", "v"}) for (const char* k : {"a", "b", "c", "d"}) {
		str n = str(t) + "/" + k; Resp r = ask(c, rq_get(t, k), "GET /" + n + when); if (r.status != 200 && r.status != 404) violation("GET /%s%s answered %d", n.c_str(), when, r.status);
		if (r.status == 200) { bool ok = false; for (auto& v : H.h[t][k]) if (v.data == r.body && (!v.exp || now_sec() <= v.exp)) ok = true;
			if (!ok) { str whose; for (auto& t2 : H.h) for (auto& k2 : t2.second) for (auto& v : k2.second) if (v.data == r.body) whose = ", which was stored as /" + t2.first + "/" + k2.first; violation("GET /%s%s returns %zu bytes %s that were never stored under it%s", n.c_str(), when, r.body.size(), show(r.body, 12).c_str(), whose.c_str()); } }
		if (keep) { auto i = keep->find(n); if (i != keep->end() && (i->second.status != r.status || i->second.body != r.body)) violation("GET /%s%s: %d %s, before it was %d %s", n.c_str(), when, r.status, show(r.body, 12).c_str(), i->second.status, show(i->second.body, 12).c_str()); (*keep)[n] = {r.status, r.body}; }
	}
}
static void crashes(const char* variant, int depth, int set, bool second, bool unfinished_upload) {
	use_variant(variant); base_restore("plain", args(), nullptr); w.auto_child = false; Hist H; int tag = 0; int left = 1;
	Cl c = cl_open();
	auto put = [&](const str& t, const str& k, size_t n, int64_t ttl = -1) { return O{"PUT " + t + "/" + k + " " + itos(n), [&, t, k, n, ttl](int) { str v = mkval(++tag, n); H.add(t, k, {v, ttl > 0 ? now_sec() + ttl : 0}); str s = rq_put(t, k, v, ttl); if (unfinished_upload) { cl_send(c.s, s.substr(0, s.size() - n / 2)); run(); cl_send(c.s, s.substr(s.size() - n / 2)); } else cl_send(c.s, s); run(); expect_resp(c, false, "PUT"); }}; };
	O del{"DELETE t/a", [&](int) { ask(c, rq_del("t", "a"), "DELETE"); }}, delt{"DELETE t", [&](int) { ask(c, rq_delt("t"), "DELETE"); }}, gc{"GC", [&](int) { ask(c, rq_gc(), "GC"); }};
	O rs{"restart", [&](int) { w.auto_child = true; shut(15); w.auto_child = false; boot(args()); c = cl_open(); }}, wt{"wait 3 s", [&](int) { tick_s(3); }};
	std::vector<O> ops;
	if (set == 0) ops = {put("t", "a", 20), put("t", "a", 5000), put("t", "b", 25), put("u", "a", 4097), del, delt, gc, rs};
	else if (set == 1) ops = {put("t", "a", 20), put("t", "a", 30), put("t", "b", 25), del, gc};
	else if (set == 2) ops = {put("t", "a", 20, 1), put("t", "a", 5000, 1), put("t", "b", 25), wt, gc, rs};
	else if (set == 4) ops = {put("t", "a", 20), put("t", "a", 30), put("t", "b", 30), {"GC, killed or not", [&](int) { gc.f(0); step_children(left); }}, {"restart, killed or not", [&](int) { crash_hook(left, true); rs.f(0); env.fsfault = nullptr; }}};
	else ops = {put("t", "a", 5000), put("t", "a", 5200), put("t", "b", 20), del, gc, rs};
	bool killed = false; str at;
	try {
		if (set != 4) crash_hook(left, true);
		for (int i = 0; i < depth; i++) { int o = choose((int)ops.size() + (i ? 1 : 0), "operation"); if (i) { if (!o) break; o--; } LOG("%s\n", ops[o].name.c_str()); at = ops[o].name; ops[o].f(i); if (set != 4) step_children(left); }
		at = "the end"; if (left > 0) left--;
	} catch (Killed&) { killed = true; }
	env.fsfault = nullptr; sut_kill(); w.status = ST_CRASHED; (void)killed;
	// start again
	int left2 = second ? 1 : 0; std::map<str, Seen> keep;
	for (int round = 0; round < (second ? 2 : 1); round++) {
		try {
			if (left2) crash_hook(left2, true);
			boot(args()); c = cl_open(); keep.clear(); str when = round ? " after the second kill" : " after the kill";
			after_kill(H, c, &keep, when.c_str());
			// new values must not disturb the old ones
			put("v", "a", 33).f(0); put("v", "b", 4500).f(0); put("v", "c", 50).f(0);
			keep["v/a"] = {200, mkval(tag - 2, 33)}; keep["v/b"] = {200, mkval(tag - 1, 4500)}; keep["v/c"] = {200, mkval(tag, 50)};
			after_kill(H, c, &keep, (when + " and new stores").c_str());
			if (left2) { ask(c, rq_gc(), "GC"); step_children(left2); put("v", "d", 60).f(0); ask(c, rq_del("v", "a"), "DELETE"); put("t", "c", 4400).f(0); }
			left2 = 0; env.fsfault = nullptr; w.auto_child = true; settle();
			if (round == (second ? 1 : 0)) { if (!second) { shut(15); boot(args()); c = cl_open(); after_kill(H, c, &keep, (when + ", new stores and a restart").c_str()); } }
			w.auto_child = false;
		} catch (Killed&) { }
		env.fsfault = nullptr; sut_kill(); w.status = ST_CRASHED;
	}
	uint64_t h = 3; for (auto& k : keep) h = hash_str(k.first + k.second.body, h); outcome(h);
}
// killed while values are stored that got the numbers of values of the last save: more stores than 16 bits count after it
static void far_kill(bool deep) {
	use_variant("std"); base_restore("plain", args(), nullptr); env.steplimit = 100000000; Cl c = cl_open(); int n = 65533 + choose(deep ? 6 : 4, "stores"), cut = choose(3, "the upload"), gone = choose(2, "removed by"); Hist H; str v = mkval(1, 5000), x = mkval(2, 5000);
	H.add("t", "a", {v, 0}); ask(c, rq_put("t", "a", v), "PUT"); H.add("t", "b", {x, 0}); ask(c, rq_put("t", "b", x), "PUT"); ask(c, rq_gc(), "GC"); settle(); if (gone) ask(c, rq_delt("t"), "DELETE"); else ask(c, rq_del("t", "a"), "DELETE");
	env.forkfault = [] { return EAGAIN; }; for (int i = 0; i < n; i++) { cl_send(c.s, rq_put("x", "n", "v")); run(); c.pos = c.out().size(); if (i % 1000 == 0) { w.socks[c.s].out.clear(); w.socks[c.s].in.clear(); w.socks[c.s].inpos = 0; c.pos = 0; } } c = cl_open();
	str y = mkval(3, 5000), s = rq_put("t", "a", y); size_t h = s.size() - 5000; H.add("t", "a", {y, 0}); cl_send(c.s, s.substr(0, cut == 0 ? h : cut == 1 ? h + 2000 : s.size())); run(); env.forkfault = nullptr; LOG("    !! killed\n"); sut_kill(); w.status = ST_CRASHED;
	boot(args()); c = cl_open(); std::map<str, Seen> keep; after_kill(H, c, &keep, " after 65536 stores without a save and a kill"); shut(15); boot(args()); c = cl_open(); after_kill(H, c, &keep, " after 65536 stores without a save, a kill and a restart"); outcome(n * 8 + cut);
}
// killed while values are stored whose numbers a server that starts again has to continue
static void few_kill() {
	use_variant("std"); base_restore("plain", args(), nullptr); Cl c = cl_open(); Hist H; int tag = 0; auto put = [&](const str& t, const str& k, size_t n) { str v = mkval(++tag, n); H.add(t, k, {v, 0}); ask(c, rq_put(t, k, v), "PUT"); };
	int before = choose(6, "stores before"), after = choose(7, "stores after"), how = choose(2, "save"), more = choose(3, "more values"), cut = choose(3, "the upload"), gone = choose(3, "removed by");
	for (int i = 0; i < before; i++) put("x", "n", 5); put("t", "a", 5000); if (more == 1) put("u", "b", 5000); if (more == 2) { put("t", "b", 5000); put("t", "c", 20); put("u", "b", 4097); }
	if (how) { ask(c, rq_gc(), "GC"); settle(); sut_kill(); w.status = ST_CRASHED; } else shut(15);
	boot(args()); c = cl_open(); env.forkfault = [] { return EAGAIN; }; for (int i = 0; i < after; i++) put("x", "n", 6); if (gone == 1) ask(c, rq_delt("t"), "DELETE"); else if (gone == 2) ask(c, rq_del("t", "a"), "DELETE");
	str y = mkval(++tag, 5000), s = rq_put("t", "a", y); size_t h = s.size() - 5000; H.add("t", "a", {y, 0}); cl_send(c.s, s.substr(0, cut == 0 ? h : cut == 1 ? h + 2000 : s.size())); run(); env.forkfault = nullptr; LOG("    !! killed\n"); sut_kill(); w.status = ST_CRASHED;
	boot(args()); c = cl_open(); std::map<str, Seen> keep; after_kill(H, c, &keep, " after a restart and a kill"); shut(15); boot(args()); c = cl_open(); after_kill(H, c, &keep, " after a restart, a kill and a restart"); outcome(((before * 8 + after) * 2 + how) * 32 + more * 8 + cut);
}
static Reg r14("C14", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"kill at every step of every sequence", [=] { crashes("std", th ? 4 : 3, 0, false, false); }});
	v.push_back({"small values and saves", [=] { crashes("std", th ? 5 : 3, 1, false, false); }});
	v.push_back({"small values, a save on every insert", [=] { crashes("lru1", th ? 3 : 2, 1, false, false); }});
	v.push_back({"values with a time to live", [=] { crashes("std", th ? 4 : 3, 2, false, false); }});
	v.push_back({"values arriving in parts", [=] { crashes("std", th ? 4 : 3, 3, false, true); }});
	v.push_back({"longer sequences, kills during saves and restarts", [=] { crashes("std", th ? 5 : 4, 4, false, false); }});
	v.push_back({"a kill after more stores than 16 bits count", [=] { far_kill(th); }});
	v.push_back({"a kill after a restart, few stores", [=] { few_kill(); }});
	v.push_back({"a second kill", [=] { crashes("std", 2, 0, true, false); }});
	if (th) { v.push_back({"a second kill, small values and saves", [=] { crashes("std", 3, 1, true, false); }}); v.push_back({"a save on every insert, all operations", [=] { crashes("lru1", 3, 0, false, false); }}); v.push_back({"a second kill, a save on every insert", [=] { crashes("lru1", 2, 0, true, false); }}); }
}, {"the machine itself keeps running: what a completed write stored stays stored", "a killed write leaves nothing or half of its bytes"});

// ---------------------------------------------------------------- C15
static int live_children() { int n = 0; for (auto& k : w.kids) if (!k.dead) n++; return n; }
static void saves(const char* variant, int depth, int set) {
	use_variant(variant); base_restore("c15", args(), [] { Cl c = cl_open(); ask(c, rq_put("t", "a", mkval(50, 20)), "PUT"); ask(c, rq_put("t", "b", mkval(51, 5000)), "PUT"); ask(c, rq_put("u", "c", mkval(52, 100)), "PUT"); settle(); cl_close(c.s); run(); });
	w.auto_child = false; Model m; m["t"]["a"] = {mkval(50, 20), 0}; m["t"]["b"] = {mkval(51, 5000), 0}; m["u"]["c"] = {mkval(52, 100), 0}; Cl c = cl_open(), up; str upv; int tag = 0;
	bool every = !strcmp(variant, "lru1"); size_t started = w.kids.size(); bool expect_alive = false; Model snap; bool have_snap = false; bool snap_ok = false; Model saved; bool pendfail = false, updel = false;
	auto trigger = [&](const Model& at) { // a trigger happened while the state was at; a new save must have begun unless one was running
		size_t n = w.kids.size(); if (live_children() > 1) violation("two save processes at a time");
		if (pendfail) { pendfail = false; if (n != started) violation("a failed fork started a save"); return; }
		if (!expect_alive) { if (n != started + 1) violation("no save starts although none is running"); expect_alive = true; snap = at; have_snap = true; started = n; } else if (n != started) violation("a second save starts while one is running");
	};
	auto put = [&](const str& t, const str& k, size_t n) { return O{"PUT " + t + "/" + k + " " + itos(n), [&, t, k, n](int) { str v = mkval(++tag, n); Model at = m; m_erase(at, t, k); Resp r = ask(c, rq_put(t, k, v), "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); if (every) trigger(at); m[t][k] = {v, 0}; }}; };
	O del{"DELETE t/a", [&](int) { ask(c, rq_del("t", "a"), "DELETE"); m_erase(m, "t", "a"); }}, delt{"DELETE t", [&](int) { ask(c, rq_delt("t"), "DELETE"); m.erase("t"); updel = true; }}; 
	O gc{"GC", [&](int) { ask(c, rq_gc(), "GC"); trigger(m); }}, usr{"SIGUSR1", [&](int) { post_signal(10); run(); trigger(m); }};
	O fin{"the save ends", [&](int) { int k = live_child(); if (k < 0) return; child_finish(k); run(); expect_alive = false; if (have_snap) { saved = snap; snap_ok = true; have_snap = false; } }};
	O some{"the save makes a step", [&](int) { int k = live_child(); if (k < 0) return; size_t n = w.kids[k].ops.size() - w.kids[k].next; int s = n > 6 ? (int)n - 5 : 1; for (int i = 0; i < s; i++) if (!child_step(k)) { run(); expect_alive = false; if (have_snap) { saved = snap; snap_ok = true; have_snap = false; } } }};
	O kill{"the save is killed", [&](int) { int k = live_child(); if (k < 0) return; int at = choose(3, "killed after"); size_t n = w.kids[k].ops.size() - w.kids[k].next; size_t s = at == 0 ? 0 : at == 1 ? n / 2 : n ? n - 3 : 0; for (size_t i = 0; i < s && i < n; i++) child_step(k); child_die(k, 9); run(); expect_alive = false; have_snap = false; snap_ok = false; }};
	O fail{"the save fails", [&](int) { int k = live_child(); if (k < 0) return; child_die(k, 1 << 8); run(); expect_alive = false; have_snap = false; }};
	O nofork{"fork fails, GC", [&](int) { env.forkfault = [] { return EAGAIN; }; if (!expect_alive) pendfail = true; ask(c, rq_gc(), "GC"); trigger(m); env.forkfault = nullptr; }};
	O both{"the save ends, SIGUSR1 and a request at once", [&](int) { int k = live_child(); if (k < 0) return; child_finish(k); post_signal(10); expect_alive = false; if (have_snap) { saved = snap; snap_ok = true; have_snap = false; } Resp r = ask(c, rq_get("t", "b"), "GET"); check_value(r, m_find(m, "t", "b"), false, "GET"); trigger(m); }};
	O upl{"an upload begins or ends", [&](int) { if (up.s < 0) { updel = false; upv = mkval(++tag, 4300); Model at = m; m_erase(at, "t", "up"); up = cl_open(); str s = rq_put("t", "up", upv); cl_send(up.s, s.substr(0, s.size() - 9)); run(); m_erase(m, "t", "up"); if (every) trigger(at); } else { cl_send(up.s, upv.substr(upv.size() - 9)); run(); Resp r = expect_resp(up, false, "upload"); if (r.status != 200) violation("upload answered %d", r.status); Resp g = ask(c, rq_get("t", "up"), "GET"); if (g.status == 200 && g.body != upv) violation("GET /t/up after its upload: %s", show(g.body, 20).c_str()); if (g.status == 200) m["t"]["up"] = {upv, 0}; else if (!updel) violation("GET /t/up after its upload answered %d", g.status); cl_close(up.s); run(); up = Cl(); } }};
	std::vector<O> ops;
	if (set == 0) ops = {put("t", "a", 30), put("t", "b", 6000), put("u", "d", 10), del, gc, usr, fin, kill, fail, nofork, both};
	else if (set == 1) ops = {put("t", "a", 30), put("t", "e", 5000), delt, gc, fin, some, kill, upl, usr};
	else {
		auto reader = [&](const str& what, const str& s1, const str& s2, int64_t win) { auto g = std::make_shared<Cl>(); return O{what + " begins or ends", [&, g, s1, s2, win](int) { if (g->s < 0) { *g = cl_open(); if (win) cl_window(g->s, win); cl_send(g->s, s1); run(); } else { cl_window(g->s, -1); if (!s2.empty()) cl_send(g->s, s2); run(); cl_close(g->s); run(); *g = Cl(); } }}; };
		ops = {put("t", "a", 30), del, delt, gc, fin, some, upl, reader("half a GET of t/a", "GET /t/a HTTP/1.1\r\n", "\r\n", 0), reader("a slow GET of t/b", rq_get("t", "b"), "", 90), reader("a slow listing of t", rq_list("t"), "", 20), reader("half a DELETE of t", "DELETE /t HTTP/1.1\r\n", "", 0)}; }
	play(ops, depth, [&] { if (live_children() > 1) violation("two save processes at a time"); check_get(c, m, "u", "c", ""); });
	for (auto& x : std::vector<std::pair<str, str>>{{"t", "a"}, {"t", "b"}, {"u", "c"}, {"u", "d"}, {"t", "e"}}) check_get(c, m, x.first, x.second, " at the end");
	// the next trigger still works
	if (expect_alive) { int k = live_child(); if (k < 0) violation("the save process has vanished"); if (choose(2, "how the last save ends")) { child_finish(k); if (have_snap) { saved = snap; snap_ok = true; have_snap = false; } } else { child_die(k, 9); have_snap = false; snap_ok = false; } run(); expect_alive = false; }
	if (!snap_ok || choose(2, "one more save")) { int how = choose(2, "trigger"); if (how) { post_signal(10); run(); } else ask(c, rq_gc(), "GC"); trigger(m); int k = live_child(); if (k < 0) violation("no save starts"); bool ch = choose(2, "a change before it ends"); if (ch) { put("t", "a", 77).f(0); put("u", "c", 88).f(0); } child_finish(k); run(); saved = snap; snap_ok = true; }
	// what the save wrote: start a copy from it
	Model now = m; sut_kill(); w.status = ST_CRASHED; w.auto_child = true; boot(args()); Cl d = cl_open(); uint64_t h = 17;
	for (const char* t : {"t", "u"}) for (const char* k : {"a", "b", "c", "d", "e", "up"}) { Resp r = ask(d, rq_get(t, k), "GET from the save"); const Val* s = m_find(saved, t, k); const Val* n = m_find(now, t, k); str what = str("the saved state, /") + t + "/" + k;
		if (r.status == 404 && s && s->data.size() > 4096 && !(n && n->data == s->data)) continue;    // its file has been removed since
		check_value(r, s, false, what); if (s) h = hash_str(s->data, h); }
	outcome(h);
}
// a signal (the end of a save, the timer, a request for a save) right after a call that failed, before the server looks at errno
static void after_failing_calls(int depth) {
	use_variant("std"); base_restore("c15", args(), [] { Cl c = cl_open(); ask(c, rq_put("t", "a", mkval(50, 20)), "PUT"); ask(c, rq_put("t", "b", mkval(51, 5000)), "PUT"); ask(c, rq_put("u", "c", mkval(52, 100)), "PUT"); settle(); cl_close(c.s); run(); });
	w.auto_child = false; Model m; m["t"]["a"] = {mkval(50, 20), 0}; m["t"]["b"] = {mkval(51, 5000), 0}; m["u"]["c"] = {mkval(52, 100), 0}; Cl c = cl_open(); int tag = 0, left = 1; ask(c, rq_gc(), "GC");
	auto armed = [&](std::function<void()> f) { env.onfail = [&](int e) { if (!left) return; int k = live_child(); int x = choose(k < 0 ? 3 : 4, "signal after a failed call"); if (!x) return; left--; LOG("        ## after errno %d\n", e);
		if (x == 1) post_signal(14); else if (x == 2) post_signal(10); else child_finish(k); deliver_signals(); }; f(); env.onfail = nullptr; };
	auto put = [&](const str& t, const str& k, size_t n, size_t piece) { return O{"PUT " + t + "/" + k + " " + itos(n), [&, t, k, n, piece](int) { str v = mkval(++tag, n), s = rq_put(t, k, v); armed([&] { for (size_t i = 0; i < s.size(); i += piece) { cl_send(c.s, s.substr(i, piece)); run(); } }); Resp r = expect_resp(c, false, "PUT"); if (r.status != 200) violation("PUT answered %d", r.status); m[t][k] = {v, 0}; }}; };
	auto get = [&](const str& t, const str& k, int win) { return O{"GET " + t + "/" + k + (win ? " slowly" : ""), [&, t, k, win](int) { armed([&] { if (win) cl_window(c.s, win); cl_send(c.s, rq_get(t, k)); run(); if (win) { for (int i = 0; i < 3; i++) { cl_window(c.s, win * 2); run(); } cl_window(c.s, -1); run(); } }); Resp r = expect_resp(c, false, "GET"); check_value(r, m_find(m, t, k), false, "GET /" + t + "/" + k); }}; };
	O two{"two requests at once", [&](int) { armed([&] { cl_send(c.s, rq_get("t", "a") + rq_get("u", "c")); run(); }); for (auto& x : std::vector<std::pair<str, str>>{{"t", "a"}, {"u", "c"}}) { Resp r = expect_resp(c, false, "GET"); check_value(r, m_find(m, x.first, x.second), false, "GET"); } }};
	O mon{"a monitoring client", [&](int) { Cl q = cl_open(8001); armed([&] { cl_send(q.s, "GET /conn HTTP/1.1\r\n\r\n"); run(); cl_send(q.s, "x"); run(); tick(5000000); }); if (q.eof() || q.out().find("\r\n\r\n0\n") == str::npos) violation("the monitoring client received '%s'%s", show(q.out()).c_str(), q.eof() ? " and was disconnected" : ""); cl_close(q.s); run(); }};
	O lst{"listing", [&](int) { Cl q = cl_open(); str out; armed([&] { cl_window(q.s, 30); cl_send(q.s, rq_list("t")); run(); cl_window(q.s, -1); run(); }); if (!q.eof() || q.out().find("\r\na\r\n") == str::npos || q.out().find("\r\nb\r\n") == str::npos) violation("the listing is '%s'", show(q.out()).c_str()); cl_close(q.s); run(); }};
	std::vector<O> ops = {put("t", "a", 30, 1000), put("t", "b", 6000, 2100), get("t", "a", 0), get("t", "b", 0), get("t", "b", 90), get("u", "c", 40), two, mon, lst};
	play(ops, depth, [&] { if (live_children() > 1) violation("two save processes at a time"); });
	left = 0; for (auto& x : std::vector<std::pair<str, str>>{{"t", "a"}, {"t", "b"}, {"u", "c"}}) check_get(c, m, x.first, x.second, " at the end");
	int k = live_child(); if (k >= 0) child_finish(k); run(); ask(c, rq_gc(), "GC"); if (live_child() < 0) violation("no save starts any more"); outcome(tag);
}
static Reg r15("C15", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"saves and requests in every order", [=] { saves("std", th ? 5 : 4, 0); }});
	v.push_back({"saves, uploads and table deletes in every order", [=] { saves("std", th ? 5 : 4, 1); }});
	v.push_back({"saves while clients are reading", [=] { saves("std", th ? 5 : 3, 2); }});
	v.push_back({"saves while clients are reading, memory is used again", [=] { env.reuse = true; saves("std", th ? 5 : 3, 2); }});
	v.push_back({"a trigger on every insert", [=] { saves("lru1", th ? 5 : 3, 0); }});
	v.push_back({"a trigger on every insert, uploads", [=] { saves("lru1", th ? 5 : 3, 1); }});
	v.push_back({"signals right after calls that fail", [=] { after_failing_calls(th ? 4 : 3); }});
	v.push_back({"a trigger on every insert, readers", [=] { saves("lru1", th ? 4 : 3, 2); }});
});
}

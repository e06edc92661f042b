// C21: file operations fail or are cut short. The server goes on, nobody else notices, nothing wrong is ever served,
// and when the fault is gone everything works as before.
#include "client.h"
#include <errno.h>
namespace {
static const char* KN[] = {"create", "open", "write", "truncate", "unlink", "rename", "link", "mkdir", "read", "seek", "copy", "copy data", "fork", "cp", "sync", "close", "sendfile", "mmap"};
struct May { std::vector<str> v; bool none = true; };
struct Faulty {
	std::map<str, May> key; Cl c, other; int tag = 0, left = 0, injected = 0; bool leak = false; uint64_t sig = 7; int mode = 0; bool on = false; std::map<str, std::vector<str>> past;
	void hook() {
		env.fsfault = [this](FsOpKind k, const str& path, size_t n) {
			FsFault f; if (!on) return f;
			if (k == OP_CLOSE || k == OP_MKDIR || k == OP_FORK || k == OP_ALLOC) return f;
			if (mode) {              // a condition that lasts
				if (mode == 1 && (k == OP_CREATE || (k == OP_WRITE) || k == OP_TRUNC || k == OP_CPDATA)) { f.act = ACT_ERR; f.err = ENOSPC; }
				if (mode == 2 && (k == OP_CREATE || k == OP_OPEN)) { f.act = ACT_ERR; f.err = EMFILE; }
				if (mode == 3 && (k == OP_CREATE || k == OP_WRITE || k == OP_TRUNC || k == OP_UNLINK || k == OP_RENAME || k == OP_CPDATA || k == OP_SYSTEM)) { f.act = ACT_ERR; f.err = EROFS; if (k == OP_UNLINK) leak = true; }
				if (mode == 4 && k == OP_WRITE) f.act = ACT_SHORT;
				if (mode == 5 && (k == OP_SENDFILE_IN || k == OP_READ)) { f.act = ACT_ERR; f.err = EIO; }
				if (f.act) injected++; return f;
			}
			if (!left) return f;
			bool cut = (k == OP_WRITE || k == OP_SENDFILE_IN || k == OP_CPDATA) && n > 0;
			int c = choose(cut ? 3 : 2, "fault"); if (!c) return f; left--; injected++; sig = sig * 31 + k * 3 + c;
			LOG("        ## %s of %s %s\n", KN[k], path.c_str(), c == 1 ? "fails" : "is cut short");
			if (k == OP_UNLINK) leak = true;
			if (c == 2) { f.act = ACT_SHORT; return f; }
			f.act = ACT_ERR; f.err = k == OP_OPEN ? EMFILE : k == OP_SENDFILE_IN || k == OP_READ || k == OP_SYNC || k == OP_UNLINK || k == OP_RENAME ? EIO : ENOSPC; return f; };
	}
	struct Ans { bool whole = false; Resp r; str part; };
	Ans get_answer(Cl& x, bool head, const str& what, int before) {
		Ans a; str why; size_t at = x.pos; int k = parse_resp(x.out(), x.pos, head, x.eof(), a.r, why);
		if (k == 1) { a.whole = true; if (x.pending()) violation("%s: extra bytes after the answer: %s", what.c_str(), show(x.out().substr(x.pos)).c_str()); if (x.eof()) { cl_close(x.s); run(); x = cl_open(); } return a; }
		if (k < 0) violation("%s: %s: %s", what.c_str(), why.c_str(), show(x.out().substr(at)).c_str());
		if (!x.eof()) violation("%s: neither a whole answer nor a closed connection: '%s'", what.c_str(), show(x.out().substr(at), 40).c_str());
		if (injected == before) violation("%s: the connection is closed without an answer although nothing failed meanwhile", what.c_str());
		a.part = x.out().substr(at); cl_close(x.s); run(); x = cl_open(); return a;
	}
	Ans tryask(const str& s, const str& what, bool head = false) { int b = injected; cl_send(c.s, s); run(); return get_answer(c, head, what, b); }
	void sure(const str& k, const str* v) { May& m = key[k]; if (v) past[k].push_back(*v); m.v.clear(); m.none = !v; if (v) m.v.push_back(*v); }
	void put(const str& t, const str& k, size_t n, bool parts = false) {
		str v = mkval(++tag, n), nm = t + "/" + k, s = rq_put(t, k, v); int b = injected; LOG("PUT /%s %zu\n", nm.c_str(), n);
		if (parts) { cl_send(c.s, s.substr(0, s.size() - n * 2 / 3)); run(); if (!c.eof()) { cl_send(c.s, s.substr(s.size() - n * 2 / 3, n / 3)); run(); } if (!c.eof()) cl_send(c.s, s.substr(s.size() - n * 2 / 3 + n / 3)); } else cl_send(c.s, s);
		run(); Ans a = get_answer(c, false, "PUT /" + nm, b);
		if (a.whole && a.r.status == 200) sure(nm, &v); else { if (injected == b) violation("PUT /%s is refused with %d although nothing failed meanwhile", nm.c_str(), a.r.status); key[nm].none = true; }
	}
	void check_ok(const str& nm, const Ans& a, bool faulted, const char* when) {
		May& m = key[nm];
		if (a.whole && a.r.status == 200) { for (auto& v : m.v) if (v == a.r.body) return; violation("GET /%s%s returns %zu bytes '%s' that it should not hold", nm.c_str(), when, a.r.body.size(), show(a.r.body, 20).c_str()); }
		if (a.whole && a.r.status == 404) { if (m.none || faulted) return; violation("GET /%s%s answers 404, its value was stored", nm.c_str(), when); }
		if (!faulted) violation("GET /%s%s is not answered although nothing fails", nm.c_str(), when);
		if (!a.whole && !a.part.empty()) { size_t h = a.part.find("\r\n\r\n"); if (h == str::npos) return; str b = a.part.substr(h + 4); for (auto& v : m.v) if (v.compare(0, b.size(), b) == 0) return; if (a.part.compare(9, 3, "200") == 0) violation("GET /%s%s delivers '%s', which is no beginning of its value", nm.c_str(), when, show(b, 20).c_str()); }
	}
	void get(const str& t, const str& k, const char* when = "") { int b = injected; LOG("GET /%s/%s\n", t.c_str(), k.c_str()); Ans a = tryask(rq_get(t, k), "GET /" + t + "/" + k + when); check_ok(t + "/" + k, a, injected != b, when); }
	void del(const str& t, const str& k) { LOG("DELETE /%s/%s\n", t.c_str(), k.c_str()); Ans a = tryask(rq_del(t, k), "DELETE"); if (a.whole) { if (a.r.status == 200 || a.r.status == 404) sure(t + "/" + k, nullptr); else key[t + "/" + k].none = true; } else key[t + "/" + k].none = true; }
	void delt(const str& t) { LOG("DELETE /%s\n", t.c_str()); Ans a = tryask(rq_delt(t), "DELETE"); for (auto& x : key) if (x.first.compare(0, t.size() + 1, t + "/") == 0) { if (a.whole) { x.second.v.clear(); } x.second.none = true; } }
	void health(const char* when) {      // whoever is not involved notices nothing
		bool o = on; on = false; Resp r = ask(other, rq_get("x", "calm"), str("GET of an unaffected value") + when); if (r.status != 200 || r.body != "calm value") violation("an unaffected value%s answers %d '%s'", when, r.status, show(r.body, 20).c_str());
		r = ask(other, rq_get("x", "large"), str("GET of an unaffected value") + when); if (r.status != 200 || r.body != mkval(80, 7000)) violation("an unaffected large value%s answers %d '%s'", when, r.status, show(r.body, 20).c_str()); on = o; }
};
static void pro() { Cl c = cl_open(); ask(c, rq_put("x", "calm", "calm value"), "PUT"); ask(c, rq_put("x", "large", mkval(80, 7000)), "PUT"); ask(c, rq_put("t", "a", mkval(81, 30)), "PUT"); ask(c, rq_put("t", "b", mkval(82, 5000)), "PUT"); settle(); cl_close(c.s); run(); }
static void faults(const char* variant, int depth, int nf, int set, int endfault) {
	use_variant(variant); base_restore("c21", args(), pro); Faulty F; F.c = cl_open(); F.other = cl_open(); F.left = nf; str a0 = mkval(81, 30), b0 = mkval(82, 5000); F.sure("t/a", &a0); F.sure("t/b", &b0);
	F.mode = set == 2 ? 1 + choose(5, "condition") : 0; F.hook(); F.on = set != 3;
	Cl slow; str slowv;
	for (int d = 0; d < depth; d++) {
		static const int M0[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}; static const int M1[] = {0, 1, 2, 4, 6, 7, 8, 9};
		int nops = set == 1 ? 8 : 16, o = choose(nops + (d ? 1 : 0), "operation"); if (d) { if (!o) break; o--; }
		switch (set == 1 ? M1[o] : M0[o]) {
		case 0: F.put("t", "a", 25); break;
		case 1: F.put("t", "a", 5200); break;
		case 2: F.put("t", "b", 40); break;
		case 3: F.put("t", "b", 9000, true); break;
		case 4: F.put("u", "n", 4096); break;
		case 5: F.put("u", "n", 4100, true); break;
		case 6: F.get("t", "a"); break;
		case 7: F.get("t", "b"); break;
		case 8: { LOG("GC\n"); int b = F.injected; Faulty::Ans a = F.tryask(rq_gc(), "GC"); if (!a.whole && F.injected == b) violation("GC is not answered"); settle(); break; }
		case 9: F.del("t", "b"); break;
		case 10: F.delt("t"); break;
		case 11: { LOG("HEAD /t/b\n"); F.tryask(rq_head("t", "b"), "HEAD", true); break; }
		case 12: { LOG("a listing\n"); int b = F.injected; Cl l = cl_open(); cl_send(l.s, rq_list("t")); run(); Faulty::Ans a = F.get_answer(l, false, "listing", b); cl_close(l.s); run(); break; }
		case 13: { LOG("a slow GET of t/b begins or ends\n"); if (slow.s < 0) { slow = cl_open(); cl_window(slow.s, 75); cl_send(slow.s, rq_get("t", "b")); run(); May& m = F.key["t/b"]; slowv = m.v.size() == 1 && !m.none ? m.v[0] : ""; } else { int b = 0; cl_window(slow.s, -1); run(); Faulty::Ans a = F.get_answer(slow, false, "slow GET", F.injected ? -1 : b); if (a.whole && a.r.status == 200 && !slowv.empty() && a.r.body != slowv) violation("a slow GET returns '%s'", show(a.r.body, 20).c_str()); cl_close(slow.s); run(); slow = Cl(); } break; }
		case 14: { LOG("an upload of u/q that is aborted\n"); Cl u = cl_open(); str v = mkval(++F.tag, 4500), s = rq_put("u", "q", v); cl_send(u.s, s.substr(0, s.size() - 50)); run(); cl_close(u.s); run(); break; }
		case 15: LOG("SIGUSR1\n"); post_signal(10); run(); settle(); break;
		}
		need_running("after a file operation failed"); F.health(" while file operations fail");
	}
	if (endfault) { // the shutdown itself, and the next start
		F.on = true; shut(15); if (endfault == 2) { F.left = nf; sut_boot(args()); if (w.status == ST_EXITED) { LOG("the server does not start with the fault\n"); if (w.exit_code == 0) violation("the server ends with status 0 when it cannot start"); F.on = false; boot(args()); } else need_running("while starting with a failing disk"); } else { F.on = false; boot(args()); }
		F.on = false; for (auto& k : F.key) { k.second.none = true; k.second.v = F.past[k.first]; } /* an older save may count */ F.c = cl_open(); F.other = cl_open(); slow = Cl();
		for (auto& k : F.key) { size_t p = k.first.find('/'); F.get(k.first.substr(0, p), k.first.substr(p + 1), " after a restart"); }
		for (const char* t : {"t", "u", "x"}) for (const char* k : {"a", "b", "n", "q", "calm", "large"}) { str n = str(t) + "/" + k; if (F.key.count(n) || n == "x/calm" || n == "x/large") continue; Resp r = ask(F.other, rq_get(t, k), "GET"); if (r.status != 404) violation("GET /%s after a restart answers %d '%s', nothing was ever stored there", n.c_str(), r.status, show(r.body, 20).c_str()); }
		Resp r = ask(F.other, rq_get("x", "calm"), "GET"); if (r.status == 200 && r.body != "calm value") violation("/x/calm after a restart: %s", show(r.body, 20).c_str()); r = ask(F.other, rq_get("x", "large"), "GET"); if (r.status == 200 && r.body != mkval(80, 7000)) violation("/x/large after a restart: %s", show(r.body, 20).c_str());
	}
	// the fault is gone
	F.on = false; LOG("---- the fault is gone\n"); if (slow.s >= 0) { cl_close(slow.s); run(); }
	if (!endfault) { for (auto& k : F.key) { size_t p = k.first.find('/'); F.get(k.first.substr(0, p), k.first.substr(p + 1), " after the fault"); } F.health(" after the fault"); }
	for (auto& x : std::vector<std::pair<str, str>>{{"t", "a"}, {"t", "b"}, {"u", "n"}, {"u", "q"}}) { F.put(x.first, x.second, x.second == "a" ? 4500 : 60); F.get(x.first, x.second, " after the fault and a new store"); }
	if (!endfault) F.health(" after the fault and new stores"); outcome(F.sig * 16 + F.mode);
	post_signal(10); run(); settle(); if (!F.leak || set == 2) { shut(15); boot(args()); F.c = cl_open(); F.other = cl_open(); for (auto& k : F.key) { size_t p = k.first.find('/'); F.get(k.first.substr(0, p), k.first.substr(p + 1), " after the fault and a restart"); } if (!endfault) F.health(" after the fault and a restart"); }
	// and everything can be deleted
	for (const char* t : {"t", "u", "x"}) ask(F.c, rq_delt(t), "DELETE"); settle(); Stats s = stats(F.c);
	if (s.keys || s.tables || s.bytes || s.bfree != s.bexist) violation("after everything was deleted the server reports %lld keys, %lld tables, %lld bytes, %lld of %lld blocks free", (long long)s.keys, (long long)s.tables, (long long)s.bytes, (long long)s.bfree, (long long)s.bexist);
}
static Reg r21("C21", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"one failure", [=] { faults("std", th ? 4 : 3, 1, 0, 0); }});
	v.push_back({"two failures", [=] { faults("std", th ? 3 : 2, 2, 1, 0); }});
	v.push_back({"lasting conditions", [=] { faults("std", th ? 4 : 3, 0, 2, 0); }});
	v.push_back({"a save on every insert", [=] { faults("lru1", th ? 3 : 2, 1, 0, 0); }});
	v.push_back({"failures of the final save", [=] { faults("std", th ? 3 : 2, 1, 3, 1); }});
	v.push_back({"failures of the final save and the start", [=] { faults("std", th ? 2 : 1, 1, 3, 2); }});
}, {"a failed operation has no effect, a cut one half of it"});
}

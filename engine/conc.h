// Overlapping requests: scripted connections delivered fragment by fragment, and a linearizability check of the answers.
#pragma once
#include "client.h"
#include <algorithm>

enum OpKind { K_PUT, K_GET, K_HEAD, K_DEL, K_DELT, K_BULK, K_GC };
struct COp {
	OpKind kind; str t, k; str val; std::vector<str> ks; std::vector<str> frag; bool slow = false; int64_t ttl = 0;
	int id = 0;
	// run time
	int inv = -1, rsp = -1, gone = -1; bool aborted = false; bool sent_all = false; Resp r; int64_t inv_us = 0, rsp_us = 0;
	int end() const { return rsp >= 0 ? rsp : gone; }
	str name() const {
		static const char* n[] = {"PUT", "GET", "HEAD", "DELETE", "DELETE", "BULK", "GC"};
		str s = str(n[kind]) + " " + t + (k.empty() ? "" : "/" + k); if (kind == K_PUT) s += " " + itos(val.size()); if (slow) s += " slow"; return s;
	}
};
inline std::vector<str> cut(const str& s, std::vector<size_t> at) { std::vector<str> v; size_t p = 0; std::sort(at.begin(), at.end()); for (size_t a : at) { if (a > p && a < s.size()) { v.push_back(s.substr(p, a - p)); p = a; } } v.push_back(s.substr(p)); return v; }
// cuts after the request line, before the end of the headers, inside the body
inline COp c_put(const str& t, const str& k, int tag, size_t len, int parts = 3, int64_t ttl = -1) {
	COp o; o.kind = K_PUT; o.t = t; o.k = k; o.val = mkval(tag, len); str s = rq_put(t, k, o.val, ttl); size_t h = s.find("\r\n\r\n") + 4; o.ttl = ttl > 0 ? ttl : 0;
	std::vector<size_t> at; if (parts >= 4) at.push_back(s.find("\r\n") + 2); if (parts >= 2) at.push_back(h); if (parts >= 3) at.push_back(h + len / 2); if (parts >= 5) at.push_back(s.find('/') + t.size() + 2);
	o.frag = cut(s, at); return o;
}
inline COp c_line(OpKind kd, const str& t, const str& k, const str& s, int parts) { COp o; o.kind = kd; o.t = t; o.k = k; std::vector<size_t> at; if (parts >= 2) at.push_back(s.find("\r\n") + 2); if (parts >= 3) at.push_back(s.find('/') + t.size() + 1 + !k.empty()); o.frag = cut(s, at); return o; }
inline COp c_get(const str& t, const str& k, bool slow, int parts = 2) { COp o = c_line(K_GET, t, k, rq_get(t, k), parts); o.slow = slow; return o; }
inline COp c_head(const str& t, const str& k, int parts = 2) { return c_line(K_HEAD, t, k, rq_head(t, k), parts); }
inline COp c_del(const str& t, const str& k, int parts = 2) { return c_line(K_DEL, t, k, rq_del(t, k), parts); }
inline COp c_delt(const str& t, int parts = 2) { return c_line(K_DELT, t, "", rq_delt(t), parts); }
inline COp c_bulk(const str& t, std::vector<str> ks, int parts = 2) { COp o = c_line(K_BULK, t, "", rq_bulk(t, ks), parts); o.ks = ks; return o; }
inline COp c_gc() { return c_line(K_GC, "", "", rq_gc(), 1); }

struct LinOpts { bool evict = false; bool expire = false; };
typedef std::map<str, int> LState;                    // t/k -> id of the PUT operation whose value it holds
struct Lin {
	std::vector<COp*> ops; LState init; std::map<int, const COp*> vals; LinOpts opt;
	std::vector<int> phase; std::vector<std::vector<char>> prec; std::set<str> seen; uint64_t work = 0;
	static str key(const COp* o) { return o->t + "/" + o->k; }
	bool overlap(const COp* a, const COp* b) { return !(a->end() >= 0 && a->end() < b->inv) && !(b->end() >= 0 && b->end() < a->inv); }
	bool may_drop(int i) { return ops[i]->aborted && ops[i]->rsp < 0; } // an upload that is given up may leave nothing; an acknowledged one takes effect somewhere before its answer
	bool drops_other(const COp* o, const LState& s) { // an upload that overlaps one which began earlier may be dropped, even if that one is given up then
		auto it = s.find(key(o)); if (it == s.end() || it->second == o->id) return false; auto v = vals.find(it->second); return v != vals.end() && overlap(o, v->second);
	}
	bool overlapping_put(const COp* o, bool table) { for (auto* p : ops) if (p->kind == K_PUT && p != o && overlap(o, p) && (table ? p->t == o->t : key(p) == key(o))) return true; return false; }
	bool table_live(const LState& s, const str& t) { for (auto& e : s) if (e.first.compare(0, t.size() + 1, t + "/") == 0) return true; return false; }
	bool step(int i, LState& s, int& nph, int variant, bool& more) {
		// executes the next sub-operation of op i; variant enumerates nondeterminism; more=another variant exists
		COp* o = ops[i]; more = false; str kk = key(o);
		switch (o->kind) {
		case K_PUT:
			if (phase[i] == 0) { // CLEAR, or go on directly
				if (variant == 0) { more = true; s.erase(kk); nph = 1; return true; }
				nph = 1; return true;
			}
			if (variant == 0) { more = may_drop(i); if (o->aborted && o->rsp < 0 && !o->sent_all) { if (variant == 0 && drops_other(o, s)) { more = true; s.erase(kk); } nph = 2; return true; } s[kk] = o->id; nph = 2; return true; }
			nph = 2; return true;
		case K_GET: case K_HEAD: {
			nph = 2; if (o->rsp < 0) return true;
			auto it = s.find(kk);
			if (o->r.status == 404) { if (it == s.end() || opt.evict) return true; if (opt.expire && vals[it->second]->ttl && o->rsp_us / 1000000 > vals[it->second]->inv_us / 1000000 + vals[it->second]->ttl) return true; return false; }
			if (o->r.status != 200 || it == s.end()) return false;
			const COp* v = vals[it->second];
			if (opt.expire && v->ttl && o->inv_us / 1000000 > v->rsp_us / 1000000 + v->ttl) return false;
			if (o->r.num("content-length") != (int64_t)v->val.size()) return false;
			return o->kind == K_HEAD || o->r.body == v->val; }
		case K_DEL: {
			nph = 2; auto it = s.find(kk); if (o->rsp < 0) { if (variant == 0) { more = true; s.erase(kk); } return true; }
			if (o->r.status == 200) { if (it == s.end() && !overlapping_put(o, false) && !opt.evict && !opt.expire) return false; if (it == s.end() && (opt.evict || opt.expire)) return false; s.erase(kk); return true; }
			return it == s.end() || opt.evict || opt.expire; }
		case K_DELT: {
			nph = 2; if (o->rsp < 0) { if (variant == 0) { more = true; for (auto e = s.begin(); e != s.end();) if (e->first.compare(0, o->t.size() + 1, o->t + "/") == 0) e = s.erase(e); else ++e; } return true; }
			bool live = table_live(s, o->t);
			if (o->r.status == 404) return !live || opt.evict || opt.expire;
			if (!live && !overlapping_put(o, true)) return false;
			for (auto e = s.begin(); e != s.end();) if (e->first.compare(0, o->t.size() + 1, o->t + "/") == 0) e = s.erase(e); else ++e;
			return true; }
		case K_BULK: {
			size_t n = phase[i]; if (n < o->ks.size()) { if (variant == 0) { s.erase(o->t + "/" + o->ks[n]); more = o->rsp < 0; } nph = (int)n + 1; if (nph == (int)o->ks.size()) nph = 2 > nph ? 2 : nph; return true; }
			nph = 2; return true; }
		case K_GC: nph = 2; return true;
		}
		return false;
	}
	int done_phase(int i) { return ops[i]->kind == K_BULK ? std::max<int>(2, (int)ops[i]->ks.size()) : 2; }
	bool rec(const LState& s) {
		if (++work > 2000000) harness_error("linearizability search too large");
		bool all = true; for (size_t i = 0; i < ops.size(); i++) if (phase[i] < done_phase((int)i)) all = false;
		if (all) return true;
		str sig; for (int p : phase) sig += (char)('0' + p); for (auto& e : s) sig += e.first + "=" + itos(e.second) + ";";
		if (!seen.insert(sig).second) return false;
		for (size_t i = 0; i < ops.size(); i++) {
			if (phase[i] >= done_phase((int)i)) continue;
			bool ok = true; for (size_t j = 0; j < ops.size(); j++) if (phase[j] < done_phase((int)j) && ops[j]->end() >= 0 && ops[j]->end() < ops[i]->inv) ok = false;
			if (!ok) continue;
			for (int v = 0;; v++) {
				LState s2 = s; int nph = 0; bool more = false; int old = phase[i];
				bool good = step((int)i, s2, nph, v, more);
				if (good) { phase[i] = nph; if (rec(s2)) return true; phase[i] = old; }
				if (!more) break;
			}
		}
		return false;
	}
	bool check() { phase.assign(ops.size(), 0); seen.clear(); for (auto* o : ops) if (o->kind == K_PUT) vals[o->id] = o; return rec(init); }
};
inline str describe(std::vector<COp*>& ops) { str s; for (auto* o : ops) { s += o->name() + " ["; s += itos(o->inv) + ","; s += o->gone >= 0 ? "given up " + itos(o->gone) : o->rsp < 0 ? str("-") : itos(o->rsp); s += "]"; if (o->rsp >= 0) { s += " " + itos(o->r.status); if (o->kind == K_GET && o->r.status == 200) s += " '" + show(o->r.body, 6) + "'"; } s += "; "; } return s; }

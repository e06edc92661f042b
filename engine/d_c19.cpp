// C19: the circular read buffer against a plain byte queue, every state and every argument.
#include "mc.h"
#include <algorithm>
#include <stdlib.h>
#include <string.h>
extern uint64_t g_transitions;
namespace {
typedef struct read_buffer RB;
#define FNS(X) X(int, pb_size, ()) X(size_t, pb_structsize, ()) X(void, pb_init, (RB*)) X(void, pb_set, (RB*, unsigned, unsigned)) X(unsigned, pb_rpos, (RB*)) X(unsigned, pb_wpos, (RB*)) X(char*, pb_storage, (RB*)) \
	X(int, pb_copyn, (RB*, char*, int)) X(int, pb_cmpn, (RB*, const char*, int)) X(bool, pb_strntol, (RB*, int*, int)) X(int, pb_rremain, (RB*)) X(int, pb_rtoend, (RB*)) X(int, pb_rcont, (RB*)) X(int, pb_wremain, (RB*)) X(int, pb_wtoend, (RB*)) \
	X(char*, pb_rptr, (RB*)) X(char*, pb_wptr, (RB*)) X(char*, pb_rptr2, (RB*)) X(char*, pb_wptr2, (RB*)) X(void, pb_rmove, (RB*, int)) X(void, pb_wmove, (RB*, int)) X(int, pb_rlen, (RB*)) X(int, pb_wlen, (RB*)) X(int, pb_empty, (RB*)) X(int, pb_iterate, (RB*, char*, int, int*))
#define DECL(r, n, a) static r (*n) a;
FNS(DECL)
static int SZ; static RB* b; static char* tmp; static char* pat;   // pat: a copy of the storage
static void setup(const char* v) {
	use_variant(v); world_reset_fs(); mem_pristine();
#define LOAD(r, n, a) n = (r (*) a) sut_sym(#n); if (!n) harness_error("the buffer probe is not part of the build");
	FNS(LOAD)
	SZ = pb_size(); b = (RB*)ar_alloc(pb_structsize(), nullptr); tmp = (char*)ar_alloc(SZ, nullptr); pat = (char*)malloc(SZ); pb_init(b);
	if (pb_rpos(b) != 0 || pb_wpos(b) != 0) violation("a new buffer is not empty");
	char* s = pb_storage(b); for (int i = 0; i < SZ; i++) s[i] = (char)(i * 7 + i / 251 * 3 + 1); memcpy(pat, s, SZ);
}
static char at(unsigned r, int i) { return pat[(r + i) & (SZ - 1)]; }
#define CHECK(c, ...) do { if (!(c)) violation(__VA_ARGS__); } while (0)
static void unchanged(unsigned r, unsigned len, const char* what) {
	CHECK(pb_rpos(b) == (r & 65535) && pb_wpos(b) == ((r + len) & 65535), "%s moves the buffer's positions (read position %u, %u bytes)", what, r, len);
}
static void content(unsigned r, unsigned len, const char* what) { CHECK(!memcmp(pb_storage(b), pat, SZ), "%s changes the buffer's contents (read position %u, %u bytes)", what, r, len); }
static void sizes(unsigned r, int len) {
	pb_set(b, r, len); g_transitions += 9; int off = r & (SZ - 1), woff = (r + len) & (SZ - 1), run = std::min(len, SZ - off), wrun = std::min(SZ - len, SZ - woff);
	CHECK(pb_rremain(b) == len && pb_rlen(b) == len, "the buffer reports %d/%d bytes to read, there are %d (read position %u)", pb_rremain(b), pb_rlen(b), len, r);
	CHECK(pb_wremain(b) == SZ - len && pb_wlen(b) == SZ - len, "the buffer reports %d/%d bytes of room, there are %d (read position %u, %d bytes)", pb_wremain(b), pb_wlen(b), SZ - len, r, len);
	CHECK(pb_rcont(b) == run, "the buffer reports %d contiguous bytes, there are %d (read position %u, %d bytes)", pb_rcont(b), run, r, len);
	int te = pb_rtoend(b); CHECK(te == run || (len == SZ && te == SZ), "the buffer reports %d bytes to its end, there are %d (read position %u, %d bytes)", te, run, r, len);   // a full buffer: all bytes (tests_rbuffer.cpp)
	CHECK(pb_wtoend(b) == wrun, "the buffer reports %d contiguous bytes of room, there are %d (read position %u, %d bytes)", pb_wtoend(b), wrun, r, len);
	CHECK((pb_empty(b) != 0) == (len == 0), "the buffer is empty: %d, it holds %d bytes (read position %u)", pb_empty(b), len, r);
	CHECK(pb_rptr(b) == pb_storage(b) + off && pb_rptr2(b) == pb_storage(b) + off, "wrong read pointer (read position %u)", r);
	CHECK(pb_wptr(b) == pb_storage(b) + woff && pb_wptr2(b) == pb_storage(b) + woff, "wrong write pointer (read position %u, %d bytes)", r, len);
	unchanged(r, len, "a size question");
}
static void copy_cmp(unsigned r, int len, int n) {
	pb_set(b, r, len); g_transitions += 2; memset(tmp, 0x5e, SZ); int want = std::min(n, len); int got = pb_copyn(b, tmp, n);
	CHECK(got == want, "copying %d bytes of %d returns %d (read position %u)", n, len, got, r);
	for (int i = 0; i < SZ; i++) CHECK(tmp[i] == (i < want ? at(r, i) : 0x5e), "copying %d bytes of %d: byte %d is wrong (read position %u)", n, len, i, r);
	int c = pb_cmpn(b, tmp, n); if (n <= len) CHECK(c == 0, "comparing %d equal bytes of %d says they differ (read position %u)", n, len, r); else CHECK(c != 0, "comparing %d bytes says they are equal, there are only %d (read position %u)", n, len, r);
}
static void cmp_diff(unsigned r, int len, int n, int d) { // one byte differs
	pb_set(b, r, len); g_transitions++; for (int i = 0; i < n; i++) tmp[i] = at(r, i); tmp[d] ^= 1; CHECK(pb_cmpn(b, tmp, n) != 0, "comparing %d bytes misses a difference at byte %d (read position %u, %d bytes)", n, d, r, len);
}
static void iterate(unsigned r, int len, int stop) {
	pb_set(b, r, len); g_transitions++; int steps = -1; int ret = pb_iterate(b, tmp, stop ? stop : SZ + 5, &steps); int want = stop ? std::min(stop, len) : len;
	CHECK(steps == want, "iterating over %d bytes makes %d steps instead of %d (read position %u)", len, steps, want, r);
	for (int i = 0; i < want; i++) CHECK(tmp[i] == at(r, i), "iterating over %d bytes: byte %d is wrong (read position %u)", len, i, r);
	CHECK(ret == (stop && stop <= len ? 7 : 1), "iterating over %d bytes until %d ends with %d (read position %u)", len, stop, ret, r);
	unchanged(r, len, "iterating");
}
static void moves(unsigned r, int len) {
	for (int n : {0, 1, len / 2, len}) if (n <= len) { pb_set(b, r, len); pb_rmove(b, n); CHECK(pb_rremain(b) == len - n && pb_rptr(b) == pb_storage(b) + ((r + n) & (SZ - 1)), "taking %d bytes of %d (read position %u)", n, len, r); }
	for (int n : {0, 1, (SZ - len) / 2, SZ - len}) if (n <= SZ - len) { pb_set(b, r, len); pb_wmove(b, n); CHECK(pb_rremain(b) == len + n && pb_wptr(b) == pb_storage(b) + ((r + len + n) & (SZ - 1)), "adding %d bytes to %d (read position %u)", n, len, r); }
	g_transitions += 8;
}
static const char* NUMS[] = {"", "0", "7", "00", "42", "007", "12345", "99999", "2147483647", "2147483648", "2147483646", "2147483650", "4294967295", "4294967296", "9999999999", "02147483647", "99999999999999999999", "1000000000", "3000000000", "-1", "+1", " 1", "1 ", "a", "1a2", "/", ":", "1/", "1:", "\xb1", "12\r", "18446744073709551617"};
static bool ref_num(const char* s, int n, int& o) { long long v = 0; if (!n) { o = 0; return true; } for (int i = 0; i < n; i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > 2147483647ll) return false; } o = (int)v; return true; }
static void numbers(unsigned r) {
	char* st = pb_storage(b);
	for (const char* s : NUMS) { int n = (int)strlen(s); for (const char* tail : {"", "5", "\r\n", "x"}) { int tl = (int)strlen(tail), len = n + tl; if (len > SZ) continue;
		for (int i = 0; i < n; i++) st[(r + i) & (SZ - 1)] = s[i]; for (int i = 0; i < tl; i++) st[(r + n + i) & (SZ - 1)] = tail[i]; st[(r + len) & (SZ - 1)] = '3';
		std::string all = std::string(s) + tail;
		for (int max = -1; max <= len + 1; max++) { pb_set(b, r, len); for (int i = 0; i < len; i++) st[(r + i) & (SZ - 1)] = all[i]; g_transitions++; int out = 12321, ref = 0; int take = max == -1 || max > len ? len : max; bool ok = pb_strntol(b, &out, max), want = ref_num(all.c_str(), take, ref);
			if (!take) { if (ok) CHECK(out == 0, "an empty number is read as %d", out); continue; }
			CHECK(ok == want, "the number '%s' (%d of %d bytes, limit %d, read position %u) is %s", all.c_str(), take, len, max, r, ok ? "accepted" : "refused");
			if (want) CHECK(out == ref, "the number '%s' (%d of %d bytes, limit %d, read position %u) is read as %d", all.c_str(), take, len, max, r, out);
			unchanged(r, len, "reading a number"); } } }
	memcpy(st, pat, SZ);
}
static std::vector<int> cuts(int len, int off) { std::vector<int> v; int e = SZ - off; for (int x : {0, 1, 2, len / 2, len - 1, len, len + 1, e - 1, e, e + 1, SZ - 1, SZ}) if (x >= 0 && x <= SZ) v.push_back(x); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static void all_states(const char* variant, bool everyarg, bool allpos) {
	setup(variant); int off = choose(SZ, "offset"); int nb = 65536 / SZ; std::vector<unsigned> bases; if (allpos) bases.push_back(choose(nb, "round") * SZ); else { static const int pick[] = {0, 1, 2, 3}; int k = choose(4, "round"); int at[4] = {0, nb / 2 - 1, nb / 2, nb - 1}; bases.push_back(at[pick[k]] * SZ); }
	for (unsigned base : bases) { unsigned r = base + off;
		for (int len = 0; len <= SZ; len++) { sizes(r, len); moves(r, len);
			if (everyarg) { for (int n = 0; n <= SZ; n++) copy_cmp(r, len, n); } else for (int n : cuts(len, off)) copy_cmp(r, len, n);
			for (int n : cuts(len, off)) if (n && n <= len) for (int d : {0, n / 2, n - 1, SZ - off - 1, SZ - off}) if (d >= 0 && d < n) cmp_diff(r, len, n, d);
			iterate(r, len, 0); for (int s : {1, len / 2, SZ - off, SZ - off + 1, len}) if (s > 0) iterate(r, len, s); }
		content(r, SZ, "reading"); numbers(r); }
	free(pat); outcome(off * 131 + bases[0]);
}
static void large(bool th) { // the real size, boundaries only
	setup("std"); std::vector<int> offs = {0, 1, 2, 7, SZ / 2 - 1, SZ / 2, SZ - 12, SZ - 2, SZ - 1, 200, 1000}; if (th) for (int i = 3; i < SZ; i += 997) offs.push_back(i);
	int off = offs[choose((int)offs.size(), "offset")]; unsigned r = choose(65536 / SZ, "round") * SZ + off; std::vector<int> lens; for (int x : {0, 1, 2, 10, SZ - off - 1, SZ - off, SZ - off + 1, SZ / 2, SZ - 200, SZ - 1, SZ, off}) if (x >= 0 && x <= SZ) lens.push_back(x);
	for (int len : lens) { sizes(r, len); moves(r, len); for (int n : cuts(len, off)) { copy_cmp(r, len, n); for (int d : {0, n / 2, n - 1}) if (n && n <= len) cmp_diff(r, len, n, d); } for (int s : {0, 1, SZ - off, len}) iterate(r, len, s); }
	content(r, SZ, "reading"); numbers(r); free(pat); outcome(r);
}
static void sequences(const char* variant, int depth) { // writing and reading in every order, against a queue
	setup(variant); free(pat); static const unsigned starts[] = {0, 5, 250, 65530, 65300}; unsigned r0 = starts[choose(5, "start")]; pb_set(b, r0, 0); std::deque<char> q; int cnt = 0;
	std::vector<int> ks = {1, 3, 127, SZ - 1, SZ};
	for (int i = 0; i < depth; i++) {
		int o = choose((int)ks.size() * 2 + 1, "operation"); g_transitions++;
		if (o < (int)ks.size()) { int k = ks[o]; while (k > 0) { int n = std::min(k, pb_wtoend(b)); if (n <= 0) break; if (n > SZ - (int)q.size()) violation("room for %d bytes announced, only %d are free", n, SZ - (int)q.size()); char* p = pb_wptr(b); for (int j = 0; j < n; j++) { p[j] = (char)++cnt; q.push_back((char)cnt); } pb_wmove(b, n); k -= n; } if (k > 0 && (int)q.size() != SZ) violation("no room announced with %zu of %d bytes used", q.size(), SZ); }
		else if (o < (int)ks.size() * 2) { int k = ks[o - ks.size()]; int g = pb_copyn(b, tmp, k); int want = std::min<int>(k, (int)q.size()); if (g != want) violation("copying %d of %zu bytes returns %d", k, q.size(), g); for (int j = 0; j < g; j++) { if (tmp[j] != q.front()) violation("byte %d of %d read back is wrong", j, g); q.pop_front(); } pb_rmove(b, g); }
		else { int st = -1; pb_iterate(b, tmp, SZ + 5, &st); if (st != (int)q.size()) violation("iterating over %zu bytes makes %d steps", q.size(), st); for (int j = 0; j < st; j++) if (tmp[j] != q[j]) violation("iterating: byte %d is wrong", j); }
		if (pb_rremain(b) != (int)q.size()) violation("the buffer reports %d bytes, there are %zu", pb_rremain(b), q.size());
	}
	outcome(r0 * 1000003ull + pb_rpos(b) * 65536ull + pb_wpos(b));
}
static Reg r19("C19", [](std::vector<Scenario>& v, bool th) {
	v.push_back({"every offset, length and argument, capacity 256", [=] { all_states("b256", true, th); }});
	v.push_back({"boundaries of the real capacity", [=] { large(th); }});
	v.push_back({"writing and reading in every order", [=] { sequences("b256", th ? 6 : 5); }});
	v.push_back({"writing and reading in every order, real capacity", [=] { sequences("std", th ? 5 : 4); }});
}, {"buffers of other capacities behave like those of 256 and 16384 bytes"});
}

// Explorer: stateless depth-first enumeration of every choice sequence, in parallel workers.
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sanitizer/asan_interface.h>
#include <algorithm>

extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:symbolize=0:abort_on_error=0:exitcode=77:handle_segv=1:handle_abort=1:handle_sigfpe=1:allow_user_segv_handler=0:log_path=/dev/null:detect_odr_violation=0:use_sigaltstack=1:verify_asan_link_order=0:intercept_tls_get_addr=0:quarantine_size_mb=0:thread_local_quarantine_size_kb=0:malloc_context_size=1:max_malloc_fill_size=0:max_free_fill_size=0:fast_unwind_on_malloc=1"; }
extern uint64_t g_transitions;
void reset_exec();
bool g_nochoose = false;
bool g_thorough = false;
std::vector<Property>& properties() { static std::vector<Property> p; return p; }

static const int MAXD = 3000, QN = 512, MAXW = 64, NOUT = 1 << 20, MAXV = 64;
struct Lv { uint16_t cur, hi, n; uint16_t lab; };
struct Item { int len; Lv lv[MAXD]; };
struct Slot { int len, base; Lv lv[MAXD]; volatile int viol; char msg[1500]; uint64_t execs, nodes, trans; int active; int depth; };
struct Viol { int len; Lv lv[MAXD]; char msg[1500]; };
struct Shared {
	volatile int lock; volatile int stop, capped; volatile int qn; volatile int busy; volatile int nviol; volatile int harness; char hmsg[600];
	volatile uint64_t execs, nodes, trans, outs, maxdepth; volatile uint64_t scen[512];
	Item q[QN]; Slot slot[MAXW]; Viol v[MAXV]; uint64_t outcome[NOUT];
	int nsample; struct { int len; Lv lv[MAXD]; } sample[8];
};
static Shared* S; static int me = -1;
static void lock() { while (__sync_lock_test_and_set(&S->lock, 1)) { while (S->lock) usleep(20); } }
static void unlock() { __sync_lock_release(&S->lock); }

static std::vector<Lv> stk; static size_t depth; static size_t base_; static bool viol_now; static char viol_msg[1500];
static std::vector<Scenario> scens; static const Property* prop; static int cur_sc = -1;
static bool replaying = false;
static volatile int ticks;
const str& cur_scenario() { return scens[cur_sc].name; }

void harness_error(const char* f, ...) {
	char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	fprintf(stderr, "HARNESS: %s\n", b);
	if (S) { S->harness = 1; strcpy(S->hmsg, b); S->stop = 1; }
	_exit(3);
}
static FILE* logfile = nullptr;
void logf_(const char* f, ...) { va_list ap; va_start(ap, f); vfprintf(logfile ? logfile : stdout, f, ap); va_end(ap); }
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) { const uint8_t* q = (const uint8_t*)p; while (n--) { h ^= *q++; h *= 1099511628211ull; } return h; }
static uint16_t labhash(const char* s) { uint32_t h = 5381; while (*s) h = h * 33 + (uint8_t)*s++; return (uint16_t)(h ^ (h >> 16)); }

int choose(int n, const char* label) {
	if (g_nochoose) harness_error("choice %s in a fixed prologue", label);
	if (n <= 0 || n > 65000) harness_error("bad choice %s %d", label, n);
	uint16_t lab = labhash(label);
	if (depth < stk.size()) {
		Lv& l = stk[depth];
		if (l.n == 0) { l.n = n; l.lab = lab; if (l.hi > n) l.hi = n; }
		if (l.n != n || l.lab != lab) harness_error("divergence at depth %zu: %s/%d, recorded n=%d", depth, label, n, l.n);
		depth++;
		if (g_verbose && n > 1 && depth > 1) LOG("      . %s = %d of %d\n", label, l.cur, n);
		return l.cur;
	}
	if (depth >= (size_t)MAXD) harness_error("too many choices in one execution");
	if (replaying) { if (g_verbose && n > 1) LOG("      . %s = 0 of %d (beyond the trace)\n", label, n); }
	stk.push_back({0, (uint16_t)n, (uint16_t)n, lab}); depth++;
	return 0;
}
void outcome(uint64_t h) {
	if (replaying) return; if (!h) h = 1;
	for (uint64_t i = h % NOUT, k = 0; k < 64; k++, i = (i + 1) % NOUT) {
		uint64_t o = S->outcome[i]; if (o == h) return;
		if (!o) { if (__sync_bool_compare_and_swap(&S->outcome[i], 0, h)) { __sync_fetch_and_add(&S->outs, 1); return; } k--; i = (i + NOUT - 1) % NOUT; }
	}
}
void record_violation(const char* m, bool) {
	if (viol_now) return;
	viol_now = true; snprintf(viol_msg, sizeof viol_msg, "[%s] %s", cur_sc >= 0 ? scens[cur_sc].name.c_str() : "?", m);
	LOG("!!! VIOLATION: %s\n", viol_msg);
}
static void die_with(const char* m) {
	record_violation(m, true);
	if (replaying) { fflush(nullptr); FILE* f = logfile ? logfile : stdout; fflush(f); if (S) { Slot& s = S->slot[MAXW - 1]; strcpy(s.msg, viol_msg); s.viol = 1; } _exit(77); }
	Slot& s = S->slot[me]; s.len = (int)stk.size(); for (int i = 0; i < s.len; i++) s.lv[i] = stk[i];
	for (size_t i = depth; i < stk.size(); i++) {}
	strcpy(s.msg, viol_msg); s.base = (int)base_; s.viol = 1; _exit(77);
}
extern "C" void __asan_on_error() {
	static bool in = false; if (in) _exit(78); in = true;
	char b[600]; void* pc = __asan_get_report_pc(); const char* d = __asan_get_report_description(); Dl_info di = {}; const char* fn = "?";
	if (pc && dladdr(pc, &di) && di.dli_sname) fn = di.dli_sname;
	char sym[200] = "";
	if (pc && di.dli_fname && di.dli_fbase && (!di.dli_sname)) { // static function: ask addr2line
		char cmd[700]; snprintf(cmd, sizeof cmd, "addr2line -f -C -e %s %#lx 2>/dev/null", di.dli_fname, (unsigned long)((char*)pc - (char*)di.dli_fbase));
		if (FILE* p = popen(cmd, "r")) { if (fgets(sym, sizeof sym, p)) { sym[strcspn(sym, "(\n")] = 0; fn = sym; } pclose(p); } }
	snprintf(b, sizeof b, "memory error: %s in %s", d && *d ? d : "invalid access", fn);
	die_with(b);
}
static void on_tick(int) { static uint64_t last; if (last != g_transitions) { last = g_transitions; ticks = 0; } if (++ticks > 12) die_with("the server spins without making a system call"); }

static bool one_exec() {          // true: ran to completion
	depth = 0; viol_now = false; cur_sc = -1; ticks = 0; reset_exec();
	try {
		cur_sc = choose((int)scens.size(), "scenario");
		scens[cur_sc].run();
	} catch (ExecAbort&) {}
	if (!viol_now && depth != stk.size()) harness_error("execution ended after %zu of %zu choices", depth, stk.size());
	while (stk.size() > depth) stk.pop_back();
	return true;
}
static std::vector<std::pair<str, str>> known;      // match, what
static int known_match(const char* m) { for (size_t i = 0; i < known.size(); i++) if (strstr(m, known[i].first.c_str())) return (int)i; return -1; }
static void add_viol(const char* m, const Lv* lv, int len) {
	lock();
	bool dup = false; int k = known_match(m);
	for (int i = 0; i < S->nviol; i++) if (k >= 0 ? known_match(S->v[i].msg) == k : !strcmp(S->v[i].msg, m)) dup = true;
	if (!dup && S->nviol < MAXV) { Viol& v = S->v[S->nviol]; v.len = len; memcpy(v.lv, lv, len * sizeof(Lv)); snprintf(v.msg, sizeof v.msg, "%s", m); S->nviol++; }
	if (k < 0) S->stop = 1;
	unlock();
}
static bool keepgoing = false;
static bool advance_stack() { while (stk.size() > base_ && stk.back().cur + 1 >= stk.back().hi) stk.pop_back(); if (stk.size() <= base_) return false; stk.back().cur++; return true; }

static void worker(bool resume) {
	signal(SIGVTALRM, on_tick);
	struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
	Slot& sl = S->slot[me];
	bool have = false;
	if (resume) { stk.assign(sl.lv, sl.lv + sl.len); base_ = sl.base; have = advance_stack(); if (!have) { lock(); S->busy--; unlock(); } }
	for (;;) {
		if (!have) {
			sl.active = 0; bool done = false;
			for (;;) {
				if (S->stop) { done = true; break; }
				lock();
				if (S->qn > 0) { Item& q = S->q[--S->qn]; stk.assign(q.lv, q.lv + q.len); base_ = q.len - 1; S->busy++; unlock(); have = true; break; }
				if (S->busy == 0) { unlock(); done = true; break; }
				unlock(); usleep(200);
			}
			if (done) break;
			sl.active = 1;
		}
		size_t before = stk.size(); uint64_t t0 = g_transitions;
		one_exec();
		if (viol_now) add_viol(viol_msg, stk.data(), (int)stk.size());
		if (keepgoing && viol_now) S->stop = 0;
		__sync_fetch_and_add(&S->execs, 1);
		__sync_fetch_and_add(&S->nodes, (stk.size() >= before ? stk.size() - before : 0) + 1);
		__sync_fetch_and_add(&S->trans, g_transitions - t0);
		if (cur_sc >= 0 && cur_sc < 512) { uint64_t c = __sync_fetch_and_add(&S->scen[cur_sc], 1);
			if (!viol_now && c == 40 && S->nsample < 8 && stk.size() < MAXD) { lock(); if (S->nsample < 8) { auto& sm = S->sample[S->nsample++]; sm.len = (int)stk.size(); memcpy(sm.lv, stk.data(), sm.len * sizeof(Lv)); } unlock(); } }
		if (stk.size() > S->maxdepth) S->maxdepth = stk.size();
		if (S->stop) { lock(); S->busy--; unlock(); break; }
		if (!advance_stack()) { have = false; lock(); S->busy--; unlock(); continue; }
		if (S->qn < 8) {
			lock();
			for (int rep = 0; rep < 4 && S->qn < QN; rep++) {
				size_t i = base_; while (i < stk.size() && stk[i].cur + 1 >= stk[i].hi) i++;
				if (i >= stk.size()) break;
				int mid = stk[i].cur + 1 + (stk[i].hi - stk[i].cur - 1) / 2; if (mid <= stk[i].cur) mid = stk[i].cur + 1;
				Item& q = S->q[S->qn++]; q.len = (int)i + 1; memcpy(q.lv, stk.data(), q.len * sizeof(Lv));
				q.lv[i].cur = mid; q.lv[i].hi = stk[i].hi; stk[i].hi = mid;
				for (size_t k = 0; k < i; k++) {}
			}
			unlock();
		}
		sl.len = (int)stk.size(); memcpy(sl.lv, stk.data(), sl.len * sizeof(Lv)); sl.base = (int)base_;
	}
	_exit(0);
}
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static str jesc(const str& s) { str r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
// replays a trace in a fresh process; returns violation message or ""
static str replay_trace(const Lv* lv, int len, const char* logpath, bool verbose) {
	S->slot[MAXW - 1].viol = 0;
	fflush(nullptr);
	pid_t p = fork();
	if (!p) {
		signal(SIGVTALRM, on_tick); struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
		replaying = true; g_verbose = verbose; if (logpath) logfile = fopen(logpath, "w"); if (logfile) setvbuf(logfile, nullptr, _IOLBF, 0);
		stk.assign(lv, lv + len); for (auto& l : stk) l.n = 0, l.hi = 65535;
		depth = 0; viol_now = false; reset_exec();
		try { cur_sc = choose((int)scens.size(), "scenario"); LOG("scenario: %s\n", scens[cur_sc].name.c_str()); scens[cur_sc].run(); } catch (ExecAbort&) {}
		if (viol_now) { strcpy(S->slot[MAXW - 1].msg, viol_msg); S->slot[MAXW - 1].viol = 1; }
		if (logfile) fclose(logfile); fflush(nullptr); _exit(0);
	}
	int st; waitpid(p, &st, 0);
	return S->slot[MAXW - 1].viol ? S->slot[MAXW - 1].msg : "";
}

int main(int argc, char** argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	str id, tier = "quick", out, knownf, rdir = ".", bdir = ".", replay; double budget = 300; int jobs = 8; str only; bool list = false;
	for (int i = 1; i < argc; i++) {
		str a = argv[i]; auto nx = [&]() { return str(argv[++i]); };
		if (a == "--prop") id = nx(); else if (a == "--tier") tier = nx(); else if (a == "--out") out = nx(); else if (a == "--known") knownf = nx();
		else if (a == "--replaydir") rdir = nx(); else if (a == "--build") bdir = nx(); else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--jobs") jobs = atoi(argv[++i]);
		else if (a == "--replay") replay = nx(); else if (a == "--only") only = nx(); else if (a == "--list") list = true; else if (a == "--keep") keepgoing = true; else if (a == "-v") g_verbose = true;
	}
	std::vector<Lv> rtrace;
	if (!replay.empty()) {
		FILE* f = fopen(replay.c_str(), "r"); if (!f) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
		char line[65536]; while (fgets(line, sizeof line, f)) {
			char a[200]; if (sscanf(line, "property %100s", a) == 1) id = a; else if (sscanf(line, "tier %100s", a) == 1) tier = a; else if (!strncmp(line, "only ", 5)) { only = line + 5; while (!only.empty() && only.back() == '\n') only.pop_back(); }
			else if (!strncmp(line, "trace", 5)) { char* p = line + 5; while (*p) { char* e; long v = strtol(p, &e, 10); if (e == p) break; rtrace.push_back({(uint16_t)v, 65535, 0, 0}); p = e; } } }
		fclose(f);
	}
	for (auto& p : properties()) if (id == p.id) prop = &p;
	if (!prop) { fprintf(stderr, "no property %s\n", id.c_str()); return 2; }
	g_thorough = tier == "thorough";
	prop->build(scens, g_thorough);
	if (!only.empty()) { std::vector<Scenario> k; for (auto& s : scens) if (s.name.find(only) != str::npos) k.push_back(s); scens = k; }
	if (list) { for (auto& s : scens) printf("%s\n", s.name.c_str()); return 0; }
	if (scens.empty()) { fprintf(stderr, "no scenarios\n"); return 2; }
	S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sim_init(bdir);
	if (!replay.empty()) { g_verbose = true; str m = replay_trace(rtrace.data(), (int)rtrace.size(), nullptr, true); printf("%s\n", m.empty() ? "no violation" : m.c_str()); return m.empty() ? 0 : 1; }
	if (!knownf.empty()) { FILE* f = fopen(knownf.c_str(), "r"); char line[4000]; if (f) { while (fgets(line, sizeof line, f)) { // finding: property=ID match="..." what="..."
		char* p = strstr(line, "property="); if (strncmp(line, "finding:", 8) || !p) continue; if (strncmp(p + 9, id.c_str(), id.size()) || p[9 + id.size()] != ' ') continue;
		char* m = strstr(line, "match=\""); char* wh = strstr(line, "what=\""); if (!m || !wh) continue; m += 7; char* me_ = strchr(m, '"'); wh += 6; char* we = strchr(wh, '"'); if (!me_ || !we) continue;
		known.push_back({str(m, me_ - m), str(wh, we - wh)}); } fclose(f); } }
	double t0 = now_s();
	Item& q = S->q[0]; q.len = 1; q.lv[0] = {0, (uint16_t)scens.size(), 0, 0}; q.lv[0].hi = (uint16_t)scens.size(); S->qn = 1;
	std::vector<pid_t> pid(jobs);
	auto spawn = [&](int i, bool resume) { fflush(nullptr); pid_t p = fork(); if (!p) { me = i; worker(resume); } pid[i] = p; };
	for (int i = 0; i < jobs; i++) spawn(i, false);
	int alive = jobs; double lastp = t0;
	while (alive) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			int i = 0; while (i < jobs && pid[i] != p) i++;
			if (i == jobs) continue;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
			if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && S->slot[i].viol) {
				S->slot[i].viol = 0; add_viol(S->slot[i].msg, S->slot[i].lv, S->slot[i].len);
				if (keepgoing) S->stop = 0;
				__sync_fetch_and_add(&S->execs, 1);
				if (S->stop) { lock(); S->busy--; unlock(); alive--; } else spawn(i, true);
				continue;
			}
			if (!S->harness) { S->harness = 1; snprintf(S->hmsg, sizeof S->hmsg, "worker died, status %x", st); }
			S->stop = 1; lock(); S->busy--; unlock(); alive--; continue;
		}
		if (now_s() - t0 > budget && !S->stop) { S->capped = 1; S->stop = 1; }
		if (getenv("MC_PROGRESS") && now_s() - lastp > 5) { lastp = now_s(); fprintf(stderr, "  %.0fs execs %llu nodes %llu q %d busy %d viol %d\n", lastp - t0, (unsigned long long)S->execs, (unsigned long long)S->nodes, S->qn, S->busy, S->nviol); }
		usleep(2000);
	}
	double wall = now_s() - t0;
	if (S->harness) { fprintf(stderr, "harness failure: %s\n", S->hmsg); return 2; }
	int bad = 0, nknown = 0; std::vector<str> vmsgs;
	std::vector<bool> kseen(known.size(), false);
	for (int i = 0; i < S->nviol; i++) {
		Viol& v = S->v[i]; int k = known_match(v.msg);
		str m = replay_trace(v.lv, v.len, nullptr, false);
		if (m.empty()) { fprintf(stderr, "violation did not replay: %s\n", v.msg); return 2; }
		if (k >= 0) { kseen[k] = true; nknown++; printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), known[k].second.c_str()); continue; }
		char path[600]; snprintf(path, sizeof path, "%s/%s-%d.trace", rdir.c_str(), id.c_str(), bad);
		char lp[700]; snprintf(lp, sizeof lp, "%s.log", path);
		FILE* f = fopen(path, "w"); if (f) { fprintf(f, "property %s\ntier %s\n", id.c_str(), tier.c_str()); if (!only.empty()) fprintf(f, "only %s\n", only.c_str()); fprintf(f, "trace"); for (int j = 0; j < v.len; j++) fprintf(f, " %d", v.lv[j].cur); fprintf(f, "\n# %s\n", v.msg); fclose(f); }
		replay_trace(v.lv, v.len, lp, true);
		printf("%s\nVIOLATION property=%s replay=%s\n", v.msg, id.c_str(), path);
		vmsgs.push_back(v.msg); bad++;
	}
	str samples;
	for (int i = 0; i < S->nsample && i < 3; i++) {
		str lp = rdir + "/" + id + ".sample"; replay_trace(S->sample[i].lv, S->sample[i].len, lp.c_str(), true);
		FILE* f = fopen(lp.c_str(), "r"); str t; char b[1200]; int n = 0; if (f) { while (n < 60 && fgets(b, sizeof b, f)) { t += b; n++; } fclose(f); unlink(lp.c_str()); }
		if (!samples.empty()) samples += ","; samples += "\"" + jesc(t) + "\"";
	}
	if (samples.empty()) { // small explorations: describe the first execution
		Lv l = {0, 1, 0, 0}; str lp = rdir + "/" + id + ".sample"; replay_trace(&l, 1, lp.c_str(), true); FILE* f = fopen(lp.c_str(), "r"); str t; char b[1200]; int n = 0; if (f) { while (n < 60 && fgets(b, sizeof b, f)) { t += b; n++; } fclose(f); unlink(lp.c_str()); } samples = "\"" + jesc(t) + "\"";
	}
	printf("%s %s: %llu executions, %llu states, %llu transitions, %llu distinct outcomes, max depth %llu, %s, %.1f s\n", id.c_str(), tier.c_str(), (unsigned long long)S->execs, (unsigned long long)S->nodes, (unsigned long long)S->trans, (unsigned long long)S->outs, (unsigned long long)S->maxdepth, S->capped ? "time cap reached" : S->stop ? "stopped at a violation" : "exhaustive within bounds", wall);
	if (!out.empty()) {
		FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 2; }
		fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\"coverage\":{\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\"distinct_outcomes\":%llu,\"max_choice_depth\":%llu,\"exhaustive\":%s,\"scenarios\":{", id.c_str(), tier.c_str(), atoi(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1"),
			(unsigned long long)S->nodes, (unsigned long long)S->trans, (unsigned long long)S->execs, (unsigned long long)S->outs, (unsigned long long)S->maxdepth, S->capped || S->stop ? "false" : "true");
		for (size_t i = 0; i < scens.size(); i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(scens[i].name).c_str(), i < 512 ? (unsigned long long)S->scen[i] : 0ull);
		fprintf(f, "},\"samples\":[%s]},\"assumptions\":[", samples.c_str());
		std::vector<str> as = prop->assumptions; as.push_back("the kernel, libc and shell are replaced by the simulator of engine/sim.cpp and engine/shim.cpp; the scache sources themselves run unmodified (compiled with AddressSanitizer)");
		as.push_back("signal handlers run between two system calls of the main thread, not between two arbitrary instructions");
		for (size_t i = 0; i < as.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(as[i]).c_str());
		fprintf(f, "],\"wall_s\":%.2f,\"violations\":%d}\n", wall, bad); fclose(f);
	}
	return bad ? 1 : 0;
}

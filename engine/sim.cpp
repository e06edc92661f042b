// World, scheduler, memory images, processes. Not instrumented by ASan (only linked with it).
#include "sim.h"
#include <sys/mman.h>
#include <sys/epoll.h>
#include <signal.h>
#include <dlfcn.h>
#include <link.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <getopt.h>
#include <algorithm>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

World w;
Env env;
bool g_verbose = false;
const char* g_curvariant = "";
bool g_tsan = false;

// ---------------------------------------------------------------- raw memory
static inline void rawcpy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
static inline void rawset(void* d, int c, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }
static inline uint8_t* shadow(const void* p) { return (uint8_t*)(((uintptr_t)p >> 3) + 0x7fff8000ul); }

static char* const ARENA = (char*)0x300000000000ul;
static const size_t ARENA_SZ = 256ul << 20;
static char* const STACKS = (char*)0x310000000000ul;
static const size_t STK = 256 << 10, STKFILL = 48 << 10;

static size_t bump;             // used bytes of the arena
static uint64_t live_n, live_b; // live allocations
struct Hdr { uint32_t size; uint32_t state; const void* pc; };
static const uint32_t LIVE = 0x11aa11aa, DEAD = 0x22dd22dd;

static std::map<uint32_t, std::vector<uint32_t>> freeblk; // env.reuse: freed blocks by size, the last one is used first
static void poison_all_from(size_t off, size_t to) { if (to > off) rawset(shadow(ARENA + off), 0xfa, (to - off) >> 3); }
void* ar_alloc(size_t n, const void* pc) {
	size_t tot = 32 + ((n + 15) & ~15ul) + 16;
	char* b; auto fb = env.reuse && n <= (64u << 20) ? freeblk.find((uint32_t)tot) : freeblk.end();
	if (fb != freeblk.end() && !fb->second.empty()) { b = ARENA + fb->second.back(); fb->second.pop_back(); }
	else { if (n > (64u << 20) || bump + tot > ARENA_SZ) return nullptr; b = ARENA + bump; bump += tot; }
	Hdr* h = (Hdr*)(b + 16); h->size = (uint32_t)n; h->state = LIVE; h->pc = pc;
	char* p = b + 32;
	rawset(p, 0xA5, n);
	rawset(shadow(b), 0xfa, tot >> 3);
	rawset(shadow(p), 0, n >> 3);
	if (n & 7) *shadow(p + (n & ~7ul)) = n & 7;
	live_n++; live_b += n;
	return p;
}
bool ar_has(void* p) { return (char*)p >= ARENA && (char*)p < ARENA + bump; }
void ar_free(void* p, const void*) {
	if (!p) return;
	if (!ar_has(p)) { on_sut_error("free of a pointer that is not from the heap"); return; }
	Hdr* h = (Hdr*)((char*)p - 16);
	if (((uintptr_t)p & 15) || (h->state != LIVE && h->state != DEAD)) { on_sut_error("free of a pointer inside a heap block"); return; }
	if (h->state == DEAD) { on_sut_error("double free"); return; }
	h->state = DEAD; live_n--; live_b -= h->size;
	size_t r = (h->size + 7) & ~7ul;
	rawset(shadow(p), 0xfd, r >> 3);
	if (env.reuse) freeblk[32 + ((h->size + 15) & ~15u) + 16].push_back((uint32_t)((char*)p - 32 - ARENA));
}
size_t ar_size(void* p) { return ((Hdr*)((char*)p - 16))->size; }
HeapStat heap_stat() { return HeapStat{live_n, live_b}; }
str heap_live_dump() {
	str r; size_t off = 0; std::map<std::pair<const void*, uint32_t>, int> m;
	while (off < bump) { Hdr* h = (Hdr*)(ARENA + off + 16); if (h->state == LIVE) m[{h->pc, h->size}]++; off += 32 + ((h->size + 15) & ~15ul) + 16; }
	for (auto& kv : m) { char b[200]; Dl_info di; const char* nm = "?"; if (dladdr(kv.first.first, &di) && di.dli_sname) nm = di.dli_sname;
		snprintf(b, sizeof b, "%s:%u x%d ", nm, kv.first.second, kv.second); r += b; }
	return r;
}
void check_mem(const void* p, size_t n, bool, const char* what) {
	if (!n) return;
	if (!p) { char b[128]; snprintf(b, sizeof b, "%s with a null buffer", what); on_sut_error(b); return; }
	if (g_tsan) return;
	if (__asan_region_is_poisoned((void*)p, n)) { char b[160]; snprintf(b, sizeof b, "%s of memory outside any live object", what); on_sut_error(b); }
}

// ---------------------------------------------------------------- variants and memory images
struct Seg { char* p; size_t n; };
struct Image { std::vector<std::pair<Seg, std::shared_ptr<char>>> parts; size_t bump = 0; uint64_t ln = 0, lb = 0; std::map<uint32_t, std::vector<uint32_t>> fb; };
struct VariantInst {
	str name; void* dl = nullptr; int (*mainfn)(int, char**) = nullptr; std::vector<Seg> segs; Image pristine; bool tsan = false;
	std::map<str, struct Base*> bases;
};
struct Base { Image img; World w; };
static std::map<str, VariantInst> g_var;
static VariantInst* cv = nullptr;
static str g_builddir;

static std::shared_ptr<char> grab(const char* p, size_t n) { std::shared_ptr<char> b((char*)malloc(n ? n : 1), free); rawcpy(b.get(), p, n); return b; }
static Image take_image(bool stacks) {
	Image im; im.bump = bump; im.ln = live_n; im.lb = live_b; im.fb = freeblk;
	auto add = [&](char* p, size_t n) { if (n) im.parts.push_back({Seg{p, n}, grab(p, n)}); };
	for (auto& s : cv->segs) add(s.p, s.n);
	add(ARENA, bump); add((char*)shadow(ARENA), bump >> 3);
	if (stacks) for (int i = 0; i < w.nthr; i++) {
		char* sp = (char*)w.thr[i].sp; char* top = STACKS + (i + 1) * STK;
		if (w.thr[i].st == T_DONE || w.thr[i].st == T_FREE) continue;
		sp = (char*)((uintptr_t)(sp - 256) & ~63ul);
		add(sp, top - sp); add((char*)shadow(sp), (top - sp) >> 3);
	}
	return im;
}
static void clear_stacks() { rawset(shadow(STACKS), 0, (World::MAXT * STK) >> 3); }
static void put_image(const Image& im, bool clearst = true) {
	if (bump > im.bump) rawset(shadow(ARENA + im.bump), 0xfa, (bump - im.bump) >> 3);
	if (clearst) clear_stacks();
	for (auto& p : im.parts) {
		rawcpy(p.first.p, p.second.get(), p.first.n);
		// what earlier executions left below the stack pointer must not influence this one
		if (p.first.p >= STACKS && p.first.p < STACKS + World::MAXT * STK) { size_t below = (p.first.p - STACKS) % STK; rawset(p.first.p - (below < STKFILL ? below : STKFILL), 0xA5, below < STKFILL ? below : STKFILL); }
	}
	bump = im.bump; live_n = im.ln; live_b = im.lb; freeblk = im.fb;
}

void sim_init(const str& builddir) {
	g_builddir = builddir;
	void* a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void* b = mmap(STACKS, World::MAXT * STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (a != ARENA || b != STACKS) harness_error("cannot map the arena");
	rawset(shadow(ARENA), 0xfa, ARENA_SZ >> 3);
}
static int phdr_cb(struct dl_phdr_info* i, size_t, void* arg) {
	VariantInst* v = (VariantInst*)arg; struct link_map* lm; dlinfo(v->dl, RTLD_DI_LINKMAP, &lm);
	if (i->dlpi_addr != lm->l_addr) return 0;
	uintptr_t rl = 0, rh = 0;
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rl = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rh = (rl + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul; rl &= ~4095ul; }
	for (int k = 0; k < i->dlpi_phnum; k++) {
		auto& ph = i->dlpi_phdr[k];
		if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
		uintptr_t lo = i->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
		if (rh > lo && rl < hi) { if (rl > lo) v->segs.push_back({(char*)lo, rl - lo}); lo = rh; }
		if (lo < hi) v->segs.push_back({(char*)lo, hi - lo});
	}
	return 1;
}
static void load_variant(VariantInst& v) {
	str path = g_builddir + "/sut_" + v.name + ".so";
	v.dl = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!v.dl) harness_error("dlopen: %s", dlerror());
	v.mainfn = (int (*)(int, char**))dlsym(v.dl, "sut_main");
	if (!v.mainfn) harness_error("no main in %s", path.c_str());
	dl_iterate_phdr(phdr_cb, &v);
	if (v.segs.empty()) harness_error("no writable segment found");
	v.tsan = v.name.find("tsan") != str::npos;
}
void use_variant(const str& name) {
	if (cv && cv->name == name) return;
	VariantInst& v = g_var[name];
	if (!v.dl) {
		v.name = name; bump = 0; freeblk.clear(); live_n = live_b = 0;
		load_variant(v);
		cv = &v; w = World();
		v.pristine = take_image(false);
	}
	cv = &v; g_curvariant = v.name.c_str(); g_tsan = v.tsan;
}
void mem_pristine() { put_image(cv->pristine); }
void* sut_sym(const char* n) { return dlsym(cv->dl, n); }

// ---------------------------------------------------------------- coroutines
extern "C" void ctx_switch(void** save, void* to);
asm(R"(
.text
.globl ctx_switch
.type ctx_switch,@function
ctx_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");
static void* sched_sp;
static const void* sched_bottom; static size_t sched_size;
static int force_next = -1;
static enum { RQ_NONE, RQ_FORK, RQ_CHILDEXIT, RQ_STOP, RQ_CKPT, RQ_PARK, RQ_SPLIT } request = RQ_NONE;
static bool sut_err = false;      // a violation was recorded inside the SUT

static void to_sched() {
	int i = w.cur; w.thr[i].err = errno;
	__sanitizer_start_switch_fiber(nullptr, sched_bottom, sched_size);
	ctx_switch(&w.thr[i].sp, sched_sp);
	__sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
	errno = w.thr[w.cur].err;
}
static void to_thread(int i) {
	w.cur = i; void* f;
	__sanitizer_start_switch_fiber(&f, STACKS + i * STK, STK);
	ctx_switch(&sched_sp, w.thr[i].sp);
	__sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
	w.cur = -1;
}
static int boot_argc; static char** boot_argv;
static void co_entry() {
	__sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
	int i = w.cur; errno = 0;
	if (i == 0) { int r = cv->mainfn(boot_argc, boot_argv); sut_stop(ST_EXITED, r & 255); }
	void* r = w.thr[i].fn(w.thr[i].arg);
	w.thr[i].ret = r; w.thr[i].st = T_DONE;
	for (;;) to_sched();
}
static void mk_thread(int i) {
	char* top = STACKS + (i + 1) * STK;
	rawset(shadow(STACKS + i * STK), 0, STK >> 3);
	rawset(STACKS + i * STK, 0xA5, STK);
	void** sp = (void**)(top - 64);
	*--sp = nullptr;                 // alignment / fake return
	*--sp = (void*)co_entry;
	for (int k = 0; k < 6; k++) *--sp = nullptr;
	Thr t; t.sp = sp; t.st = T_RUN; w.thr[i] = t;
}
int thr_create(void* (*fn)(void*), void* arg) {
	if (w.nthr >= World::MAXT) harness_error("too many threads");
	int i = w.nthr++; mk_thread(i); w.thr[i].fn = fn; w.thr[i].arg = arg; return i;
}
void co_block() { to_sched(); }
static bool runnable(int i);
void sched_point(const char* what) {
	if (!env.sched || w.in_child || w.cur < 0) return;
	if (env.preempt <= 0) return;
	int o[World::MAXT], n = 0;
	for (int i = 0; i < w.nthr; i++) if (i != w.cur && runnable(i)) o[n++] = i;
	if (!n) return;
	int c = choose(n + 1, "preempt");
	if (!c) return;
	env.preempt--; force_next = o[c - 1];
	LOG("        -- preempt thread %d at %s, run %d\n", w.cur, what, o[c - 1]);
	to_sched();
}
void sut_stop(Status st, int code) {
	if (w.in_child) { child_exit(code); }
	w.status = st; w.exit_code = code; request = RQ_STOP;
	for (;;) to_sched();
}
static std::vector<void(*)()> dummy;

// ---------------------------------------------------------------- readiness
static uint32_t sock_ready(const Sock& s) {
	uint32_t r = 0;
	if (s.rst) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
	if (s.inpos < s.in.size() || s.fin) r |= EPOLLIN;
	if (s.fin) r |= EPOLLRDHUP;
	if (s.cap != 0) r |= EPOLLOUT;
	if (s.fin && s.sut_shutwr) r |= EPOLLHUP;
	return r;
}
uint32_t ofd_ready(int o) {
	Ofd& f = w.ofds[o];
	switch (f.kind) {
	case O_SOCK: return sock_ready(w.socks[f.obj]);
	case O_LISTEN: return w.lis[f.obj].backlog.empty() ? 0 : EPOLLIN;
	case O_EVENT: return (w.evs[f.obj].val ? EPOLLIN : 0) | EPOLLOUT;
	default: return 0;
	}
}
static uint32_t ofd_seq(int o) {
	Ofd& f = w.ofds[o];
	switch (f.kind) { case O_SOCK: return w.socks[f.obj].seq; case O_LISTEN: return w.lis[f.obj].seq; case O_EVENT: return w.evs[f.obj].seq; default: return 0; }
}
int ep_collect(int ep, struct epoll_event* out, int max, bool consume) {
	Epoll& e = w.eps[ep]; std::vector<int> rdy;
	for (size_t i = 0; i < e.items.size(); i++) {
		EpItem& it = e.items[i]; if (it.off) continue;
		uint32_t r = ofd_ready(it.ofd) & (it.events | EPOLLERR | EPOLLHUP);
		if (!r) continue;
		if ((it.events & EPOLLET) && it.lastseq == ofd_seq(it.ofd)) continue;
		rdy.push_back((int)i);
	}
	if (!consume) return (int)rdy.size();
	std::stable_sort(rdy.begin(), rdy.end(), [&](int a, int b) {
		uint32_t sa = std::max(ofd_seq(e.items[a].ofd), e.items[a].order), sb = std::max(ofd_seq(e.items[b].ofd), e.items[b].order); return sa < sb; });
	if (env.eporder && w.cur == 0 && rdy.size() > 1) {
		std::vector<int> p;
		while (!rdy.empty()) { int c = rdy.size() > 1 ? choose((int)rdy.size(), "evorder") : 0; p.push_back(rdy[c]); rdy.erase(rdy.begin() + c); }
		rdy = p;
	}
	int n = 0;
	for (int i : rdy) {
		if (n == max) break;
		EpItem& it = e.items[i];
		if (out) { out[n].events = ofd_ready(it.ofd) & (it.events | EPOLLERR | EPOLLHUP); out[n].data.u64 = it.data; }
		it.lastseq = ofd_seq(it.ofd); it.order = ++w.seq;
		if (it.events & EPOLLONESHOT) it.off = true;
		n++;
	}
	return n;
}
bool sig_deliverable() {
	for (int s : w.pend) {
		if (w.sigblocked >> s & 1) continue;
		auto h = w.handlers[s];
		if (h == SIG_IGN || (h == SIG_DFL && s == SIGCHLD)) continue;
		return true;
	}
	return false;
}
static bool runnable(int i) {
	Thr& t = w.thr[i];
	switch (t.st) {
	case T_RUN: return true;
	case T_EPOLL:
		if (i == 0 && sig_deliverable()) return true;
		if (ep_collect(w.ofds[t.wobj].obj, nullptr, 1, false) > 0) return true;
		return t.deadline >= 0 && w.now >= t.deadline;
	case T_SLEEP: if (i == 0 && sig_deliverable()) return true; return w.now >= t.deadline;
	case T_MUTEX: { auto it = w.mutexes.find(t.waddr); return it == w.mutexes.end() || it->second == 0; }
	case T_JOIN: return w.thr[t.wobj].st == T_DONE || (i == 0 && sig_deliverable());
	case T_FLOCK: return (i == 0 && sig_deliverable()) || !flock_conflict(w.ofds[t.wobj].obj, w.ofds[t.wobj].gid, t.waddr != nullptr);
	case T_WAITPID: { if (sig_deliverable()) return true; bool any = false; for (auto& k : w.kids) if (!k.reaped && (t.wobj == -1 || k.pid == t.wobj)) { any = true; if (k.dead) return true; } return !any; }
	default: return false;
	}
}

// ---------------------------------------------------------------- run loop
static void do_child_run() {
	// on the scheduler stack: run the child inline, then go back to the parent
	Image img = take_image(true); World saved = w; int cur = 0;
	w.in_child = true; w.childlog.clear(); w.pend.clear();
	for (int i = 1; i < w.nthr; i++) w.thr[i].st = T_DONE;
	request = RQ_NONE;
	w.thr[cur].intr = true;             // marks "child" for do_fork's return value
	for (;;) {
		to_thread(cur);
		if (sut_err) return;
		if (request == RQ_CHILDEXIT) break;
		if (request == RQ_FORK) harness_error("nested fork");
		if (w.thr[cur].st == T_SLEEP) { w.now = std::max(w.now, w.thr[cur].deadline); continue; }
		if (!runnable(cur)) { violation("a save process blocks forever"); }
	}
	int code = w.exit_code; std::vector<FsOp> log; log.swap(w.childlog); uint64_t st = w.steps, fo = w.fsops;
	put_image(img, false); rawset(shadow(STACKS), 0, STK >> 3);
	for (auto& p : img.parts) rawcpy(p.first.p, p.second.get(), p.first.n);
	w = saved; w.steps = st; w.fsops = fo;
	Child c; c.pid = w.next_pid++; c.ops = log; c.status = code << 8;
	LOG("        fork -> pid %d, %zu file operations\n", c.pid, c.ops.size());
	w.kids.push_back(c);
	w.thr[0].intr = false; w.thr[0].ret = (void*)(intptr_t)c.pid;
	request = RQ_NONE;
}
int do_fork() {
	if (w.in_child) { errno = EAGAIN; return -1; }
	if (w.cur != 0) harness_error("fork in a helper thread");
	if (env.realfork && w.lis.empty()) { request = RQ_SPLIT; to_sched(); return (int)(intptr_t)w.thr[0].ret; }
	request = RQ_FORK;
	to_sched();
	if (w.in_child) return 0;
	int pid = (int)(intptr_t)w.thr[0].ret;
	if (env.afterfork) env.afterfork();
	deliver_signals();
	return pid;
}
void child_exit(int code) { w.exit_code = code; request = RQ_CHILDEXIT; for (;;) to_sched(); }

// ---- a start is the same every time until the server first looks at a file: that part is run once and kept
struct Ckpt { std::vector<str> argv; int64_t now; std::shared_ptr<std::set<str>> dirs; str cwd; Image img; World w; uint64_t steps; };
static std::map<str, std::deque<std::shared_ptr<Ckpt>>> ckpts;
bool g_ckpt_armed = false;
static std::vector<str> ckpt_argv; static int64_t ckpt_now; static uint64_t ckpt_steps0;
void park_here() { request = RQ_PARK; to_sched(); }
void ckpt_here() { if (w.cur != 0 || w.in_child || w.nthr != 1) { g_ckpt_armed = false; return; } g_ckpt_armed = false; request = RQ_CKPT; to_sched(); }
static void ckpt_store() {
	auto& q = ckpts[cv->name]; auto c = std::make_shared<Ckpt>();
	c->argv = ckpt_argv; c->now = ckpt_now; c->dirs = w.fs.dirs; c->cwd = w.cwd; c->img = take_image(true); c->w = w; c->w.fs = Fs(); c->steps = w.steps - ckpt_steps0;
	q.push_front(c); if (q.size() > 24) q.pop_back();
}
static bool ckpt_load(const std::vector<str>& argv) {
	for (auto& c : ckpts[cv->name]) if (c->now == w.now && c->dirs == w.fs.dirs && c->cwd == w.cwd && c->argv == argv) {
		World o = w; put_image(c->img); w = c->w;
		w.fs = o.fs; w.steps = o.steps + c->steps; w.fsops = o.fsops; w.next_pid = o.next_pid + 10; w.auto_child = o.auto_child;
		for (auto& i : w.fs.inodes) i.opens = 0;
		w.fs.locks.clear();
		return true;
	}
	return false;
}
uint64_t g_run_steps0;
static bool parked; static void proc_split();
Status sut_run() {
	g_run_steps0 = w.steps; parked = false;
	int cur = -1;
	for (;;) {
		if (sut_err) { sut_err = false; throw ExecAbort(); }
		if (w.status != ST_RUNNING) return w.status;
		int r[World::MAXT], n = 0;
		for (int i = 0; i < w.nthr; i++) if (runnable(i)) r[n++] = i;
		int next = -1;
		if (force_next >= 0) { next = force_next; force_next = -1; }
		else if (n) {
			bool curok = false; for (int i = 0; i < n; i++) if (r[i] == cur) curok = true;
			if (curok && w.thr[cur].st == T_RUN) next = cur;
			else if (env.sched && n > 1) next = r[choose(n, "next")];
			else next = r[0];
		}
		if (next < 0) {
			int64_t dl = -1; bool sleeping = false, joining = w.nthr && w.thr[0].st == T_JOIN;
			for (int i = 0; i < w.nthr; i++) {
				if (w.thr[i].st == T_SLEEP) { sleeping = true; if (dl < 0 || w.thr[i].deadline < dl) dl = w.thr[i].deadline; }
				else if (joining && w.thr[i].st == T_EPOLL && w.thr[i].deadline >= 0) { sleeping = true; if (dl < 0 || w.thr[i].deadline < dl) dl = w.thr[i].deadline; }
			}
			if (sleeping) { advance(dl - w.now); continue; }
			if (w.nthr && w.thr[0].st == T_WAITPID) {
				int k = live_child(); if (k >= 0) { child_finish(k); continue; }
			}
			if (w.auto_child && live_child() >= 0) { auto_children(); continue; }
			return w.status;
		}
		w.thr[next].st = T_RUN; cur = next;
		request = RQ_NONE;
		to_thread(next);
		if (sut_err) { sut_err = false; throw ExecAbort(); }
		if (request == RQ_FORK) { do_child_run(); if (sut_err) { sut_err = false; throw ExecAbort(); } }
		if (request == RQ_STOP) return w.status;
		if (request == RQ_CKPT) { ckpt_store(); continue; }
		if (request == RQ_PARK) { parked = true; return w.status; }
		if (request == RQ_SPLIT) { proc_split(); continue; }
	}
}
void record_violation(const char* msg, bool fatal);
void on_sut_error(const char* msg) {
	record_violation(msg, false);
	if (w.cur < 0) throw ExecAbort();
	sut_err = true; w.status = ST_VIOL;
	for (;;) to_sched();
}
void violation(const char* fmt, ...) {
	char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	on_sut_error(b);
	throw ExecAbort();
}

// ---------------------------------------------------------------- boot / bases
static void procs_clear();
void reset_exec() {             // before every execution
	env = Env(); force_next = -1; request = RQ_NONE; sut_err = false; procs_clear();
}
static bool procs_live();
static void fresh_process() {
	mem_pristine();
	Fs fs = w.fs; int64_t now = w.now; auto ac = w.auto_child; uint64_t st = w.steps, fo = w.fsops; str cwd = w.cwd;
	int np = w.next_pid;
	w = World(); w.fs = fs; w.now = now; w.auto_child = ac; w.steps = st; w.fsops = fo; w.next_pid = np + 10;
	if (!procs_live()) { for (auto& i : w.fs.inodes) i.opens = 0; w.fs.locks.clear(); }
	for (int i = 0; i < 3; i++) { int o = ofd_new(O_STD); w.ofds[o].ref = 1; w.fds.push_back(o); }
}
void sut_boot(const std::vector<str>& argv) {
	g_ckpt_armed = false; bool can = !env.atcall && !env.sched && !env.memsched && w.fs.dirs;
	optind = 0; opterr = 0;
	if (can && ckpt_load(argv)) { sut_run(); return; }
	if (can) { g_ckpt_armed = true; ckpt_argv = argv; ckpt_now = w.now; }
	fresh_process(); ckpt_steps0 = w.steps;
	boot_argc = (int)argv.size();
	boot_argv = (char**)ar_alloc((argv.size() + 1) * sizeof(char*), nullptr);
	for (size_t i = 0; i < argv.size(); i++) { boot_argv[i] = (char*)ar_alloc(argv[i].size() + 1, nullptr); memcpy(boot_argv[i], argv[i].c_str(), argv[i].size() + 1); }
	boot_argv[argv.size()] = nullptr;
	optind = 0; opterr = 0;
	w.nthr = 0; thr_create(nullptr, nullptr);
	sut_run(); g_ckpt_armed = false;
}
void sut_kill() {
	if (w.status == ST_RUNNING) w.status = ST_CRASHED;
	w.kids.clear();
	w.socks.clear(); w.nthr = 0;
}
void world_reset_fs() {
	w = World(); w.now = 1000000000ll * 1000000ll;
	w.fs.dirs = std::make_shared<std::set<str>>();
	for (const char* d : {"/", "/db", "/run", "/tmp", "/var", "/var/lib", "/dev"}) w.fs.dirs->insert(d);
}
extern bool g_nochoose;
void base_restore(const str& key, const std::vector<str>& argv, const Prologue& pro) {
	Base*& b = cv->bases[key];
	if (!b) {
		Env keep = env; env = Env();
		world_reset_fs();
		g_nochoose = true;
		sut_boot(argv);
		if (pro) pro();
		g_nochoose = false;
		env = keep;
		Base* nb = new Base; nb->img = take_image(true); nb->w = w; b = nb;
	}
	put_image(b->img); w = b->w;
}

// ---------------------------------------------------------------- descriptors
int ofd_new(OfdKind k) {
	for (size_t i = w.ofdfree; i < w.ofds.size(); i++) if (w.ofds[i].kind == O_FREE) { w.ofds[i] = Ofd(); w.ofds[i].kind = k; w.ofdfree = i + 1; return (int)i; }
	w.ofds.emplace_back(); w.ofds.back().kind = k; w.ofdfree = w.ofds.size(); return (int)w.ofds.size() - 1;
}
int fd_alloc(int ofd, int from) {
	for (size_t i = from; i < w.fds.size(); i++) if (w.fds[i] < 0) { w.fds[i] = ofd; w.ofds[ofd].ref++; return (int)i; }
	while ((int)w.fds.size() < from) w.fds.push_back(-1);
	w.fds.push_back(ofd); w.ofds[ofd].ref++; return (int)w.fds.size() - 1;
}
void close_ofd(int o) {
	Ofd& f = w.ofds[o];
	if (--f.ref > 0) return;
	if (f.kind != O_FILE) for (auto& e : w.eps) e.drop(o);
	switch (f.kind) {
	case O_SOCK: { Sock& s = w.socks[f.obj]; s.sut_closed = true; if (s.inpos < s.in.size()) s.rst = true; break; }
	case O_LISTEN: w.lis[f.obj].closed = true; break;
	case O_FILE: w.fs.inodes[f.obj].opens--; flock_drop(f.gid); break;
	default: break;
	}
	f.kind = O_FREE; w.ofdfree = std::min(w.ofdfree, (size_t)o);
}
int open_fds() { int n = 0; for (int o : w.fds) if (o >= 0) n++; return n; }

str norm(const char* p) {
	str s = p; if (s.empty() || s[0] != '/') s = w.cwd + "/" + s;
	else { bool plain = s.size() > 1 && s.back() != '/'; for (size_t i = 0; plain && i + 1 < s.size(); i++) if (s[i] == '/' && (s[i + 1] == '/' || s[i + 1] == '.')) plain = false; if (plain) return s; }
	std::vector<str> c; size_t i = 0;
	while (i < s.size()) { size_t j = s.find('/', i); if (j == str::npos) j = s.size(); str x = s.substr(i, j - i); i = j + 1; if (x.empty() || x == ".") continue; if (x == "..") { if (!c.empty()) c.pop_back(); continue; } c.push_back(x); }
	str r; for (auto& x : c) r += "/" + x; return r.empty() ? "/" : r;
}
FsFault fsop(FsOpKind k, const str& path, size_t n) {
	w.fsops++;
	FsFault f;
	if (env.fsfault) f = env.fsfault(k, path, n);
	if (f.act == ACT_CRASH) { LOG("        !! killed before %s of %s\n", k == OP_WRITE ? "write" : "operation", path.c_str()); sut_stop(ST_CRASHED, 0); }
	return f;
}

// ---------------------------------------------------------------- driver actions
void touch(int s) { w.socks[s].seq = ++w.seq; }
int find_listener(int port) { for (size_t i = 0; i < w.lis.size(); i++) if (w.lis[i].listening && !w.lis[i].closed && w.lis[i].port == port) return (int)i; return -1; }
int cl_connect_l(int l) {
	Sock s; s.used = true; s.listener = l; w.socks.push_back(s); int id = (int)w.socks.size() - 1;
	touch(id); w.lis[l].backlog.push_back(id); w.lis[l].seq = ++w.seq;
	LOG("  client %d connects to :%d\n", id, w.lis[l].port);
	return id;
}
int cl_connect(int port) { int l = find_listener(port); if (l < 0) return -1; return cl_connect_l(l); }
static str esc(const str& d) { str r; for (unsigned char c : d) { if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; if (r.size() > 160) { r += "..."; break; } } return r; }
str esc_str(const str& d) { return esc(d); }
void cl_send(int s, const str& d) { LOG("  client %d sends %zu bytes: %s\n", s, d.size(), esc(d).c_str()); Sock& k = w.socks[s]; if (k.sut_closed) { k.rst = true; return; } if (k.inpos) { k.in.erase(0, k.inpos); k.inpos = 0; } k.in += d; touch(s); }
void cl_fin(int s) { LOG("  client %d half-closes\n", s); w.socks[s].fin = true; touch(s); }
// closing answers whatever is still on its way with a reset
void cl_close(int s) { LOG("  client %d closes\n", s); Sock& k = w.socks[s]; k.fin = true; k.peer_closed = true; if (k.cap == 0) k.rst = true; k.cap = -1; touch(s); }
void cl_reset(int s) { LOG("  client %d resets\n", s); w.socks[s].rst = true; touch(s); }
void cl_window(int s, int64_t cap) { LOG("  client %d window %lld\n", s, (long long)cap); w.socks[s].cap = cap; touch(s); }
void advance(int64_t us) {
	w.now += us;
	if (w.itimer && w.now >= w.itimer_next) { w.itimer_next = w.now + w.itimer - (w.now - w.itimer_next) % w.itimer; post_signal(SIGALRM); }
}
void post_signal(int sig) {
	for (int p : w.pend) if (p == sig) return;
	if (w.status == ST_RUNNING) w.pend.push_back(sig);
}
void deliver_signals() {
	if (w.cur != 0 || w.in_child) return;
	for (size_t guard = 0; guard < 64; guard++) {
		int sig = -1;
		for (size_t i = 0; i < w.pend.size(); i++) if (!(w.sigblocked >> w.pend[i] & 1)) { sig = w.pend[i]; w.pend.erase(w.pend.begin() + i); break; }
		if (sig < 0) return;
		auto h = w.handlers[sig];
		if (h == SIG_IGN || (h == SIG_DFL && sig == SIGCHLD)) continue;
		if (h == SIG_DFL) { LOG("        killed by signal %d\n", sig); sut_stop(ST_SIGNALED, sig); }
		uint64_t old = w.sigblocked; w.sigblocked |= 1ull << sig;
		int e = errno; if (sig != SIGALRM) LOG("        signal %d delivered\n", sig); errno = e; h(sig);
		w.sigblocked = old;
	}
}
int live_child() { for (size_t i = 0; i < w.kids.size(); i++) if (!w.kids[i].dead) return (int)i; return -1; }
static int hino(Child& c, int h) { if (h >= HANDLE_INO) return h - HANDLE_INO; auto it = c.handles.find(h); return it == c.handles.end() ? -1 : it->second; }
static bool parent_dir(const str& p) { size_t k = p.rfind('/'); str d = k == 0 ? "/" : p.substr(0, k); return w.fs.dirs->count(d) != 0; }
void fs_unlink(const str& p) { auto it = w.fs.names.find(p); if (it == w.fs.names.end()) return; w.fs.inodes[it->second].nlink--; w.fs.names.erase(it); }
int fs_create(const str& p) { int i = w.fs.mk(); w.fs.names[p] = i; w.fs.inodes[i].nlink = 1; return i; }
void fs_write(int ino, uint64_t off, const char* p, size_t n) { w.fs.put(ino, off, p, n); }
bool child_step(int idx) {
	Child& c = w.kids[idx]; if (c.dead) return false;
	if (c.next >= c.ops.size()) { child_die(idx, c.status); return false; }
	FsOp& o = c.ops[c.next++]; LOG("    save process %d: step %zu/%zu kind %d %s %s\n", c.pid, c.next, c.ops.size(), o.kind, o.a.c_str(), o.kind == OP_RENAME ? o.b.c_str() : "");
	w.fsops++;
	switch (o.kind) {
	case OP_OPEN: case OP_CREATE: {
		auto it = w.fs.names.find(o.a); int ino = -1;
		if (it != w.fs.names.end()) { ino = it->second; if (o.trunc) w.fs.clear(ino); }
		else if (o.creat && parent_dir(o.a)) ino = fs_create(o.a);
		if (ino >= 0) c.handles[o.handle] = ino;
		break; }
	case OP_WRITE: { int i = hino(c, o.handle); if (i >= 0) fs_write(i, o.off, o.b.data(), o.b.size()); break; }
	case OP_TRUNC: { int i = hino(c, o.handle); if (i >= 0) w.fs.resize(i, o.off); break; }
	case OP_UNLINK: fs_unlink(o.a); break;
	case OP_RENAME: { auto it = w.fs.names.find(o.a); if (it != w.fs.names.end() && o.a != o.b) { int i = it->second; fs_unlink(o.b); w.fs.names.erase(o.a); w.fs.names[o.b] = i; } break; }
	case OP_LINK: { auto it = w.fs.names.find(o.a); if (it != w.fs.names.end() && !w.fs.names.count(o.b)) { w.fs.names[o.b] = it->second; w.fs.inodes[it->second].nlink++; } break; }
	case OP_CPCREATE: { auto it = w.fs.names.find(o.b); if (it == w.fs.names.end()) fs_create(o.b); else w.fs.clear(it->second); break; }
	case OP_CPDATA: { auto a = w.fs.names.find(o.a), b = w.fs.names.find(o.b); if (a != w.fs.names.end() && b != w.fs.names.end()) w.fs.copy(a->second, b->second); break; }
	case OP_MKDIR: { auto d = std::make_shared<std::set<str>>(*w.fs.dirs); d->insert(o.a); w.fs.dirs = d; break; }
	default: break;
	}
	return true;
}
void child_die(int idx, int status) {
	Child& c = w.kids[idx]; if (c.dead) return;
	c.dead = true; c.status = status; c.ops.clear(); c.next = 0; c.handles.clear(); LOG("    save process %d ends, status %x\n", c.pid, status);
	post_signal(SIGCHLD);
}
void child_finish(int idx) { while (child_step(idx)) {} }
void child_kill(int idx) { child_die(idx, SIGKILL); }
void auto_children() { int k; while ((k = live_child()) >= 0) child_finish(k); }
Fs fs_clone() { return w.fs; }

// ---------------------------------------------------------------- several processes
bool flock_conflict(int ino, uint64_t gid, bool ex) { for (auto& l : w.fs.locks) if (l.ino == ino && l.gid != gid && (ex || l.ex)) return true; return false; }
void flock_drop(uint64_t gid) { for (size_t i = 0; i < w.fs.locks.size(); i++) if (w.fs.locks[i].gid == gid) { if (--w.fs.locks[i].refs <= 0) w.fs.locks.erase(w.fs.locks.begin() + i); return; } }
struct Proc { Image img; World w; std::vector<str> argv; bool begun = false, gone = false; };
static std::vector<Proc> procs; static int curproc = -1;
const char* g_call = ""; str g_callpath;
static void procs_clear() { procs.clear(); curproc = -1; }
static bool procs_live() { return !procs.empty(); }
int proc_count() { return (int)procs.size(); }
bool proc_bound(const Listener& l) { if (!l.path.empty()) return false; for (size_t i = 0; i < procs.size(); i++) if ((int)i != curproc && procs[i].w.status == ST_RUNNING && !procs[i].gone) for (auto& x : procs[i].w.lis) if (x.bound && !x.closed && x.fd_family == l.fd_family && x.addr == l.addr && x.port == l.port) return true; return false; }
bool proc_parked() { return parked; }
Status proc_status(int i) { return i == curproc ? w.status : procs[i].w.status; }
const World& proc_world(int i) { return i == curproc ? w : procs[i].w; }
static void proc_keep() { if (curproc < 0) return; Proc& p = procs[curproc]; p.w = w; if (w.status == ST_RUNNING && p.begun) p.img = take_image(true); }
static void share(World& n) { n.fs = w.fs; n.now = w.now; n.next_pid = w.next_pid; n.steps = w.steps; n.fsops = w.fsops; }
int proc_new(const std::vector<str>& argv) {
	proc_keep();
	procs.emplace_back(); int i = (int)procs.size() - 1, np = w.next_pid; Proc& p = procs[i]; p.argv = argv; curproc = i;
	g_ckpt_armed = false; fresh_process(); w.next_pid = np + 10; w.pid = np;
	boot_argv = (char**)ar_alloc((argv.size() + 1) * sizeof(char*), nullptr);
	for (size_t k = 0; k < argv.size(); k++) { boot_argv[k] = (char*)ar_alloc(argv[k].size() + 1, nullptr); memcpy(boot_argv[k], argv[k].c_str(), argv[k].size() + 1); }
	boot_argv[argv.size()] = nullptr; w.nthr = 0; thr_create(nullptr, nullptr);
	p.begun = true; LOG("## process %d is created\n", w.pid);
	return i;
}
void proc_switch(int i) {
	if (i == curproc) return;
	proc_keep(); Proc& p = procs[i]; World n = p.w; share(n); curproc = -1;
	if (n.status == ST_RUNNING) put_image(p.img);
	w = n; curproc = i; parked = false;
}
static void proc_end() { Proc& p = procs[curproc]; if (p.gone) return; p.gone = true; for (auto& f : w.ofds) if (f.kind == O_FILE && f.ref > 0) { w.fs.inodes[f.obj].opens--; flock_drop(f.gid); f.ref = 0; f.kind = O_FREE; } w.nthr = 0; }
void proc_run(int i) {
	proc_switch(i); if (w.status != ST_RUNNING) return;
	boot_argc = (int)procs[i].argv.size(); if (!w.thr[0].begun) { optind = 0; opterr = 0; w.thr[0].begun = true; }
	sut_run(); if (w.status != ST_RUNNING) proc_end();
}
void proc_kill(int i) { proc_switch(i); if (w.status != ST_RUNNING) return; LOG("## process %d is killed\n", w.pid); w.status = ST_CRASHED; w.kids.clear(); proc_end(); }
static void proc_split() {
	if (curproc < 0) harness_error("fork of a whole process outside the process mode");
	procs.emplace_back(); Proc& c = procs.back(); Proc& p = procs[curproc]; c.argv = p.argv; c.begun = true;
	for (auto& f : w.ofds) if (f.kind == O_FILE) { w.fs.inodes[f.obj].opens++; for (auto& l : w.fs.locks) if (l.gid == f.gid) l.refs++; }
	int pid = w.next_pid; w.next_pid += 10; c.img = take_image(true); c.w = w; c.w.pid = pid; c.w.pend.clear(); c.w.itimer = 0; c.w.thr[0].ret = nullptr;
	w.thr[0].ret = (void*)(intptr_t)pid; LOG("## process %d forks, the child is %d\n", w.pid, pid);
}

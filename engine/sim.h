// Simulated world under the real scache code: sockets, epoll, files, processes, threads,
// signals, clock and heap. Everything the SUT asks of libc goes through sim_* (shim.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <deque>
#include <string.h>
#include <errno.h>

typedef std::string str;

// ---------------------------------------------------------------- explorer interface
int choose(int n, const char* label);           // exhaustive choice 0..n-1
struct ExecAbort {};                             // thrown on the driver stack only
void violation(const char* fmt, ...) __attribute__((format(printf,1,2)));  // never returns to its caller's flow
void outcome(uint64_t h);                        // register a distinct outcome
void logf_(const char* fmt, ...) __attribute__((format(printf,1,2)));
extern bool g_verbose;
#define LOG(...) do { if (g_verbose) logf_(__VA_ARGS__); } while (0)
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf,1,2)));
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const str& s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

// ---------------------------------------------------------------- file system
struct Far { uint64_t size = 0; std::map<uint64_t, str> pg; };   // a large sparse file: the pages that were written
const uint64_t FAR_FROM = 1 << 26, FAR_PAGE = 4096;
struct Inode {
	std::shared_ptr<str> data;
	std::shared_ptr<Far> far;   // if set, the contents instead of data
	int nlink = 0;
	int opens = 0;      // open descriptions (in the current process)
	int mode = 0644;
};
struct FLock { int ino; uint64_t gid; bool ex; int refs; };   // a lock belongs to an open file, however many processes share it
struct Fs {
	std::vector<FLock> locks; uint64_t next_gid = 1;
	std::map<str,int> names;
	std::vector<Inode> inodes;
	std::shared_ptr<std::set<str>> dirs;
	str& wr(int ino) {
		auto& d = inodes[ino].data;
		if (d.use_count() > 1) d = std::make_shared<str>(*d);
		return *d;
	}
	const str& rd(int ino) const { return *inodes[ino].data; }
	uint64_t size(int ino) const { const Inode& i = inodes[ino]; return i.far ? i.far->size : i.data->size(); }
	str get(int ino, uint64_t off, size_t n) const {
		uint64_t z = size(ino); if (off >= z) return str(); n = (size_t)std::min<uint64_t>(n, z - off); const Inode& i = inodes[ino]; if (!i.far) return i.data->substr(off, n);
		str r; while (r.size() < n) { uint64_t o = off + r.size(), in = o % FAR_PAGE; size_t m = (size_t)std::min<uint64_t>(n - r.size(), FAR_PAGE - in); auto it = i.far->pg.find(o / FAR_PAGE); if (it == i.far->pg.end()) r.append(m, '\0'); else r.append(it->second, in, m); } return r;
	}
	Far& farw(int ino) { // a sparse file from now on
		Inode& i = inodes[ino]; if (!i.far) { i.far = std::make_shared<Far>(); str d; d.swap(wr(ino)); i.far->size = 0; put(ino, 0, d.data(), d.size()); } else if (i.far.use_count() > 1) i.far = std::make_shared<Far>(*i.far); return *i.far;
	}
	void put(int ino, uint64_t off, const char* p, size_t n) {
		if (!inodes[ino].far && off + n <= FAR_FROM) { str& d = wr(ino); if (d.size() < off + n) d.resize(off + n, '\0'); memcpy(&d[off], p, n); return; }
		Far& f = farw(ino); for (size_t k = 0; k < n;) { uint64_t o = off + k, in = o % FAR_PAGE; size_t m = (size_t)std::min<uint64_t>(n - k, FAR_PAGE - in); str& g = f.pg[o / FAR_PAGE]; if (g.empty()) g.assign(FAR_PAGE, '\0'); memcpy(&g[in], p + k, m); k += m; } if (f.size < off + n) f.size = off + n;
	}
	void resize(int ino, uint64_t n) {
		if (!inodes[ino].far && n <= FAR_FROM) { wr(ino).resize(n, '\0'); return; }
		Far& f = farw(ino); if (n < f.size) { f.pg.erase(f.pg.lower_bound((n + FAR_PAGE - 1) / FAR_PAGE), f.pg.end()); auto it = f.pg.find(n / FAR_PAGE); if (it != f.pg.end() && n % FAR_PAGE) std::fill(it->second.begin() + n % FAR_PAGE, it->second.end(), '\0'); } f.size = n;
	}
	void clear(int ino) { inodes[ino].far.reset(); wr(ino).clear(); }
	void copy(int from, int to) { inodes[to].data = inodes[from].data; inodes[to].far = inodes[from].far; }
	int mk() { inodes.emplace_back(); inodes.back().data = std::make_shared<str>(); return (int)inodes.size() - 1; }
};

enum FsOpKind { OP_CREATE, OP_OPEN, OP_WRITE, OP_TRUNC, OP_UNLINK, OP_RENAME, OP_LINK, OP_MKDIR, OP_READ, OP_SEEK,
                OP_CPCREATE, OP_CPDATA, OP_FORK, OP_SYSTEM, OP_SYNC, OP_CLOSE, OP_SENDFILE_IN, OP_ALLOC, OP_LOCK };
struct FsOp {               // one step of a save process, replayed against the live file system
	FsOpKind kind;
	int handle = -1;          // handle of OP_CREATE/OP_OPEN inside the child, or inode + HANDLE_INO
	str a, b;
	uint64_t off = 0;
	bool trunc = false, creat = false;
};
const int HANDLE_INO = 1000000;

// what the world does at a file operation
enum FsAct { ACT_NONE = 0, ACT_CRASH, ACT_CRASH_PARTIAL, ACT_ERR, ACT_SHORT };
struct FsFault { FsAct act = ACT_NONE; int err = 0; };

// ---------------------------------------------------------------- processes and descriptors
enum OfdKind { O_FREE, O_STD, O_FILE, O_SOCK, O_LISTEN, O_EPOLL, O_EVENT, O_NULL };
struct Ofd {
	OfdKind kind = O_FREE;
	int ref = 0;
	int flags = 0;           // O_NONBLOCK, O_APPEND, access mode
	int obj = -1;            // inode / socket / listener / epoll / event index
	uint64_t pos = 0;
	int childhandle = -1;
	uint64_t gid = 0;        // identity of the open file across processes
	str path;
};
struct Sock {
	bool used = false;
	int listener = -1;
	str in; size_t inpos = 0;     // bytes on the way to the SUT
	bool fin = false;             // peer half- or fully closed its sending side
	bool peer_closed = false;     // peer closed fully: first write of SUT draws a reset
	bool rst = false;
	str out;                      // bytes the SUT has sent
	int64_t cap = -1;             // send window: bytes the SUT may still write; -1 unlimited
	bool accepted = false;
	bool sut_closed = false, sut_shutwr = false;
	uint32_t seq = 0;             // event sequence (edge triggering, ready order)
	int type = 0;                 // 0 cache, 1 monitor (by the driver)
	bool nodelay=false, keepalive=false;
};
struct Listener {
	int fd_family = 0; str addr; int port = 0; bool transparent = false; bool listening = false; bool bound=false; bool reuse=false; str path;
	std::deque<int> backlog;
	bool closed = false;
	uint32_t seq = 0;
	int backlog_arg = 0;
};
struct EpItem { int fd; int ofd; uint32_t events; uint64_t data; uint32_t lastseq; bool off; uint32_t order; };
struct Epoll {
	std::vector<EpItem> items; std::vector<int> at; bool multi = false;   // at: where the item of an open file is
	int find(int fd, int ofd) { if (!multi) { int i = ofd < (int)at.size() ? at[ofd] : -1; return i >= 0 && items[i].fd == fd ? i : -1; } for (size_t i = 0; i < items.size(); i++) if (items[i].fd == fd && items[i].ofd == ofd) return (int)i; return -1; }
	void add(const EpItem& it) { if ((int)at.size() <= it.ofd) at.resize(it.ofd + 1, -1); if (at[it.ofd] >= 0) multi = true; at[it.ofd] = (int)items.size(); items.push_back(it); }
	void del(int i) { int o = items[i].ofd; items[i] = items.back(); items.pop_back(); at[o] = -1; if (i < (int)items.size()) at[items[i].ofd] = i; }
	void drop(int ofd) { if (!multi) { int i = ofd < (int)at.size() ? at[ofd] : -1; if (i >= 0) del(i); return; } for (size_t i = 0; i < items.size();) { if (items[i].ofd == ofd) del((int)i); else i++; } }
};
struct Event { uint64_t val = 0; bool sema=false; uint32_t seq = 0; };

enum ThrState { T_FREE, T_RUN, T_EPOLL, T_MUTEX, T_JOIN, T_SLEEP, T_DONE, T_WAITPID, T_COND, T_READ, T_FLOCK };
struct Thr {
	ThrState st = T_FREE;
	void* sp = nullptr;
	int err = 0;
	void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
	int64_t deadline = -1;      // us, -1 none
	int wobj = -1; const void* waddr = nullptr;
	bool intr = false;          // a handler ran while blocked
	bool detached = false;
	bool begun = false;
};
struct Child {
	int pid; std::vector<FsOp> ops; size_t next = 0;
	int status = 0; bool dead = false, reaped = false, sigchld = false;
	std::map<int,int> handles;   // handle -> inode at replay
	int ops_at_kill = -1;
};
enum Status { ST_RUNNING, ST_EXITED, ST_SIGNALED, ST_CRASHED /* killed by the driver */, ST_VIOL };

struct World {                   // restored for every execution (value type)
	Fs fs;
	std::vector<Ofd> ofds; size_t ofdfree = 0;   // no free one before ofdfree
	std::vector<int> fds;          // fd -> ofd or -1
	std::vector<Sock> socks;
	std::vector<Listener> lis;
	std::vector<Epoll> eps;
	std::vector<Event> evs;
	static const int MAXT = 4;
	Thr thr[MAXT];
	int nthr = 0;
	std::vector<Child> kids;
	int cur = -1;                  // running thread
	int64_t now = 0;               // us
	int64_t itimer = 0, itimer_next = 0;
	void (*handlers[65])(int) = {};   // SIG_DFL=0, SIG_IGN=1
	uint64_t sigblocked = 0;
	std::vector<int> pend;         // pending signals
	int next_pid = 5000;
	int pid = 4000;
	str cwd = "/";
	Status status = ST_RUNNING; int exit_code = 0;
	bool in_child = false; std::vector<FsOp> childlog; int childhandles = 0;
	uint32_t seq = 1, ep_order = 1;
	std::map<const void*,int> mutexes;  // owner+1
	uint64_t steps = 0;            // simulated calls
	uint64_t fsops = 0;            // file operations
	bool auto_child = true;        // save processes finish by themselves at the next idle point
	bool dump_unsupported = false;
	int flocks=0;
};
extern World w;

// environment deviations enabled by the driver (not part of World; reset per execution)
struct Env {
	int shortw = 0;                // remaining short-write choices (socket output)
	std::function<int(int sock, size_t want)> outpolicy; // returns bytes accepted, or -1 default
	std::function<FsFault(FsOpKind k, const str& path, size_t n)> fsfault;
	std::function<void(const char*)> atcall;  // called at every simulated call of the main thread (not nested)
	bool in_atcall = false;
	std::function<void(int)> onfail;          // called when a call of the main thread has failed, with errno set; handlers delivered now can change errno
	std::function<bool(const char*)> park;    // true: the process stops before this call and the driver goes on
	bool realfork = false;                    // a fork before there are listeners makes a second full process
	int preempt = 0;               // remaining preemptions (thread scheduling)
	bool sched = false;            // schedule choices on
	bool all_sched = false;        // non-preemptive switches are also enumerated
	int acceptfaults = 0;
	bool eporder = false;          // enumerate the order of events in a batch
	std::function<int(int lis)> acceptfault; // errno or 0
	std::function<int()> forkfault;          // errno or 0
	std::function<void()> afterfork;         // parent, right before fork returns
	bool memsched = false;                   // memory accesses are scheduling points (tsan build)
	bool reuse = false;                       // freed memory is given out again (less use after free is noticed)
	int64_t steplimit = 400000;
	bool may_end = false, stop_sent = false;  // the server may end / was asked to (its loops look at the stop flag twice a second)
};
extern Env env;

// ---------------------------------------------------------------- control (driver side)
struct Variant { str so; str name; };
struct Base;                      // a booted (and possibly populated) server state
typedef std::function<void()> Fn;

// run the SUT until every thread is blocked (or it ended)
Status sut_run();
void sut_boot(const std::vector<str>& argv);  // fresh process image on the current fs
void sut_kill();                              // process group dies now
// driver actions
int  cl_connect(int port);                    // cache 8000 / monitor 8001 ...; -1 if nobody listens
void cl_send(int s, const str& d);
void cl_fin(int s);
void cl_close(int s);
void cl_reset(int s);
void cl_window(int s, int64_t cap);           // set send window (bytes), -1 unlimited
void advance(int64_t us);                     // clock (+SIGALRM)
void post_signal(int sig);
bool child_step(int idx);                     // one file operation of a save process; false when it is done
void child_finish(int idx);
void child_kill(int idx);
void child_die(int idx,int status);
int  live_child();                            // index of a running save process or -1
int  open_fds();
int  find_listener(int port);
struct HeapStat { uint64_t blocks, bytes; };
HeapStat heap_stat();
str  heap_live_dump();
Fs   fs_clone();
void touch(int s);
// several processes at once: each has its own memory, descriptors and threads, all share files, locks and the clock
int  proc_new(const std::vector<str>& argv);  // made, not yet run; the first call turns this mode on
void proc_run(int i);                         // until it stops at a call, blocks or ends
void proc_switch(int i);                      // its World becomes w
void proc_kill(int i);
int  proc_count();
Status proc_status(int i);
const World& proc_world(int i);
bool proc_bound(const Listener& l);              // another process has this address
bool proc_parked();                           // the last run stopped at a call
extern const char* g_call; extern str g_callpath;   // the call a process is about to make, and the file it works on
bool flock_conflict(int ino, uint64_t gid, bool ex);
void flock_drop(uint64_t gid);

// base states
typedef std::function<void()> Prologue;
void use_variant(const str& name);            // selects the shared object
void base_restore(const str& key, const std::vector<str>& argv, const Prologue& pro);
void world_reset_fs();                        // empty fs
void sim_init(const str& builddir);
void mem_pristine();
extern const char* g_curvariant;
void* sut_sym(const char* name);
extern bool g_tsan;

// coroutine glue used by shim
void co_block();                              // give up the CPU (state already set)
void sched_point(const char* what);
void sut_stop(Status st, int code);           // end the process from inside a call
int  do_fork();
void child_exit(int code);
void deliver_signals();
uint32_t ofd_ready(int ofd);
void close_ofd(int o);
int  fd_alloc(int ofd, int from = 0);
int  ofd_new(OfdKind k);
str  norm(const char* p);
FsFault fsop(FsOpKind k, const str& path, size_t n);
void thread_main();
void auto_children();
// arena
void* ar_alloc(size_t n, const void* pc);
void  ar_free(void* p, const void* pc);
size_t ar_size(void* p);
bool  ar_has(void* p);
void  check_mem(const void* p, size_t n, bool write, const char* what);
void on_sut_error(const char* msg);           // record a violation from inside SUT context and leave

// sim_*: everything the SUT may ask of libc / the kernel. objcopy renames the SUT's references.
#include "sim.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/eventfd.h>
#include <sys/file.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <algorithm>

int ep_collect(int ep, struct epoll_event* out, int max, bool consume);
bool sig_deliverable();
int thr_create(void* (*fn)(void*), void* arg);
void fs_unlink(const str& p);
int fs_create(const str& p);
void fs_write(int ino, uint64_t off, const char* p, size_t n);
str esc_str(const str&);
uint64_t g_transitions = 0;
extern uint64_t g_run_steps0;

#define RA __builtin_return_address(0)
void ckpt_here(); extern bool g_ckpt_armed;
// the first call of a start whose result depends on the files ends the common part of all starts
static inline void files(const char* cp = nullptr) { if (g_ckpt_armed && !(cp && w.fs.dirs->count(norm(cp)))) ckpt_here(); }
void park_here();
static void on_file(const char* p) { if (env.park) g_callpath = norm(p); }
static void on_fd(int fd) { if (env.park) g_callpath = fd >= 0 && fd < (int)w.fds.size() && w.fds[fd] >= 0 ? w.ofds[w.fds[fd]].path : str(); }
static void enter(const char* what) {
	w.steps++; g_transitions++;
	if ((int64_t)(w.steps - g_run_steps0) > env.steplimit) { char b[200]; snprintf(b, sizeof b, "the server makes no progress: %llu system calls without becoming idle (last %s)", (unsigned long long)(w.steps - g_run_steps0), what); on_sut_error(b); }
	if (w.cur == 0 && !w.in_child) {
		if (env.park) { g_call = what; bool stop = env.park(what); g_callpath.clear(); if (stop) park_here(); }
		if (env.atcall && !env.in_atcall) { env.in_atcall = true; env.atcall(what); env.in_atcall = false; }
		if (!w.pend.empty()) deliver_signals();
	}
	sched_point(what);
}
// a signal can arrive between a call that fails and the caller's look at errno
static int fail_call(int e) {
	errno = e;
	if (env.onfail && w.cur == 0 && !w.in_child && !env.in_atcall) { env.in_atcall = true; env.onfail(e); env.in_atcall = false; }
	return -1;
}
#define FAIL(e) return fail_call(e)
static int ofd_of(int fd) { if (fd < 0 || fd >= (int)w.fds.size() || w.fds[fd] < 0) return -1; return w.fds[fd]; }
static void rec(const FsOp& o) { if (w.in_child) w.childlog.push_back(o); }
static int child_handle(const Ofd& f) { return f.childhandle >= 0 ? f.childhandle : HANDLE_INO + f.obj; }
static str dirof(const str& p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }

extern "C" {
// ------------------------------------------------------------------ heap
void* sim_malloc(size_t n) { void* p = ar_alloc(n, RA); if (!p) errno = ENOMEM; return p; }
void sim_free(void* p) { ar_free(p, RA); }
void* sim_calloc(size_t a, size_t b) { void* p = ar_alloc(a * b, RA); if (p) memset(p, 0, a * b); return p; }
void* sim_realloc(void* p, size_t n) {
	if (!p) return ar_alloc(n, RA);
	if (!n) { ar_free(p, RA); return nullptr; }
	if (!ar_has(p)) { on_sut_error("realloc of a foreign pointer"); return nullptr; }
	check_mem(p, 1, false, "realloc");
	size_t o = ar_size(p); void* q = ar_alloc(n, RA); if (!q) return nullptr;
	memcpy(q, p, o < n ? o : n); ar_free(p, RA); return q;
}
char* sim_strdup(const char* s) { size_t n = strlen(s); check_mem(s, n + 1, false, "strdup"); char* p = (char*)ar_alloc(n + 1, RA); memcpy(p, s, n + 1); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)ar_alloc(n + 1, RA); memcpy(p, s, n); p[n] = 0; return p; }
void* sim__Znwm(size_t n) { return ar_alloc(n, RA); }
void* sim__Znam(size_t n) { return ar_alloc(n, RA); }
void sim__ZdlPv(void* p) { ar_free(p, RA); }
void sim__ZdaPv(void* p) { ar_free(p, RA); }
void sim__ZdlPvm(void* p, size_t) { ar_free(p, RA); }
void sim__ZdaPvm(void* p, size_t) { ar_free(p, RA); }
int sim_posix_memalign(void** o, size_t a, size_t n) { if (a > 16) return ENOMEM; *o = ar_alloc(n, RA); return 0; }
int sim_vasprintf(char** o, const char* f, va_list ap) { va_list a2; va_copy(a2, ap); int r = vsnprintf(nullptr, 0, f, a2); va_end(a2); *o = (char*)ar_alloc(r + 1, RA); vsnprintf(*o, r + 1, f, ap); return r; }
int sim_asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
void* sim_aligned_alloc(size_t a, size_t n) { if (a > 16) { errno = ENOMEM; return nullptr; } return ar_alloc(n, RA); }
void* sim_memalign(size_t a, size_t n) { return sim_aligned_alloc(a, n); }
void* sim__ZnwmRKSt9nothrow_t(size_t n, const void*) { return ar_alloc(n, RA); }
void* sim__ZnamRKSt9nothrow_t(size_t n, const void*) { return ar_alloc(n, RA); }
void sim__ZdlPvRKSt9nothrow_t(void* p, const void*) { ar_free(p, RA); }
void sim__ZdaPvRKSt9nothrow_t(void* p, const void*) { ar_free(p, RA); }

// ------------------------------------------------------------------ stdio (output is swallowed)
int sim_printf(const char*, ...) { return 0; }
int sim_puts(const char*) { return 0; }
int sim_putchar(int) { return 0; }
void sim_perror(const char*) {}
void sim_syslog(int, const char*, ...) {}
}
// a FILE of ours is an arena object
struct SFile { uint32_t magic; int fd; char buf[512]; int n, pos; bool eof, err; int wn; char wbuf[1024]; };
static const uint32_t SMAGIC = 0x51f11e;
extern "C" {
ssize_t sim_read(int fd, void* p, size_t n);
ssize_t sim_write(int fd, const void* p, size_t n);
int sim_close(int fd);
int sim_open(const char* p, int fl, ...);
FILE* sim_fdopen(int fd, const char*) {
	enter("fdopen");
	int o = ofd_of(fd); if (o < 0) { errno = EBADF; return nullptr; }
	FsFault f = fsop(OP_ALLOC, w.ofds[o].path, 0); if (f.act == ACT_ERR) { errno = f.err; return nullptr; }
	SFile* s = (SFile*)ar_alloc(sizeof(SFile), RA); s->magic = SMAGIC; s->fd = fd; s->n = s->pos = s->wn = 0; s->eof = s->err = false; return (FILE*)s;
}
FILE* sim_fopen(const char* p, const char* m) {
	int fl = m[0] == 'r' ? (strchr(m, '+') ? O_RDWR : O_RDONLY) : m[0] == 'w' ? (O_CREAT | O_TRUNC | (strchr(m, '+') ? O_RDWR : O_WRONLY)) : (O_CREAT | O_APPEND | O_WRONLY);
	int fd = sim_open(p, fl, 0666); if (fd < 0) return nullptr;
	SFile* s = (SFile*)ar_alloc(sizeof(SFile), RA); s->magic = SMAGIC; s->fd = fd; s->n = s->pos = s->wn = 0; s->eof = s->err = false; return (FILE*)s;
}
static bool sflush(SFile* s) { // what is written before a failure is lost, as far as it was not written
	char* p = s->wbuf; int n = s->wn; s->wn = 0;
	while (n > 0) { ssize_t r = sim_write(s->fd, p, n); if (r <= 0) { s->err = true; return false; } p += r; n -= (int)r; }
	return true;
}
static bool sput(FILE* f, const char* p, size_t n) { if (!ar_has(f)) return true; SFile* s = (SFile*)f; check_mem(s, sizeof *s, true, "a write to a FILE"); for (size_t i = 0; i < n; i++) { if (s->wn == (int)sizeof s->wbuf && !sflush(s)) return false; s->wbuf[s->wn++] = p[i]; } return true; }
int sim_vfprintf(FILE* f, const char* m, va_list ap) { if (!ar_has(f)) return 0; va_list a2; va_copy(a2, ap); int r = vsnprintf(nullptr, 0, m, a2); va_end(a2); str b(r + 1, 0); vsnprintf(&b[0], r + 1, m, ap); return sput(f, b.data(), r) ? r : -1; }
int sim_fprintf(FILE* f, const char* m, ...) { va_list ap; va_start(ap, m); int r = sim_vfprintf(f, m, ap); va_end(ap); return r; }
int sim_vdprintf(int fd, const char* m, va_list ap) { va_list a2; va_copy(a2, ap); int r = vsnprintf(nullptr, 0, m, a2); va_end(a2); str b(r + 1, 0); vsnprintf(&b[0], r + 1, m, ap); for (int i = 0; i < r;) { ssize_t k = sim_write(fd, b.data() + i, r - i); if (k <= 0) return -1; i += (int)k; } return r; }
int sim_dprintf(int fd, const char* m, ...) { va_list ap; va_start(ap, m); int r = sim_vdprintf(fd, m, ap); va_end(ap); return r; }
int sim_fputs(const char* p, FILE* f) { return sput(f, p, strlen(p)) ? 1 : -1; }
int sim_fputc(int c, FILE* f) { char b = (char)c; return sput(f, &b, 1) ? (unsigned char)c : -1; }
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim_fflush(FILE* f) { return !f || !ar_has(f) || sflush((SFile*)f) ? 0 : -1; }
int sim_fclose(FILE* f) { SFile* s = (SFile*)f; check_mem(s, sizeof *s, false, "fclose"); bool ok = sflush(s); int r = sim_close(s->fd); ar_free(s, RA); return ok ? r : -1; }
off64_t sim_lseek64(int fd, off64_t o, int wh);
int sim_fseek(FILE* f, long o, int wh) { SFile* s = (SFile*)f; if (!sflush(s)) return -1; if (wh == SEEK_CUR) o -= s->n - s->pos; s->n = s->pos = 0; s->eof = false; return sim_lseek64(s->fd, o, wh) < 0 ? -1 : 0; }
int sim_fseeko(FILE* f, off64_t o, int wh) { return sim_fseek(f, o, wh); }
void sim_rewind(FILE* f) { sim_fseek(f, 0, SEEK_SET); ((SFile*)f)->err = false; }
long sim_ftell(FILE* f) { SFile* s = (SFile*)f; off64_t o = sim_lseek64(s->fd, 0, SEEK_CUR); return o < 0 ? -1 : o - (s->n - s->pos) + s->wn; }
int sim_fileno(FILE* f) { if (!ar_has(f)) return f == stdin ? 0 : f == stdout ? 1 : 2; return ((SFile*)f)->fd; }
int sim_feof(FILE* f) { return ((SFile*)f)->eof; }
int sim_ferror(FILE* f) { return ((SFile*)f)->err; }
static int sgetc(SFile* s) {
	if (s->pos == s->n) { ssize_t r = sim_read(s->fd, s->buf, sizeof s->buf); if (r < 0) { s->err = true; return -1; } if (r == 0) { s->eof = true; return -1; } s->n = (int)r; s->pos = 0; }
	return (unsigned char)s->buf[s->pos++];
}
int sim_fgetc(FILE* f) { return sgetc((SFile*)f); }
int sim_getc(FILE* f) { return sgetc((SFile*)f); }
char* sim_fgets(char* b, int n, FILE* f) { SFile* s = (SFile*)f; int i = 0; while (i < n - 1) { int c = sgetc(s); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return nullptr; b[i] = 0; return b; }
ssize_t sim_getdelim(char** bp, size_t* len, int d, FILE* f) {
	SFile* s = (SFile*)f; check_mem(s, sizeof *s, false, "getline");
	str r; int c; while ((c = sgetc(s)) >= 0) { r += (char)c; if (c == d) break; }
	if (r.empty()) return -1;
	if (!*bp || *len < r.size() + 1) { size_t want = std::max<size_t>(120, r.size() + 1); *bp = (char*)sim_realloc(*bp, want); *len = want; }
	memcpy(*bp, r.c_str(), r.size() + 1); return (ssize_t)r.size();
}
ssize_t sim___getdelim(char** bp, size_t* len, int d, FILE* f) { return sim_getdelim(bp, len, d, f); }
ssize_t sim_getline(char** bp, size_t* len, FILE* f) { return sim_getdelim(bp, len, '\n', f); }
size_t sim_fread(void* p, size_t a, size_t b, FILE* f) { size_t n = a * b, i = 0; char* q = (char*)p; while (i < n) { int c = sgetc((SFile*)f); if (c < 0) break; q[i++] = (char)c; } return a ? i / a : 0; }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) { return sput(f, (const char*)p, a * b) ? b : 0; }

// ------------------------------------------------------------------ files
static int do_open(const char* cp, int fl, int mode) {
	files(); on_file(cp); enter("open");
	str p = norm(cp);
	bool creat = fl & O_CREAT;
	FsFault ff = fsop(creat ? OP_CREATE : OP_OPEN, p, 0);
	if (ff.act == ACT_ERR) { LOG("        open %s = -1 (errno %d injected)\n", p.c_str(), ff.err); FAIL(ff.err); }
	if (p == "/dev/null") { int o = ofd_new(O_NULL); return fd_alloc(o); }
	if (w.fs.dirs->count(p)) { if ((fl & O_ACCMODE) != O_RDONLY) FAIL(EISDIR); FAIL(EISDIR); }
	auto it = w.fs.names.find(p); int ino; bool fresh = false;
	if (it != w.fs.names.end()) {
		if (creat && (fl & O_EXCL)) FAIL(EEXIST);
		ino = it->second;
		if (fl & O_TRUNC) w.fs.clear(ino);
	} else {
		if (!creat) FAIL(ENOENT);
		if (!w.fs.dirs->count(dirof(p))) FAIL(ENOENT);
		ino = fs_create(p); w.fs.inodes[ino].mode = mode; fresh = true;
	}
	int o = ofd_new(O_FILE); Ofd& f = w.ofds[o]; f.obj = ino; f.flags = fl; f.path = p; w.fs.inodes[ino].opens++; f.gid = w.fs.next_gid++;
	if (w.in_child) { f.childhandle = w.childhandles++; FsOp r; r.kind = creat ? OP_CREATE : OP_OPEN; r.handle = f.childhandle; r.a = p; r.trunc = fl & O_TRUNC; r.creat = creat; rec(r); }
	int fd = fd_alloc(o);
	LOG("        open %s%s = %d\n", p.c_str(), fresh ? " (new)" : "", fd);
	return fd;
}
int sim_open(const char* p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return do_open(p, fl, m); }
int sim_open64(const char* p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return do_open(p, fl, m); }
int sim_openat(int, const char* p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return do_open(p, fl, m); }
int sim_creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int sim_close(int fd) {
	on_fd(fd); enter("close");
	int o = ofd_of(fd); if (o < 0) { LOG("        close %d = EBADF\n", fd); if (fd != -1) { char b[80]; snprintf(b, sizeof b, "close of descriptor %d, which is not open", fd); if (fd > 0) on_sut_error(b); } FAIL(EBADF); }
	LOG("        close %d (%s)\n", fd, w.ofds[o].kind == O_FILE ? w.ofds[o].path.c_str() : w.ofds[o].kind == O_SOCK ? "socket" : "other");
	w.fds[fd] = -1; close_ofd(o); return 0;
}
int sim_dup2(int a, int b) { int o = ofd_of(a); if (o < 0) FAIL(EBADF); if (a == b) return b; if (ofd_of(b) >= 0) { int q = w.fds[b]; w.fds[b] = -1; close_ofd(q); } while ((int)w.fds.size() <= b) w.fds.push_back(-1); w.fds[b] = o; w.ofds[o].ref++; return b; }
int sim_dup(int a) { int o = ofd_of(a); if (o < 0) FAIL(EBADF); return fd_alloc(o); }

static ssize_t file_write(Ofd& f, uint64_t off, const char* p, size_t n, bool upd) {
	FsFault ff = fsop(OP_WRITE, f.path, n);
	if (ff.act == ACT_ERR) { LOG("        write %s: errno %d injected\n", f.path.c_str(), ff.err); FAIL(ff.err); }
	size_t m = n;
	if ((ff.act == ACT_SHORT || ff.act == ACT_CRASH_PARTIAL) && n > 1) m = n / 2;
	fs_write(f.obj, off, p, m);
	LOG("        write %s off %llu n %zu of %zu\n", f.path.c_str(), (unsigned long long)off, m, n);
	FsOp r; r.kind = OP_WRITE; r.handle = child_handle(f); r.off = off; r.b.assign(p, m); r.a = f.path; rec(r);
	if (ff.act == ACT_CRASH_PARTIAL) sut_stop(ST_CRASHED, 0);
	if (upd) f.pos = off + m;
	return (ssize_t)m;
}
static ssize_t sock_write(int id, const char* p, size_t n) {
	Sock& s = w.socks[id];
	if (s.sut_shutwr || s.rst) { if (w.handlers[SIGPIPE] != SIG_IGN) { post_signal(SIGPIPE); deliver_signals(); } FAIL(s.rst ? ECONNRESET : EPIPE); }
	if (s.peer_closed) { s.rst = true; s.seq = ++w.seq; return (ssize_t)n; }
	if (n == 0) return 0;
	if (s.cap == 0) FAIL(EAGAIN);
	size_t m = n; if (s.cap > 0 && (size_t)s.cap < m) m = (size_t)s.cap;
	if (env.outpolicy) { int k = env.outpolicy(id, m); if (k == 0) FAIL(EAGAIN); if (k > 0 && (size_t)k < m) m = k; }
	if (s.out.size() + m > (600u << 20)) { on_sut_error("the server sends data without end"); FAIL(ECONNRESET); }
	s.out.append(p, m); if (s.cap > 0) s.cap -= m;
	LOG("        send to client %d: %zu of %zu bytes: %s\n", id, m, n, esc_str(str(p, m)).c_str());
	return (ssize_t)m;
}
static ssize_t do_write(int fd, const void* p, size_t n) {
	int o = ofd_of(fd); if (o < 0) FAIL(EBADF);
	Ofd& f = w.ofds[o]; check_mem(p, n, false, "write");
	switch (f.kind) {
	case O_FILE: if ((f.flags & O_ACCMODE) == O_RDONLY) FAIL(EBADF); return file_write(f, (f.flags & O_APPEND) ? w.fs.size(f.obj) : f.pos, (const char*)p, n, true);
	case O_SOCK: return sock_write(f.obj, (const char*)p, n);
	case O_EVENT: { if (n < 8) FAIL(EINVAL); uint64_t v; memcpy(&v, p, 8); w.evs[f.obj].val += v; w.evs[f.obj].seq = ++w.seq; return 8; }
	case O_STD: case O_NULL: return (ssize_t)n;
	default: FAIL(EINVAL);
	}
}
ssize_t sim_write(int fd, const void* p, size_t n) { on_fd(fd); enter("write"); return do_write(fd, p, n); }
ssize_t sim_send(int fd, const void* p, size_t n, int fl) {
	enter("send"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_SOCK) FAIL(ENOTSOCK); check_mem(p, n, false, "send");
	Sock& s = w.socks[w.ofds[o].obj]; if ((fl & MSG_NOSIGNAL) && (s.rst || s.sut_shutwr)) FAIL(EPIPE);
	return sock_write(w.ofds[o].obj, (const char*)p, n);
}
ssize_t sim_sendto(int fd, const void* p, size_t n, int fl, const struct sockaddr*, socklen_t) { return sim_send(fd, p, n, fl); }
ssize_t sim_writev(int fd, const struct iovec* v, int c) { enter("writev"); str b; for (int i = 0; i < c; i++) { check_mem(v[i].iov_base, v[i].iov_len, false, "writev"); b.append((char*)v[i].iov_base, v[i].iov_len); } return do_write(fd, b.data(), b.size()); }
ssize_t sim_sendmsg(int fd, const struct msghdr* m, int) { return sim_writev(fd, m->msg_iov, (int)m->msg_iovlen); }
ssize_t sim_pwrite(int fd, const void* p, size_t n, off_t off) { on_fd(fd); enter("pwrite"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_FILE) FAIL(ESPIPE); if (off < 0) FAIL(EINVAL); check_mem(p, n, false, "pwrite"); return file_write(w.ofds[o], off, (const char*)p, n, false); }
ssize_t sim_pwrite64(int fd, const void* p, size_t n, off_t off) { return sim_pwrite(fd, p, n, off); }

static ssize_t file_read(Ofd& f, uint64_t off, char* p, size_t n) {
	FsFault ff = fsop(OP_READ, f.path, n); if (ff.act == ACT_ERR) FAIL(ff.err);
	str d = w.fs.get(f.obj, off, n); memcpy(p, d.data(), d.size()); return (ssize_t)d.size();
}
static ssize_t sock_read(int id, char* p, size_t n, bool peek) {
	Sock& s = w.socks[id];
	if (s.inpos < s.in.size()) { size_t m = std::min(n, s.in.size() - s.inpos); memcpy(p, s.in.data() + s.inpos, m); if (!peek) s.inpos += m; LOG("        recv from client %d: %zu bytes\n", id, m); return (ssize_t)m; }
	if (s.rst) FAIL(ECONNRESET);
	if (s.fin) return 0;
	FAIL(EAGAIN);
}
static ssize_t do_read(int fd, void* p, size_t n) {
	int o = ofd_of(fd); if (o < 0) FAIL(EBADF);
	Ofd& f = w.ofds[o]; check_mem(p, n, true, "read into");
	switch (f.kind) {
	case O_FILE: { ssize_t r = file_read(f, f.pos, (char*)p, n); if (r > 0) f.pos += r; return r; }
	case O_SOCK: return sock_read(f.obj, (char*)p, n, false);
	case O_EVENT: { Event& e = w.evs[f.obj]; if (n < 8) FAIL(EINVAL); if (!e.val) FAIL(EAGAIN); uint64_t v = e.sema ? 1 : e.val; memcpy(p, &v, 8); e.val -= v; return 8; }
	case O_STD: case O_NULL: return 0;
	default: FAIL(EINVAL);
	}
}
ssize_t sim_read(int fd, void* p, size_t n) { on_fd(fd); enter("read"); return do_read(fd, p, n); }
ssize_t sim_recv(int fd, void* p, size_t n, int fl) { enter("recv"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_SOCK) FAIL(ENOTSOCK); check_mem(p, n, true, "recv into"); return sock_read(w.ofds[o].obj, (char*)p, n, fl & MSG_PEEK); }
ssize_t sim_recvfrom(int fd, void* p, size_t n, int fl, struct sockaddr*, socklen_t*) { return sim_recv(fd, p, n, fl); }
ssize_t sim_readv(int fd, const struct iovec* v, int c) { enter("readv"); ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_pread(int fd, void* p, size_t n, off_t off) { enter("pread"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_FILE) FAIL(ESPIPE); if (off < 0) FAIL(EINVAL); check_mem(p, n, true, "pread into"); return file_read(w.ofds[o], off, (char*)p, n); }
ssize_t sim_pread64(int fd, void* p, size_t n, off_t off) { return sim_pread(fd, p, n, off); }
ssize_t sim_sendfile(int out, int in, off_t* off, size_t n) {
	enter("sendfile");
	int o = ofd_of(out), i = ofd_of(in); if (o < 0 || i < 0) FAIL(EBADF);
	Ofd& fi = w.ofds[i]; if (fi.kind != O_FILE) FAIL(EINVAL);
	if (off && *off < 0) FAIL(EINVAL);
	FsFault ff = fsop(OP_SENDFILE_IN, fi.path, n); if (ff.act == ACT_ERR) FAIL(ff.err);
	uint64_t pos = off ? (uint64_t)*off : fi.pos; str d = w.fs.get(fi.obj, pos, n);
	if (d.empty()) return 0;
	if (ff.act == ACT_SHORT && d.size() > 1) d.resize(d.size() / 2);
	ssize_t r = w.ofds[o].kind == O_SOCK ? sock_write(w.ofds[o].obj, d.data(), d.size()) : w.ofds[o].kind == O_FILE ? file_write(w.ofds[o], w.ofds[o].pos, d.data(), d.size(), true) : -1;
	if (r > 0) { if (off) *off += r; else fi.pos += r; }
	return r;
}
ssize_t sim_sendfile64(int out, int in, off_t* off, size_t n) { return sim_sendfile(out, in, off, n); }
ssize_t sim_copy_file_range(int in, off_t* oi, int out, off_t* oo, size_t n, unsigned) {
	enter("copy_file_range"); int i = ofd_of(in), o = ofd_of(out); if (i < 0 || o < 0) FAIL(EBADF);
	Ofd &a = w.ofds[i], &b = w.ofds[o]; if (a.kind != O_FILE || b.kind != O_FILE) FAIL(EINVAL);
	uint64_t pi = oi ? *oi : a.pos, po = oo ? *oo : b.pos; 
	str d = w.fs.get(a.obj, pi, n); if (d.empty()) return 0; ssize_t r = file_write(b, po, d.data(), d.size(), false); if (r < 0) return r;
	if (oi) *oi += r; else a.pos += r; if (oo) *oo += r; else b.pos += r; return r;
}
off_t sim_lseek(int fd, off_t off, int wh) {
	on_fd(fd); enter("lseek"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); Ofd& f = w.ofds[o]; if (f.kind != O_FILE) FAIL(ESPIPE);
	FsFault ff = fsop(OP_SEEK, f.path, 0); if (ff.act == ACT_ERR) FAIL(ff.err);
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f.pos : (int64_t)w.fs.size(f.obj);
	if (b + off < 0) FAIL(EINVAL); f.pos = b + off; return f.pos;
}
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
int sim_ftruncate(int fd, off_t n) {
	on_fd(fd); enter("ftruncate"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); Ofd& f = w.ofds[o]; if (f.kind != O_FILE) FAIL(EINVAL); if (n < 0) FAIL(EINVAL);
	if (n > (off_t)FAR_FROM && !w.fs.inodes[f.obj].far) FAIL(EFBIG);
	FsFault ff = fsop(OP_TRUNC, f.path, n); if (ff.act == ACT_ERR) FAIL(ff.err);
	LOG("        ftruncate %s to %lld\n", f.path.c_str(), (long long)n);
	w.fs.resize(f.obj, n); FsOp r; r.kind = OP_TRUNC; r.handle = child_handle(f); r.off = n; r.a = f.path; rec(r); return 0;
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_fallocate(int fd, int mode, off_t off, off_t n) { enter("fallocate"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); Ofd& f = w.ofds[o]; if (f.kind != O_FILE) FAIL(EINVAL); FsFault ff = fsop(OP_TRUNC, f.path, n); if (ff.act == ACT_ERR) FAIL(ff.err); if (off + n > (off_t)FAR_FROM && !w.fs.inodes[f.obj].far) FAIL(EFBIG); if (!(mode & 1) && w.fs.size(f.obj) < (size_t)(off + n)) w.fs.resize(f.obj, off + n); FsOp r; r.kind = OP_TRUNC; r.handle = child_handle(f); r.off = w.fs.size(f.obj); r.a = f.path; rec(r); return 0; }
int sim_fallocate64(int fd, int mode, off_t off, off_t n) { return sim_fallocate(fd, mode, off, n); }
int sim_posix_fallocate(int fd, off_t off, off_t n) { int r = sim_fallocate(fd, 0, off, n); return r ? errno : 0; }
int sim_posix_fallocate64(int fd, off_t off, off_t n) { return sim_posix_fallocate(fd, off, n); }
int sim_fsync(int fd) { on_fd(fd); enter("fsync"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); FsFault ff = fsop(OP_SYNC, w.ofds[o].path, 0); if (ff.act == ACT_ERR) FAIL(ff.err); return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync() {}
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_unlink(const char* cp) {
	files(); on_file(cp); enter("unlink"); str p = norm(cp); FsFault ff = fsop(OP_UNLINK, p, 0); if (ff.act == ACT_ERR) FAIL(ff.err);
	FsOp r; r.kind = OP_UNLINK; r.a = p; rec(r);
	if (!w.fs.names.count(p)) FAIL(ENOENT);
	LOG("        unlink %s\n", p.c_str());
	fs_unlink(p); return 0;
}
int sim_unlinkat(int, const char* p, int) { return sim_unlink(p); }
int sim_remove(const char* p) { return sim_unlink(p); }
int sim_rename(const char* a, const char* b) {
	files(); on_file(a); enter("rename"); str p = norm(a), q = norm(b); FsFault ff = fsop(OP_RENAME, p, 0); if (ff.act == ACT_ERR) FAIL(ff.err);
	FsOp r; r.kind = OP_RENAME; r.a = p; r.b = q; rec(r);
	auto it = w.fs.names.find(p); if (it == w.fs.names.end()) FAIL(ENOENT);
	if (!w.fs.dirs->count(dirof(q))) FAIL(ENOENT);
	LOG("        rename %s -> %s\n", p.c_str(), q.c_str());
	if (p == q) return 0; int i = it->second; fs_unlink(q); w.fs.names.erase(p); w.fs.names[q] = i; return 0;
}
int sim_link(const char* a, const char* b) {
	files(); enter("link"); str p = norm(a), q = norm(b); FsFault ff = fsop(OP_LINK, p, 0); if (ff.act == ACT_ERR) FAIL(ff.err);
	FsOp r; r.kind = OP_LINK; r.a = p; r.b = q; rec(r);
	auto it = w.fs.names.find(p); if (it == w.fs.names.end()) FAIL(ENOENT); if (w.fs.names.count(q)) FAIL(EEXIST);
	int ino = it->second; w.fs.names[q] = ino; w.fs.inodes[ino].nlink++; return 0;
}
int sim_mkdir(const char* cp, mode_t) {
	files(cp); enter("mkdir"); str p = norm(cp); if (w.fs.dirs->count(p)) FAIL(EEXIST); FsFault ff = fsop(OP_MKDIR, p, 0); if (ff.act == ACT_ERR) FAIL(ff.err);
	if (w.fs.dirs->count(p) || w.fs.names.count(p)) FAIL(EEXIST); if (!w.fs.dirs->count(dirof(p))) FAIL(ENOENT);
	if (w.fs.dirs.use_count() > 1) w.fs.dirs = std::make_shared<std::set<str>>(*w.fs.dirs);
	w.fs.dirs->insert(p); FsOp r; r.kind = OP_MKDIR; r.a = p; rec(r); return 0;
}
int sim_access(const char* cp, int) { files(cp); enter("access"); str p = norm(cp); if (w.fs.dirs->count(p) || w.fs.names.count(p)) return 0; FAIL(ENOENT); }
int sim_chmod(const char* cp, mode_t m) { files(); enter("chmod"); str p = norm(cp); auto it = w.fs.names.find(p); if (it == w.fs.names.end()) { if (w.fs.dirs->count(p)) return 0; FAIL(ENOENT); } w.fs.inodes[it->second].mode = m; return 0; }
int sim_fchmod(int, mode_t) { return 0; }
static int fillstat(struct stat* s, int ino) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | w.fs.inodes[ino].mode; s->st_size = w.fs.size(ino); s->st_ino = ino + 10; s->st_nlink = w.fs.inodes[ino].nlink; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512; return 0; }
int sim_stat(const char* cp, struct stat* s) { files(cp); on_file(cp); enter("stat"); str p = norm(cp); if (w.fs.dirs->count(p)) { memset(s, 0, sizeof *s); s->st_mode = S_IFDIR | 0777; return 0; } auto it = w.fs.names.find(p); if (it == w.fs.names.end()) FAIL(ENOENT); return fillstat(s, it->second); }
int sim_lstat(const char* p, struct stat* s) { return sim_stat(p, s); }
int sim_stat64(const char* p, struct stat* s) { return sim_stat(p, s); }
int sim_fstat(int fd, struct stat* s) { on_fd(fd); enter("fstat"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind == O_FILE) return fillstat(s, w.ofds[o].obj); memset(s, 0, sizeof *s); s->st_mode = S_IFSOCK; return 0; }
int sim_fstat64(int fd, struct stat* s) { return sim_fstat(fd, s); }
struct SDir { struct dirent de; int pos; int n; char path[512]; };
DIR* sim_opendir(const char* cp) { files(); enter("opendir"); str p = norm(cp); if (!w.fs.dirs->count(p)) { errno = ENOENT; return nullptr; } SDir* d = (SDir*)ar_alloc(sizeof(SDir), RA); memset(d, 0, sizeof *d); snprintf(d->path, sizeof d->path, "%s", p.c_str()); return (DIR*)d; }
struct dirent* sim_readdir(DIR* x) {
	SDir* d = (SDir*)x; str p = d->path; if (p != "/") p += "/"; std::vector<str> v = {".", ".."};
	for (auto& e : *w.fs.dirs) if (e.size() > p.size() && e.compare(0, p.size(), p) == 0 && e.find('/', p.size()) == str::npos) v.push_back(e.substr(p.size()));
	for (auto& e : w.fs.names) if (e.first.compare(0, p.size(), p) == 0 && e.first.find('/', p.size()) == str::npos) v.push_back(e.first.substr(p.size()));
	std::sort(v.begin(), v.end()); str last = d->pos ? str(d->de.d_name) : "";
	for (auto& e : v) if (!d->pos || e > last) { d->pos = 1; snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.c_str()); d->de.d_type = w.fs.dirs->count(p + e) ? DT_DIR : DT_REG; return &d->de; }
	return nullptr;
}
struct dirent* sim_readdir64(DIR* x) { return sim_readdir(x); }
int sim_closedir(DIR* d) { ar_free(d, RA); return 0; }
int sim_rmdir(const char*) { FAIL(EACCES); }
static int lockfile(int fd, bool ex, bool un, bool nb) {
	on_fd(fd); enter("flock");
	int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_FILE) return 0;
	uint64_t gid = w.ofds[o].gid; int ino = w.ofds[o].obj;
	if (un) { for (size_t i = 0; i < w.fs.locks.size(); i++) if (w.fs.locks[i].gid == gid) { w.fs.locks.erase(w.fs.locks.begin() + i); break; } return 0; }
	FsFault ff = fsop(OP_LOCK, w.ofds[o].path, 0); if (ff.act == ACT_ERR) FAIL(ff.err);
	while (flock_conflict(ino, gid, ex)) {
		if (nb) { LOG("        lock of %s is refused\n", w.ofds[o].path.c_str()); FAIL(EAGAIN); }
		Thr& t = w.thr[w.cur]; t.st = T_FLOCK; t.wobj = o; t.waddr = ex ? (const void*)1 : nullptr; co_block(); t.st = T_RUN; if (w.cur == 0 && sig_deliverable()) { deliver_signals(); FAIL(EINTR); }
	}
	for (auto& l : w.fs.locks) if (l.gid == gid) { l.ex = ex; return 0; }
	w.fs.locks.push_back(FLock{ino, gid, ex, 1}); LOG("        %s lock on %s\n", ex ? "exclusive" : "shared", w.ofds[o].path.c_str()); return 0;
}
int sim_flock(int fd, int op) { return lockfile(fd, op & LOCK_EX, op & LOCK_UN, op & LOCK_NB); }
int sim_lockf(int fd, int cmd, off_t) { return lockfile(fd, true, cmd == F_ULOCK, cmd == F_TLOCK); }
int sim_chdir(const char* p) { w.cwd = norm(p); return 0; }

// a shell command: only plain "cp [-opts] A B" is known, everything else fails like a missing program
static std::vector<str> words(const char* c, bool& bad) {
	std::vector<str> v; str cur; bool in = false; bad = false;
	for (const char* p = c; *p; p++) {
		if (*p == '\'') { in = true; const char* e = strchr(p + 1, '\''); if (!e) { bad = true; return v; } cur.append(p + 1, e); p = e; }
		else if (*p == '"') { in = true; p++; while (*p && *p != '"') { if (*p == '\\' && p[1]) p++; cur += *p++; } if (!*p) { bad = true; return v; } }
		else if (*p == '\\' && p[1]) { in = true; cur += *++p; }
		else if (*p == ' ' || *p == '\t') { if (in) v.push_back(cur); cur.clear(); in = false; }
		else if (strchr("|&;<>()$`*?[\n!{}", *p) || (!in && (*p == '#' || *p == '~'))) { bad = true; return v; }
		else { in = true; cur += *p; }
	}
	if (in) v.push_back(cur);
	return v;
}
int sim_system(const char* c) {
	files(); enter("system");
	bool bad; std::vector<str> v = words(c, bad);
	if (bad || v.empty() || v[0] != "cp") return 127 << 8;
	std::vector<str> a; bool opts = true; for (size_t i = 1; i < v.size(); i++) if (opts && v[i] == "--") opts = false; else if (!opts || v[i].empty() || v[i][0] != '-') a.push_back(v[i]);
	if (a.size() != 2) return 1 << 8;
	str from = norm(a[0].c_str()), to = norm(a[1].c_str());
	LOG("        system(cp %s %s)\n", from.c_str(), to.c_str());
	FsFault f = fsop(OP_SYSTEM, to, 0); if (f.act == ACT_ERR) return 1 << 8;
	auto it = w.fs.names.find(from); if (it == w.fs.names.end()) return 1 << 8;
	if (!w.fs.dirs->count(dirof(to))) return 1 << 8;
	FsOp r; r.kind = OP_CPCREATE; r.a = from; r.b = to; rec(r);
	auto t = w.fs.names.find(to); int ino = t == w.fs.names.end() ? fs_create(to) : t->second; if (t != w.fs.names.end()) w.fs.clear(ino);
	f = fsop(OP_CPDATA, to, 1);
	if (f.act == ACT_ERR) return 1 << 8;
	int src = w.fs.names[from];
	if (f.act == ACT_CRASH_PARTIAL || f.act == ACT_SHORT) { w.fs.copy(src, ino); w.fs.resize(ino, std::min(w.fs.size(src), w.fs.size(src) / 2 + 1)); if (f.act == ACT_CRASH_PARTIAL) sut_stop(ST_CRASHED, 0); return 1 << 8; }
	w.fs.copy(src, ino);
	r.kind = OP_CPDATA; rec(r);
	return 0;
}

// ------------------------------------------------------------------ sockets
int sim_socket(int fam, int type, int) {
	enter("socket"); Listener l; l.fd_family = fam; w.lis.push_back(l); int o = ofd_new(O_LISTEN); w.ofds[o].obj = (int)w.lis.size() - 1; w.ofds[o].flags = type & O_NONBLOCK; return fd_alloc(o);
}
int sim_bind(int fd, const struct sockaddr* sa, socklen_t len) {
	enter("bind"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_LISTEN) FAIL(ENOTSOCK); Listener& l = w.lis[w.ofds[o].obj];
	check_mem(sa, len, false, "bind");
	if (sa->sa_family != l.fd_family) FAIL(EAFNOSUPPORT);
	char b[200] = "";
	if (sa->sa_family == AF_INET) { auto* s = (const sockaddr_in*)sa; inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); l.addr = b; l.port = ntohs(s->sin_port); }
	else if (sa->sa_family == AF_INET6) { auto* s = (const sockaddr_in6*)sa; inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b); l.addr = b; l.port = ntohs(s->sin6_port); }
	else if (sa->sa_family == AF_UNIX) { files(); auto* s = (const sockaddr_un*)sa; str p(s->sun_path, strnlen(s->sun_path, sizeof s->sun_path)); if (w.fs.names.count(norm(p.c_str()))) FAIL(EADDRINUSE); if (!w.fs.dirs->count(dirof(norm(p.c_str())))) FAIL(ENOENT); l.path = p; fs_create(norm(p.c_str())); }
	for (auto& x : w.lis) if (&x != &l && x.bound && !x.closed && x.fd_family == l.fd_family && x.addr == l.addr && x.port == l.port && l.fd_family != AF_UNIX) FAIL(EADDRINUSE);
	if (proc_bound(l)) FAIL(EADDRINUSE);
	l.bound = true; return 0;
}
int sim_listen(int fd, int n) { enter("listen"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_LISTEN) FAIL(ENOTSOCK); Listener& l = w.lis[w.ofds[o].obj]; if (!l.bound) FAIL(EINVAL); l.listening = true; l.backlog_arg = n; return 0; }
int sim_setsockopt(int fd, int lv, int op, const void*, socklen_t) {
	enter("setsockopt"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); Ofd& f = w.ofds[o];
	if (f.kind == O_LISTEN) { if (lv == SOL_IP && op == IP_TRANSPARENT) { if (w.lis[f.obj].fd_family == AF_UNIX) FAIL(EOPNOTSUPP); w.lis[f.obj].transparent = true; } return 0; }
	if (f.kind != O_SOCK) FAIL(ENOTSOCK); return 0;
}
int sim_getsockopt(int fd, int, int, void* v, socklen_t* l) { enter("getsockopt"); if (ofd_of(fd) < 0) FAIL(EBADF); if (v && l && *l >= 4) { int z = 0; memcpy(v, &z, 4); *l = 4; } return 0; }
static int do_accept(int fd, int fl) {
	enter("accept"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_LISTEN) FAIL(ENOTSOCK); int li = w.ofds[o].obj;
	if (env.acceptfault && !w.lis[li].backlog.empty()) { int e = env.acceptfault(li); if (e) { if (e == ECONNABORTED) { int s = w.lis[li].backlog.front(); w.lis[li].backlog.pop_front(); w.socks[s].rst = true; w.socks[s].sut_closed = true; } LOG("        accept: errno %d injected\n", e); FAIL(e); } }
	if (w.lis[li].backlog.empty()) { if (!(w.ofds[o].flags & O_NONBLOCK)) harness_error("blocking accept"); FAIL(EAGAIN); }
	int s = w.lis[li].backlog.front(); w.lis[li].backlog.pop_front(); w.socks[s].accepted = true;
	int n = ofd_new(O_SOCK); w.ofds[n].obj = s; w.ofds[n].flags = (fl & SOCK_NONBLOCK) ? O_NONBLOCK : 0; int r = fd_alloc(n);
	LOG("        thread %d accepts client %d as fd %d\n", w.cur, s, r); return r;
}
int sim_accept4(int fd, struct sockaddr*, socklen_t*, int fl) { return do_accept(fd, fl); }
int sim_accept(int fd, struct sockaddr*, socklen_t*) { return do_accept(fd, 0); }
int sim_shutdown(int fd, int how) { enter("shutdown"); int o = ofd_of(fd); if (o < 0) FAIL(EBADF); if (w.ofds[o].kind != O_SOCK) FAIL(ENOTSOCK); LOG("        shutdown client %d\n", w.ofds[o].obj); if (how != SHUT_RD) w.socks[w.ofds[o].obj].sut_shutwr = true; return 0; }
int sim_fcntl(int fd, int cmd, ...) {
	enter("fcntl"); va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); int o = ofd_of(fd); if (o < 0) FAIL(EBADF);
	switch (cmd) { case F_SETLK: case F_SETLKW: case F_OFD_SETLK: case F_OFD_SETLKW: { struct flock* l = (struct flock*)a; return lockfile(fd, l->l_type == F_WRLCK, l->l_type == F_UNLCK, cmd == F_SETLK || cmd == F_OFD_SETLK); } case F_GETFL: return w.ofds[o].flags; case F_SETFL: w.ofds[o].flags = (int)a; return 0; case F_GETFD: return 0; case F_SETFD: return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_alloc(o, (int)a); default: return 0; }
}
int sim_fcntl64(int fd, int cmd, long a) { return sim_fcntl(fd, cmd, a); }
int sim_ioctl(int fd, unsigned long, ...) { enter("ioctl"); if (ofd_of(fd) < 0) FAIL(EBADF); return 0; }
int sim_getpeername(int, struct sockaddr*, socklen_t*) { FAIL(ENOTCONN); }

int sim_epoll_create1(int) { enter("epoll_create"); w.eps.emplace_back(); int o = ofd_new(O_EPOLL); w.ofds[o].obj = (int)w.eps.size() - 1; return fd_alloc(o); }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
	enter("epoll_ctl"); int e = ofd_of(ep), o = ofd_of(fd); if (e < 0 || o < 0) FAIL(EBADF); if (w.ofds[e].kind != O_EPOLL) FAIL(EINVAL);
	if (w.ofds[o].kind == O_FILE || w.ofds[o].kind == O_STD) FAIL(EPERM);
	Epoll& E = w.eps[w.ofds[e].obj]; int i = E.find(fd, o);
	if (op == EPOLL_CTL_DEL) { if (i < 0) FAIL(ENOENT); E.del(i); return 0; }
	check_mem(ev, sizeof *ev, false, "epoll_ctl");
	if (op == EPOLL_CTL_ADD) { if (i >= 0) FAIL(EEXIST); EpItem it; it.fd = fd; it.ofd = o; it.events = ev->events; it.data = ev->data.u64; it.lastseq = 0; it.off = false; it.order = ++w.seq; E.add(it); return 0; }
	if (i < 0) FAIL(ENOENT);
	E.items[i].events = ev->events; E.items[i].data = ev->data.u64; E.items[i].off = false; E.items[i].lastseq = 0; E.items[i].order = ++w.seq; return 0;
}
int sim_epoll_wait(int ep, struct epoll_event* ev, int max, int to) {
	enter("epoll_wait"); int e = ofd_of(ep); if (e < 0) FAIL(EBADF); if (w.ofds[e].kind != O_EPOLL) FAIL(EINVAL);
	check_mem(ev, sizeof(struct epoll_event) * max, true, "epoll_wait into");
	Thr& t = w.thr[w.cur]; int me = w.cur; int64_t dl = to < 0 ? -1 : w.now + (int64_t)to * 1000;
	for (;;) {
		int n = ep_collect(w.ofds[e].obj, ev, max, true);
		if (n > 0) { if (me == 0) env.steplimit = std::max<int64_t>(env.steplimit, 1); return n; }
		if (to == 0) return 0;
		t.st = T_EPOLL; t.wobj = e; t.deadline = dl;
		co_block();
		t.st = T_RUN;
		if (me == 0 && sig_deliverable()) { deliver_signals(); FAIL(EINTR); }
		if (dl >= 0 && w.now >= dl && ep_collect(w.ofds[e].obj, nullptr, 1, false) == 0) { w.steps = w.steps; return 0; }
	}
}
int sim_epoll_pwait(int ep, struct epoll_event* ev, int max, int to, const sigset_t*) { return sim_epoll_wait(ep, ev, max, to); }
int sim_eventfd(unsigned v, int fl) { enter("eventfd"); Event e; e.val = v; e.sema = fl & EFD_SEMAPHORE; w.evs.push_back(e); int o = ofd_new(O_EVENT); w.ofds[o].obj = (int)w.evs.size() - 1; w.ofds[o].flags = fl & O_NONBLOCK; return fd_alloc(o); }
int sim_eventfd_write(int fd, uint64_t v) { return sim_write(fd, &v, 8) == 8 ? 0 : -1; }
int sim_eventfd_read(int fd, uint64_t* v) { return sim_read(fd, v, 8) == 8 ? 0 : -1; }

// ------------------------------------------------------------------ threads
int sim_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { files(); enter("pthread_create"); int i = thr_create(fn, arg); *t = (pthread_t)(i + 100); return 0; }
int sim_pthread_join(pthread_t t, void** r) {
	enter("pthread_join"); int i = (int)t - 100; if (i < 1 || i >= w.nthr) return ESRCH; Thr& me = w.thr[w.cur]; int c = w.cur;
	while (w.thr[i].st != T_DONE) { me.st = T_JOIN; me.wobj = i; co_block(); me.st = T_RUN; if (c == 0) deliver_signals(); }
	if (r) *r = w.thr[i].ret; return 0;
}
int sim_pthread_detach(pthread_t) { return 0; }
pthread_t sim_pthread_self() { return (pthread_t)(w.cur + 100); }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { w.mutexes[m] = 0; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
	enter("pthread_mutex_lock"); if (w.mutexes[m] == w.cur + 1) on_sut_error("deadlock: a thread locks a mutex it already holds");
	while (w.mutexes[m]) { w.thr[w.cur].st = T_MUTEX; w.thr[w.cur].waddr = m; co_block(); w.thr[w.cur].st = T_RUN; }
	w.mutexes[m] = w.cur + 1; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { enter("pthread_mutex_trylock"); if (w.mutexes[m]) return EBUSY; w.mutexes[m] = w.cur + 1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { enter("pthread_mutex_unlock"); w.mutexes[m] = 0; return 0; }
int sim_sched_yield() { enter("sched_yield"); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t* m, int) { *m = 0; return sim_pthread_mutex_init((pthread_mutex_t*)m, nullptr); }
int sim_pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* m) { return sim_pthread_mutex_lock((pthread_mutex_t*)m); }
int sim_pthread_spin_trylock(pthread_spinlock_t* m) { return sim_pthread_mutex_trylock((pthread_mutex_t*)m); }
int sim_pthread_spin_unlock(pthread_spinlock_t* m) { return sim_pthread_mutex_unlock((pthread_mutex_t*)m); }
// std::thread: the start routine and join live in libstdc++
struct StdThreadState { virtual ~StdThreadState() {} virtual void run() = 0; }; // laid out as std::thread::_State
static void* thread_state_run(void* p) { StdThreadState* s = (StdThreadState*)p; s->run(); delete s; return nullptr; }
void sim__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(pthread_t* self, void** state, void (*)()) { void* s = *state; *state = nullptr; sim_pthread_create(self, nullptr, thread_state_run, s); }
void sim__ZNSt6thread4joinEv(pthread_t* self) { sim_pthread_join(*self, nullptr); *self = 0; }
void sim__ZNSt6thread6detachEv(pthread_t* self) { *self = 0; }

// ------------------------------------------------------------------ processes, signals, time
pid_t sim_fork() { files(); enter("fork"); if (env.forkfault && !w.in_child) { int e = env.forkfault(); if (e) FAIL(e); } return do_fork(); }
pid_t sim_vfork() { return sim_fork(); }
void sim__exit(int c) { if (w.in_child) child_exit(c); sut_stop(ST_EXITED, c & 255); }
void sim__Exit(int c) { sim__exit(c); }
void sim_exit(int c) { sim__exit(c); }
void sim_abort() { on_sut_error("abort()"); }
void sim___assert_fail(const char* e, const char* f, unsigned l, const char*) { char b[300]; snprintf(b, sizeof b, "assertion %s failed at %s:%u", e, f, l); on_sut_error(b); }
int sim_atexit(void (*)()) { return 0; }
pid_t sim_waitpid(pid_t pid, int* st, int opt) {
	enter("waitpid");
	for (;;) {
		bool any = false;
		if (!w.in_child) for (auto& k : w.kids) { if (k.reaped) continue; if (pid > 0 && k.pid != pid) continue; any = true; if (k.dead) { k.reaped = true; if (st) { check_mem(st, 4, true, "waitpid into"); *st = k.status; } return k.pid; } }
		if (!any) FAIL(ECHILD);
		if (opt & WNOHANG) return 0;
		Thr& t = w.thr[w.cur]; t.st = T_WAITPID; t.wobj = pid > 0 ? pid : -1; co_block(); t.st = T_RUN;
		if (sig_deliverable()) { deliver_signals(); FAIL(EINTR); }
	}
}
pid_t sim_wait(int* st) { return sim_waitpid(-1, st, 0); }
int sim_kill(pid_t pid, int sig) { enter("kill"); if (pid == w.pid) { post_signal(sig); deliver_signals(); return 0; } for (size_t i = 0; i < w.kids.size(); i++) if (w.kids[i].pid == pid && !w.kids[i].reaped) { if (sig && !w.kids[i].dead) child_die((int)i, sig); return 0; } FAIL(ESRCH); }
int sim_raise(int sig) { return sim_kill(w.pid, sig); }
pid_t sim_getpid() { return w.in_child ? w.next_pid : w.pid; }
pid_t sim_getppid() { return 1; }
pid_t sim_setsid() { return w.pid; }
int sim_isatty(int) { return 0; }
sighandler_t sim_signal(int s, sighandler_t h) { enter("signal"); auto o = w.handlers[s]; w.handlers[s] = h; return o; }
int sim_sigaction(int s, const struct sigaction* a, struct sigaction* o) { enter("sigaction"); if (o) { memset(o, 0, sizeof *o); o->sa_handler = w.handlers[s]; } if (a) w.handlers[s] = a->sa_handler; return 0; }
int sim_sigprocmask(int how, const sigset_t* s, sigset_t* o) {
	enter("sigprocmask"); uint64_t old = w.sigblocked; if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (old >> i & 1) sigaddset(o, i); }
	if (s) { uint64_t m = 0; for (int i = 1; i < 64; i++) if (sigismember(s, i) == 1) m |= 1ull << i; if (how == SIG_BLOCK) w.sigblocked |= m; else if (how == SIG_UNBLOCK) w.sigblocked &= ~m; else w.sigblocked = m; if (w.cur == 0) deliver_signals(); } return 0;
}
int sim_pthread_sigmask(int how, const sigset_t* s, sigset_t* o) { if (w.cur != 0) return 0; return sim_sigprocmask(how, s, o); }
int sim_setitimer(int, const struct itimerval* v, struct itimerval*) { enter("setitimer"); w.itimer = v->it_interval.tv_sec * 1000000ll + v->it_interval.tv_usec; w.itimer_next = w.now + (v->it_value.tv_sec * 1000000ll + v->it_value.tv_usec); if (v->it_value.tv_sec == 0 && v->it_value.tv_usec == 0) w.itimer = 0; return 0; }
int sim_gettimeofday(struct timeval* t, void*) { w.steps++; t->tv_sec = w.now / 1000000; t->tv_usec = w.now % 1000000; return 0; }
time_t sim_time(time_t* t) { time_t r = w.now / 1000000; if (t) *t = r; return r; }
int sim_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = w.now / 1000000; t->tv_nsec = w.now % 1000000 * 1000; return 0; }
int sim_usleep(useconds_t us);
int64_t sim__ZNSt6chrono3_V212system_clock3nowEv() { return (int64_t)w.now * 1000; }
int64_t sim__ZNSt6chrono3_V212steady_clock3nowEv() { return (int64_t)w.now * 1000; }
int sim_clock_nanosleep(clockid_t, int fl, const struct timespec* a, struct timespec*) { int64_t us = a->tv_sec * 1000000ll + a->tv_nsec / 1000; if (fl & TIMER_ABSTIME) us = us > (int64_t)w.now ? us - (int64_t)w.now : 0; return sim_usleep((useconds_t)us) ? EINTR : 0; }
int sim_usleep(useconds_t us) { enter("usleep"); Thr& t = w.thr[w.cur]; t.st = T_SLEEP; t.deadline = w.now + us; int c = w.cur; co_block(); t.st = T_RUN; if (c == 0 && !w.in_child && sig_deliverable()) { deliver_signals(); FAIL(EINTR); } return 0; }
unsigned sim_sleep(unsigned s) { sim_usleep(s * 1000000u); return 0; }
int sim_nanosleep(const struct timespec* a, struct timespec*) { return sim_usleep((useconds_t)(a->tv_sec * 1000000 + a->tv_nsec / 1000)); }
int sim_gethostname(char* b, size_t n) { snprintf(b, n, "simhost"); return 0; }
char* sim_getenv(const char*) { return nullptr; }

// ------------------------------------------------------------------ memory access points (thread-instrumented build)
static inline void acc(void* p) {
	if (!env.memsched || !env.sched || w.in_child || w.cur < 0) return;
	char* q = (char*)p; char* me = (char*)0x310000000000ul + w.cur * (256 << 10);
	if (q >= me && q < me + (256 << 10)) return;
	g_transitions++;
	sched_point("memory access");
}
#define A(n) void __tsan_read##n(void* p) { acc(p); } void __tsan_write##n(void* p) { acc(p); } void __tsan_unaligned_read##n(void* p) { acc(p); } void __tsan_unaligned_write##n(void* p) { acc(p); } \
  void __tsan_volatile_read##n(void* p) { acc(p); } void __tsan_volatile_write##n(void* p) { acc(p); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void* p, size_t) { acc(p); }
void __tsan_write_range(void* p, size_t) { acc(p); }
#define AT(T, N) \
T __tsan_atomic##N##_load(const volatile T* a, int) { acc((void*)a); return *a; } \
void __tsan_atomic##N##_store(volatile T* a, T v, int) { acc((void*)a); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((void*)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { acc((void*)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((void*)a); T o = *a; if (o == c) *a = v; return o; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

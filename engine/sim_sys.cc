// The simulated libc / system calls imported by the code under test.
#include "sim.h"
#include <map>
#include <string>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <initializer_list>

bool deliver_signals();
void call_tick();
size_t sock_take(int, char *, size_t, std::vector<int> *);
int sock_send(int, const char *, size_t, const int *, int);
int sock_recv(int, char *, size_t, std::vector<int> *);
short sock_revents(int);
int sock_connect_node(int si, int node, int uid, int gid, int pid);
int vt_reldisp(int vt, long arg);
void vt_change(int to);
void *heap_alloc(Proc *p, size_t n, int fill);
int heap_find(Proc *, void *);
bool heap_free(Proc *, void *);
std::string node_path(int n);
Proc *proc_fork();
void proc_unsetenv(Proc *p, const char *k);
void proc_clearenv(Proc *p);

static int proc_errno[MAXPROC], host_errno;
int PIPECAP = 4096;
bool timeout_fire[MAXPROC];
bool step_mode;
int point_fd = -1;
const char *point_path = ""; // what the call at a choice point is about
unsigned long point_req = 0;

#define X extern "C" __attribute__((visibility("default")))

X int *sim___errno_location(void) { return cur ? &proc_errno[cur->id] : &host_errno; }
void proc_set_errno(Proc *p, int e) { proc_errno[p->id] = e; }
int proc_get_errno(Proc *p) { return proc_errno[p->id]; }
static int fail(int e) {
	*sim___errno_location() = e;
	return -1;
}

// ---- choice points ---------------------------------------------------------
// wide=1: the errors a call may fail with, all of those that mean nothing but failure
static const std::vector<int> &errors_of(const char *name, std::initializer_list<int> errs) {
	static const std::map<std::string, std::vector<int>> wide = {
		{"open", {EPERM, ENOENT, EIO, ENXIO, ENOMEM, EACCES, EBUSY, EEXIST, ENODEV, EINVAL, ENFILE, EMFILE, EROFS, ELOOP, EOVERFLOW, EBADF, ETXTBSY, ENOSPC}},
		{"ioctl", {EPERM, ENOENT, EIO, ENXIO, ENOMEM, EACCES, EBUSY, EEXIST, ENODEV, EINVAL, ENOTTY, ENOSYS, EBADF, EOPNOTSUPP, EFAULT}},
		{"realpath", {ENOENT, EIO, ENOMEM, EACCES, ENOTDIR, EINVAL, ELOOP, ENAMETOOLONG, EPERM}},
		{"sendmsg", {ENOBUFS, EPIPE, ECONNRESET, ENOMEM, EMSGSIZE, ETOOMANYREFS, EPERM, ENOTCONN, EBADF, EIO, EINVAL, ECONNREFUSED}},
		{"recvmsg", {ENOMEM, ECONNRESET, ENOBUFS, EIO, ENOTCONN, EINVAL, EPIPE, ETIMEDOUT}},
		{"accept", {EMFILE, ECONNABORTED, ENFILE, ENOMEM, ENOBUFS, EPERM, EPROTO, ENETDOWN}},
		{"connect", {ECONNREFUSED, ENOENT, EACCES, EPERM, ENOTSOCK, EPROTOTYPE, ENOTDIR, ETIMEDOUT, ENOMEM}},
		{"socket", {EMFILE, ENFILE, ENOMEM, EACCES, EAFNOSUPPORT}},
		{"fork", {EAGAIN, ENOMEM, ENOSYS}},
		{"poll", {ENOMEM, EINVAL, EFAULT}},
		{"read", {EIO, EBADF, EISDIR, EINVAL}},
		{"write", {EIO, EBADF, EPIPE, ENOSPC}},
		{"chmod", {EPERM, EROFS, ENOENT, EIO}},
		{"chown", {EPERM, EROFS, ENOENT, EIO, EINVAL}},
	};
	static std::vector<int> plain;
	if (XC.wide && errs.size()) {
		auto it = wide.find(name);
		if (it != wide.end()) {
			return it->second;
		}
	}
	plain.assign(errs.begin(), errs.end());
	return plain;
}
static Alt choose(const char *name, std::initializer_list<int> errs0, int nshort) {
	Alt a{ALT_NONE, 0};
	if (SC.frozen || !cur) {
		return a;
	}
	u32 pt = SC.pt++;
	bool want = SC.record;
	int alt = 0;
	for (int i = 0; i < SC.ndev; i++) {
		if (SC.dev[i].point == pt) {
			alt = SC.dev[i].alt;
			want = true;
		}
	}
	if (!want) {
		return a;
	}
	const std::vector<int> &errs = errors_of(name, errs0);
	int nf = XC.faults && errs.size() && H->fault_ok(cur, name) ? (int)errs.size() : 0;
	int ns = XC.shortio ? nshort : 0;
	int ni = XC.inject ? H->ninject() : 0;
	if (SC.record && pt < 60000) {
		SC.arity.push_back(nf + ns + ni);
	}
	if (alt == 0) {
		return a;
	}
	alt--;
	if (alt < nf) {
		int e = *(errs.begin() + alt);
		tracef("FAULT: %s fails with %s", name, strerrorname_np(e) ? strerrorname_np(e) : "?");
		H->on_fault(cur, name, e);
		return {ALT_FAULT, e};
	}
	alt -= nf;
	if (alt < ns) {
		tracef("SHORT: %s variant %d", name, alt);
		return {ALT_SHORT, alt};
	}
	alt -= ns;
	if (alt < ni) {
		tracef("INJECT at %s:", name);
		Proc *me = cur;
		H->inject(alt);
		cur = me;
		return a;
	}
	fprintf(stderr, "harness: alternative out of range at %s (nondeterminism)\n", name);
	abort();
}
static Alt point(const char *name, std::initializer_list<int> errs, int nshort = 0, bool visible = false) {
	if (!cur) {
		return {ALT_NONE, 0};
	}
	call_tick();
	if (step_mode && visible) {
		coro_yield();
	}
	Alt a = choose(name, errs, nshort);
	deliver_signals();
	return a;
}
Alt bus_point(const char *name, std::initializer_list<int> errs) { return point(name, errs); }
#define RET(v) \
	do { \
		auto _v = (v); \
		if (cur && (cur->sigpend & ~cur->sigmask)) { \
			int _e = *sim___errno_location(); \
			deliver_signals(); \
			(void)_e; \
		} \
		return _v; \
	} while (0)
#define FAULTED(a) \
	if ((a).type == ALT_FAULT) { \
		RET(fail((a).val)); \
	}

static void do_crash(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void do_crash(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(cur->crash, sizeof cur->crash, fmt, ap);
	va_end(ap);
	tracef("proc %d CRASH: %s", cur->id, cur->crash);
	cur->crashed = true;
	cur->exit_status = SIGABRT;
	proc_exit_cleanup(cur);
	coro_yield();
	abort();
}

// basic block hook (-fsanitize-coverage=trace-pc)
X void sim___sanitizer_cov_trace_pc(void) {
	if (!XC.bbpoints || SC.frozen || !cur) {
		return;
	}
	int e = proc_errno[cur->id];
	(void)e;
	choose("bb", {}, 0);
	if (cur->sigpend & ~cur->sigmask) {
		deliver_signals();
	}
}

// ---- memory -------------------------------------------------------------------
X void *sim_malloc(size_t n) {
	Alt a = point("malloc", {ENOMEM});
	if (a.type == ALT_FAULT) {
		fail(ENOMEM);
		return NULL;
	}
	return heap_alloc(cur, n, 0xA5);
}
X void *sim_calloc(size_t n, size_t m) {
	Alt a = point("calloc", {ENOMEM});
	if (a.type == ALT_FAULT || (m && n > (size_t)-1 / m)) {
		fail(ENOMEM);
		return NULL;
	}
	return heap_alloc(cur, n * m, 0);
}
X void sim_free(void *p) {
	if (!p) {
		return;
	}
	if (!heap_free(cur, p)) {
		do_crash("free of invalid or already freed pointer");
	}
}
static void *do_realloc(void *p, size_t n) {
	if (!p) {
		return heap_alloc(cur, n, 0xA5);
	}
	int i = heap_find(cur, p);
	if (i < 0 || !(*cur->blocks)[i].live) {
		do_crash("realloc of invalid or freed pointer");
	}
	size_t old = (*cur->blocks)[i].size;
	void *q = heap_alloc(cur, n, 0xA5);
	if (!q) {
		return NULL;
	}
	memcpy(q, p, old < n ? old : n);
	heap_free(cur, p);
	return q;
}
X void *sim_realloc(void *p, size_t n) {
	Alt a = point("realloc", {ENOMEM});
	if (a.type == ALT_FAULT) {
		fail(ENOMEM);
		return NULL;
	}
	return do_realloc(p, n);
}
X void *sim_reallocarray(void *p, size_t n, size_t m) {
	Alt a = point("realloc", {ENOMEM});
	if (a.type == ALT_FAULT || (m && n > (size_t)-1 / m)) {
		fail(ENOMEM);
		return NULL;
	}
	return do_realloc(p, n * m);
}
X char *sim_strndup(const char *s, size_t n) {
	Alt a = point("strdup", {ENOMEM});
	if (a.type == ALT_FAULT) {
		fail(ENOMEM);
		return NULL;
	}
	size_t l = strnlen(s, n);
	char *d = (char *)heap_alloc(cur, l + 1, 0);
	if (d) {
		memcpy(d, s, l);
	}
	return d;
}
X char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }
X char *sim___strdup(const char *s) { return sim_strndup(s, strlen(s)); }
X int sim_vasprintf(char **out, const char *fmt, va_list ap) {
	Alt a = point("asprintf", {ENOMEM});
	if (a.type == ALT_FAULT) {
		return fail(ENOMEM);
	}
	char buf[8192];
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	*out = (char *)heap_alloc(cur, n + 1, 0);
	memcpy(*out, buf, n + 1);
	return n;
}
X int sim_asprintf(char **out, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vasprintf(out, fmt, ap);
	va_end(ap);
	return r;
}

// ---- process control -------------------------------------------------------------
extern "C" void sim_exit(int) __attribute__((noreturn));
X void sim_exit(int code) {
	tracef("proc %d exit(%d)", cur->id, code);
	cur->exit_status = (code & 0xff) << 8;
	proc_exit_cleanup(cur);
	coro_yield();
	abort();
}
void h_exit(int c) { sim_exit(c); }
X __attribute__((noreturn)) void sim__exit(int code) { sim_exit(code); }
X __attribute__((noreturn)) void sim__Exit(int code) { sim_exit(code); }
X __attribute__((noreturn)) void sim_abort(void) { do_crash("abort() called"); }
X __attribute__((noreturn)) void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
	const char *b = strrchr(f, '/');
	do_crash("assertion failed: %s (%s:%u %s)", e, b ? b + 1 : f, l, fn);
}
X __attribute__((noreturn)) void sim___stack_chk_fail(void) { do_crash("stack smashing detected"); }
X int sim_raise(int s) {
	proc_signal(cur, s);
	deliver_signals();
	return 0;
}
X pid_t sim_fork(void) {
	Alt a = point("fork", {EAGAIN});
	FAULTED(a);
	if (K->nofork) {
		H->on_fault(cur, "fork", EAGAIN);
		return fail(EAGAIN);
	}
	Proc *c = proc_fork();
	if (!c) {
		tracef("proc %d: fork child", cur->id);
		return 0;
	}
	tracef("proc %d: fork -> proc %d", cur->id, c->id);
	return c->pid;
}
X pid_t sim_vfork(void) { return sim_fork(); }
static int do_exec(const char *path, char *const argv[], char *const envp[], const char *nm) {
	Alt a = point(nm, {EACCES});
	FAULTED(a);
	if (!path || !argv || !argv[0]) {
		return fail(EFAULT);
	}
	H->on_exec(cur, path, argv, envp);
	int e = H->exec_result(cur, path);
	if (e == 0) {
		// close-on-exec
		for (int f = 0; f < cur->maxfd; f++) {
			if (cur->fd[f].of >= 0 && cur->fd[f].cloexec) {
				int of = cur->fd[f].of;
				cur->fd[f].of = -1;
				of_unref(of);
			}
		}
		cur->suid = cur->euid;
		cur->sgid = cur->egid;
		cur->tag = 1; // replaced by another program: driven by the scenario
		cur->st = PS_BLOCKED;
		cur->bk = B_SLEEP;
		while (true) {
			cur->st = PS_BLOCKED;
			coro_yield();
		}
	}
	return fail(e);
}
X int sim_execve(const char *p, char *const argv[], char *const envp[]) { return do_exec(p, argv, envp, "execve"); }
X int sim_execv(const char *p, char *const argv[]) { return do_exec(p, argv, NULL, "execv"); }
X int sim_execvp(const char *p, char *const argv[]) { return do_exec(p, argv, NULL, "execvp"); }
X int sim_execvpe(const char *p, char *const argv[], char *const envp[]) { return do_exec(p, argv, envp, "execvpe"); }
static int exec_list(const char *p, const char *a0, va_list ap, bool env, const char *what) {
	char *argv[64];
	size_t n = 0;
	argv[n++] = (char *)a0;
	while (n < 63 && argv[n - 1]) {
		argv[n++] = va_arg(ap, char *);
	}
	argv[n] = NULL;
	return do_exec(p, argv, env ? va_arg(ap, char **) : NULL, what);
}
#define EXECL(name, env)                                       \
	X int sim_##name(const char *p, const char *a0, ...) { \
		va_list ap;                                    \
		va_start(ap, a0);                              \
		int r = exec_list(p, a0, ap, env, #name);      \
		va_end(ap);                                    \
		return r;                                      \
	}
EXECL(execl, false)
EXECL(execlp, false)
EXECL(execle, true)
X pid_t sim_waitpid(pid_t pid, int *st, int opt) {
	Alt a = point("waitpid", {ECHILD}, 1, true);
	FAULTED(a);
	if (a.type == ALT_SHORT) {
		RET(fail(EINTR));
	}
	cur->wait_pid = pid;
	while (true) {
		bool any = false;
		for (int i = 0; i < K->nproc; i++) {
			Proc *c = &PR[i];
			if (c->parent != cur->id || c->reaped || (pid > 0 && c->pid != pid)) {
				continue;
			}
			any = true;
			if (c->zombie) {
				c->reaped = true;
				if (st) {
					*st = c->exit_status;
				}
				H->on_wait(cur, c->pid, c->exit_status);
				tracef("proc %d: waitpid -> %d status %x", cur->id, c->pid, c->exit_status);
				RET(c->pid);
			}
		}
		if (!any) {
			RET(fail(ECHILD));
		}
		if (opt & WNOHANG) {
			RET(0);
		}
		cur->bk = B_WAITPID;
		cur->st = PS_BLOCKED;
		coro_yield();
		cur->st = PS_READY;
		if (cur->sigpend & ~cur->sigmask) {
			if (deliver_signals()) {
				return fail(EINTR);
			}
		}
	}
}
X pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
X int sim_kill(pid_t pid, int s) {
	Alt a = point("kill", {EPERM});
	H->on_kill(cur, pid, s);
	FAULTED(a);
	for (int i = 0; i < K->nproc; i++) {
		if (PR[i].pid == pid && !PR[i].reaped) {
			if (cur->euid && cur->euid != PR[i].uid && cur->euid != PR[i].suid && cur->uid != PR[i].uid && cur->uid != PR[i].suid) {
				RET(fail(EPERM));
			}
			if (s && !PR[i].zombie) {
				proc_signal(&PR[i], s);
			}
			RET(0);
		}
	}
	RET(fail(ESRCH));
}
X pid_t sim_getpid(void) { return cur->pid; }
X pid_t sim_getppid(void) { return cur->parent >= 0 ? PR[cur->parent].pid : 1; }
X uid_t sim_getuid(void) { return cur->uid; }
X uid_t sim_geteuid(void) { return cur->euid; }
X gid_t sim_getgid(void) { return cur->gid; }
X gid_t sim_getegid(void) { return cur->egid; }
// Linux' rules; uid == true for user ids
static bool may(int v, bool u) {
	return cur->euid == 0 || v == (u ? cur->uid : cur->gid) || v == (u ? cur->euid : cur->egid) || v == (u ? cur->suid : cur->sgid);
}
static int set3(const char *nm, bool u, int r, int e, int s) {
	Alt a = point(nm, {EAGAIN});
	FAULTED(a);
	for (int v : {r, e, s}) {
		if (v != -1 && !may(v, u)) {
			return fail(EPERM);
		}
	}
	int *f[3] = {u ? &cur->uid : &cur->gid, u ? &cur->euid : &cur->egid, u ? &cur->suid : &cur->sgid};
	int v[3] = {r, e, s};
	for (int i = 0; i < 3; i++) {
		if (v[i] != -1) {
			*f[i] = v[i];
		}
	}
	H->on_fs(cur, nm, "", u ? cur->euid : cur->egid, 0, 0);
	return 0;
}
X int sim_setuid(uid_t u) {
	bool root = cur->euid == 0;
	if (!root && (int)u != cur->uid && (int)u != cur->suid) {
		return fail(EPERM);
	}
	return set3("setuid", true, root ? (int)u : -1, (int)u, root ? (int)u : -1);
}
X int sim_setgid(gid_t g) {
	bool root = cur->euid == 0;
	if (!root && (int)g != cur->gid && (int)g != cur->sgid) {
		return fail(EPERM);
	}
	return set3("setgid", false, root ? (int)g : -1, (int)g, root ? (int)g : -1);
}
X int sim_seteuid(uid_t u) { return set3("setuid", true, -1, (int)u, -1); }
X int sim_setegid(gid_t g) { return set3("setgid", false, -1, (int)g, -1); }
X int sim_setresuid(uid_t r, uid_t e, uid_t s) { return set3("setuid", true, (int)r, (int)e, (int)s); }
X int sim_setresgid(gid_t r, gid_t e, gid_t s) { return set3("setgid", false, (int)r, (int)e, (int)s); }
X int sim_setreuid(uid_t r, uid_t e) { return set3("setuid", true, (int)r, (int)e, (int)r != -1 || ((int)e != -1 && (int)e != cur->uid) ? (int)e : -1); }
X int sim_setregid(gid_t r, gid_t e) { return set3("setgid", false, (int)r, (int)e, (int)r != -1 || ((int)e != -1 && (int)e != cur->gid) ? (int)e : -1); }
X int sim_setgroups(size_t, const gid_t *) { return cur->euid == 0 ? 0 : fail(EPERM); }
X int sim_initgroups(const char *, gid_t) { return cur->euid == 0 ? 0 : fail(EPERM); }
X int sim_prctl(int, ...) { return 0; }
X pid_t sim_setsid(void) { return cur->pid; }
X mode_t sim_umask(mode_t m) {
	mode_t o = cur->umask_;
	cur->umask_ = m & 0777;
	return o;
}

// ---- signals ---------------------------------------------------------------------
static u64 mask_of(const sigset_t *s) {
	u64 m = 0;
	for (int i = 1; i < 64; i++) {
		if (sigismember(s, i) == 1) {
			m |= 1ull << i;
		}
	}
	return m;
}
X int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o) {
	point("sigaction", {});
	if (s < 1 || s > 63 || s == SIGKILL || s == SIGSTOP) {
		return fail(EINVAL);
	}
	if (o) {
		memset(o, 0, sizeof *o);
		o->sa_handler = cur->sig[s].h;
		o->sa_flags = cur->sig[s].flags;
	}
	if (n) {
		cur->sig[s].h = n->sa_handler;
		cur->sig[s].flags = n->sa_flags;
		cur->sig[s].mask = mask_of(&n->sa_mask);
		if (n->sa_handler == SIG_IGN || (n->sa_handler == SIG_DFL && s == SIGCHLD)) {
			cur->sigpend &= ~(1ull << s);
		}
	}
	return 0;
}
X sighand sim_signal(int s, sighand h) {
	sighand o = cur->sig[s].h;
	cur->sig[s].h = h;
	cur->sig[s].flags = SA_RESTART;
	cur->sig[s].mask = 0;
	if (h == SIG_IGN) {
		cur->sigpend &= ~(1ull << s);
	}
	return o;
}
X sighand sim___sysv_signal(int s, sighand h) {
	sighand o = sim_signal(s, h);
	cur->sig[s].flags = (int)(SA_RESETHAND | SA_NODEFER);
	return o;
}
X int sim_sigprocmask(int how, const sigset_t *n, sigset_t *o) {
	if (o) {
		sigemptyset(o);
		for (int i = 1; i < 64; i++) {
			if (cur->sigmask & (1ull << i)) {
				sigaddset(o, i);
			}
		}
	}
	if (n) {
		u64 m = mask_of(n);
		if (how == SIG_BLOCK) {
			cur->sigmask |= m;
		} else if (how == SIG_UNBLOCK) {
			cur->sigmask &= ~m;
		} else {
			cur->sigmask = m;
		}
	}
	point("sigprocmask", {});
	return 0;
}
X int sim_pthread_sigmask(int how, const sigset_t *n, sigset_t *o) { return sim_sigprocmask(how, n, o); }

// ---- descriptors ---------------------------------------------------------------
static int badfd(const char *what, int fd) {
	tracef("proc %d: %s on bad descriptor %d", cur->id, what, fd);
	H->on_badfd(cur, what, fd);
	return fail(EBADF);
}
X int sim_close(int fd) {
	point("close", {}, 0, true);
	int of = fd_of(cur, fd);
	if (of < 0) {
		RET(badfd("close", fd));
	}
	tracef("proc %d: close(%d)", cur->id, fd);
	cur->fd[fd].of = -1;
	of_unref(of);
	RET(0);
}
static int dup_min(int fd, int min, bool cx, const char *nm) {
	Alt a = point(nm, {EMFILE});
	FAULTED(a);
	int of = fd_of(cur, fd);
	if (of < 0) {
		return badfd(nm, fd);
	}
	int n = fd_alloc(cur, of, cx, min);
	if (n < 0) {
		return fail(EMFILE);
	}
	return n;
}
X int sim_dup(int fd) { return dup_min(fd, 0, false, "dup"); }
X int sim_dup3(int fd, int n, int fl) {
	Alt a = point("dup3", {EMFILE});
	FAULTED(a);
	int of = fd_of(cur, fd);
	if (of < 0) {
		return badfd("dup3", fd);
	}
	if (n < 0 || n >= MAXFD) {
		return fail(EBADF);
	}
	K->of[of].refs++;
	if (n < cur->maxfd && cur->fd[n].of >= 0) {
		int o = cur->fd[n].of;
		cur->fd[n].of = -1;
		of_unref(o);
	}
	cur->fd[n].of = of;
	cur->fd[n].cloexec = fl & O_CLOEXEC;
	if (n >= cur->maxfd) {
		cur->maxfd = n + 1;
	}
	return n;
}
X int sim_dup2(int fd, int n) {
	if (fd == n) {
		return fd_of(cur, fd) >= 0 ? n : badfd("dup2", fd);
	}
	return sim_dup3(fd, n, 0);
}
X int sim_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
		return dup_min(fd, (int)arg, cmd == F_DUPFD_CLOEXEC, "fcntl(F_DUPFD)");
	}
	point_fd = fd;
	Alt a = point("fcntl", {EINVAL});
	FAULTED(a);
	int of = fd_of(cur, fd);
	if (of < 0) {
		RET(badfd("fcntl", fd));
	}
	switch (cmd) {
	case F_GETFD:
		RET(cur->fd[fd].cloexec ? FD_CLOEXEC : 0);
	case F_SETFD:
		cur->fd[fd].cloexec = arg & FD_CLOEXEC;
		RET(0);
	case F_GETFL:
		RET(K->of[of].flags);
	case F_SETFL:
		K->of[of].flags = (K->of[of].flags & (O_ACCMODE | O_CLOEXEC)) | (arg & ~(O_ACCMODE | O_CLOEXEC));
		RET(0);
	}
	RET(fail(EINVAL));
}
X int sim_fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return sim_fcntl(fd, cmd, arg);
}
static int do_open(const char *path, int flags, mode_t mode) {
	point_path = path;
	Alt a = point("open", {EMFILE, EIO});
	if (a.type == ALT_FAULT) {
		H->on_open(cur, path, -1, -1, flags);
		RET(fail(a.val));
	}
	(void)mode;
	int err = 0;
	int n = node_lookup(path, !(flags & O_NOFOLLOW), &err);
	if (n < 0) {
		H->on_open(cur, path, -1, -1, flags);
		tracef("proc %d: open(%s) fails: %s", cur->id, path, strerrorname_np(err));
		RET(fail(err));
	}
	if (K->node[n].type == N_LNK) {
		H->on_open(cur, path, -1, -1, flags);
		RET(fail(ELOOP));
	}
	int of = open_node(cur, n, flags & ~O_CLOEXEC, &err);
	if (of < 0) {
		H->on_open(cur, path, n, -1, flags);
		tracef("proc %d: open(%s) fails: %s", cur->id, path, strerrorname_np(err));
		RET(fail(err));
	}
	int fd = fd_alloc(cur, of, flags & O_CLOEXEC);
	if (fd < 0) {
		K->of[of].refs++;
		of_unref(of);
		RET(fail(EMFILE));
	}
	tracef("proc %d: open(%s) = %d", cur->id, path, fd);
	H->on_open(cur, path, n, of, flags);
	RET(fd);
}
X int sim_open(const char *path, int flags, ...) {
	return do_open(path, flags, 0);
}
X int sim_open64(const char *path, int flags, ...) { return do_open(path, flags, 0); }
X int sim___open_2(const char *path, int flags) { return do_open(path, flags, 0); }
X int sim_openat(int dfd, const char *path, int flags, ...) {
	(void)dfd;
	return do_open(path, flags, 0);
}
X int sim_pipe2(int fds[2], int flags) {
	Alt a = point("pipe", {EMFILE});
	FAULTED(a);
	int p = pipe_new(PIPECAP);
	int r = of_new(OF_PIPER, p, flags & O_NONBLOCK);
	int fr = fd_alloc(cur, r, flags & O_CLOEXEC);
	int w = of_new(OF_PIPEW, p, (flags & O_NONBLOCK) | O_WRONLY);
	int fw = fd_alloc(cur, w, flags & O_CLOEXEC);
	if (fr < 0 || fw < 0) {
		return fail(EMFILE);
	}
	fds[0] = fr;
	fds[1] = fw;
	return 0;
}
X int sim_pipe(int fds[2]) { return sim_pipe2(fds, 0); }

static ssize_t recv_on(int fd, char *buf, size_t n, int flags, std::vector<int> *ofs, const char *nm, Alt a);
static ssize_t send_on(int fd, const char *buf, size_t n, int flags, const std::vector<int> &ofs, Alt a);

X ssize_t sim_write(int fd, const void *buf, size_t n) {
	Alt a = cur->in_handler ? point("write", {}, 0, true) : point("write", {EIO}, 0, true); // the self-pipe is no call for a client
	int of = fd_of(cur, fd);
	if (of < 0) {
		RET(badfd("write", fd));
	}
	OFile *o = &K->of[of];
	if (a.type == ALT_FAULT) {
		RET(fail(a.val));
	}
	if (o->type == OF_SOCK) {
		return send_on(fd, (const char *)buf, n, 0, {}, a);
	}
	if (o->type == OF_PIPEW) {
		Pipe *p = &K->pipe[o->obj];
		if (p->nread <= 0) {
			proc_signal(cur, SIGPIPE);
			RET(fail(EPIPE));
		}
		size_t sp = p->cap - (p->hd - p->tl);
		if (sp == 0) {
			if (o->flags & O_NONBLOCK) {
				RET(fail(EAGAIN));
			}
			do_crash("blocking write on a full pipe");
		}
		if (n > sp) {
			n = sp;
		}
		for (size_t i = 0; i < n; i++) {
			p->buf[(p->hd + i) % sizeof p->buf] = ((const char *)buf)[i];
		}
		p->hd += n;
		H->on_write(cur, of, (const char *)buf, n);
		RET((ssize_t)n);
	}
	if (o->type == OF_NODE) {
		H->on_write(cur, of, (const char *)buf, n);
		RET((ssize_t)n);
	}
	RET(fail(EBADF));
}
X ssize_t sim_read(int fd, void *buf, size_t n) {
	Alt a = point("read", {EIO}, 1, true);
	int of = fd_of(cur, fd);
	if (of < 0) {
		RET(badfd("read", fd));
	}
	OFile *o = &K->of[of];
	FAULTED(a);
	if (o->type == OF_SOCK) {
		std::vector<int> ofs;
		ssize_t r = recv_on(fd, (char *)buf, n, 0, &ofs, "read", Alt{ALT_NONE, 0});
		for (int x : ofs) {
			of_unref(x);
		}
		return r;
	}
	if (o->type == OF_PIPER) {
		Pipe *p = &K->pipe[o->obj];
		if (a.type == ALT_SHORT) {
			RET(fail(EINTR));
		}
		while (p->hd == p->tl) {
			if (p->nwrite <= 0) {
				RET(0);
			}
			if (o->flags & O_NONBLOCK) {
				RET(fail(EAGAIN));
			}
			cur->bk = B_READ;
			cur->bfd = fd;
			cur->st = PS_BLOCKED;
			coro_yield();
			cur->st = PS_READY;
			if ((cur->sigpend & ~cur->sigmask) && deliver_signals()) {
				return fail(EINTR);
			}
		}
		size_t k = p->hd - p->tl;
		if (k > n) {
			k = n;
		}
		for (size_t i = 0; i < k; i++) {
			((char *)buf)[i] = p->buf[(p->tl + i) % sizeof p->buf];
		}
		p->tl += k;
		H->on_read(cur, of, k);
		RET((ssize_t)k);
	}
	RET(0);
}

// ---- sockets ----------------------------------------------------------------------
X int sim_socket(int dom, int type, int proto) {
	Alt a = point("socket", {EMFILE});
	FAULTED(a);
	(void)proto;
	if (dom != AF_UNIX) {
		return fail(EAFNOSUPPORT);
	}
	int s = sock_new();
	K->sock[s].owner = cur->id;
	int of = of_new(OF_SOCK, s, type & SOCK_NONBLOCK ? O_NONBLOCK | O_RDWR : O_RDWR);
	int fd = fd_alloc(cur, of, type & SOCK_CLOEXEC);
	if (fd < 0) {
		K->of[of].refs++;
		of_unref(of);
		return fail(EMFILE);
	}
	return fd;
}
X int sim_socketpair(int dom, int type, int proto, int fds[2]) {
	Alt a = point("socketpair", {EMFILE});
	FAULTED(a);
	(void)dom;
	(void)proto;
	int x, y;
	h_socketpair(&x, &y);
	int fl = type & SOCK_NONBLOCK ? O_NONBLOCK | O_RDWR : O_RDWR;
	for (int i = 0; i < 2; i++) {
		int s = i ? y : x;
		K->sock[s].owner = cur->id;
		K->sock[s].pid = cur->pid;
		K->sock[s].uid = cur->uid;
		K->sock[s].gid = cur->gid;
		int of = of_new(OF_SOCK, s, fl);
		fds[i] = fd_alloc(cur, of, type & SOCK_CLOEXEC);
	}
	return 0;
}
static int sock_of(int fd, const char *nm, int *err) {
	int of = fd_of(cur, fd);
	if (of < 0) {
		badfd(nm, fd);
		*err = EBADF;
		return -1;
	}
	if (K->of[of].type != OF_SOCK) {
		*err = ENOTSOCK;
		return -1;
	}
	return K->of[of].obj;
}
X int sim_bind(int fd, const struct sockaddr *sa, socklen_t len) {
	Alt a = point("bind", {EACCES});
	FAULTED(a);
	int err;
	int s = sock_of(fd, "bind", &err);
	if (s < 0) {
		return fail(err);
	}
	const struct sockaddr_un *un = (const struct sockaddr_un *)sa;
	std::string path(un->sun_path, strnlen(un->sun_path, len - offsetof(struct sockaddr_un, sun_path)));
	size_t sl = path.rfind('/');
	std::string dir = sl == std::string::npos ? "/" : path.substr(0, sl ? sl : 1);
	int e;
	int d = node_lookup(dir.c_str(), true, &e);
	if (d < 0) {
		return fail(e);
	}
	if (node_lookup(path.c_str(), false, &e) >= 0) {
		return fail(EADDRINUSE);
	}
	int n = node_mk(d, path.c_str() + (sl == std::string::npos ? 0 : sl + 1), N_SOCK, 0777 & ~cur->umask_, cur->euid,
			cur->egid);
	K->node[n].lsock = s;
	K->sock[s].node = n;
	tracef("proc %d: bind %s mode %o", cur->id, path.c_str(), K->node[n].mode);
	H->on_fs(cur, "bind", path.c_str(), n, 0, 0);
	RET(0);
}
X int sim_listen(int fd, int backlog) {
	Alt a = point("listen", {EADDRINUSE});
	FAULTED(a);
	int err;
	int s = sock_of(fd, "listen", &err);
	if (s < 0) {
		return fail(err);
	}
	K->sock[s].state = SS_LISTEN;
	K->sock[s].backlog = backlog;
	H->on_fs(cur, "listen", "", s, 0, 0);
	RET(0);
}
X int sim_accept4(int fd, struct sockaddr *sa, socklen_t *sl, int flags) {
	Alt a = point("accept", {EMFILE, ECONNABORTED});
	FAULTED(a);
	(void)sa;
	(void)sl;
	int err;
	int s = sock_of(fd, "accept", &err);
	if (s < 0) {
		return fail(err);
	}
	Sock *l = &K->sock[s];
	if (l->state != SS_LISTEN) {
		return fail(EINVAL);
	}
	while (l->naccq == 0) {
		if (K->of[fd_of(cur, fd)].flags & O_NONBLOCK) {
			return fail(EAGAIN);
		}
		cur->bk = B_ACCEPT;
		cur->bfd = fd;
		cur->st = PS_BLOCKED;
		coro_yield();
		cur->st = PS_READY;
		if ((cur->sigpend & ~cur->sigmask) && deliver_signals()) {
			return fail(EINTR);
		}
	}
	int e = l->accq[0];
	int of = of_new(OF_SOCK, e, flags & SOCK_NONBLOCK ? O_NONBLOCK | O_RDWR : O_RDWR);
	int nfd = fd_alloc(cur, of, flags & SOCK_CLOEXEC);
	if (nfd < 0) {
		K->of[of].type = OF_FREE;
		return fail(EMFILE);
	}
	l->naccq--;
	memmove(l->accq, l->accq + 1, l->naccq * sizeof l->accq[0]);
	K->sock[e].embryo = false;
	K->sock[e].owner = cur->id;
	if (K->sock[e].peer >= 0) {
		K->sock[e].tag = K->sock[K->sock[e].peer].tag;
	}
	tracef("proc %d: accept = %d (sock %d)", cur->id, nfd, e);
	H->on_accept(cur, e);
	RET(nfd);
}
X int sim_accept(int fd, struct sockaddr *sa, socklen_t *sl) { return sim_accept4(fd, sa, sl, 0); }
X int sim_connect(int fd, const struct sockaddr *sa, socklen_t len) {
	Alt a = point("connect", {ECONNREFUSED}, 0, true);
	const struct sockaddr_un *un = (const struct sockaddr_un *)sa;
	std::string path(un->sun_path, strnlen(un->sun_path, len - offsetof(struct sockaddr_un, sun_path)));
	H->on_fs(cur, "connect", path.c_str(), 0, 0, 0);
	FAULTED(a);
	int err;
	int s = sock_of(fd, "connect", &err);
	if (s < 0) {
		return fail(err);
	}
	int e;
	int n = node_lookup(path.c_str(), true, &e);
	if (n < 0) {
		return fail(e);
	}
	int r = sock_connect_node(s, n, cur->uid, cur->gid, cur->pid);
	if (r) {
		return fail(r);
	}
	K->sock[s].owner = cur->id;
	RET(0);
}
X int sim_shutdown(int fd, int how) {
	point("shutdown", {});
	int err;
	int s = sock_of(fd, "shutdown", &err);
	if (s < 0) {
		return fail(err);
	}
	Sock *k = &K->sock[s];
	if (k->state != SS_CONN) {
		return fail(ENOTCONN);
	}
	if (how == SHUT_WR || how == SHUT_RDWR) {
		h_shutdown_wr(s);
	}
	if (how == SHUT_RD || how == SHUT_RDWR) {
		k->rcv_shut = true;
		if (k->peer >= 0) {
			K->sock[k->peer].snd_shut = true;
		}
	}
	RET(0);
}
X int sim_getsockopt(int fd, int lvl, int opt, void *val, socklen_t *len) {
	point_fd = fd;
	Alt a = point("getsockopt", {ENOBUFS});
	FAULTED(a);
	int err;
	int s = sock_of(fd, "getsockopt", &err);
	if (s < 0) {
		return fail(err);
	}
	if (lvl == SOL_SOCKET && opt == SO_PEERCRED) {
		struct ucred c;
		c.pid = K->sock[s].pid;
		c.uid = K->sock[s].uid;
		c.gid = K->sock[s].gid;
		size_t n = *len < sizeof c ? *len : sizeof c;
		memcpy(val, &c, n);
		*len = n;
		RET(0);
	}
	if (lvl == SOL_SOCKET && opt == SO_ERROR) {
		*(int *)val = K->sock[s].err;
		K->sock[s].err = 0;
		RET(0);
	}
	return fail(ENOPROTOOPT);
}
X int sim_setsockopt(int, int, int, const void *, socklen_t) { return 0; }

static ssize_t send_on(int fd, const char *buf, size_t n, int flags, const std::vector<int> &ofs, Alt a) {
	int err;
	int s = sock_of(fd, "sendmsg", &err);
	if (s < 0) {
		RET(fail(err));
	}
	size_t want = n;
	if (a.type == ALT_SHORT && !XC.spurious && a.val != 1) {
		a.type = ALT_NONE;
	}
	if (a.type == ALT_SHORT) {
		if (a.val != 1) {
			H->on_sendblock(cur, s);
		}
		if (a.val == 0) {
			RET(fail(EAGAIN));
		} else if (a.val == 1) {
			RET(fail(EINTR));
		} else if (a.val == 2) {
			n = n > 1 ? 1 : n;
		} else if (a.val == 3) {
			n = n > 1 ? n - 1 : n;
		}
	}
	(void)want;
	int r = sock_send(s, buf, n, ofs.data(), (int)ofs.size());
	if (r == -EAGAIN || (r >= 0 && (size_t)r < n)) {
		H->on_sendblock(cur, s);
	}
	if (r < 0) {
		if (r == -EPIPE && !(flags & MSG_NOSIGNAL)) {
			proc_signal(cur, SIGPIPE);
		}
		if (r == -EAGAIN && !((flags & MSG_DONTWAIT) || (K->of[fd_of(cur, fd)].flags & O_NONBLOCK))) {
			do_crash("blocking send on a full socket");
		}
		tracef("proc %d: send(%d) -> %s", cur->id, fd, strerrorname_np(-r));
		RET(fail(-r));
	}
	tracef("proc %d: send(%d) %d/%zu bytes %zu fds", cur->id, fd, r, want, ofs.size());
	H->on_send(cur, s, buf, r, ofs);
	RET((ssize_t)r);
}
static ssize_t recv_on(int fd, char *buf, size_t n, int flags, std::vector<int> *ofs, const char *nm, Alt a) {
	int err;
	int s = sock_of(fd, nm, &err);
	if (s < 0) {
		RET(fail(err));
	}
	if (a.type == ALT_SHORT && !XC.spurious && a.val == 0) {
		a.type = ALT_NONE;
	}
	if (a.type == ALT_SHORT) {
		if (a.val == 0) {
			RET(fail(EAGAIN));
		} else if (a.val == 1) {
			RET(fail(EINTR));
		} else if (a.val == 2) {
			n = n > 1 ? 1 : n;
		}
	}
	bool peek = flags & MSG_PEEK;
	while (true) {
		int r;
		if (peek) {
			Sock *k = &K->sock[s];
			if (k->skb_hd != k->skb_tl) {
				u32 av = k->hd - k->tl;
				size_t m = av < n ? av : n;
				for (size_t j = 0; j < m; j++) {
					buf[j] = SB[s].buf[(k->tl + j) % SOCKBUF];
				}
				RET((ssize_t)m);
			}
		}
		r = sock_recv(s, buf, n, ofs);
		if (r == -EAGAIN && !(flags & MSG_DONTWAIT) && !(K->of[fd_of(cur, fd)].flags & O_NONBLOCK)) {
			cur->bk = B_RECV;
			cur->bfd = fd;
			cur->st = PS_BLOCKED;
			coro_yield();
			cur->st = PS_READY;
			if ((cur->sigpend & ~cur->sigmask) && deliver_signals()) {
				return fail(EINTR);
			}
			continue;
		}
		if (r < 0) {
			tracef("proc %d: recv(%d) -> %s", cur->id, fd, strerrorname_np(-r));
			RET(fail(-r));
		}
		tracef("proc %d: recv(%d) -> %d bytes %zu fds", cur->id, fd, r, ofs->size());
		H->on_recv(cur, s, buf, r, *ofs);
		return r;
	}
}
static Alt send_point(int fd) {
	point_fd = fd;
	int of = cur ? fd_of(cur, fd) : -1;
	(void)of;
	return point("sendmsg", {ENOBUFS}, 4, true);
}
X ssize_t sim_sendmsg(int fd, const struct msghdr *m, int flags) {
	Alt a = send_point(fd);
	FAULTED(a);
	std::string data;
	for (size_t i = 0; i < m->msg_iovlen; i++) {
		data.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
		H->on_iobuf(cur, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	}
	std::vector<int> ofs;
	if (m->msg_control && m->msg_controllen >= sizeof(struct cmsghdr)) {
		for (struct cmsghdr *c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR((struct msghdr *)m, c)) {
			if (c->cmsg_len < sizeof(struct cmsghdr) ||
			    (char *)c + c->cmsg_len > (char *)m->msg_control + m->msg_controllen) {
				RET(fail(EINVAL));
			}
			if (c->cmsg_level != SOL_SOCKET || c->cmsg_type != SCM_RIGHTS) {
				continue;
			}
			size_t k = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
			for (size_t i = 0; i < k; i++) {
				int f;
				memcpy(&f, CMSG_DATA(c) + i * sizeof(int), sizeof f);
				int of = fd_of(cur, f);
				if (of < 0) {
					H->on_badfd(cur, "sendmsg(SCM_RIGHTS)", f);
					RET(fail(EBADF));
				}
				ofs.push_back(of);
			}
		}
		if (ofs.size() > 253) {
			RET(fail(EINVAL));
		}
	}
	return send_on(fd, data.data(), data.size(), flags, ofs, a);
}
X ssize_t sim_send(int fd, const void *b, size_t n, int flags) {
	Alt a = send_point(fd);
	FAULTED(a);
	return send_on(fd, (const char *)b, n, flags, {}, a);
}
X ssize_t sim_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *, socklen_t) {
	return sim_send(fd, b, n, flags);
}
X ssize_t sim_writev(int fd, const struct iovec *v, int n) {
	Alt a = send_point(fd);
	FAULTED(a);
	std::string d;
	for (int i = 0; i < n; i++) {
		d.append((const char *)v[i].iov_base, v[i].iov_len);
	}
	return send_on(fd, d.data(), d.size(), 0, {}, a);
}
X ssize_t sim_recvmsg(int fd, struct msghdr *m, int flags) {
	point_fd = fd;
	Alt a = point("recvmsg", {ENOMEM, ECONNRESET}, 3, true);
	FAULTED(a);
	size_t tot = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) {
		tot += m->msg_iov[i].iov_len;
		H->on_iobuf(cur, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	}
	std::vector<char> tmp(tot ? tot : 1);
	std::vector<int> ofs;
	ssize_t r = recv_on(fd, tmp.data(), tot, flags, &ofs, "recvmsg", a);
	if (r < 0) {
		return r;
	}
	size_t off = 0;
	for (size_t i = 0; i < m->msg_iovlen && off < (size_t)r; i++) {
		size_t k = m->msg_iov[i].iov_len < r - off ? m->msg_iov[i].iov_len : r - off;
		memcpy(m->msg_iov[i].iov_base, tmp.data() + off, k);
		off += k;
	}
	m->msg_flags = 0;
	size_t space = m->msg_control ? m->msg_controllen : 0;
	m->msg_controllen = 0;
	if (!ofs.empty()) {
		size_t fit = space > CMSG_LEN(0) ? (space - CMSG_LEN(0)) / sizeof(int) : 0;
		std::vector<int> fds;
		for (size_t i = 0; i < ofs.size(); i++) {
			int f = -1;
			if (i < fit && !(m->msg_flags & MSG_CTRUNC)) {
				f = fd_alloc(cur, ofs[i], flags & MSG_CMSG_CLOEXEC);
			}
			of_unref(ofs[i]);
			if (f < 0) {
				m->msg_flags |= MSG_CTRUNC;
			} else {
				fds.push_back(f);
			}
		}
		if (fds.size() < ofs.size()) {
			int e;
			H->on_fdloss(cur, sock_of(fd, "recvmsg", &e), (int)(ofs.size() - fds.size()));
		}
		if (!fds.empty()) {
			struct cmsghdr *c = (struct cmsghdr *)m->msg_control;
			c->cmsg_level = SOL_SOCKET;
			c->cmsg_type = SCM_RIGHTS;
			c->cmsg_len = CMSG_LEN(fds.size() * sizeof(int));
			memcpy(CMSG_DATA(c), fds.data(), fds.size() * sizeof(int));
			size_t sp = CMSG_SPACE(fds.size() * sizeof(int));
			m->msg_controllen = sp < space ? sp : space;
		}
	}
	RET(r);
}
X ssize_t sim_recv(int fd, void *b, size_t n, int flags) {
	point_fd = fd;
	Alt a = point("recv", {ENOMEM, ECONNRESET}, 3, true);
	FAULTED(a);
	std::vector<int> ofs;
	ssize_t r = recv_on(fd, (char *)b, n, flags, &ofs, "recv", a);
	for (int x : ofs) {
		of_unref(x);
	}
	return r;
}
X ssize_t sim_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *, socklen_t *) {
	return sim_recv(fd, b, n, flags);
}

static std::vector<struct pollfd> pollcopy[MAXPROC];
static int do_poll(struct pollfd *p, nfds_t n, int timeout, u64 mask, bool setmask) {
	Alt a = cur->nopollfault ? point("poll", {}, 1, true) : point("poll", {ENOMEM}, 1, true);
	FAULTED(a);
	H->on_poll(cur);
	if (a.type == ALT_SHORT) {
		RET(fail(EINTR));
	}
	u64 old = cur->sigmask;
	if (setmask) {
		cur->sigmask = mask;
	}
	while (true) {
		int c = 0;
		for (nfds_t i = 0; i < n; i++) {
			p[i].revents = p[i].fd < 0 ? 0 : fd_revents(cur, p[i].fd, p[i].events);
			if (p[i].revents & POLLNVAL) {
				H->on_badfd(cur, "poll", p[i].fd);
			}
			c += p[i].revents != 0;
		}
		if (c) {
			cur->sigmask = old;
			H->on_pollret(cur, p, (int)n);
			RET(c);
		}
		if (cur->sigpend & ~cur->sigmask) {
			bool ran = deliver_signals();
			if (ran) {
				cur->sigmask = old;
				return fail(EINTR);
			}
		}
		if (timeout == 0) {
			cur->sigmask = old;
			RET(0);
		}
		cur->bk = B_POLL;
		pollcopy[cur->id].assign(p, p + n); // the original may be swapped out
		cur->pfds = pollcopy[cur->id].data();
		cur->npfds = (int)n;
		cur->timeout = timeout;
		cur->st = PS_BLOCKED;
		timeout_fire[cur->id] = false;
		coro_yield();
		cur->st = PS_READY;
		if (timeout_fire[cur->id]) {
			timeout_fire[cur->id] = false;
			cur->sigmask = old;
			RET(0);
		}
	}
}
X int sim_poll(struct pollfd *p, nfds_t n, int timeout) { return do_poll(p, n, timeout, 0, false); }
X int sim___poll_chk(struct pollfd *p, nfds_t n, int timeout, size_t) { return do_poll(p, n, timeout, 0, false); }
X int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s) {
	int to = t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1;
	return do_poll(p, n, to, s ? mask_of(s) : 0, s != NULL);
}
void proc_fire_timeout(Proc *p) {
	timeout_fire[p->id] = true;
	p->st = PS_READY;
}

// ---- ioctl --------------------------------------------------------------------
X int sim_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	long arg = va_arg(ap, long);
	va_end(ap);
	point_fd = fd;
	point_req = req & 0xffffffffu;
	Alt a = point("ioctl", {EIO});
	int of = fd_of(cur, fd);
	if (of < 0) {
		RET(badfd("ioctl", fd));
	}
	req &= 0xffffffffu;
	OFile *o = &K->of[of];
	int e = 0;
	if (a.type == ALT_FAULT) {
		e = a.val;
	} else if (o->type != OF_NODE) {
		e = ENOTTY;
	} else {
		Node *n = &K->node[o->obj];
		Vt *v = n->dev == D_TTY ? &K->vt[o->vt] : NULL;
		switch (req) {
		case 0x641e: // DRM_IOCTL_SET_MASTER
			if (n->dev != D_DRM) {
				e = ENOTTY;
			} else if (n->drm_master == of) {
			} else if (n->drm_master >= 0) {
				e = EBUSY;
			} else {
				n->drm_master = of;
				o->master = true;
			}
			break;
		case 0x641f: // DRM_IOCTL_DROP_MASTER
			if (n->dev != D_DRM) {
				e = ENOTTY;
			} else if (n->drm_master != of) {
				e = EINVAL;
			} else {
				n->drm_master = -1;
				o->master = false;
			}
			break;
		case 0x40044591: // EVIOCREVOKE
			e = n->dev != D_EVDEV ? ENOTTY : o->revoked ? ENODEV : arg ? EINVAL : 0;
			if (!e) {
				o->revoked = true;
			}
			break;
		case 0x4004480d: // HIDIOCREVOKE
			e = n->dev != D_HIDRAW ? ENOTTY : o->revoked ? ENODEV : 0;
			if (!e) {
				o->revoked = true;
			}
			break;
		case VT_GETSTATE:
			if (!v) {
				e = ENOTTY;
			} else {
				struct vt_stat *st = (struct vt_stat *)arg;
				st->v_active = K->vtname[K->fg];
				st->v_signal = 0;
				st->v_state = 1 | (K->vtname[K->fg] < 16 ? 1 << K->vtname[K->fg] : 0);
			}
			break;
		case VT_GETMODE:
			if (!v) {
				e = ENOTTY;
			} else {
				struct vt_mode *m = (struct vt_mode *)arg;
				memset(m, 0, sizeof *m);
				m->mode = v->process ? VT_PROCESS : VT_AUTO;
				m->relsig = v->relsig;
				m->acqsig = v->acqsig;
			}
			break;
		case VT_SETMODE:
			if (!v) {
				e = ENOTTY;
			} else {
				struct vt_mode *m = (struct vt_mode *)arg;
				if (m->mode != VT_AUTO && m->mode != VT_PROCESS) {
					e = EINVAL;
					break;
				}
				v->process = m->mode == VT_PROCESS;
				v->relsig = m->relsig;
				v->acqsig = m->acqsig;
				v->owner = cur->id;
				v->newvt = 0;
			}
			break;
		case VT_ACTIVATE:
			if (!v) {
				e = ENOTTY;
			} else if (vt_index((int)arg) < 1) {
				e = ENXIO;
			} else {
				tracef("proc %d: VT_ACTIVATE %ld", cur->id, arg);
				arg = vt_index((int)arg);
				vt_change((int)arg);
			}
			break;
		case VT_WAITACTIVE:
			break;
		case VT_RELDISP:
			if (!v) {
				e = ENOTTY;
			} else {
				tracef("proc %d: VT_RELDISP %ld on VT %d", cur->id, arg, o->vt);
				if (v->newvt > 0 && arg == 1) {
					H->on_ioctl(cur, of, req, -1, 0); // about to be released
				}
				e = vt_reldisp(o->vt, arg);
			}
			break;
		case KDSKBMODE:
			if (!v) {
				e = ENOTTY;
			} else {
				v->kb = (int)arg;
			}
			break;
		case KDGKBMODE:
			if (!v) {
				e = ENOTTY;
			} else {
				*(int *)arg = v->kb;
			}
			break;
		case KDSETMODE:
			if (!v) {
				e = ENOTTY;
			} else {
				v->kd = (int)arg;
			}
			break;
		case KDGETMODE:
			if (!v) {
				e = ENOTTY;
			} else {
				*(int *)arg = v->kd;
			}
			break;
		default:
			e = ENOTTY;
		}
	}
	if (o->type == OF_NODE) {
		tracef("proc %d: ioctl(%d [%s], %lx, %ld) = %s", cur->id, fd, K->node[o->obj].name, req,
		       req == VT_SETMODE || req == VT_GETSTATE ? 0 : arg, e ? strerrorname_np(e) : "0");
	}
	H->on_ioctl(cur, of, req, arg, e);
	RET(e ? fail(e) : 0);
}
X int sim_isatty(int fd) {
	int of = fd_of(cur, fd);
	if (of < 0) {
		return 0;
	}
	if (K->of[of].type == OF_NODE && K->node[K->of[of].obj].dev == D_TTY) {
		return 1;
	}
	fail(ENOTTY);
	return 0;
}
X int sim_tcgetattr(int, void *) { return fail(ENOTTY); }
X int sim_tcsetattr(int, int, const void *) { return fail(ENOTTY); }

// ---- file system -------------------------------------------------------------------
unsigned node_rdev(int n) {
	static const int majors[] = {0, 13, 226, 240, 4, 1};
	auto x = &K->node[n];
	int minor = (x->dev == D_EVDEV ? 64 : 0) + x->num;
	return (unsigned)((minor & 0xff) | majors[x->dev] << 8) | (unsigned)(minor & 0xfff00) << 12;
}
static void fill_stat(int n, struct stat *st) {
	memset(st, 0, sizeof *st);
	Node *x = &K->node[n];
	mode_t t = 0;
	switch (x->type) {
	case N_DIR:
		t = S_IFDIR;
		break;
	case N_REG:
		t = S_IFREG;
		break;
	case N_LNK:
		t = S_IFLNK;
		break;
	case N_CHR:
		t = S_IFCHR;
		break;
	case N_SOCK:
		t = S_IFSOCK;
		break;
	default:
		break;
	}
	st->st_mode = t | x->mode;
	st->st_uid = x->uid;
	st->st_gid = x->gid;
	st->st_ino = n + 1;
	st->st_dev = 5;
	st->st_nlink = 1;
	st->st_rdev = x->type == N_CHR ? node_rdev(x - K->node) : 0;
}
static int do_stat(const char *p, struct stat *st, bool follow, const char *nm) {
	Alt a = point(nm, {EACCES});
	FAULTED(a);
	int e;
	int n = node_lookup(p, follow, &e);
	if (n < 0) {
		RET(fail(e));
	}
	fill_stat(n, st);
	RET(0);
}
X int sim_stat(const char *p, struct stat *st) { return do_stat(p, st, true, "stat"); }
X int sim_lstat(const char *p, struct stat *st) { return do_stat(p, st, false, "lstat"); }
X int sim_stat64(const char *p, struct stat *st) { return do_stat(p, st, true, "stat"); }
X int sim_lstat64(const char *p, struct stat *st) { return do_stat(p, st, false, "lstat"); }
X int sim_fstatat(int, const char *p, struct stat *st, int fl) {
	return do_stat(p, st, !(fl & AT_SYMLINK_NOFOLLOW), "fstatat");
}
X int sim_fstat(int fd, struct stat *st) {
	Alt a = point("fstat", {EIO});
	FAULTED(a);
	int of = fd_of(cur, fd);
	if (of < 0) {
		return badfd("fstat", fd);
	}
	memset(st, 0, sizeof *st);
	if (K->of[of].type == OF_NODE) {
		fill_stat(K->of[of].obj, st);
	} else if (K->of[of].type == OF_SOCK) {
		st->st_mode = S_IFSOCK | 0777;
	} else {
		st->st_mode = S_IFIFO | 0600;
	}
	RET(0);
}
X int sim_access(const char *p, int) {
	Alt a = point("access", {EACCES});
	FAULTED(a);
	int e;
	if (node_lookup(p, true, &e) < 0) {
		return fail(e);
	}
	return 0;
}
X int sim_unlink(const char *p) {
	Alt a = point("unlink", {EACCES});
	FAULTED(a);
	int e;
	int n = node_lookup(p, false, &e);
	if (n < 0) {
		RET(fail(e));
	}
	if (K->node[n].type == N_DIR) {
		RET(fail(EISDIR));
	}
	K->node[n].linked = false;
	tracef("proc %d: unlink %s", cur->id, p);
	H->on_fs(cur, "unlink", p, n, 0, 0);
	RET(0);
}
X int sim_unlinkat(int, const char *p, int) { return sim_unlink(p); }
X int sim_remove(const char *p) { return sim_unlink(p); }
X int sim_mkdir(const char *p, mode_t) {
	(void)p;
	return fail(EACCES);
}
static int do_chmod(int n, mode_t m, const char *p) {
	K->node[n].mode = m & 07777;
	tracef("proc %d: chmod %s %o", cur->id, p, m);
	H->on_fs(cur, "chmod", p, n, m, 0);
	return 0;
}
X int sim_chmod(const char *p, mode_t m) {
	Alt a = point("chmod", {EPERM});
	FAULTED(a);
	int e;
	int n = node_lookup(p, true, &e);
	if (n < 0) {
		RET(fail(e));
	}
	if (cur->euid != 0 && cur->euid != K->node[n].uid) {
		RET(fail(EPERM));
	}
	RET(do_chmod(n, m, p));
}
static int do_chown(const char *p, uid_t u, gid_t g, bool follow) {
	Alt a = point("chown", {EPERM});
	FAULTED(a);
	int e;
	int n = node_lookup(p, follow, &e);
	if (n < 0) {
		RET(fail(e));
	}
	if (cur->euid != 0) {
		RET(fail(EPERM));
	}
	if (u != (uid_t)-1) {
		K->node[n].uid = u;
	}
	if (g != (gid_t)-1) {
		K->node[n].gid = g;
	}
	tracef("proc %d: chown %s %d:%d", cur->id, p, (int)u, (int)g);
	H->on_fs(cur, "chown", p, n, u, g);
	RET(0);
}
X int sim_chown(const char *p, uid_t u, gid_t g) { return do_chown(p, u, g, true); }
X int sim_lchown(const char *p, uid_t u, gid_t g) { return do_chown(p, u, g, false); }
X int sim_fchmodat(int, const char *p, mode_t m, int) { return sim_chmod(p, m); }
X int sim_fchownat(int, const char *p, uid_t u, gid_t g, int fl) { return do_chown(p, u, g, !(fl & AT_SYMLINK_NOFOLLOW)); }
X int sim_fchmod(int fd, mode_t m) {
	// on a socket descriptor this changes the socket inode, not the path; the
	// bound path keeps its mode (Linux), unless done before bind
	(void)fd;
	(void)m;
	point("fchmod", {});
	return 0;
}
X int sim_fchown(int, uid_t, gid_t) {
	point("fchown", {});
	return 0;
}
X int sim_rename(const char *o, const char *n) {
	Alt a = point("rename", {EACCES});
	FAULTED(a);
	int e;
	int x = node_lookup(o, false, &e);
	if (x < 0) {
		return fail(e);
	}
	std::string np(n);
	size_t sl = np.rfind('/');
	int d = node_lookup(sl == 0 ? "/" : np.substr(0, sl).c_str(), true, &e);
	if (d < 0) {
		return fail(e);
	}
	int y = node_lookup(n, false, &e);
	if (y >= 0) {
		K->node[y].linked = false;
	}
	K->node[x].parent = d;
	snprintf(K->node[x].name, sizeof K->node[x].name, "%s", np.c_str() + sl + 1);
	H->on_fs(cur, "rename", n, x, 0, 0);
	return 0;
}
X int sim_renameat(int, const char *o, int, const char *n) { return sim_rename(o, n); }
X int sim_mkdirat(int, const char *p, mode_t m) { return sim_mkdir(p, m); }
X ssize_t sim_readlink(const char *p, char *buf, size_t n) {
	int e;
	int x = node_lookup(p, false, &e);
	if (x < 0) {
		return fail(e);
	}
	if (K->node[x].type != N_LNK) {
		return fail(EINVAL);
	}
	size_t l = strlen(K->node[x].target);
	if (l > n) {
		l = n;
	}
	memcpy(buf, K->node[x].target, l);
	return l;
}
X char *sim_realpath(const char *p, char *out) {
	Alt a = point("realpath", {EACCES, EIO});
	if (a.type == ALT_FAULT) {
		fail(a.val);
		return NULL;
	}
	int e;
	std::string r;
	int n = node_lookup(p, true, &e, &r);
	if (n < 0) {
		fail(e);
		return NULL;
	}
	if (!out) {
		out = (char *)heap_alloc(cur, r.size() + 1, 0);
	}
	memcpy(out, r.c_str(), r.size() + 1);
	return out;
}
X char *sim___realpath_chk(const char *p, char *out, size_t) { return sim_realpath(p, out); }
X char *sim_canonicalize_file_name(const char *p) { return sim_realpath(p, NULL); }
X char *sim_getcwd(char *b, size_t n) {
	snprintf(b, n, "/");
	return b;
}

// ---- users, environment, time ----------------------------------------------------
static struct passwd pw;
static struct group gr;
X struct passwd *sim_getpwnam(const char *n) {
	Alt a = point("getpwnam", {EIO});
	memset(&pw, 0, sizeof pw);
	if (a.type == ALT_FAULT) {
		fail(EIO);
		return NULL;
	}
	pw.pw_name = (char *)"x";
	if (strcmp(n, "root") == 0) {
		pw.pw_uid = 0;
	} else if (strcmp(n, "alice") == 0) {
		pw.pw_uid = 1000;
		pw.pw_gid = 100;
	} else if (strcmp(n, "bob") == 0) {
		pw.pw_uid = 1001;
		pw.pw_gid = 100;
	} else {
		return NULL;
	}
	return &pw;
}
X struct group *sim_getgrnam(const char *n) {
	Alt a = point("getgrnam", {EIO});
	memset(&gr, 0, sizeof gr);
	if (a.type == ALT_FAULT) {
		fail(EIO);
		return NULL;
	}
	gr.gr_name = (char *)"x";
	if (strcmp(n, "root") == 0) {
		gr.gr_gid = 0;
	} else if (strcmp(n, "video") == 0) {
		gr.gr_gid = 44;
	} else if (strcmp(n, "seat") == 0) {
		gr.gr_gid = 45;
	} else {
		return NULL;
	}
	return &gr;
}
X struct passwd *sim_getpwuid(uid_t) { return NULL; }
X int sim_getpwuid_r(uid_t, struct passwd *, char *, size_t, struct passwd **res) {
	*res = NULL;
	return 0;
}
X int sim_getpwnam_r(const char *n, struct passwd *p, char *, size_t, struct passwd **res) {
	int keep = errno;
	errno = 0;
	struct passwd *r = sim_getpwnam(n);
	int e = r ? 0 : errno;
	errno = keep;
	*res = NULL;
	if (r) {
		*p = *r;
		*res = p;
	}
	return e;
}
X int sim_getgrnam_r(const char *n, struct group *g, char *, size_t, struct group **res) {
	int keep = errno;
	errno = 0;
	struct group *r = sim_getgrnam(n);
	int e = r ? 0 : errno;
	errno = keep;
	*res = NULL;
	if (r) {
		*g = *r;
		*res = g;
	}
	return e;
}
X char *sim_getenv(const char *k) {
	point("getenv", {});
	return (char *)proc_getenv(cur, k);
}
X char *sim_secure_getenv(const char *k) { return (char *)proc_getenv(cur, k); }
X int sim_setenv(const char *k, const char *v, int o) {
	Alt a = point("setenv", {ENOMEM});
	FAULTED(a);
	if (!o && proc_getenv(cur, k)) {
		return 0;
	}
	proc_setenv(cur, k, v);
	return 0;
}
X int sim_unsetenv(const char *k) {
	proc_unsetenv(cur, k);
	return 0;
}
X int sim_putenv(char *s) {
	char *e = strchr(s, '=');
	if (e) {
		proc_setenv(cur, std::string(s, e - s).c_str(), e + 1);
	}
	return 0;
}
X int sim_clearenv(void) {
	proc_clearenv(cur);
	return 0;
}
X int sim_clock_gettime(int, struct timespec *t) {
	point("clock_gettime", {});
	K->clock_ns += 1000;
	t->tv_sec = K->clock_ns / 1000000000ull;
	t->tv_nsec = K->clock_ns % 1000000000ull;
	return 0;
}
X int sim_gettimeofday(struct timeval *t, void *) {
	t->tv_sec = K->clock_ns / 1000000000ull;
	t->tv_usec = 0;
	return 0;
}
X time_t sim_time(time_t *t) {
	time_t v = K->clock_ns / 1000000000ull;
	if (t) {
		*t = v;
	}
	return v;
}
X int sim_usleep(unsigned) {
	point("usleep", {});
	return 0;
}
X int sim_nanosleep(const struct timespec *, struct timespec *) {
	point("nanosleep", {});
	return 0;
}
X unsigned sim_sleep(unsigned) {
	point("sleep", {});
	return 0;
}

// ---- stdio ------------------------------------------------------------------------
static std::string logacc[MAXPROC];
int STDIO_ERRNO; // what writing to the error stream leaves in errno
static void out(const char *s, size_t n) {
	point("stdio", {});
	if (STDIO_ERRNO) {
		*sim___errno_location() = STDIO_ERRNO;
	}
	if (H) {
		H->on_log(cur, std::string(s, n).c_str());
	}
	if (TRACE) {
		logacc[cur->id].append(s, n);
		size_t nl;
		while ((nl = logacc[cur->id].find('\n')) != std::string::npos) {
			tracef("proc %d says: %s", cur->id, logacc[cur->id].substr(0, nl).c_str());
			logacc[cur->id].erase(0, nl + 1);
		}
	}
}
X int sim_vfprintf(FILE *f, const char *fmt, va_list ap) {
	(void)f;
	char buf[8192];
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	out(buf, n < (int)sizeof buf ? n : sizeof buf - 1);
	return n;
}
X int sim_fprintf(FILE *f, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
X int sim_printf(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vfprintf(NULL, fmt, ap);
	va_end(ap);
	return r;
}
X int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(NULL, fmt, ap); }
X ssize_t sim_write(int fd, const void *b, size_t n);
X int sim_vdprintf(int fd, const char *fmt, va_list ap) {
	if (fd == 1 || fd == 2) {
		return sim_vfprintf(NULL, fmt, ap);
	}
	char buf[8192];
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	return (int)sim_write(fd, buf, n < (int)sizeof buf ? n : sizeof buf - 1);
}
X int sim_dprintf(int fd, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vdprintf(fd, fmt, ap);
	va_end(ap);
	return r;
}
X int sim_fputs(const char *s, FILE *) {
	out(s, strlen(s));
	return 1;
}
X int sim_puts(const char *s) {
	out(s, strlen(s));
	out("\n", 1);
	return 1;
}
X int sim_fputc(int c, FILE *) {
	char ch = (char)c;
	out(&ch, 1);
	return c;
}
X int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
X int sim_putchar(int c) { return sim_fputc(c, NULL); }
X size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *) {
	out((const char *)p, a * b);
	return b;
}
X int sim_fflush(FILE *) { return 0; }
X int sim_setvbuf(FILE *, char *, int, size_t) { return 0; }
X void sim_perror(const char *s) {
	std::string m = std::string(s) + ": " + strerror(*sim___errno_location()) + "\n";
	out(m.data(), m.size());
}

// ---- getopt (POSIX) -----------------------------------------------------------------
extern "C" {
__attribute__((visibility("default"))) char *sim_optarg;
__attribute__((visibility("default"))) int sim_optind = 1, sim_opterr = 1, sim_optopt = 0;
}
int opt_pos;
X int sim_getopt(int argc, char *const argv[], const char *os) {
	sim_optarg = NULL;
	if (opt_pos == 0) {
		if (sim_optind >= argc || argv[sim_optind] == NULL || argv[sim_optind][0] != '-' ||
		    argv[sim_optind][1] == 0) {
			return -1;
		}
		if (strcmp(argv[sim_optind], "--") == 0) {
			sim_optind++;
			return -1;
		}
		opt_pos = 1;
	}
	char c = argv[sim_optind][opt_pos++];
	const char *s = c == ':' ? NULL : strchr(os, c);
	bool end = argv[sim_optind][opt_pos] == 0;
	if (!s) {
		sim_optopt = c;
		if (end) {
			sim_optind++;
			opt_pos = 0;
		}
		return '?';
	}
	if (s[1] == ':') {
		if (!end) {
			sim_optarg = argv[sim_optind] + opt_pos;
			sim_optind++;
		} else {
			sim_optind++;
			if (sim_optind >= argc) {
				opt_pos = 0;
				sim_optopt = c;
				return os[0] == ':' ? ':' : '?';
			}
			sim_optarg = argv[sim_optind++];
		}
		opt_pos = 0;
	} else if (end) {
		sim_optind++;
		opt_pos = 0;
	}
	return c;
}
X int sim___posix_getopt(int argc, char *const argv[], const char *os) { return sim_getopt(argc, argv, os); }

// Simulated kernel: objects, files, sockets, VTs, signals, processes.
#include "sim.h"
#include <algorithm>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
bool ASAN = true;
#else
bool ASAN = false;
#define ASAN_POISON_MEMORY_REGION(a, b) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, b) ((void)0)
#endif

Kern *K;
Proc PR[MAXPROC];
Proc *cur;
SockBufs *SB;
ExecCfg XC;
StepCtl SC;
Hooks *H;
std::vector<Viol> VIOL;
std::string CHECKED; // only this property's violations count (empty: all)
bool TRACE, SPUN, preempt_next;

enum { STACKSZ = 512 << 10, ARENASZ = 4 << 20 };

void report(const char *prop, const char *fmt, ...) {
	char buf[1200];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (TRACE) {
		printf("  !! %s: %s\n", prop, buf);
	}
	if (!CHECKED.empty() && CHECKED != prop) {
		return;
	}
	if (VIOL.size() < 64) {
		VIOL.push_back({prop, buf});
	}
}
void tracef(const char *fmt, ...) {
	if (!TRACE) {
		return;
	}
	va_list ap;
	va_start(ap, fmt);
	fputs("    ", stdout);
	vprintf(fmt, ap);
	fputc('\n', stdout);
	va_end(ap);
	fflush(stdout);
}

__attribute__((no_sanitize("address"))) static void rawcopy(void *d, const void *s, size_t n) {
	asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

u64 hash_bytes(const void *p, size_t n, u64 h) {
	const u8 *b = (const u8 *)p;
	h ^= 0x9E3779B97F4A7C15ull + n;
	while (n >= 8) {
		u64 w;
		memcpy(&w, b, 8);
		h = (h ^ w) * 0xff51afd7ed558ccdull;
		h ^= h >> 32;
		b += 8;
		n -= 8;
	}
	u64 w = 0;
	memcpy(&w, b, n);
	h = (h ^ w) * 0xc4ceb9fe1a85ec53ull;
	h ^= h >> 29;
	return h;
}

// ---------------------------------------------------------------- modules
struct FindArg {
	Module *m;
	const char *path;
};
static int phdr_cb(struct dl_phdr_info *info, size_t, void *data) {
	FindArg *a = (FindArg *)data;
	if (!info->dlpi_name || strcmp(info->dlpi_name, a->path) != 0) {
		return 0;
	}
	uintptr_t ro_lo = 0, ro_hi = 0;
	for (int i = 0; i < info->dlpi_phnum; i++) {
		if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
			ro_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
			ro_hi = ro_lo + info->dlpi_phdr[i].p_memsz;
			ro_hi &= ~(uintptr_t)4095;
		}
	}
	for (int i = 0; i < info->dlpi_phnum; i++) {
		const ElfW(Phdr) &p = info->dlpi_phdr[i];
		if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) {
			continue;
		}
		uintptr_t lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
		if (ro_lo && ro_lo <= lo && ro_hi > lo) {
			lo = ro_hi;
		}
		if (lo >= hi) {
			continue;
		}
		Seg s;
		s.p = (char *)lo;
		s.n = hi - lo;
		s.saved = (char *)mmap(NULL, s.n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		rawcopy(s.saved, s.p, s.n);
		a->m->segs.push_back(s);
	}
	return 1;
}
Module *mod_load(const char *path, bool) {
	void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
	if (!h) {
		fprintf(stderr, "harness: cannot load %s: %s\n", path, dlerror());
		exit(2);
	}
	Module *m = new Module;
	m->h = h;
	m->path = path;
	FindArg a{m, path};
	dl_iterate_phdr(phdr_cb, &a);
	if (m->segs.empty()) {
		fprintf(stderr, "harness: no data segment found for %s\n", path);
		exit(2);
	}
	return m;
}
void *Module::sym(const char *name) {
	void *p = dlsym(h, name);
	return p;
}
void mod_reset(Module *m) {
	for (auto &s : m->segs) {
		rawcopy(s.p, s.saved, s.n);
	}
}

// ---------------------------------------------------------------- coroutines
extern "C" void *coro_switch(void **save, void *to, void *val);
extern "C" int coro_capture(void **save, void (*fn)(void *), void *arg);
asm(R"(
.text
.globl coro_switch
.type coro_switch,@function
coro_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	movq %rdx, %rax
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size coro_switch,.-coro_switch
.globl coro_capture
.type coro_capture,@function
coro_capture:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rdx, %rdi
	subq $8, %rsp
	call *%rsi
	addq $8, %rsp
	xorl %eax, %eax
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size coro_capture,.-coro_capture
)");

static void *ret_rsp[MAXPROC];
static void *fake_proc[MAXPROC], *fake_ret[MAXPROC];
static const void *ret_bottom[MAXPROC];
static size_t ret_size[MAXPROC];
static char *stacks[MAXPROC], *arenas[MAXPROC];
static std::vector<Block> blockv[MAXPROC];
static size_t arena_hiwater[MAXPROC];
static int as_resident[MAXPROC]; // address space -> resident proc
static std::vector<std::string> ENV[MAXPROC];
static std::vector<char *> ENVP[MAXPROC];
extern "C" {
__attribute__((visibility("default"))) char **sim_environ;
}
static void env_changed(int i) {
	ENVP[i].clear();
	for (auto &s : ENV[i]) {
		ENVP[i].push_back((char *)s.c_str());
	}
	ENVP[i].push_back(NULL);
	if (cur && cur->id == i) {
		sim_environ = ENVP[i].data();
	}
}
char **sim_env_of(Proc *p) {
	env_changed(p->id);
	return ENVP[p->id].data();
}

static void save_img(Proc *p) {
	size_t need = 0;
	for (auto &s : p->mod->segs) {
		need += s.n;
	}
	char *top = p->stack + STACKSZ;
	size_t sn = top - (char *)p->rsp;
	need += p->arena_off + sn;
	if (need > p->img_cap) {
		p->img = (char *)realloc(p->img, need * 2);
		p->img_cap = need * 2;
	}
	char *o = p->img;
	for (auto &s : p->mod->segs) {
		rawcopy(o, s.p, s.n);
		o += s.n;
	}
	rawcopy(o, p->arena, p->arena_off);
	o += p->arena_off;
	rawcopy(o, p->rsp, sn);
}
static void load_img(Proc *p) {
	char *o = p->img;
	for (auto &s : p->mod->segs) {
		rawcopy(s.p, o, s.n);
		o += s.n;
	}
	rawcopy(p->arena, o, p->arena_off);
	o += p->arena_off;
	char *top = p->stack + STACKSZ;
	rawcopy(p->rsp, o, top - (char *)p->rsp);
}

// the address space is p's from now on (processes related by fork share one)
static void make_resident(Proc *p) {
	if (as_resident[p->as] != p->id) {
		Proc *r = &PR[as_resident[p->as]];
		if (r->st != PS_EXITED && r->st != PS_NONE) {
			save_img(r);
		}
		load_img(p);
		as_resident[p->as] = p->id;
	}
}
#if defined(__SANITIZE_ADDRESS__)
// abandoned coroutines would leave their fake stacks behind
extern "C" __attribute__((visibility("default"))) const char *__asan_default_options() { return "detect_stack_use_after_return=0"; }
#endif
static void proc_resume(Proc *p) {
	make_resident(p);
	Proc *prev = cur;
	cur = p;
	sim_environ = ENVP[p->id].data();
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_start_switch_fiber(&fake_ret[p->id], p->stack, STACKSZ);
#endif
	coro_switch(&ret_rsp[p->id], p->rsp, (void *)1);
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_finish_switch_fiber(fake_ret[p->id], NULL, NULL);
#endif
	cur = prev;
}
void coro_yield() {
	Proc *p = cur;
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_start_switch_fiber(&fake_proc[p->id], ret_bottom[p->id], ret_size[p->id]);
#endif
	coro_switch(&p->rsp, ret_rsp[p->id], (void *)1);
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_finish_switch_fiber(fake_proc[cur->id], &ret_bottom[cur->id], &ret_size[cur->id]);
#endif
}
static void trampoline() {
	Proc *p = cur;
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_finish_switch_fiber(NULL, &ret_bottom[p->id], &ret_size[p->id]);
#endif
	p->entry(p->entry_arg);
	p->exit_status = 0;
	proc_exit_cleanup(cur);
	coro_yield();
	abort();
}

// fork(): duplicate the running coroutine's address space image.
static void fork_copy(void *arg) {
	Proc *c = (Proc *)arg;
	Proc *p = cur;
	void *keep = p->rsp;
	p->rsp = p->fork_rsp;
	c->rsp = p->fork_rsp;
	c->arena_off = p->arena_off;
	save_img(p);
	// hand the image to the child
	char *t = c->img;
	size_t tc = c->img_cap;
	c->img = p->img;
	c->img_cap = p->img_cap;
	p->img = t;
	p->img_cap = tc;
	p->rsp = keep;
}
Proc *proc_fork() {
	Proc *p = cur;
	int i = K->nproc++;
	if (i >= MAXPROC) {
		fprintf(stderr, "harness: too many processes\n");
		exit(2);
	}
	Proc *c = &PR[i];
	char *img = c->img;
	size_t ic = c->img_cap;
	char *stack = stacks[i];
	(void)stack;
	auto *bl = c->blocks;
	*c = *p;
	c->img = img;
	c->img_cap = ic;
	c->id = i;
	c->parent = p->id;
	c->pid = K->next_pid++;
	c->blocks = bl;
	*c->blocks = *p->blocks;
	ENV[i] = ENV[p->id];
	env_changed(i);
	c->st = PS_READY;
	c->bk = B_NONE;
	c->sigpend = 0;
	c->zombie = c->reaped = c->crashed = false;
	for (int f = 0; f < c->maxfd; f++) {
		if (c->fd[f].of >= 0) {
			K->of[c->fd[f].of].refs++;
		}
	}
	if (coro_capture(&p->fork_rsp, fork_copy, c) == 0) {
		return c; // parent
	}
	return NULL; // child
}

// ---------------------------------------------------------------- life cycle
void sim_global_init() {
	K = (Kern *)mmap(NULL, sizeof(Kern), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	SB = (SockBufs *)mmap(NULL, sizeof(SockBufs) * MAXSOCK, PROT_READ | PROT_WRITE,
			      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (int i = 0; i < MAXPROC; i++) {
		char *m = (char *)mmap(NULL, STACKSZ + 8192, PROT_READ | PROT_WRITE,
				       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		mprotect(m, 4096, PROT_NONE);
		stacks[i] = m + 4096;
		arenas[i] = (char *)mmap(NULL, ARENASZ, PROT_READ | PROT_WRITE,
					 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		ASAN_POISON_MEMORY_REGION(arenas[i], ARENASZ);
		PR[i].blocks = &blockv[i];
		PR[i].id = i;
		blockv[i].reserve(4096);
	}
}
void sim_reset() {
	// Only what was used.
	memset(K->of, 0, sizeof(OFile) * K->nof);
	memset(K->sock, 0, sizeof(Sock) * K->nsock);
	memset(K->pipe, 0, sizeof(Pipe) * K->npipe);
	memset(K->node, 0, sizeof(Node) * K->nnode);
	memset(K->vt, 0, sizeof K->vt);
	K->nof = K->nsock = K->npipe = K->nnode = 0;
	K->serial = 0;
	K->nproc = 0;
	K->fg = 1;
	K->next_pid = 100;
	K->clock_ns = 1000000000ull;
	K->have_vt = true;
	K->nvt = MAXVT;
	for (int i = 0; i <= MAXVT; i++) {
		K->vtname[i] = i;
	}
	for (int i = 1; i <= MAXVT; i++) {
		K->vt[i].kb = 3; // K_UNICODE
		K->vt[i].owner = -1;
	}
	for (int i = 0; i < MAXPROC; i++) {
		PR[i].st = PS_NONE;
		ENV[i].clear();
		blockv[i].clear();
		if (arena_hiwater[i]) {
			ASAN_POISON_MEMORY_REGION(arenas[i], arena_hiwater[i]);
			arena_hiwater[i] = 0;
		}
	}
	cur = NULL;
	SPUN = false;
	preempt_next = false;
	// root directory
	int r = K->nnode++;
	K->node[r].type = N_DIR;
	K->node[r].parent = r;
	K->node[r].linked = true;
	K->node[r].mode = 0755;
	K->node[r].lsock = -1;
	K->node[r].drm_master = -1;
}
int SHUT;
void fd_shut(Proc *p, int n) {
	for (int f = 0; f < n; f++) {
		int of = p->fd[f].of;
		p->fd[f].of = -1;
		of_unref(of);
	}
}
Proc *proc_new(Module *m, int uid, int gid) {
	int i = K->nproc++;
	if (i >= MAXPROC) {
		fprintf(stderr, "harness: too many processes\n");
		exit(2);
	}
	Proc *p = &PR[i];
	char *img = p->img;
	size_t ic = p->img_cap;
	int oldmax = p->maxfd;
	(void)oldmax;
	p->st = PS_NONE;
	p->bk = B_NONE;
	p->cpu_stuck = false;
	p->id = i;
	p->parent = -1;
	p->pid = K->next_pid++;
	p->uid = p->euid = p->suid = uid;
	p->gid = p->egid = p->sgid = gid;
	p->umask_ = 022;
	for (int f = 0; f < MAXFD; f++) {
		p->fd[f].of = -1;
	}
	p->maxfd = 0;
	p->fdlimit = MAXFD;
	memset(p->sig, 0, sizeof p->sig);
	p->sigmask = p->sigpend = 0;
	p->exit_status = 0;
	p->crashed = p->zombie = p->reaped = false;
	p->crash[0] = 0;
	p->saved_errno = 0;
	p->pfds = NULL;
	p->npfds = 0;
	p->interrupted = false;
	p->nsys = 0;
	p->mod = m;
	p->stack = stacks[i];
	p->stack_size = STACKSZ;
	p->arena = arenas[i];
	p->arena_off = 64;
	p->live_blocks = 0;
	p->live_bytes = 0;
	p->as = i;
	p->img = img;
	p->img_cap = ic;
	p->in_handler = 0;
	p->tag = 0;
	p->started = false;
	as_resident[i] = i;
	mod_reset(m);
	ENV[i].clear();
	env_changed(i);
	// fds 0-2
	static int nul;
	int err;
	nul = node_lookup("/dev/null", true, &err);
	if (nul < 0) {
		nul = node_mkpath("/dev/null", N_CHR, 0666);
		K->node[nul].dev = D_NULL;
	}
	int of = of_new(OF_NODE, nul, O_RDWR);
	int shut = SHUT; // without the first so many
	for (int f = 0; f < 3; f++) {
		fd_alloc(p, of, false);
	}
	fd_shut(p, shut);
	return p;
}
static void prep_stack(Proc *p) {
	ASAN_UNPOISON_MEMORY_REGION(p->stack, STACKSZ);
	u64 *top = (u64 *)(p->stack + STACKSZ - 64);
	// layout popped by coro_switch: r15 r14 r13 r12 rbx rbp ret
	*--top = 0; // fake return address of trampoline (alignment)
	*--top = (u64)trampoline;
	for (int i = 0; i < 6; i++) {
		*--top = 0;
	}
	p->rsp = top;
	p->st = PS_READY;
	p->started = true;
	fake_proc[p->id] = NULL;
}
static std::vector<std::string> ARGV[MAXPROC];
static std::vector<char *> ARGP[MAXPROC];
extern "C" void sim_exit(int) __attribute__((noreturn));
static void run_main(void *) {
	Proc *p = cur;
	int (*mainf)(int, char **) = (int (*)(int, char **))p->mod->sym("main");
	int r = mainf((int)ARGV[p->id].size(), ARGP[p->id].data());
	sim_exit(r);
}
extern "C" char *sim_optarg;
extern "C" int sim_optind, sim_opterr, sim_optopt;
extern int opt_pos;
void proc_start_main(Proc *p, std::vector<std::string> argv) {
	ARGV[p->id] = argv;
	ARGP[p->id].clear();
	for (auto &s : ARGV[p->id]) {
		ARGP[p->id].push_back((char *)s.c_str());
	}
	ARGP[p->id].push_back(NULL);
	sim_optind = 1;
	opt_pos = 0;
	sim_optarg = NULL;
	p->entry = run_main;
	p->entry_arg = NULL;
	prep_stack(p);
}
void proc_start_fn(Proc *p, void (*fn)(void *), void *arg) {
	p->entry = fn;
	p->entry_arg = arg;
	prep_stack(p);
}
void proc_exit_cleanup(Proc *p) {
	for (int f = 0; f < p->maxfd; f++) {
		if (p->fd[f].of >= 0) {
			int of = p->fd[f].of;
			p->fd[f].of = -1;
			of_unref(of);
		}
	}
	p->st = PS_EXITED;
	p->zombie = true;
	if (p->parent >= 0 && PR[p->parent].st != PS_EXITED) {
		Proc *pp = &PR[p->parent];
		if (pp->sig[SIGCHLD].h != SIG_DFL && pp->sig[SIGCHLD].h != SIG_IGN) {
			pp->sigpend |= 1ull << SIGCHLD;
		}
	}
	if (H) {
		H->on_exit(p);
	}
}
void proc_kill(Proc *p, int status) {
	if (p->st == PS_EXITED || p->st == PS_NONE) {
		return;
	}
	p->exit_status = status;
	proc_exit_cleanup(p);
}
static bool sig_default_ignored(int s) {
	return s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT;
}
void proc_signal(Proc *p, int s) {
	if (p->st == PS_EXITED || p->st == PS_NONE) {
		return;
	}
	sighand h = p->sig[s].h;
	if (h == SIG_IGN || (h == SIG_DFL && sig_default_ignored(s))) {
		return;
	}
	p->sigpend |= 1ull << s;
	tracef("signal %d pending for proc %d", s, p->id);
}
// deliver pending signals to the running process; returns true if a handler ran
int proc_get_errno(Proc *p);
bool deliver_signals() {
	Proc *p = cur;
	bool ran = false;
	while (p->sigpend & ~p->sigmask) {
		int s = __builtin_ctzll(p->sigpend & ~p->sigmask);
		p->sigpend &= ~(1ull << s);
		sighand h = p->sig[s].h;
		if (h == SIG_IGN || (h == SIG_DFL && sig_default_ignored(s))) {
			continue;
		}
		if (h == SIG_DFL) {
			tracef("proc %d killed by signal %d", p->id, s);
			p->exit_status = s;
			proc_exit_cleanup(p);
			coro_yield();
		}
		u64 old = p->sigmask;
		p->sigmask |= p->sig[s].mask;
		if (!(p->sig[s].flags & SA_NODEFER)) {
			p->sigmask |= 1ull << s;
		}
		if (p->sig[s].flags & SA_RESETHAND) {
			p->sig[s].h = SIG_DFL;
		}
		p->in_handler++;
		tracef("proc %d runs handler of signal %d", p->id, s);
		int e0 = proc_get_errno(p);
		h(s);
		H->on_handler(p, s, e0, proc_get_errno(p));
		p->in_handler--;
		p->sigmask = old;
		ran = true;
	}
	return ran;
}

static std::function<void()> jobs[MAXPROC];
static bool job_pend[MAXPROC], job_busy[MAXPROC];
static void job_loop(void *) {
	while (true) {
		while (!job_pend[cur->id]) {
			cur->st = PS_BLOCKED;
			cur->bk = B_JOB;
			coro_yield();
			deliver_signals();
		}
		job_pend[cur->id] = false;
		job_busy[cur->id] = true;
		jobs[cur->id]();
		job_busy[cur->id] = false;
	}
}
void proc_start_jobs(Proc *p) {
	job_pend[p->id] = job_busy[p->id] = false;
	proc_start_fn(p, job_loop, NULL);
	proc_run(p);
}
void proc_post(Proc *p, std::function<void()> f) {
	if (job_pend[p->id] || job_busy[p->id]) {
		fprintf(stderr, "harness: job posted to a busy process\n");
		abort();
	}
	jobs[p->id] = std::move(f);
	job_pend[p->id] = true;
}
bool proc_busy(Proc *p) { return job_busy[p->id] || job_pend[p->id]; }

short fd_revents(Proc *p, int fd, short events);
bool poll_ready(Proc *p) {
	for (int i = 0; i < p->npfds; i++) {
		if (p->pfds[i].fd >= 0 && fd_revents(p, p->pfds[i].fd, p->pfds[i].events)) {
			return true;
		}
	}
	return false;
}
static bool child_ready(Proc *p) {
	bool any = false;
	for (int i = 0; i < K->nproc; i++) {
		if (PR[i].parent == p->id && !PR[i].reaped && (p->wait_pid <= 0 || PR[i].pid == p->wait_pid)) {
			any = true;
			if (PR[i].zombie) {
				return true;
			}
		}
	}
	return !any;
}
bool proc_wake_ready(Proc *p) {
	if (p->sigpend & ~p->sigmask) {
		return true;
	}
	switch (p->bk) {
	case B_POLL:
		return poll_ready(p);
	case B_READ:
	case B_RECV:
	case B_ACCEPT:
		return fd_revents(p, p->bfd, POLLIN) != 0;
	case B_WAITPID:
		return child_ready(p);
	case B_JOB:
		return job_pend[p->id];
	default:
		return true;
	}
}
bool proc_runnable(Proc *p) {
	if (p->tag == 1) { // another program by now
		return false;
	}
	if (p->st == PS_READY) {
		return true;
	}
	// (a poll with a finite timeout is not woken by the passage of time:
	// the scenario decides, see timeouts)
	return p->st == PS_BLOCKED && proc_wake_ready(p);
}
static u64 run_limit;
u64 run_calls;
bool proc_run(Proc *p, u64 max_calls) {
	run_limit = max_calls;
	run_calls = 0;
	SPUN = false;
	while (proc_runnable(p)) {
		p->st = PS_READY;
		proc_resume(p);
		if (p->st == PS_EXITED) {
			return false;
		}
		if (SPUN) {
			return true;
		}
	}
	return p->st != PS_EXITED;
}
bool proc_step(Proc *p) {
	if (!proc_runnable(p)) {
		return false;
	}
	run_limit = ~0ull;
	p->st = PS_READY;
	preempt_next = true;
	proc_resume(p);
	preempt_next = false;
	return true;
}
// called at the entry of every simulated call
void call_tick() {
	K->nsyscalls++;
	if (++run_calls > run_limit) {
		SPUN = true;
		run_calls = 0;
		coro_yield();
	}
}
int proc_nfds(Proc *p) {
	int n = 0;
	for (int f = 0; f < p->maxfd; f++) {
		n += p->fd[f].of >= 0;
	}
	return n;
}

// ---------------------------------------------------------------- open files
int of_new(OType t, int obj, int flags) {
	int i;
	for (i = 0; i < K->nof; i++) {
		if (K->of[i].type == OF_FREE) {
			break;
		}
	}
	if (i == K->nof) {
		if (i == MAXOF) {
			fprintf(stderr, "harness: out of open files\n");
			exit(2);
		}
		K->nof++;
	}
	OFile *o = &K->of[i];
	memset(o, 0, sizeof *o);
	o->type = t;
	o->refs = 0;
	o->obj = obj;
	o->flags = flags;
	o->tag = -1;
	o->serial = ++K->serial;
	return i;
}
static void sock_release(int s);
void of_unref(int of) {
	OFile *o = &K->of[of];
	if (--o->refs > 0) {
		return;
	}
	OType t = o->type;
	int obj = o->obj;
	if (t == OF_NODE) {
		Node *n = &K->node[obj];
		if (n->drm_master == of) {
			n->drm_master = -1;
		}
	}
	memset(o, 0, sizeof *o);
	if (t == OF_SOCK) {
		sock_release(obj);
	} else if (t == OF_PIPER) {
		K->pipe[obj].nread--;
	} else if (t == OF_PIPEW) {
		K->pipe[obj].nwrite--;
	}
}
int fd_alloc(Proc *p, int of, bool cloexec, int min) {
	for (int f = min; f < p->fdlimit; f++) {
		if (p->fd[f].of < 0) {
			p->fd[f].of = of;
			p->fd[f].cloexec = cloexec;
			if (f >= p->maxfd) {
				p->maxfd = f + 1;
			}
			K->of[of].refs++;
			if (!cloexec && p == cur) {
				H->on_inherit(p, f);
			}
			return f;
		}
	}
	return -1;
}
int fd_of(Proc *p, int fd) {
	if (fd < 0 || fd >= p->maxfd) {
		return -1;
	}
	return p->fd[fd].of;
}

// ---------------------------------------------------------------- sockets
int sock_new() {
	int i;
	for (i = 0; i < K->nsock; i++) {
		if (K->sock[i].state == SS_FREE) {
			break;
		}
	}
	if (i == K->nsock) {
		if (i == MAXSOCK) {
			fprintf(stderr, "harness: out of sockets\n");
			exit(2);
		}
		K->nsock++;
	}
	Sock *s = &K->sock[i];
	memset(s, 0, sizeof *s);
	s->state = SS_NEW;
	s->peer = -1;
	s->owner = -1;
	s->node = -1;
	s->cap = SOCKBUF;
	s->tag = -1;
	return i;
}
static void flush_fds(Sock *s, int i) {
	while (s->fd_hd != s->fd_tl) {
		int of = SB[i].fds[s->fd_tl++ % SFDMAX];
		of_unref(of);
	}
}
static void sock_release(int i) {
	Sock *s = &K->sock[i];
	if (H && s->owner >= 0) {
		H->on_sockclose(&PR[s->owner], i);
	}
	if (s->state == SS_LISTEN) {
		if (s->node >= 0 && K->node[s->node].lsock == i) {
			K->node[s->node].lsock = -1;
		}
		for (int k = 0; k < s->naccq; k++) {
			// embryos are reset
			int e = s->accq[k];
			K->sock[e].embryo = false;
			if (K->sock[e].peer >= 0) {
				K->sock[K->sock[e].peer].err = ECONNRESET;
			}
			sock_release(e);
		}
		s->naccq = 0;
	}
	if (s->peer >= 0) {
		Sock *q = &K->sock[s->peer];
		q->peer = -1;
		q->rcv_shut = q->snd_shut = true;
		if (s->hd != s->tl || s->embryo) {
			q->err = ECONNRESET;
		}
	}
	// queued descriptors are dropped (may release further sockets)
	s->state = SS_CLOSED;
	s->peer = -1;
	flush_fds(s, i);
	s->hd = s->tl = 0;
	s->state = SS_FREE;
}
static u32 sock_space(Sock *q) {
	u32 used = q->hd - q->tl;
	return used >= q->cap ? 0 : q->cap - used;
}
// queue data+descriptors to socket q; returns bytes taken
static size_t sock_queue(int qi, const char *data, size_t n, const int *ofs, int nofs) {
	Sock *q = &K->sock[qi];
	size_t sp = sock_space(q);
	if (n > sp) {
		n = sp;
	}
	if (n == 0) {
		return 0;
	}
	if (q->skb_hd - q->skb_tl >= SKBMAX || q->fd_hd - q->fd_tl + nofs > SFDMAX) {
		return 0;
	}
	for (size_t k = 0; k < n; k++) {
		SB[qi].buf[(q->hd + k) % SOCKBUF] = data[k];
	}
	q->hd += n;
	q->total_in += n;
	Skb *b = &SB[qi].skb[q->skb_hd++ % SKBMAX];
	b->len = n;
	b->nfds = nofs;
	for (int k = 0; k < nofs; k++) {
		K->of[ofs[k]].refs++;
		SB[qi].fds[q->fd_hd++ % SFDMAX] = ofs[k];
	}
	return n;
}
// Linux unix_stream_read_generic: several records may be merged, but reading
// stops after the first one that carried descriptors.
size_t sock_take(int si, char *out, size_t n, std::vector<int> *ofs) {
	Sock *s = &K->sock[si];
	size_t got = 0;
	while (got < n && s->skb_hd != s->skb_tl) {
		Skb *b = &SB[si].skb[s->skb_tl % SKBMAX];
		size_t k = b->len < n - got ? b->len : n - got;
		for (size_t j = 0; j < k; j++) {
			out[got + j] = SB[si].buf[(s->tl + j) % SOCKBUF];
		}
		got += k;
		s->tl += k;
		b->len -= k;
		bool had = b->nfds > 0;
		for (int j = 0; j < b->nfds; j++) {
			ofs->push_back(SB[si].fds[s->fd_tl++ % SFDMAX]);
		}
		b->nfds = 0;
		if (b->len == 0) {
			s->skb_tl++;
		}
		if (had) {
			break;
		}
	}
	return got;
}
// send on socket si; -errno or count
int sock_send(int si, const char *data, size_t n, const int *ofs, int nofs) {
	Sock *s = &K->sock[si];
	if (s->err) {
		int e = s->err;
		s->err = 0;
		return -e;
	}
	if (s->state != SS_CONN) {
		return -ENOTCONN;
	}
	if (s->snd_shut || s->peer < 0 || K->sock[s->peer].rcv_shut) {
		return -EPIPE;
	}
	if (n == 0) {
		return 0;
	}
	size_t k = sock_queue(s->peer, data, n, ofs, nofs);
	if (k == 0) {
		return -EAGAIN;
	}
	return (int)k;
}
int sock_recv(int si, char *out, size_t n, std::vector<int> *ofs) {
	Sock *s = &K->sock[si];
	if (s->state != SS_CONN) {
		return -EINVAL;
	}
	if (n == 0 && s->skb_hd != s->skb_tl) {
		return 0;
	}
	if (s->skb_hd != s->skb_tl) {
		return (int)sock_take(si, out, n, ofs);
	}
	if (s->err) {
		int e = s->err;
		s->err = 0;
		return -e;
	}
	if (s->rcv_shut) {
		return 0;
	}
	return -EAGAIN;
}
short sock_revents(int si) {
	Sock *s = &K->sock[si];
	short r = 0;
	if (s->state == SS_LISTEN) {
		if (s->naccq) {
			r |= POLLIN;
		}
		return r;
	}
	if (s->state != SS_CONN) {
		return POLLHUP | POLLOUT;
	}
	if (s->err) {
		r |= POLLERR;
	}
	if (s->rcv_shut && s->snd_shut) {
		r |= POLLHUP;
	}
	if (s->rcv_shut) {
		r |= POLLIN;
	}
	if (s->skb_hd != s->skb_tl) {
		r |= POLLIN;
	}
	if (s->peer < 0 || sock_space(&K->sock[s->peer]) > 0) {
		r |= POLLOUT;
	}
	return r;
}
int sock_connect_node(int si, int node, int uid, int gid, int pid) {
	if (K->node[node].type != N_SOCK || K->node[node].lsock < 0) {
		return ECONNREFUSED;
	}
	Sock *l = &K->sock[K->node[node].lsock];
	if (l->state != SS_LISTEN) {
		return ECONNREFUSED;
	}
	if (l->naccq > l->backlog || l->naccq >= ACCQ) {
		return EAGAIN;
	}
	int e = sock_new();
	l = &K->sock[K->node[node].lsock];
	Sock *s = &K->sock[si], *q = &K->sock[e];
	s->state = q->state = SS_CONN;
	s->peer = e;
	q->peer = si;
	q->owner = l->owner;
	q->embryo = true;
	q->pid = pid; // what the acceptor sees as peer credentials
	q->uid = uid;
	q->gid = gid;
	s->pid = l->owner >= 0 ? PR[l->owner].pid : 1;
	l->accq[l->naccq++] = e;
	return 0;
}
int h_socket_connect(const char *path, int uid, int gid, int pid, int *err) {
	int e;
	int n = node_lookup(path, true, &e);
	if (n < 0) {
		*err = e;
		return -1;
	}
	int s = sock_new();
	int r = sock_connect_node(s, n, uid, gid, pid);
	if (r) {
		K->sock[s].state = SS_FREE;
		*err = r;
		return -1;
	}
	return s;
}
void h_socketpair(int *a, int *b) {
	*a = sock_new();
	*b = sock_new();
	K->sock[*a].state = K->sock[*b].state = SS_CONN;
	K->sock[*a].peer = *b;
	K->sock[*b].peer = *a;
}
int h_send(int s, const void *d, size_t n, const int *ofs, int nofs) {
	return sock_send(s, (const char *)d, n, ofs, nofs);
}
int h_recv(int s, void *d, size_t n, std::vector<int> *ofs) {
	std::vector<int> tmp;
	int r = sock_recv(s, (char *)d, n, ofs ? ofs : &tmp);
	for (int o : tmp) {
		of_unref(o);
	}
	return r;
}
void h_shutdown_wr(int s) {
	K->sock[s].snd_shut = true;
	if (K->sock[s].peer >= 0) {
		K->sock[K->sock[s].peer].rcv_shut = true;
	}
}
void h_close(int s) {
	sock_release(s);
}
int h_poll(int s) {
	return sock_revents(s);
}
size_t h_pending(int s) {
	return K->sock[s].hd - K->sock[s].tl;
}

// ---------------------------------------------------------------- pipes
int pipe_new(u32 cap) {
	int i;
	for (i = 0; i < K->npipe; i++) {
		if (!K->pipe[i].used || (K->pipe[i].nread <= 0 && K->pipe[i].nwrite <= 0)) {
			break;
		}
	}
	if (i == K->npipe) {
		if (i == MAXPIPE) {
			fprintf(stderr, "harness: out of pipes\n");
			exit(2);
		}
		K->npipe++;
	}
	Pipe *p = &K->pipe[i];
	p->used = true;
	p->nread = p->nwrite = 1;
	p->hd = p->tl = 0;
	p->cap = cap;
	return i;
}

short fd_revents(Proc *p, int fd, short events) {
	int of = fd_of(p, fd);
	if (of < 0) {
		return POLLNVAL;
	}
	OFile *o = &K->of[of];
	short r = 0;
	switch (o->type) {
	case OF_SOCK:
		r = sock_revents(o->obj);
		break;
	case OF_PIPER:
		if (K->pipe[o->obj].hd != K->pipe[o->obj].tl) {
			r |= POLLIN;
		}
		if (K->pipe[o->obj].nwrite <= 0) {
			r |= POLLHUP;
		}
		break;
	case OF_PIPEW:
		if (K->pipe[o->obj].hd - K->pipe[o->obj].tl < K->pipe[o->obj].cap) {
			r |= POLLOUT;
		}
		if (K->pipe[o->obj].nread <= 0) {
			r |= POLLERR;
		}
		break;
	default:
		r = POLLIN | POLLOUT;
	}
	return H->revents(p, fd, events, r & (events | POLLERR | POLLHUP | POLLNVAL));
}

// ---------------------------------------------------------------- VFS
static int dir_find(int dir, const char *name, size_t n) {
	for (int i = 0; i < K->nnode; i++) {
		Node *x = &K->node[i];
		if (x->type != N_FREE && x->linked && x->parent == dir && i != 0 && strlen(x->name) == n &&
		    memcmp(x->name, name, n) == 0) {
			return i;
		}
	}
	return -1;
}
std::string node_path(int n) {
	if (n == 0) {
		return "/";
	}
	std::string s;
	while (n != 0) {
		s = "/" + std::string(K->node[n].name) + s;
		n = K->node[n].parent;
	}
	return s;
}
static int walk(const char *path, bool follow, int *err, int depth, int dir) {
	if (depth > 40) {
		*err = ELOOP;
		return -1;
	}
	if (!*path) {
		*err = ENOENT;
		return -1;
	}
	if (strlen(path) >= 4096) {
		*err = ENAMETOOLONG;
		return -1;
	}
	int at = path[0] == '/' ? 0 : dir;
	const char *s = path;
	while (true) {
		while (*s == '/') {
			s++;
		}
		if (!*s) {
			break;
		}
		const char *e = s;
		while (*e && *e != '/') {
			e++;
		}
		size_t n = e - s;
		bool last = true;
		const char *t = e;
		while (*t == '/') {
			t++;
		}
		if (*t) {
			last = false;
		}
		bool slash_after = *e == '/';
		if (K->node[at].type != N_DIR) {
			*err = ENOTDIR;
			return -1;
		}
		if (n > 255) {
			*err = ENAMETOOLONG;
			return -1;
		}
		int nx;
		if (n == 1 && s[0] == '.') {
			nx = at;
		} else if (n == 2 && s[0] == '.' && s[1] == '.') {
			nx = K->node[at].parent;
		} else {
			nx = dir_find(at, s, n);
		}
		if (nx < 0) {
			*err = ENOENT;
			return -1;
		}
		if (K->node[nx].type == N_LNK && (!last || follow || slash_after)) {
			nx = walk(K->node[nx].target, true, err, depth + 1, at);
			if (nx < 0) {
				return -1;
			}
		}
		if (slash_after && K->node[nx].type != N_DIR) {
			*err = ENOTDIR;
			return -1;
		}
		at = nx;
		s = e;
	}
	return at;
}
int node_lookup(const char *path, bool follow, int *err, std::string *resolved) {
	int n = walk(path, follow, err, 0, 0);
	if (n >= 0 && resolved) {
		*resolved = node_path(n);
	}
	return n;
}
int node_mk(int parent, const char *name, NType t, int mode, int uid, int gid) {
	int i;
	for (i = 1; i < K->nnode; i++) {
		if (K->node[i].type == N_FREE) {
			break;
		}
	}
	if (i >= K->nnode) {
		i = K->nnode;
		if (i == MAXNODE) {
			fprintf(stderr, "harness: out of nodes\n");
			exit(2);
		}
		K->nnode++;
	}
	Node *n = &K->node[i];
	memset(n, 0, offsetof(Node, name));
	n->target[0] = 0;
	n->open_err = n->nopen = 0;
	n->type = t;
	n->parent = parent;
	n->linked = true;
	n->mode = mode;
	n->uid = uid;
	n->gid = gid;
	n->drm_master = -1;
	n->lsock = -1;
	snprintf(n->name, sizeof n->name, "%s", name);
	return i;
}
int node_mkpath(const char *path, NType t, int mode) {
	int at = 0;
	const char *s = path;
	while (true) {
		while (*s == '/') {
			s++;
		}
		const char *e = s;
		while (*e && *e != '/') {
			e++;
		}
		std::string nm(s, e - s);
		if (!*e) {
			return node_mk(at, nm.c_str(), t, mode);
		}
		int nx = dir_find(at, nm.c_str(), nm.size());
		if (nx < 0) {
			nx = node_mk(at, nm.c_str(), N_DIR, 0755);
		}
		at = nx;
		s = e;
	}
}
int open_node(Proc *p, int node, int flags, int *err) {
	(void)p;
	Node *n = &K->node[node];
	if (n->open_err) {
		*err = n->open_err;
		return -1;
	}
	if (n->type == N_SOCK) {
		*err = ENXIO;
		return -1;
	}
	if (n->type == N_DIR && (flags & O_ACCMODE) != O_RDONLY) {
		*err = EISDIR;
		return -1;
	}
	int of = of_new(OF_NODE, node, flags);
	OFile *o = &K->of[of];
	n->nopen++;
	if (n->dev == D_TTY) {
		o->vt = n->num == 0 ? K->fg : n->num;
	}
	if (n->dev == D_DRM && n->drm_master < 0) {
		n->drm_master = of;
		o->master = true;
	}
	return of;
}

// ---------------------------------------------------------------- VTs
int vt_index(int name) {
	for (int i = 1; i <= K->nvt; i++) {
		if (K->vtname[i] == name) {
			return i;
		}
	}
	return -1;
}
static void vt_reset(Vt *v) {
	v->process = false;
	v->owner = -1;
	v->kd = 0;
	v->newvt = 0;
}
static bool vt_kill(Vt *v, int sig) {
	if (v->owner < 0 || PR[v->owner].st == PS_EXITED) {
		return false;
	}
	if (sig) {
		proc_signal(&PR[v->owner], sig);
	}
	return true;
}
static void vt_complete(int to) {
	K->fg = to;
	Vt *n = &K->vt[to];
	tracef("kernel: VT %d in foreground", to);
	if (n->process) {
		if (!vt_kill(n, n->acqsig)) {
			vt_reset(n);
		} else {
			H->on_vtsig(to, true);
		}
	}
}
void vt_change(int to) {
	if (to == K->fg) {
		return;
	}
	Vt *v = &K->vt[K->fg];
	if (v->process) {
		if (vt_kill(v, v->relsig)) {
			v->newvt = to;
			H->on_vtsig(K->fg, false);
			tracef("kernel: asks to release VT %d for %d", K->fg, to);
			return;
		}
		vt_reset(v);
	}
	if (v->kd == 1) {
		return; // KD_GRAPHICS without process switching: ignored
	}
	vt_complete(to);
}
int vt_reldisp(int vt, long arg) {
	Vt *v = &K->vt[vt];
	if (!v->process) {
		return EINVAL;
	}
	if (v->newvt > 0) {
		if (arg == 0) {
			v->newvt = 0;
		} else {
			int to = v->newvt;
			v->newvt = 0;
			vt_complete(to);
		}
		return 0;
	}
	return arg == 2 ? 0 : EINVAL;
}
void vt_user_switch(int vt) {
	tracef("user switches to VT %d (now %d)", vt, K->fg);
	vt_change(vt);
}
bool vt_release_pending() {
	return K->vt[K->fg].newvt > 0;
}
int vt_fg() {
	return K->fg;
}

// ---------------------------------------------------------------- env
void proc_setenv(Proc *p, const char *k, const char *v) {
	std::string pre = std::string(k) + "=";
	for (auto &s : ENV[p->id]) {
		if (s.compare(0, pre.size(), pre) == 0) {
			s = pre + v;
			env_changed(p->id);
			return;
		}
	}
	ENV[p->id].push_back(pre + v);
	env_changed(p->id);
}
const char *proc_getenv(Proc *p, const char *k) {
	size_t n = strlen(k);
	for (auto &s : ENV[p->id]) {
		if (s.compare(0, n, k) == 0 && s[n] == '=') {
			return s.c_str() + n + 1;
		}
	}
	return NULL;
}
void proc_unsetenv(Proc *p, const char *k) {
	size_t n = strlen(k);
	auto &e = ENV[p->id];
	for (size_t i = 0; i < e.size(); i++) {
		if (e[i].compare(0, n, k) == 0 && e[i][n] == '=') {
			e.erase(e.begin() + i);
			env_changed(p->id);
			return;
		}
	}
}
void proc_clearenv(Proc *p) {
	ENV[p->id].clear();
	env_changed(p->id);
}

// ---------------------------------------------------------------- heap
void *heap_alloc(Proc *p, size_t n, int fill) {
	u32 off = (p->arena_off + 15) & ~15u;
	if (n > ARENASZ - 4096 || off + n + 32 > ARENASZ) {
		report("HEAP", "allocation of %zu bytes exhausts the arena", n);
		return NULL;
	}
	p->blocks->push_back({off, (u32)n, true});
	p->arena_off = off + n + 32;
	if (p->arena_off + 64 > arena_hiwater[p->as]) {
		arena_hiwater[p->as] = p->arena_off + 64;
	}
	ASAN_UNPOISON_MEMORY_REGION(p->arena + off, n);
	memset(p->arena + off, fill, n);
	p->live_blocks++;
	p->live_bytes += n;
	return p->arena + off;
}
int heap_find(Proc *p, void *ptr) {
	if ((char *)ptr < p->arena || (char *)ptr >= p->arena + ARENASZ) {
		return -1;
	}
	u32 off = (char *)ptr - p->arena;
	int lo = 0, hi = (int)p->blocks->size() - 1;
	while (lo <= hi) {
		int m = (lo + hi) / 2;
		u32 o = (*p->blocks)[m].off;
		if (o == off) {
			return m;
		}
		if (o < off) {
			lo = m + 1;
		} else {
			hi = m - 1;
		}
	}
	return -1;
}
bool heap_free(Proc *p, void *ptr) {
	int i = heap_find(p, ptr);
	if (i < 0 || !(*p->blocks)[i].live) {
		return false;
	}
	Block &b = (*p->blocks)[i];
	b.live = false;
	memset(ptr, 0xDD, b.size);
	ASAN_POISON_MEMORY_REGION(ptr, b.size);
	p->live_blocks--;
	p->live_bytes -= b.size;
	return true;
}

// A fingerprint of the live heap of a process: block sizes, which block points
// where, and the raw contents of small blocks.  Used to keep states apart that
// the reference model cannot tell from each other but the code perhaps can.
// skip: byte ranges left out (data in transit is kept track of elsewhere);
// raw: blocks up to this size are included with their contents
u64 proc_heap_shape(Proc *p, u64 h, u32 raw, const std::vector<std::pair<const char *, const char *>> &skip) {
	static thread_local std::vector<u32> offs, sizes;
	offs.clear();
	sizes.clear();
	make_resident(p);
	for (auto &b : *p->blocks) {
		if (b.live) {
			offs.push_back(b.off);
			sizes.push_back(b.size);
		}
	}
	char *base = p->arena;
	for (size_t i = 0; i < offs.size(); i++) {
		h = hash_bytes(&sizes[i], 4, h);
		bool small = sizes[i] <= raw;
		const u64 *w = (const u64 *)(base + offs[i]);
		for (u32 k = 0; k + 8 <= sizes[i]; k += 8, w++) {
			char *q = (char *)*w;
			if (q >= base && q < base + ARENASZ) {
				u32 o = q - base;
				size_t lo = std::upper_bound(offs.begin(), offs.end(), o) - offs.begin();
				u64 v = 0xdead;
				if (lo > 0 && o < offs[lo - 1] + sizes[lo - 1]) {
					v = (lo << 20) | (o - offs[lo - 1]);
				}
				v ^= (u64)k << 40;
				h = hash_bytes(&v, 8, h);
			} else if (small) {
				bool sk = false;
				for (auto &r : skip) {
					sk |= (const char *)w >= r.first && (const char *)w + 8 <= r.second;
				}
				if (!sk) {
					h = hash_bytes(w, 8, h);
				}
			}
		}
	}
	return h;
}
u64 proc_heap_shape(Proc *p, u64 h) { return proc_heap_shape(p, h, 128, {}); }
bool same_of(int of, u32 serial) { return of >= 0 && K->of[of].type != OF_FREE && K->of[of].serial == serial; }

// Simulated kernel + process substrate.  See DESIGN.md ("The simulated kernel").
//
// The code under test (seatd, libseat, seatd-launch, compiled from /repo with
// every libc symbol it imports that has an effect redirected to sim_*) runs in
// coroutines.  Everything that decides what it does next - which data arrives
// when, which call fails, when a signal lands - is answered here,
// deterministically, from a recorded list of choices.
#pragma once
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <string>
#include <sys/types.h>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum { MAXPROC = 8, MAXFD = 700, MAXOF = 3000, MAXSOCK = 700, MAXPIPE = 64, MAXNODE = 420, MAXVT = 8 };
enum { SOCKBUF = 1 << 16, SKBMAX = 4096, SFDMAX = 2048, ACCQ = 64 };

enum OType : u8 { OF_FREE, OF_SOCK, OF_PIPER, OF_PIPEW, OF_NODE };
struct OFile {
	OType type;
	bool revoked, master;
	int refs; // descriptors + in-flight references
	int flags; // O_NONBLOCK, O_ACCMODE...
	int obj; // sock / pipe / node index
	int vt; // resolved VT for tty nodes
	int tag; // free for monitors: owner client, -1
	u32 serial; // unique per execution
};
struct Skb {
	u32 len;
	int nfds;
};
enum SState : u8 { SS_FREE, SS_NEW, SS_LISTEN, SS_CONN, SS_CLOSED };
struct Sock {
	SState state;
	bool rcv_shut, snd_shut;
	bool embryo; // waiting in an accept queue
	int err;
	int peer; // sock index, -1
	int owner; // process of the endpoint: >=0 proc, -1 harness
	int node; // bound node
	int backlog, naccq;
	int accq[ACCQ];
	int pid, uid, gid; // credentials as seen by the peer
	u32 cap; // capacity of our receive queue in bytes
	u32 hd, tl; // byte stream head/tail
	u32 skb_hd, skb_tl; // skb ring
	u32 fd_hd, fd_tl; // queued descriptors (open files) ring
	u64 total_in; // bytes ever queued to us
	int tag; // monitors: client index
};
struct SockBufs {
	char buf[SOCKBUF];
	Skb skb[SKBMAX];
	int fds[SFDMAX];
};
struct Pipe {
	bool used;
	int nread, nwrite; // open ends
	u32 hd, tl, cap;
	char buf[4096];
};
enum NType : u8 { N_FREE, N_DIR, N_REG, N_LNK, N_CHR, N_SOCK };
enum NDev : u8 { D_NONE, D_EVDEV, D_DRM, D_HIDRAW, D_TTY, D_NULL };
struct Node {
	NType type;
	NDev dev;
	int num; // tty number / minor
	int parent;
	bool linked;
	char name[260];
	char target[500];
	int uid, gid, mode;
	int open_err; // open() of this node fails with this errno
	int drm_master; // open file index or -1
	int lsock; // bound listening socket or -1
	int nopen; // times opened
};
struct Vt {
	bool process;
	int owner; // proc index
	int relsig, acqsig;
	int kb; // KDSKBMODE
	int kd; // KDSETMODE
	int newvt; // pending switch target (1-based) or 0
};

enum PState : u8 { PS_NONE, PS_READY, PS_BLOCKED, PS_EXITED };
enum BKind : u8 { B_NONE, B_POLL, B_READ, B_RECV, B_WAITPID, B_SLEEP, B_CONNECT, B_ACCEPT, B_JOB };
struct PollRec {
	int fd;
	short events;
};
struct FdEnt {
	int of; // -1 free
	bool cloexec;
};
typedef void (*sighand)(int);
struct Sig {
	sighand h;
	int flags;
	u64 mask;
};
struct Module;
struct Block {
	u32 off, size;
	bool live;
};
struct Proc {
	PState st;
	BKind bk;
	bool cpu_stuck;
	int id, parent;
	int pid, uid, gid, euid, egid, suid, sgid;
	int umask_;
	FdEnt fd[MAXFD];
	int maxfd; // highest used + 1 ever in this execution
	int fdlimit;
	Sig sig[65];
	u64 sigmask, sigpend;
	int exit_status; // wait status
	bool crashed, nopollfault;
	bool zombie, reaped;
	char crash[256];
	int saved_errno;
	// blocking state
	struct pollfd *pfds;
	int npfds;
	int timeout;
	int wait_pid;
	int bfd;
	bool interrupted;
	u64 nsys; // syscalls since last resume from idle
	// execution
	Module *mod;
	char *stack;
	size_t stack_size;
	void *rsp;
	char *arena;
	u32 arena_off;
	std::vector<Block> *blocks;
	int live_blocks;
	u64 live_bytes;
	// address space sharing after fork
	int as;
	char *img;
	size_t img_cap;
	void *fork_rsp;
	// environment
	char **env;
	int in_handler;
	u64 tag;
	bool started;
	void (*entry)(void *);
	void *entry_arg;
};

int vt_index(int name); // -1: no VT of that number
struct Kern {
	int nof, nsock, npipe, nnode;
	u32 serial;
	OFile of[MAXOF];
	Sock sock[MAXSOCK];
	Pipe pipe[MAXPIPE];
	Node node[MAXNODE];
	Vt vt[MAXVT + 1];
	int fg; // foreground VT, 1-based
	int nvt; // number of VTs
	int vtname[MAXVT + 1]; // their numbers as programs see them
	int nproc;
	int next_pid;
	u64 clock_ns;
	u64 nsyscalls;
	bool have_vt;
	bool nofork; // fork fails
};
extern Kern *K;
extern Proc PR[MAXPROC];
extern Proc *cur; // running process, NULL while the harness runs
extern SockBufs *SB; // [MAXSOCK]

// ---- choices --------------------------------------------------------------
// Deviation points: every simulated call made by a process asks the explorer
// whether something other than the default happens there.
struct Dev {
	u16 point, alt;
};
struct ExecCfg {
	bool faults = false; // error returns of fallible calls
	bool enomem = false;
	bool wide = false; // faults with every errno that means nothing but failure
	bool shortio = false; // partial / EAGAIN / EINTR transfers
	bool inject = false; // scenario injections (midrun ops)
	bool spurious = true; // short transfers and EAGAIN without cause are among the short ones
	bool bbpoints = false; // basic blocks are injection points too
};
extern ExecCfg XC;
struct StepCtl {
	// in: deviations of this step
	Dev dev[4];
	int ndev;
	// out: arity of every point passed
	std::vector<u16> arity;
	std::vector<u8> kinds;
	u32 pt;
	bool record;
	bool frozen; // no choice points at all (set-up phases)
};
extern StepCtl SC;

enum PtKind { PT_CALL = 0, PT_BB = 1 };

// what the current alternative means
enum AltType { ALT_NONE, ALT_FAULT, ALT_INJECT, ALT_SHORT };
struct Alt {
	AltType type;
	int val;
};

// ---- hooks to the scenario -------------------------------------------------
struct Hooks {
	virtual ~Hooks() {}
	virtual void on_sendblock(Proc *, int /*sender sock*/) {} // took only part of the data, or none
	virtual void on_send(Proc *, int /*sender sock*/, const char *, size_t, const std::vector<int> & /*ofs*/) {}
	virtual void on_recv(Proc *, int /*sock*/, const char *, size_t, const std::vector<int> & /*ofs*/) {}
	virtual void on_fdloss(Proc *, int /*sock*/, int /*n*/) {} // received descriptors the kernel discards
	virtual void on_sockclose(Proc *, int /*sock*/) {}
	virtual void on_accept(Proc *, int /*sock*/) {}
	virtual void on_open(Proc *, const char *, int /*node*/, int /*of*/, int /*flags*/) {}
	virtual void on_ioctl(Proc *, int /*of*/, unsigned long, long, int /*res*/) {}
	virtual void on_exit(Proc *) {}
	virtual void on_badfd(Proc *, const char *, int) {}
	virtual void on_inherit(Proc *, int) {} // a new descriptor that is not close-on-exec
	virtual void on_fault(Proc *, const char *, int) {}
	virtual void on_iobuf(Proc *, const void *, size_t) {} // memory that received or sent data lies in
	virtual void on_poll(Proc *) {}
	virtual short revents(Proc *, int /*fd*/, short /*events*/, short r) { return r; }
	virtual void on_pollret(Proc *, struct pollfd *, int /*n*/) {}
	virtual void on_handler(Proc *, int /*sig*/, int /*errno before*/, int /*after*/) {}
	virtual void on_read(Proc *, int, size_t) {}
	virtual void on_write(Proc *, int, const char *, size_t) {}
	virtual int ninject() { return 0; } // number of injections available now
	virtual void inject(int) {}
	virtual void on_fs(Proc *, const char *, const char *, int, int, int) {}
	virtual void on_exec(Proc *, const char *, char *const *, char *const *) {}
	virtual void on_kill(Proc *, int, int) {}
	virtual int exec_result(Proc *, const char *) { return 2; } // errno, or 0: scenario took over
	virtual void on_log(Proc *, const char *) {}
	virtual void on_wait(Proc *, int, int) {}
	virtual void on_vtsig(int /*vt*/, bool /*acquire*/) {}
	virtual bool fault_ok(Proc *, const char *) { return true; }
};
extern Hooks *H;

// ---- violations --------------------------------------------------------------
// report(prop, fmt...): the monitors call this; the execution goes on.
struct Viol {
	std::string prop, msg;
};
extern std::vector<Viol> VIOL;
extern std::string CHECKED;
void report(const char *prop, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern bool TRACE;
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- modules ---------------------------------------------------------------
struct Seg {
	char *p;
	size_t n;
	char *saved;
};
struct Module {
	std::string path;
	void *h;
	std::vector<Seg> segs;
	void *sym(const char *name);
	bool has_cov;
};
Module *mod_load(const char *path, bool exe_name_unused = false);
void mod_reset(Module *);

// ---- life cycle --------------------------------------------------------------
void sim_global_init();
void sim_reset(); // fresh kernel, no processes
Proc *proc_new(Module *, int uid, int gid);
void proc_start_main(Proc *, std::vector<std::string> argv);
void proc_start_fn(Proc *, void (*fn)(void *), void *arg);
// a process that runs jobs handed to it by the scenario
void proc_start_jobs(Proc *);
void proc_post(Proc *, std::function<void()>);
bool proc_busy(Proc *); // in a job (blocked in it)
extern int PIPECAP;
// run until it blocks with nothing ready (true) or ends (false)
bool proc_run(Proc *, u64 max_calls = 200000);
// run until its next simulated call boundary or block/exit
bool proc_step(Proc *);
bool proc_runnable(Proc *); // has work to do
bool proc_wake_ready(Proc *);
void proc_kill(Proc *, int status); // forced end (SIGKILL)
void proc_signal(Proc *, int sig);
void proc_exit_cleanup(Proc *);
extern bool SPUN; // proc_run hit max_calls
extern bool preempt_next; // yield at the next call boundary

// ---- harness side of the kernel -------------------------------------------------
int h_socket_connect(const char *path, int uid, int gid, int pid, int *err); // returns sock index
void h_socketpair(int *a, int *b);
int h_send(int sock, const void *, size_t, const int *ofs = nullptr, int nofs = 0); // bytes or -errno
int h_recv(int sock, void *, size_t, std::vector<int> *ofs); // bytes, 0 eof, -errno
void h_shutdown_wr(int sock);
void h_close(int sock);
int h_poll(int sock); // POLL* revents
size_t h_pending(int sock);
void of_unref(int of);
int of_new(OType, int obj, int flags);
int fd_alloc(Proc *, int of, bool cloexec, int min = 0);
int fd_of(Proc *, int fd);
int sock_new();
int node_mk(int parent, const char *name, NType, int mode, int uid = 0, int gid = 0);
int node_mkpath(const char *path, NType, int mode);
int node_lookup(const char *path, bool follow, int *err, std::string *resolved = nullptr);
unsigned node_rdev(int node);
int open_node(Proc *, int node, int flags, int *err);
int pipe_new(u32 cap);
void vt_user_switch(int vt); // hotkey / chvt
bool vt_release_pending();
int proc_nfds(Proc *);
extern int SHUT; // so many of its first descriptors a process starts without
void fd_shut(Proc *, int n); // closes the first n, which must be open
u64 hash_bytes(const void *, size_t, u64 seed);
void coro_yield();
bool poll_ready(Proc *);
short fd_revents(Proc *, int fd, short events);
int vt_fg();
char **sim_env_of(Proc *);
void proc_setenv(Proc *, const char *k, const char *v);
const char *proc_getenv(Proc *, const char *k);
extern bool ASAN;
u64 proc_heap_shape(Proc *, u64 seed);
u64 proc_heap_shape(Proc *, u64 seed, u32 raw, const std::vector<std::pair<const char *, const char *>> &skip);
bool same_of(int of, u32 serial);

// X01, X02: seatd-launch, with the explorer as the daemon and as the command it
// starts: they become ready, fail, end and are ended in every order.
#include "explore.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <algorithm>

void proc_fire_timeout(Proc *);
const char *proc_getenv(Proc *, const char *);
static const char *SOCK = "/run/seatd.sock", *SEATD = "/usr/local/bin/seatd";
enum { Y_RUN, Y_TIMEOUT, Y_DAEMON, Y_COMMAND };
static int mk(int k, int a) { return k << 24 | a; }

struct LaunchScn : Scenario {
	struct Usage {
		const char *name;
		std::vector<std::string> argv;
		int kind; // 0 runs argv[from..], 1 shows something, 2 wrong
		int from;
		const char *level; // handed on, NULL: any
	};
	std::vector<Usage> uses;
	std::vector<int> codes; // wait statuses
	Module *mod;
	Proc *p;
	const Usage *use;
	int ruid, rgid, nops, fdbase;
	int dproc, cproc; // processes running the daemon, the command
	bool sock, announced, dclosed, ddead, dreaped, told, toldfail, cended, faulted, cfault, dfault, spun, judged, setg, setu, unready;
	int cstatus, dseen;

	void load() override { mod = mod_load((SUTDIR + "/launch.so").c_str()); }
	void setup() override {
		mod_reset(mod);
		uses = {
			{"command", {"seatd-launch", "--", "sway", "-d", "x y"}, 0, 2, NULL},
			{"level and command", {"seatd-launch", "-l", "debug", "sway"}, 0, 3, "debug"},
			{"attached level", {"seatd-launch", "-lerror", "--", "-sway", "-h"}, 0, 3, "error"},
			{"plain command", {"seatd-launch", "sway"}, 0, 1, NULL},
			{"two levels", {"seatd-launch", "-l", "debug", "-l", "silent", "sway"}, 0, 5, "silent"},
			{"nothing", {"seatd-launch"}, 2, 0, NULL},
			{"only a separator", {"seatd-launch", "--"}, 2, 0, NULL},
			{"only a level", {"seatd-launch", "-l", "debug"}, 2, 0, NULL},
			{"an unknown option", {"seatd-launch", "-x", "sway"}, 2, 0, NULL},
			{"an option without argument", {"seatd-launch", "-l"}, 2, 0, NULL},
			{"help", {"seatd-launch", "-h"}, 1, 0, NULL},
			{"version and command", {"seatd-launch", "-v", "sway"}, 1, 0, NULL},
			{"level, then help", {"seatd-launch", "-l", "info", "-h"}, 1, 0, NULL},
			{"a long level", {"seatd-launch", "-l", "0123456789abcdefghijklmnopqrstuvwxyz", "sway"}, 0, 3, NULL},
			{"a level of 15", {"seatd-launch", "-l", "0123456789abcde", "sway"}, 0, 3, "0123456789abcde"},
			{"a command with many arguments", {"seatd-launch", "sway"}, 0, 1, NULL},
			{"a command with empty arguments", {"seatd-launch", "--", "sway", "", "--", "-l", "debug", ""}, 0, 2, NULL},
			{"an unknown option after another", {"seatd-launch", "-l", "info", "-q", "sway"}, 2, 0, NULL},
		};
		codes.clear();
		for (auto &u : uses) {
			for (int i = 0; i < 300 && !strcmp(u.name, "a command with many arguments"); i++) {
				u.argv.push_back("arg" + std::to_string(i));
			}
		}
		std::string c = P.str("codes", "few");
		if (c == "all") {
			for (int i = 0; i < 256; i++) {
				codes.push_back(i << 8);
			}
			for (int i = 1; i <= 64; i++) {
				codes.push_back(i);
				if (i == SIGSEGV || i == SIGABRT || i == SIGQUIT) {
					codes.push_back(i | 0x80);
				}
			}
		} else {
			codes = {0, 3 << 8, SIGTERM, SIGSEGV | 0x80};
		}
		use = NULL;
		ruid = (int)P.num("uid", 1000);
		rgid = (int)P.num("gid", 100);
		node_mkpath("/run", N_DIR, 0755);
		if (P.num("pre", 0)) {
			node_mkpath(SOCK, N_SOCK, 0660);
		}
		p = proc_new(mod, ruid, rgid);
		p->euid = p->suid = 0;
		if (P.num("setgid", 0)) {
			p->egid = p->sgid = 0;
		}
		proc_setenv(p, "PATH", "/usr/bin");
		proc_setenv(p, "SEATD_SOCK", "/home/other.sock");
		proc_setenv(p, "LD_PRELOAD", "evil.so");
		for (int i = 0; i < 30; i++) {
			proc_setenv(p, ("VAR" + std::to_string(i)).c_str(), std::to_string(i * i).c_str());
		}
		for (int i = 0; i < P.num("fds", 0); i++) { // descriptors the launcher was started with
			int e;
			fd_alloc(p, of_new(OF_NODE, node_lookup("/run", true, &e), 0), false);
		}
		fdbase = proc_nfds(p);
		nops = 0;
		K->nofork = P.num("nofork", 0);
		dproc = cproc = -1;
		sock = announced = dclosed = ddead = dreaped = told = toldfail = cended = faulted = cfault = dfault = spun = judged = setg = setu = unready = false;
		cstatus = dseen = 0;
	}
	// ------------------------------------------------------------ what the processes do
	void on_fault(Proc *q, const char *, int) override {
		faulted = true;
		if (q != p) { // between fork and exec
			(announced ? cfault : dfault) = true;
		}
	}
	void on_badfd(Proc *, const char *w, int fd) override { report("X01", "%s on descriptor %d, which is not open", w, fd); }
	std::string args(char *const *v) {
		std::string s;
		for (int i = 0; v && v[i]; i++) {
			s += i ? " " : "";
			s += v[i];
		}
		return s;
	}
	int ready_fd() { // the daemon's
		Proc *d = &PR[dproc];
		for (int f = 0; f < d->maxfd; f++) {
			if (d->fd[f].of >= 0 && K->of[d->fd[f].of].type == OF_PIPEW && f == dseen) {
				return f;
			}
		}
		return -1;
	}
	int exec_result(Proc *q, const char *path) override {
		if (q == p) {
			return EACCES;
		}
		if (!strcmp(path, SEATD)) {
			return P.num("noseatd", 0) ? ENOENT : 0;
		}
		return P.num("nocmd", 0) ? ENOENT : 0;
	}
	void on_exec(Proc *q, const char *path, char *const *argv, char *const *envp) override {
		tracef("proc %d: exec %s [%s]", q->id, path, args(argv).c_str());
		if (!use || use->kind) {
			report("X02", "'%s' makes the launcher start %s", use ? use->name : "", path);
			return;
		}
		if (q == p) {
			report("X01", "the launcher replaces itself by %s", path);
			return;
		}
		if (!strcmp(path, SEATD)) {
			if (dproc >= 0) {
				report("X01", "the daemon is started twice");
			}
			if (P.num("noseatd", 0)) {
				return;
			}
			dproc = q->id;
			if (q->euid) {
				report("X01", "the daemon is started without privileges");
			}
			std::vector<std::string> env;
			if (envp) {
				for (int i = 0; envp[i]; i++) {
					env.push_back(envp[i]);
				}
			} else {
				for (char **e = sim_env_of(q); *e; e++) {
					env.push_back(*e);
				}
			}
			if (!env.empty()) {
				report("X01", "the daemon is started with %s in its environment", env[0].c_str());
			}
			// -n FD -l LEVEL -z in any order
			dseen = -1;
			std::string level;
			bool z = false;
			for (int i = 1; argv[i]; i++) {
				if (!strncmp(argv[i], "-n", 2)) {
					const char *v = argv[i][2] ? argv[i] + 2 : argv[i + 1] ? argv[++i] : "";
					char *e;
					dseen = (int)strtol(v, &e, 10);
					if (*e || !*v) {
						report("X01", "the daemon is to announce readiness on '%s'", v);
					}
				} else if (!strncmp(argv[i], "-l", 2)) {
					level = argv[i][2] ? argv[i] + 2 : argv[i + 1] ? argv[++i] : "";
				} else if (!strcmp(argv[i], "-z")) {
					z = true;
				} else {
					report("X01", "the daemon is started with '%s'", argv[i]);
				}
			}
			if (!z) {
				report("X01", "the daemon is not told that it runs under seatd-launch");
			}
			if (ready_fd() < 0) {
				report("X01", "the daemon has no open pipe to announce readiness on");
			}
			if (use->level && level != use->level) {
				report("X02", "the daemon is started at level '%s' instead of '%s'", level.c_str(), use->level);
			}
			return;
		}
		if (P.num("nocmd", 0)) {
			return;
		}
		if (cproc >= 0) {
			report("X01", "the command is started twice");
		}
		cproc = q->id;
		std::string want;
		for (size_t i = use->from; i < use->argv.size(); i++) {
			want += (i > (size_t)use->from ? " " : "") + use->argv[i];
		}
		if (path != use->argv[use->from] || args(argv) != want) {
			report("X01", "%s [%s] is started, the command is [%s]", path, args(argv).c_str(), want.c_str());
		}
		if (!announced) {
			report("X01", "the command is started before the daemon is ready");
		}
		if (q->uid != ruid || q->euid != ruid || q->suid != ruid) {
			report("X01", "the command runs with user ids %d %d %d", q->uid, q->euid, q->suid);
		}
		if (q->gid != rgid || q->egid != rgid || q->sgid != rgid) {
			report("X01", "the command runs with group ids %d %d %d", q->gid, q->egid, q->sgid);
		}
		int e, n = node_lookup(SOCK, true, &e);
		if (n < 0) {
			report("X01", "the command is started without a socket");
		} else {
			Node *x = &K->node[n];
			if (x->uid != ruid || x->gid != rgid || (x->mode & 07777) != 0700) {
				report("X01", "the command is started while the socket belongs to %d:%d with mode %o", x->uid, x->gid, x->mode & 07777);
			}
		}
		std::string sk, path_;
		if (envp) {
			for (int i = 0; envp[i]; i++) {
				if (!strncmp(envp[i], "SEATD_SOCK=", 11)) {
					sk = envp[i] + 11;
				}
				if (!strncmp(envp[i], "PATH=", 5)) {
					path_ = envp[i] + 5;
				}
			}
		} else {
			const char *v = proc_getenv(q, "SEATD_SOCK");
			sk = v ? v : "";
			v = proc_getenv(q, "PATH");
			path_ = v ? v : "";
		}
		if (sk != SOCK) {
			report("X01", "the command is started with SEATD_SOCK=%s", sk.c_str());
		}
		for (int i = 0; i < 30 && !envp; i++) {
			const char *v = proc_getenv(q, ("VAR" + std::to_string(i)).c_str());
			if (!v || v != std::to_string(i * i)) {
				report("X01", "the command is started with VAR%d=%s", i, v ? v : "(none)");
			}
		}
		if (path_ != "/usr/bin") {
			report("X01", "the command is started with PATH=%s", path_.c_str());
		}
		int nf = 0;
		for (int f = 0; f < q->maxfd; f++) {
			nf += q->fd[f].of >= 0 && !q->fd[f].cloexec;
		}
		if (nf != fdbase) {
			report("X01", "the command inherits %d descriptors of the launcher's own", nf - fdbase);
		}
	}
	void on_fs(Proc *q, const char *op, const char *path, int a, int b, int c) override {
		tracef("proc %d: %s %s %d %d", q->id, op, path, b, c);
		if (!strcmp(op, "setgid")) {
			setg = true;
			return;
		}
		if (!strcmp(op, "setuid")) {
			if (!setg) {
				report("X01", "the user id is given up before the group id");
			}
			setu = true;
			return;
		}
		(void)a;
		if (strcmp(path, SOCK)) {
			report("X01", "the launcher changes %s (%s)", path, op);
		} else if (!announced) {
			report("X01", "the launcher changes the socket (%s) before the daemon is ready", op);
		}
	}
	void on_wait(Proc *, int pid, int) override {
		if (dproc >= 0 && pid == PR[dproc].pid) {
			dreaped = true;
		}
	}
	void on_kill(Proc *q, int pid, int s) override {
		tracef("proc %d: kill(%d, %d)", q->id, pid, s);
		int to = -1;
		for (int i = 0; i < K->nproc; i++) {
			if (PR[i].pid == pid) {
				to = i;
			}
		}
		bool isd = to > 0 && to == 1; // the first process forked
		if (!isd) {
			report("X02", "the launcher signals process %d", pid);
		} else if (PR[to].reaped) {
			report("X01", "the launcher signals the daemon's process id after having taken its end");
		} else if (s != SIGTERM) {
			report("X02", "the launcher sends signal %d to the daemon", s);
		}
		if (isd) {
			told = true;
			if (cproc >= 0 && !cended) {
				report("X02", "the daemon is told to terminate while the command runs");
			}
		}
	}
	// ------------------------------------------------------------ the daemon
	enum { DA_SOCK, DA_READY, DA_CLOSE, DA_EXIT, DA_KILLED, DA_HALFDEAD };
	static const char *da_name(int a) {
		static const char *n[] = {"creates its socket", "announces readiness", "closes its end of the pipe", "exits with 1", "is killed"};
		return n[a];
	}
	bool da_ok(int a) {
		if (dproc < 0 || ddead) {
			return false;
		}
		switch (a) {
		case DA_SOCK:
			return !sock && !announced && !P.num("pre", 0);
		case DA_READY:
			return !dclosed && !announced && (sock || P.num("nosock", 0));
		case DA_CLOSE:
			return !dclosed;
		}
		return true;
	}
	void da(int a) {
		Proc *d = &PR[dproc];
		switch (a) {
		case DA_SOCK: {
			sock = true;
			int n = node_mkpath(SOCK, N_SOCK, 0777 & ~022);
			K->node[n].uid = K->node[n].gid = 0;
			break;
		}
		case DA_READY: {
			int f = ready_fd();
			if (f >= 0) {
				Pipe *q = &K->pipe[K->of[d->fd[f].of].obj];
				q->buf[q->hd % sizeof q->buf] = '\n';
				q->hd++;
			}
			announced = true;
			unready |= !sock;
			break;
		}
		case DA_CLOSE: {
			int f = ready_fd();
			dclosed = true;
			unready |= !announced;
			if (f >= 0) {
				int of = d->fd[f].of;
				d->fd[f].of = -1;
				of_unref(of);
			}
			break;
		}
		case DA_EXIT:
			ddead = true;
			proc_kill(d, 1 << 8);
			break;
		case DA_KILLED:
			ddead = true;
			proc_kill(d, 9);
			break;
		}
	}
	int ninject() override {
		if (!cur || cur != p) {
			return 0;
		}
		int n = 0;
		for (int a = 0; a <= DA_EXIT; a++) {
			n += da_ok(a);
		}
		return n;
	}
	void inject(int k) override {
		for (int a = 0; a <= DA_EXIT; a++) {
			if (da_ok(a) && k-- == 0) {
				tracef("the daemon %s", da_name(a));
				da(a);
				return;
			}
		}
	}
	// ------------------------------------------------------------ exploration
	void run(int i) {
		proc_run(&PR[i], 200);
		if (SPUN && !spun) {
			spun = true;
			report("X01", "the launcher runs without end");
			proc_kill(p, 9);
		}
		if (PR[i].crashed) {
			report("X01", "the launcher crashes: %s", PR[i].crash);
		}
		if (PR[0].st == PS_EXITED) {
			judge();
		}
	}
	void judge() {
		if (judged || spun || p->crashed) {
			return;
		}
		judged = true;
		int st = p->exit_status;
		tracef("the launcher ends with status %x", st);
		if (!WIFEXITED(st)) {
			report("X02", "the launcher is ended by signal %d", WTERMSIG(st));
			return;
		}
		int code = WEXITSTATUS(st);
		if (use->kind) {
			if ((use->kind == 2) != (code != 0)) {
				report("X02", "with %s the launcher exits with %d", use->name, code);
			}
			if (K->nproc > 1) {
				report("X02", "with %s the launcher starts a process", use->name);
			}
			return;
		}
		if (cproc >= 0) {
			if (!cended) {
				report("X02", "the launcher exits before its command ends");
				return;
			}
			int want = WIFEXITED(cstatus) ? WEXITSTATUS(cstatus) : 128 + WTERMSIG(cstatus);
			if (code != want) {
				report("X02", "the command's status is %x, the launcher exits with %d", cstatus, code);
			}
			if (!told) {
				report("X02", "the launcher exits without telling the daemon to terminate");
			}
			return;
		}
		if (code == 0) {
			report("X01", "the launcher exits with 0 although it did not run the command");
		}
		if (K->nproc > 1 && !told && !PR[1].reaped) {
			report("X01", "the launcher gives up without telling the daemon to terminate");
		}
		if (K->nproc > 1 && !faulted && !ddead && !unready && !P.num("nocmd", 0) && !P.num("noseatd", 0)) {
			report("X01", "the launcher gives up without cause");
		}
	}
	void start(int i) {
		use = &uses[i];
		proc_start_main(p, use->argv);
		run(0);
	}
	bool alive(int i) { return PR[i].st != PS_EXITED && PR[i].st != PS_NONE && PR[i].tag != 1; }
	void apply(int op) override {
		int k = op >> 24, a = op & 0xffffff;
		nops++;
		switch (k) {
		case Y_RUN:
			if (!use) {
				start(a);
			} else {
				run(a);
			}
			break;
		case Y_TIMEOUT:
			proc_fire_timeout(p);
			run(0);
			break;
		case Y_DAEMON:
			da(a);
			break;
		case Y_COMMAND:
			cended = true;
			cstatus = codes[a];
			proc_kill(&PR[cproc], cstatus);
			break;
		}
	}
	void ops(std::vector<int> &out) override {
		if (!use) {
			for (size_t i = 0; i < uses.size(); i++) {
				if (P.num("use", -1) < 0 || P.num("use", -1) == (int)i) {
					out.push_back(mk(Y_RUN, (int)i));
				}
			}
			return;
		}
		if (p->st == PS_EXITED || spun) {
			return;
		}
		for (int i = 0; i < K->nproc; i++) {
			if (alive(i) && proc_runnable(&PR[i])) {
				out.push_back(mk(Y_RUN, i));
			}
		}
		if (p->st == PS_BLOCKED && p->bk == B_POLL && p->timeout >= 0 && !proc_runnable(p)) {
			out.push_back(mk(Y_TIMEOUT, 0));
		}
		for (int a = 0; a <= DA_KILLED; a++) {
			if (da_ok(a)) {
				out.push_back(mk(Y_DAEMON, a));
			}
		}
		if (cproc >= 0 && !cended) {
			for (size_t i = 0; i < codes.size(); i++) {
				out.push_back(mk(Y_COMMAND, (int)i));
			}
		}
	}
	void finish() override {
		if (!use) {
			return;
		}
		for (int n = 0; n < 12 && p->st != PS_EXITED && !spun && VIOL.empty(); n++) {
			for (int i = K->nproc - 1; i >= 0; i--) {
				if (alive(i) && proc_runnable(&PR[i])) {
					run(i);
				}
			}
			if (p->st == PS_EXITED || spun) {
				break;
			}
			if (cproc >= 0 && !cended) {
				cended = true;
				cstatus = 7 << 8;
				proc_kill(&PR[cproc], cstatus);
			} else if (da_ok(DA_SOCK)) {
				da(DA_SOCK);
			} else if (da_ok(DA_READY)) {
				da(DA_READY);
			} else if (dproc >= 0 && !ddead && cproc < 0) {
				da(DA_EXIT);
			}
			if (p->st == PS_BLOCKED && p->bk == B_POLL && p->timeout >= 0 && !proc_runnable(p)) {
				proc_fire_timeout(p);
			}
		}
		if (p->st != PS_EXITED && !spun && VIOL.empty()) {
			report(cended ? "X02" : "X01", "the launcher does not end although %s", cended ? "the command has ended" : "the daemon has");
		}
	}
	u64 key() override {
		std::string s;
		auto add = [&](u64 v) { s.append((char *)&v, 8); };
		add(use ? use - &uses[0] : -1);
		add(sock | announced << 1 | dclosed << 2 | ddead << 3 | dreaped << 4 | told << 5 | cended << 6 | faulted << 7 | spun << 8 | judged << 9 | setg << 10 | setu << 11 | unready << 12 | cfault << 13 | dfault << 14);
		add(cstatus);
		add((dproc + 1) << 8 | (cproc + 1));
		for (int i = 0; i < K->nproc; i++) {
			Proc *q = &PR[i];
			add(q->st);
			add(q->st == PS_BLOCKED ? q->bk : -1);
			add(q->zombie | q->reaped << 1 | q->tag << 2);
			add((u64)q->uid << 48 | (u64)q->euid << 32 | (u64)q->gid << 16 | q->egid);
			add(q->exit_status);
			for (int f = 0; f < q->maxfd; f++) {
				add(q->fd[f].of);
			}
		}
		int e, n = node_lookup(SOCK, true, &e);
		if (n >= 0) {
			add((u64)K->node[n].uid << 32 | K->node[n].gid);
			add(K->node[n].mode);
		}
		for (int i = 0; i < K->npipe; i++) {
			add((u64)(K->pipe[i].hd - K->pipe[i].tl) << 32 | K->pipe[i].nread << 16 | K->pipe[i].nwrite);
		}
		return hash_bytes(s.data(), s.size(), 23);
	}
	std::string op_name(int op) override {
		int k = op >> 24, a = op & 0xffffff;
		switch (k) {
		case Y_RUN:
			return "run " + std::to_string(a);
		case Y_TIMEOUT:
			return "the wait times out";
		case Y_DAEMON:
			return std::string("the daemon ") + da_name(a);
		default:
			return "the command ends (" + std::to_string(a) + ")";
		}
	}
	std::string describe() override {
		return p->st == PS_EXITED ? "launcher ended" : p->st == PS_BLOCKED ? p->bk == B_POLL ? "launcher polls" : p->bk == B_WAITPID ? "launcher waits" : "launcher blocked" : "launcher ready";
	}
};
SCENARIO("launch", LaunchScn)

// C18 (and C17 while starting): the daemon's options, its socket and its readiness
// signal, against every kind of file already at the socket's path, with every call
// failing, and with clients, other programs and signals arriving at every call.
#include "explore.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <algorithm>

void mk_devices(int nvt);
static const char *SOCK = "/run/seatd.sock";
enum { Z_START, Z_CLIENT, Z_SIG };
enum { READY_FD = 7 };
static int mk(int k, int a) { return k << 24 | a; }

struct StartScn : Scenario {
	struct Tok {
		std::vector<std::string> w;
		int kind; // 0 fine, 1 wrong, 2 shows something
		int uid, gid;
		bool z, n, last;
	};
	std::vector<Tok> toks;
	struct Cfg {
		std::vector<int> t;
	};
	std::vector<Cfg> cfgs;
	const Cfg *c;
	enum { PRE_NONE, PRE_SOCK, PRE_LIVE, PRE_REG, PRE_DIR, PRE_LNKSOCK, PRE_LNKREG, PRE_LNKNONE, PRE_CHR, NPRE };
	Module *mod;
	Proc *d;
	int pre, um, prenode, rdpipe, own, nops, rival, psock;
	bool bad, info, z, n_, announced, faulted, started, spun, judged, unlinkfault, writefault, clients, asked, signalled, served, gone, rivaled, was_up;
	int uid, gid, client, premode, preuid;
	std::string got;

	void load() override { mod = mod_load((SUTDIR + "/seatd.so").c_str()); }
	void seqs(std::vector<int> &cur, int max, bool valid) {
		cfgs.push_back({cur});
		if ((int)cur.size() == max || (!cur.empty() && toks[cur.back()].last)) {
			return;
		}
		for (size_t i = 0; i < toks.size(); i++) {
			if (valid && toks[i].kind) {
				continue;
			}
			if (valid && !cur.empty() && (int)i < cur.back()) {
				continue;
			}
			cur.push_back((int)i);
			seqs(cur, max, valid);
			cur.pop_back();
		}
	}
	void setup() override {
		mod_reset(mod);
		if (toks.empty()) {
			toks = {
				{{"-u", "alice"}, 0, 1000, -1, false, false, false},
				{{"-gvideo"}, 0, -1, 44, false, false, false},
				{{"-z"}, 0, -1, -1, true, false, false},
				{{"-n", "7"}, 0, -1, -1, false, true, false},
				{{"-l", "debug"}, 0, -1, -1, false, false, false},
				{{"-l", "silent"}, 0, -1, -1, false, false, false},
				{{"-u", "root"}, 0, 0, -1, false, false, false},
				{{"-u", "nosuch"}, 1, -1, -1, false, false, false},
				{{"-g", "nosuch"}, 1, -1, -1, false, false, false},
				{{"-n", "-1"}, 1, -1, -1, false, false, false},
				{{"-l", "loud"}, 1, -1, -1, false, false, false},
				{{"-h"}, 2, -1, -1, false, false, false},
				{{"-v"}, 2, -1, -1, false, false, false},
				{{"-x"}, 1, -1, -1, false, false, false},
				{{"-g"}, 1, -1, -1, false, false, true},
			};
			if (P.num("rfd", READY_FD) != READY_FD) {
				toks[3].w[1] = std::to_string(P.num("rfd", READY_FD));
				toks.push_back({{"-l", "info"}, 0, -1, -1, false, false, false});
				toks.push_back({{"-lerror"}, 0, -1, -1, false, false, false});
				toks.push_back({{"-g", "root"}, 0, -1, 0, false, false, false});
				toks.push_back({{"-zl", "info"}, 0, -1, -1, true, false, false});
			}
			std::vector<int> cur;
			seqs(cur, (int)P.num("opts", 2), P.num("valid", 0));
		}
		mk_devices(3);
		K->nvt = 3;
		c = NULL;
		pre = um = 0;
		prenode = own = rival = client = psock = -1;
		nops = 0;
		bad = info = z = n_ = announced = faulted = started = spun = judged = unlinkfault = writefault = clients = asked = signalled = served = gone = rivaled = was_up = false;
		uid = gid = -1;
		premode = preuid = 0;
		got.clear();
		d = proc_new(mod, 0, 0);
		if (!P.num("vt", 0)) {
			proc_setenv(d, "SEATD_VTBOUND", "0");
		}
		rdpipe = pipe_new(64);
		of_new(OF_PIPER, rdpipe, 0);
		if (P.num("reader", 1) == 0) {
			K->pipe[rdpipe].nread = 0;
		}
		int w = of_new(OF_PIPEW, rdpipe, O_WRONLY);
		int rfd = (int)P.num("rfd", READY_FD);
		if (d->fd[rfd].of >= 0) {
			int of = d->fd[rfd].of;
			d->fd[rfd].of = -1;
			of_unref(of);
		}
		fd_alloc(d, w, false, rfd);
	}
	// ------------------------------------------------------------ monitors
	bool pre_is_sock() { return pre == PRE_SOCK || pre == PRE_LIVE; }
	bool refuses() { return pre != PRE_NONE && (z || !pre_is_sock()); }
	int now_at() {
		int e;
		return node_lookup(SOCK, false, &e);
	}
	bool listening() {
		int n = now_at();
		return n >= 0 && n == own && K->node[n].lsock >= 0 && K->sock[K->node[n].lsock].state == SS_LISTEN;
	}
	void owner_ok(const char *when) {
		int n = own;
		if (n < 0 || !K->node[n].linked) {
			return;
		}
		Node *x = &K->node[n];
		if (uid >= 0 || gid >= 0) {
			int wu = uid >= 0 ? uid : 0, wg = gid >= 0 ? gid : 0;
			if ((x->mode & 07777) != 0770 || x->uid != wu || x->gid != wg) {
				report("C18", "%s: the socket is %d:%d with mode %o instead of %d:%d with 770", when, x->uid, x->gid, x->mode & 07777, wu, wg);
			}
		} else if (x->uid != 0 || x->gid != 0 || (x->mode & 07777) != (0777 & ~um)) {
			report("C18", "%s: the socket is %d:%d with mode %o without -u or -g", when, x->uid, x->gid, x->mode & 07777);
		}
	}
	void peek() { // at every call
		if (own >= 0 && K->node[own].linked && K->node[own].lsock >= 0) {
			Node *x = &K->node[own];
			if (x->mode & 0002) {
				report("C18", "everybody can connect to the socket (mode %o)", x->mode);
			}
			if (x->gid != 0 && x->gid != gid && (x->mode & 0020)) {
				report("C18", "group %d can connect to the socket", x->gid);
			}
			if (x->uid != 0 && x->uid != uid && (x->mode & 0200)) {
				report("C18", "user %d can connect to the socket", x->uid);
			}
		}
	}
	void on_fault(Proc *, const char *w, int) override {
		faulted = true;
		unlinkfault |= !strncmp(w, "unlink", 6);
		writefault |= !strcmp(w, "write");
	}
	void on_badfd(Proc *, const char *w, int fd) override { report("C18", "%s on descriptor %d, which is not open", w, fd); }
	void on_fs(Proc *, const char *op, const char *path, int a, int, int) override {
		if (!strcmp(op, "listen")) {
			return;
		}
		if (bad || info) {
			report("C18", "the options given make the daemon touch %s (%s)", path, op);
		}
		if (!strcmp(op, "bind")) {
			if (refuses()) {
				report("C18", "the daemon creates %s although it should refuse to start", path);
			}
			if (strcmp(path, SOCK)) {
				report("C18", "the daemon creates a socket at %s", path);
			} else {
				own = a;
			}
			return;
		}
		if (a == own && own >= 0) {
			return;
		}
		if (!strcmp(op, "unlink")) {
			bool sock = K->node[a].type == N_SOCK;
			if (!sock || z || strcmp(path, SOCK)) {
				report("C18", "the daemon removes %s, %s", path, sock ? "which it was told not to replace" : "which is not a socket");
			} else if (own >= 0 || !(a == prenode || a == rival)) {
				report("C18", "the daemon removes a socket of somebody else");
			}
			return;
		}
		report("C18", "the daemon changes %s (%s), which it has not created", path, op);
	}
	void on_write(Proc *, int of, const char *b, size_t n) override {
		if (K->of[of].type != OF_PIPEW || K->of[of].obj != rdpipe) {
			return;
		}
		got.append(b, n);
		if (!n_) {
			report("C18", "the daemon writes to a descriptor it was not given");
			return;
		}
		if (got != "\n") {
			report("C18", "the daemon announces readiness with %zu bytes", got.size());
		}
		announced = true;
		if (!listening()) {
			report("C18", "readiness is announced before connections are accepted");
		}
		owner_ok("at readiness");
	}
	// ------------------------------------------------------------ others
	bool inj_ok(int k) {
		if (!c || bad || info) {
			return false;
		}
		switch (k) {
		case 0:
			return !asked && listening();
		case 1:
			return !rivaled && now_at() < 0 && P.num("rival", 0);
		case 2:
			return !rivaled && now_at() < 0 && P.num("rival", 0);
		case 3:
			return !signalled && P.num("sig", 0);
		}
		return false;
	}
	int ninject() override {
		peek();
		int n = 0;
		for (int k = 0; k < 4; k++) {
			n += inj_ok(k);
		}
		return n;
	}
	void ask() {
		asked = true;
		int err = 0;
		client = h_socket_connect(SOCK, 0, 0, 4000, &err);
		if (client < 0) {
			report("C18", "a client cannot connect: %s", strerror(err));
			return;
		}
		unsigned short m[2] = {1, 0};
		h_send(client, m, sizeof m);
	}
	void inject(int i) override {
		for (int k = 0; k < 4; k++) {
			if (!inj_ok(k) || i-- > 0) {
				continue;
			}
			switch (k) {
			case 0:
				tracef("a client connects");
				ask();
				break;
			case 1:
			case 2:
				tracef("another program creates a %s", k == 1 ? "file" : "socket");
				rivaled = true;
				rival = node_mkpath(SOCK, k == 1 ? N_REG : N_SOCK, 0644);
				break;
			case 3:
				tracef("SIGTERM arrives");
				signalled = true;
				proc_signal(d, SIGTERM);
				break;
			}
			return;
		}
	}
	// ------------------------------------------------------------ exploration
	void run() {
		proc_run(d, 3000);
		peek();
		if (SPUN && !spun) {
			spun = true;
			report("C18", "the daemon runs without end");
			proc_kill(d, 9);
			return;
		}
		if (d->crashed) {
			report("C18", "the daemon crashes: %s", d->crash);
			return;
		}
		if (d->st == PS_EXITED) {
			ended();
			return;
		}
		up();
	}
	void prefile(const char *when) {
		if (pre == PRE_NONE) {
			return;
		}
		Node *x = &K->node[prenode];
		if (!x->linked || x->mode != premode || x->uid != preuid || (pre == PRE_LIVE && K->sock[psock].state != SS_LISTEN)) {
			report("C18", "%s: the file that was there is not as it was", when);
		}
	}
	void ended() {
		if (judged || spun) {
			return;
		}
		judged = true;
		int st = d->exit_status;
		tracef("the daemon ends with status %x", st);
		if (!WIFEXITED(st) && !(signalled && WTERMSIG(st) == SIGTERM && own < 0)) {
			report("C18", "the daemon is ended by signal %d", WTERMSIG(st));
			return;
		}
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1;
		if (own >= 0 && K->node[own].linked && !unlinkfault) {
			report(signalled ? "C17" : "C18", "the daemon ends with %d and its socket is still there", code);
		}
		if (rival >= 0 && !K->node[rival].linked && own < 0 && !faulted && !signalled) {
			report("C18", "the daemon gives up after having removed another program's file");
		}
		if (bad || info) {
			if (info != (code == 0) && bad != info && !(info && faulted)) {
				report("C18", "with these options the daemon exits with %d", code);
			}
			prefile("the daemon only looked at its options");
			return;
		}
		if (refuses()) {
			if (code == 0) {
				report("C18", "the daemon refuses to start and exits with 0");
			}
			prefile("the daemon refused to start");
			return;
		}
		if (signalled) {
			if (code && !faulted && own >= 0) {
				report("C17", "the daemon exits with %d on SIGTERM", code);
			}
			return;
		}
		if (code == 0) {
			report("C18", "the daemon exits with 0 although nothing asked it to");
		} else if (!faulted && !rivaled) {
			report("C18", "the daemon does not start (%d)", code);
		}
		if (announced && !was_up && !faulted) {
			report("C18", "the daemon announces readiness and gives up");
		}
	}
	void up() { // it waits for something
		if (bad || info) {
			report("C18", "the daemon starts although its options %s", bad ? "are wrong" : "ask for information only");
			return;
		}
		if (refuses()) {
			report("C18", "the daemon starts although there is %s at the socket's path", pre_is_sock() ? "a socket it must not replace" : "something that is no socket");
			return;
		}
		if (signalled) {
			report("C17", "the daemon goes on after SIGTERM");
			return;
		}
		was_up = true;
		if (!listening()) {
			report("C18", "the daemon waits without listening on %s", SOCK);
			return;
		}
		owner_ok("when serving");
		if (n_ && !announced && !writefault && P.num("reader", 1)) {
			report("C18", "the daemon serves and has not announced it");
		}
		if (n_ && K->pipe[rdpipe].nwrite) {
			report("C18", "the daemon serves and keeps the readiness descriptor open");
		}
		answer();
	}
	void answer() {
		if (client < 0 || served) {
			return;
		}
		char b[64];
		std::vector<int> ofs;
		int r = h_recv(client, b, sizeof b, &ofs);
		if (r >= 4 && (unsigned char)b[0] == 0x01 && (unsigned char)b[1] == 0x80) {
			served = true;
		} else if (!faulted) {
			report("C18", "a client that connected is not served (%d)", r);
		}
	}
	void start(int a) {
		int ci = a % (int)cfgs.size();
		a /= (int)cfgs.size();
		pre = a % NPRE;
		static const int ums[] = {022, 077, 027};
		um = ums[a / NPRE];
		c = &cfgs[ci];
		d->umask_ = um;
		switch (pre) {
		case PRE_SOCK:
		case PRE_LIVE:
			prenode = node_mkpath(SOCK, N_SOCK, 0600);
			break;
		case PRE_REG:
			prenode = node_mkpath(SOCK, N_REG, 0644);
			break;
		case PRE_DIR:
			prenode = node_mkpath(SOCK, N_DIR, 0755);
			break;
		case PRE_LNKSOCK:
			node_mkpath("/run/other.sock", N_SOCK, 0600);
			prenode = node_mkpath(SOCK, N_LNK, 0777);
			strcpy(K->node[prenode].target, "/run/other.sock");
			break;
		case PRE_LNKREG:
			prenode = node_mkpath(SOCK, N_LNK, 0777);
			strcpy(K->node[prenode].target, "/etc/secret");
			break;
		case PRE_LNKNONE:
			prenode = node_mkpath(SOCK, N_LNK, 0777);
			strcpy(K->node[prenode].target, "/nowhere");
			break;
		case PRE_CHR:
			prenode = node_mkpath(SOCK, N_CHR, 0600);
			break;
		}
		if (prenode >= 0) {
			K->node[prenode].uid = preuid = 1002;
			premode = K->node[prenode].mode;
		}
		if (pre == PRE_LIVE) { // another daemon listens
			psock = sock_new();
			K->sock[psock].state = SS_LISTEN;
			K->sock[psock].backlog = 16;
			K->sock[psock].node = prenode;
			K->node[prenode].lsock = psock;
		}
		std::vector<std::string> av = {"seatd"};
		bool u = false;
		for (int i : c->t) {
			Tok &t = toks[i];
			av.insert(av.end(), t.w.begin(), t.w.end());
			bad |= t.kind == 1;
			info |= t.kind == 2;
			uid = t.uid >= 0 ? t.uid : uid;
			gid = t.gid >= 0 ? t.gid : gid;
			u |= t.uid >= 0 || t.gid >= 0;
			z |= t.z;
			n_ |= t.n;
		}
		bad |= u && z;
		proc_start_main(d, av);
		run();
	}
	void apply(int op) override {
		int k = op >> 24, a = op & 0xffffff;
		nops++;
		switch (k) {
		case Z_START:
			start(a);
			break;
		case Z_CLIENT:
			ask();
			run();
			break;
		case Z_SIG:
			signalled = true;
			proc_signal(d, a ? SIGINT : SIGTERM);
			run();
			break;
		}
	}
	void ops(std::vector<int> &out) override {
		if (!c) {
			int nu = P.num("umasks", 1), np = P.num("pre", -1) < 0 ? NPRE : 1;
			for (int u = 0; u < nu; u++) {
				for (int p = 0; p < np; p++) {
					int pp = np == 1 ? P.num("pre", 0) : p;
					for (size_t i = 0; i < cfgs.size(); i++) {
						out.push_back(mk(Z_START, (u * NPRE + pp) * (int)cfgs.size() + (int)i));
					}
				}
			}
			return;
		}
		if (d->st == PS_EXITED || spun) {
			return;
		}
		if (!asked) {
			out.push_back(mk(Z_CLIENT, 0));
		}
		if (!signalled) {
			out.push_back(mk(Z_SIG, 0));
			out.push_back(mk(Z_SIG, 1));
		}
	}
	void finish() override {
		if (!c || d->st == PS_EXITED || spun) {
			return;
		}
		if (!asked) {
			ask();
			run();
			if (d->st == PS_EXITED) {
				return;
			}
		}
		if (!served && !faulted) {
			report("C18", "a client that connects is not served");
		}
		signalled = true;
		proc_signal(d, SIGTERM);
		run();
	}
	u64 key() override {
		std::string s;
		auto add = [&](u64 v) { s.append((char *)&v, 8); };
		add(c ? c - &cfgs[0] : -1);
		add(pre << 16 | um);
		add(announced | faulted << 1 | spun << 2 | judged << 3 | unlinkfault << 4 | writefault << 5 | asked << 6 | signalled << 7 | served << 8 | rivaled << 9 | was_up << 10);
		add(d->st << 16 | (d->exit_status & 0xffff));
		add(own < 0 ? -1 : K->node[own].linked);
		add(rival < 0 ? -1 : K->node[rival].type << 1 | K->node[rival].linked);
		add(SC.ndev);
		for (int f = 0; f < d->maxfd; f++) {
			add(d->fd[f].of >= 0 ? K->of[d->fd[f].of].type : 0);
		}
		return hash_bytes(s.data(), s.size(), 31);
	}
	std::string op_name(int op) override {
		int k = op >> 24, a = op & 0xffffff;
		if (k == Z_CLIENT) {
			return "a client connects and asks for the seat";
		}
		if (k == Z_SIG) {
			return a ? "SIGINT" : "SIGTERM";
		}
		static const char *pn[] = {"nothing", "a stale socket", "a live socket", "a file", "a directory", "a link to a socket", "a link to a file", "a dangling link", "a device"};
		std::string s = "seatd";
		for (int i : cfgs[a % cfgs.size()].t) {
			for (auto &w : toks[i].w) {
				s += " " + w;
			}
		}
		int b = a / (int)cfgs.size();
		return s + " with " + pn[b % NPRE] + " at the path, umask " + std::to_string(b / NPRE);
	}
	std::string describe() override { return d->st == PS_EXITED ? "ended" : d->st == PS_BLOCKED ? "serving" : "running"; }
};
SCENARIO("start", StartScn)

// L06: which backend libseat_open_seat tries and uses, for every combination of
// environment, listener and backends that work or fail in different ways.
#include "bus.h"
#include "daemon.h"
#include <errno.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct libseat;
struct Listener {
	void (*enable)(struct libseat *, void *);
	void (*disable)(struct libseat *, void *);
};
void proc_set_errno(Proc *, int);
int proc_get_errno(Proc *);

static const char *ENVS[] = {NULL, "seatd", "logind", "builtin", "noop", "", "unknown", "Seatd", "seatd ", "seat", "noop2", "logind,seatd"};
enum { NENV = 12, E_UNSET = 0, E_SEATD, E_LOGIND, E_BUILTIN, E_NOOP };
enum { L_OK, L_NULL, L_NOEN, L_NODIS, L_NEITHER, NLST };
enum { S_GRANT, S_ABSENT, S_REFUSED, S_DENY, S_CLOSE, S_MALFORMED, NSEATD };
enum { G_WORKS, G_NOSESSION, G_FAIL, NLOGIND };
enum { B_WORKS, B_FAILS, NBUILTIN };
static const int DIMS[] = {NENV, NLST, NSEATD, NLOGIND, NBUILTIN, 6};
enum { NDIM = 6 };
static const char *DEFSOCK = "/run/seatd.sock";

struct BackendScn : Scenario {
	Module *mod;
	Proc *p;
	std::vector<int> ch;
	std::string marks, sockpath, want;
	bool ran, faulted;
	int lsock, srv, appsock, nbus, en, udata;
	std::vector<std::string> paths;
	struct libseat *seat;
	Listener lst;
	struct libseat *(*l_open)(Listener *, void *);
	int (*l_getfd)(struct libseat *), (*l_close)(struct libseat *);
	const char *(*l_name)(struct libseat *);
	void load() override {
		mod = mod_load((SUTDIR + "/libseat.so").c_str());
		l_open = (struct libseat * (*)(Listener *, void *)) mod->sym("libseat_open_seat");
		l_getfd = (int (*)(struct libseat *))mod->sym("libseat_get_fd");
		l_close = (int (*)(struct libseat *))mod->sym("libseat_close_seat");
		l_name = (const char *(*)(struct libseat *))mod->sym("libseat_seat_name");
	}
	static std::string longpath(int n) {
		std::string s = "/run/";
		while ((int)s.size() < n) {
			s += (char)('a' + s.size() % 26);
		}
		return s;
	}
	void setup() override {
		ch.clear();
		marks.clear();
		paths.clear();
		ran = faulted = false;
		lsock = srv = appsock = -1;
		nbus = en = 0;
		seat = NULL;
		bus_reset();
		mod_reset(mod);
		p = proc_new(mod, 0, 0);
		p->nopollfault = true;
	}
	void ops(std::vector<int> &out) override {
		if (ch.size() < NDIM) {
			for (int i = 0; i < DIMS[ch.size()]; i++) {
				out.push_back((int)ch.size() << 8 | i);
			}
		}
	}
	std::string op_name(int op) override {
		static const char *l[] = {"a whole listener", "no listener", "a listener without enable", "a listener without disable", "a listener with nothing"};
		static const char *s[] = {"seatd grants", "there is no socket", "nobody listens on the socket", "seatd refuses", "seatd closes at once", "seatd answers nonsense"};
		static const char *g[] = {"logind works", "no logind session", "logind fails"};
		static const char *b[] = {"the embedded seatd works", "the embedded seatd fails"};
		static const char *k[] = {"SEATD_SOCK unset", "SEATD_SOCK=/run/other.sock", "SEATD_SOCK of 107 bytes", "SEATD_SOCK of 108 bytes", "SEATD_SOCK of 300 bytes", "SEATD_SOCK empty"};
		int level = op >> 8;
		op &= 255;
		switch (level) {
		case 0:
			return std::string("LIBSEAT_BACKEND ") + (ENVS[op] ? std::string("= '") + ENVS[op] + "'" : "unset");
		case 1:
			return l[op];
		case 2:
			return s[op];
		case 3:
			return g[op];
		case 4:
			return b[op];
		default:
			return k[op];
		}
	}
	void mark(char c) {
		if (marks.empty() || marks.back() != c) {
			marks += c;
		}
	}
	void on_fs(Proc *q, const char *what, const char *path, int, int, int) override {
		if (q == p && !strcmp(what, "connect")) {
			mark('S');
			paths.push_back(path);
		}
	}
	void on_inherit(Proc *q, int fd) override {
		if (q == p) {
			report("L09", "descriptor %d of the application is not close-on-exec", fd);
		}
	}
	void on_fault(Proc *, const char *, int) override { faulted = true; }
	bool fd_holds(Proc *q, int sock) {
		for (int i = 0; i < q->maxfd; i++) {
			int of = q->fd[i].of;
			if (of >= 0 && K->of[of].type == OF_SOCK && K->of[of].obj == sock) {
				return true;
			}
		}
		return false;
	}
	void look() {
		if (bus_uses > nbus) {
			nbus = bus_uses;
			mark('L');
		}
	}
	bool step() {
		bool did = false;
		for (int i = 0; i < K->nproc; i++) {
			if (PR[i].st != PS_EXITED && PR[i].st != PS_NONE && proc_runnable(&PR[i])) {
				int n = K->nproc;
				proc_run(&PR[i], 20000);
				look();
				if (K->nproc > n) {
					mark('B');
				}
				did = true;
				if (SPUN) {
					report("L06", "opening the seat runs without end");
					return false;
				}
			}
		}
		if (srv < 0 && lsock >= 0 && K->sock[lsock].naccq > 0) {
			srv = K->sock[lsock].accq[0];
			K->sock[lsock].naccq = 0;
			K->sock[srv].embryo = false;
			K->sock[srv].owner = -1;
			appsock = K->sock[srv].peer;
			if (ch[2] == S_CLOSE) {
				h_close(srv);
				return true;
			}
			did = true;
		}
		if (srv >= 0 && ch[2] != S_CLOSE) {
			char b[64];
			int r = h_recv(srv, b, sizeof b, NULL);
			if (r >= 4) {
				did = true;
				if ((u8)b[0] == 1) {
					static const char ok[] = "\x01\x80\x08\x00\x06\x00seatS", no[] = "\xff\xff\x04\x00\x01\x00\x00\x00", bad[] = "\x34\x12\x00\x00";
					ch[2] == S_GRANT ? h_send(srv, ok, 12) : ch[2] == S_DENY ? h_send(srv, no, 8) : h_send(srv, bad, 4);
				} else {
					static const char cl[] = "\x02\x80\x00\x00";
					h_send(srv, cl, 4);
				}
			}
		}
		while (BMsg *m = bus_recv()) {
			did = true;
			BMsg *r;
			if (ch[3] == G_FAIL && m->member == "TakeControl") {
				r = bus_new(BM_ERROR, m->id);
				r->err = EBUSY;
				r->errname = "System.Error.EBUSY";
				r->errmsg = "busy";
			} else {
				r = logind_reply(m, true);
			}
			bus_send(r);
		}
		return did;
	}
	void apply(int op) override {
		ch.push_back(op & 255);
		if (ch.size() < NDIM) {
			return;
		}
		ran = true;
		mk_devices(ch[4] == B_WORKS ? 3 : -1);
		K->nvt = 3;
		if (ENVS[ch[0]]) {
			proc_setenv(p, "LIBSEAT_BACKEND", ENVS[ch[0]]);
		}
		sockpath = ch[5] == 0 ? DEFSOCK : ch[5] == 1 ? "/run/other.sock" : ch[5] == 2 ? longpath(107) : ch[5] == 3 ? longpath(108) : ch[5] == 4 ? longpath(300) : "";
		if (ch[5]) {
			proc_setenv(p, "SEATD_SOCK", sockpath.c_str());
		}
		bool fits = ch[5] != 3 && ch[5] != 4 && ch[5] != 5;
		if (ch[2] != S_ABSENT && fits) {
			int n = node_mkpath(sockpath.c_str(), N_SOCK, 0777);
			if (ch[2] != S_REFUSED) {
				lsock = sock_new();
				K->sock[lsock].state = SS_LISTEN;
				K->sock[lsock].owner = -1;
				K->sock[lsock].backlog = 10;
				K->node[n].lsock = lsock;
				K->sock[lsock].node = n;
			}
		}
		if (ch[3] != G_NOSESSION) {
			bus_sess_pid = "1";
			bus_sess_seat = "seatL";
		}
		lst.enable = ch[1] == L_NOEN || ch[1] == L_NEITHER ? (void (*)(struct libseat *, void *))NULL : [](struct libseat *, void *) {};
		lst.disable = ch[1] == L_NODIS || ch[1] == L_NEITHER ? (void (*)(struct libseat *, void *))NULL : [](struct libseat *, void *) {};
		proc_start_jobs(p);
		int fds = proc_nfds(p), blocks = p->live_blocks;
		bool done = false;
		std::string nm;
		int fd = -1;
		proc_post(p, [&]() {
			proc_set_errno(p, 0);
			seat = l_open(ch[1] == L_NULL ? NULL : &lst, &udata);
			en = proc_get_errno(p);
			if (seat) {
				const char *n = l_name(seat);
				nm = n ? n : "(null)";
				fd = l_getfd(seat);
			}
			done = true;
		});
		for (int i = 0; i < 200 && !done && step(); i++) {
		}
		look();
		if (!VIOL.empty()) {
			return;
		}
		if (p->st == PS_EXITED) {
			report("L06", "opening the seat ends the application: %s", p->crash);
			return;
		}
		if (!done) {
			report("L06", "libseat_open_seat does not return");
			return;
		}
		char used = '-';
		if (seat) {
			int of = fd_of(p, fd);
			int s = of >= 0 && K->of[of].type == OF_SOCK ? K->of[of].obj : -1;
			int q = s < 0 ? -1 : K->sock[s].peer;
			used = q < 0 ? '?' : q == BUS.sock ? 'L' : q == srv && s == appsock ? 'S' : K->sock[q].owner == p->id && fd_holds(p, q) ? 'N' : 'B';
			std::string wn = used == 'S' ? "seatS" : used == 'L' ? "seatL" : "seat0";
			if (nm != wn && !faulted) {
				report("L06", "the seat's name is '%s' instead of '%s'", nm.c_str(), wn.c_str());
			}
		}
		tracef("result %s errno %d, tried '%s', used %c", seat ? "seat" : "NULL", en, marks.c_str(), used);
		for (auto &x : paths) {
			if (x != sockpath) {
				report("L06", "the seatd backend connects to '%s' instead of '%s'", x.c_str(), sockpath.c_str());
			}
		}
		if (ch[1] != L_OK) {
			if (seat || en != EINVAL) {
				report("L06", "an unusable listener: %s, errno %d", seat ? "a seat is opened" : "NULL", en);
			}
			if (!marks.empty() || proc_nfds(p) != fds || p->live_blocks != blocks) {
				report("L06", "an unusable listener: backends are tried all the same (%s)", marks.c_str());
			}
			return;
		}
		bool s = ch[2] == S_GRANT && fits, l = ch[3] == G_WORKS, b = ch[4] == B_WORKS;
		std::string wm; // backends to be tried, in order
		char wu = '-';
		switch (ch[0]) {
		case E_UNSET:
			wm = s ? "S" : l ? "SL" : "SLB";
			wu = s ? 'S' : l ? 'L' : b ? 'B' : '-';
			break;
		case E_SEATD:
			wm = "S";
			wu = s ? 'S' : '-';
			break;
		case E_LOGIND:
			wm = "L";
			wu = l ? 'L' : '-';
			break;
		case E_BUILTIN:
			wm = "B";
			wu = b ? 'B' : '-';
			break;
		case E_NOOP:
			wu = 'N';
			break;
		}
		if (ch[5] == 3 || ch[5] == 4) { // cannot be connected to; whether that is tried is open
			std::string x;
			for (char c : marks) {
				if (c != 'S') {
					x += c;
				}
			}
			std::string y;
			for (char c : wm) {
				if (c != 'S') {
					y += c;
				}
			}
			marks = x;
			wm = y;
		}
		if (!faulted) {
			if (marks != wm) {
				report("L06", "the backends tried are '%s' instead of '%s'", marks.c_str(), wm.c_str());
			}
			if (used != wu) {
				report("L06", "the backend in use is %c instead of %c", used, wu);
			}
		} else {
			// some may have failed before they could be noticed
			std::string all = ch[0] == E_UNSET ? "SLB" : wm;
			size_t pos = 0;
			for (char c : marks) {
				size_t q = all.find(c, pos);
				if (q == std::string::npos) {
					report("L06", "with a failing call, the backends tried are '%s'", marks.c_str());
					break;
				}
				pos = q + 1;
			}
			if (used == '?') { // opened, and broken straight after
				used = marks.empty() ? '?' : marks.back();
			}
			bool may = used == '-' || (ch[0] == E_NOOP ? used == 'N' : all.find(used) != std::string::npos && (used == 'S' ? s : used == 'L' ? l : b));
			if (!may) {
				report("L06", "with a failing call, the backend in use is %c", used);
			}
			if (used != '-' && used != 'N' && (marks.empty() || marks.back() != used)) {
				report("L06", "the backends tried are '%s', the one in use is %c", marks.c_str(), used);
			}
		}
		if (!seat && ch[0] == E_UNSET && en != ENOSYS) {
			report("L06", "no backend works: errno %d instead of ENOSYS", en);
		}
		if (!seat && ch[0] >= 5 && en != EINVAL) {
			report("L06", "the unknown backend '%s' fails with errno %d instead of EINVAL", ENVS[ch[0]], en);
		}
		if (!seat && en == 0) {
			report("L06", "opening the seat fails without setting errno");
		}
	}
	u64 key() override {
		return hash_bytes(ch.data(), ch.size() * sizeof(int), 3 + faulted);
	}
};
SCENARIO("backend", BackendScn)

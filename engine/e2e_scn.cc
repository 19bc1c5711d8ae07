// L05, C19: libseat applications on a real daemon - seatd, or the one libseat's
// builtin backend starts - each scheduled on its own.
#include "explore.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/kd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <algorithm>
#include <deque>

struct libseat;
extern int STDIO_ERRNO;
void mk_devices(int nvt);
void proc_set_errno(Proc *, int);
int proc_get_errno(Proc *);
void proc_fire_timeout(Proc *);
void h_exit(int);
namespace {
struct Listener {
	void (*enable)(struct libseat *, void *);
	void (*disable)(struct libseat *, void *);
};
enum { E_RUN, E_OPEN, E_DISPATCH, E_ACK, E_DEV, E_CDEV, E_SWITCH, E_CLOSE, E_KILL, E_VT, E_TERM };
int mk(int k, int i, int a) { return k << 16 | i << 8 | a; }
const char *devs[] = {"/dev/dri/card0", "/dev/input/event0", "/dev/input/event1"};

struct Dev {
	int id, fd, of, kind;
	u32 serial;
};
struct App {
	Proc *p;
	Module *mod;
	struct libseat *seat;
	Listener lst;
	int last; // last delivered: 0 none, 1 enabled, 2 disabled
	bool unacked; // disable delivered, not acknowledged
	bool active; // enabled and has not started to acknowledge or leave
	bool open, tried, gone, killed;
	int api, arg, nev, acts;
	int session; // 0 unknown
	u32 fgm;
	u64 pos;
	std::vector<Dev> dev;
	struct libseat *(*l_open)(Listener *, void *);
	int (*l_disable)(struct libseat *), (*l_close)(struct libseat *), (*l_opendev)(struct libseat *, const char *, int *);
	int (*l_closedev)(struct libseat *, int), (*l_switch)(struct libseat *, int), (*l_dispatch)(struct libseat *, int);
};

struct E2eScn : Scenario {
	Module *dmod = nullptr, *amod[4];
	int na;
	Proc *d; // the daemon
	App A[4];
	bool vt, builtin, faulted, over, termed;
	int nops, dfds, dblocks, fgsw, nwas[4];
	bool preempted;
	u64 prekey, dpos, opos[MAXPROC];
	const char *ID;
	std::string dlog = "silent";
	std::string obs; // what the applications see, for comparisons
	static E2eScn *self;

	void load() override {
		builtin = P.num("builtin", 0);
		na = builtin ? 1 : (int)P.num("apps", 2);
		if (!builtin) {
			dmod = mod_load((SUTDIR + "/seatd.so").c_str());
		}
		for (int i = 0; i < na; i++) {
			amod[i] = mod_load((SUTDIR + "/libseat" + (i ? std::to_string(i) : "") + ".so").c_str());
			App &a = A[i];
			auto get = [&](auto &f, const char *n) {
				f = (std::remove_reference_t<decltype(f)>)amod[i]->sym(n);
				if (!f) {
					fprintf(stderr, "harness: no %s\n", n);
					exit(2);
				}
			};
			get(a.l_open, "libseat_open_seat");
			get(a.l_disable, "libseat_disable_seat");
			get(a.l_close, "libseat_close_seat");
			get(a.l_opendev, "libseat_open_device");
			get(a.l_closedev, "libseat_close_device");
			get(a.l_switch, "libseat_switch_session");
			get(a.l_dispatch, "libseat_dispatch");
		}
		ID = builtin ? "C19" : "L05";
	}
	template <int I> static void cb_en(struct libseat *s, void *) { self->event(I, 1, s); }
	template <int I> static void cb_dis(struct libseat *s, void *) { self->event(I, 2, s); }
	void setup() override {
		self = this;
		vt = P.num("vt", 0);
		faulted = over = termed = preempted = false;
		nops = fgsw = 0;
		obs.clear();
		prekey = dpos = 0;
		memset(opos, 0, sizeof opos);
		d = NULL;
		int nvt = (int)P.num("nvt", 3);
		mk_devices(nvt);
		K->nvt = nvt;
		K->fg = 1;
		if (!builtin) {
			mod_reset(dmod);
			d = proc_new(dmod, 0, 0);
			if (!vt) {
				proc_setenv(d, "SEATD_VTBOUND", "0");
			}
			proc_start_main(d, {"seatd", "-l", dlog, "-g", "video"});
			proc_run(d, 5000);
			if (d->st == PS_EXITED || SPUN) {
				report(ID, "the daemon does not start");
				over = true;
				return;
			}
			dfds = proc_nfds(d);
			dblocks = d->live_blocks;
		}
		for (int i = 0; i < na; i++) {
			App &a = A[i];
			mod_reset(amod[i]);
			a.p = proc_new(amod[i], builtin ? 0 : 1000 + i, builtin ? 0 : 44);
			proc_setenv(a.p, "LIBSEAT_BACKEND", builtin ? "builtin" : "seatd");
			if (builtin && !vt) {
				proc_setenv(a.p, "SEATD_VTBOUND", "0");
			}
			proc_start_jobs(a.p);
			a.seat = NULL;
			a.last = a.api = a.arg = a.nev = a.acts = a.session = 0;
			a.unacked = a.active = a.open = a.tried = a.gone = a.killed = false;
			a.pos = 0;
			a.fgm = 0;
			a.dev.clear();
			nwas[i] = proc_nfds(a.p);
		}
		A[0].lst = {cb_en<0>, cb_dis<0>};
		A[1].lst = {cb_en<1>, cb_dis<1>};
		A[2].lst = {cb_en<2>, cb_dis<2>};
	}
	// ------------------------------------------------------------ monitors
	int digit(const char *k, int i) {
		std::string s = P.str(k, "0");
		return s[std::min<size_t>(i, s.size() - 1)] - '0';
	}
	void on_fault(Proc *, const char *, int) override { faulted = true; }
	bool dead(const Dev &v) {
		if (!same_of(v.of, v.serial)) {
			return true;
		}
		OFile &o = K->of[v.of];
		Node &n = K->node[o.obj];
		return n.dev == D_DRM ? n.drm_master != v.of : o.revoked;
	}
	void event(int i, int kind, struct libseat *s) {
		App &a = A[i];
		if (cur != a.p) {
			report(ID, "the listener of application %d is called in another process", i);
			return;
		}
		tracef("application %d is told %s", i, kind == 1 ? "enabled" : "disabled");
		a.nev++;
		note(i, 100 + kind, 0);
		if (kind == a.last || (kind == 2 && a.last == 0)) {
			report(ID, "application %d is told %s twice", i, kind == 1 ? "enabled" : "disabled");
		}
		if (a.api == E_OPEN && !a.seat) {
			a.seat = s;
		}
		a.last = kind;
		if (kind == 1) {
			a.unacked = false;
			a.active = a.api != E_CLOSE;
			for (int j = 0; j < na; j++) {
				if (j == i || a.api == E_CLOSE) { // one that is leaving does not count
					continue;
				}
				if (A[j].active) {
					report(ID, "application %d is told enabled while application %d is, too", i, j);
				}
				for (auto &v : A[j].dev) {
					if (!dead(v)) {
						report(ID, "application %d is told enabled while application %d can still use %s", i, j, devs[v.kind]);
					}
				}
			}
			if (digit("en", i)) { // opens a device at once
				opendev(i, digit("en", i) - 1);
			}
			return;
		}
		a.unacked = true;
		if (digit("dis", i) == 1) {
			ack(i);
		}
	}
	void note(int i, int what, int r) {
		char b[60];
		snprintf(b, sizeof b, "%d:%s%s=%d/%d ", i, what >= 100 ? "told" : name(what), what == 101 ? "+" : what == 102 ? "-" : "", r,
			 r < 0 ? proc_get_errno(A[i].p) : 0);
		obs += b;
	}
	// ------------------------------------------------------------ application calls, in their process
	void ack(int i) {
		App &a = A[i];
		int api = a.api;
		a.api = E_ACK;
		a.unacked = false;
		a.active = false;
		int r = a.l_disable(a.seat);
		note(i, E_ACK, r);
		a.api = api;
		if (r && !faulted && !over && api != E_CLOSE) {
			report(ID, "disable_seat of application %d fails with errno %d", i, proc_get_errno(a.p));
		}
	}
	int opendev(int i, int k) {
		App &a = A[i];
		int api = a.api, fd = -1;
		a.api = E_DEV;
		int r = a.l_opendev(a.seat, devs[k], &fd);
		note(i, E_DEV, r);
		a.api = api;
		if (r >= 0) {
			int of = fd_of(a.p, fd);
			if (of < 0) {
				report(ID, "open_device of application %d succeeds without a descriptor", i);
				return r;
			}
			if (K->of[of].type != OF_NODE || strcmp(K->node[K->of[of].obj].name, strrchr(devs[k], '/') + 1)) {
				report(ID, "application %d gets something else than %s", i, devs[k]);
			}
			a.dev.push_back({r, fd, of, k, K->of[of].serial});
		}
		return r;
	}
	void body(int op) {
		int k = op >> 16, i = op >> 8 & 255, x = op & 255;
		App &a = A[i];
		a.api = k;
		a.arg = x;
		int r = 0;
		switch (k) {
		case E_OPEN: {
			struct libseat *s = a.l_open(&a.lst, &a);
			if (cur != a.p) {
				report(ID, "the private daemon goes on as the application");
				sim_exit_(0);
			}
			a.seat = s;
			if (s) {
				a.open = true;
				a.fgm |= 1u << K->fg;
				for (int v = 1; vt && v < 9; v++) {
					if (a.fgm == 1u << v) {
						a.session = v;
					}
				}
			} else {
				a.gone = true;
				if (!faulted && !vt) {
					report(ID, "open_seat of application %d fails with errno %d", i, proc_get_errno(a.p));
				}
				if (proc_nfds(a.p) != nwas[i]) {
					report(ID, "open_seat fails and leaves %d descriptors", proc_nfds(a.p) - nwas[i]);
				}
			}
			break;
		}
		case E_DISPATCH:
			r = a.l_dispatch(a.seat, 0);
			if (r < 0 && !faulted) {
				report(ID, "dispatch of application %d fails with errno %d", i, proc_get_errno(a.p));
			}
			break;
		case E_ACK:
			ack(i);
			break;
		case E_DEV:
			opendev(i, x);
			break;
		case E_CDEV: {
			Dev v = a.dev[x];
			r = a.l_closedev(a.seat, v.id);
			for (size_t q = 0; q < a.dev.size(); q++) {
				if (a.dev[q].fd == v.fd) {
					a.dev.erase(a.dev.begin() + q);
					break;
				}
			}
			if (r && !faulted) {
				report(ID, "close_device of application %d fails with errno %d", i, proc_get_errno(a.p));
			}
			bool again = false; // opened twice
			for (auto &w : a.dev) {
				again |= w.of == v.of && w.serial == v.serial;
			}
			if (!faulted && !again && !dead(v)) {
				report(ID, "application %d can still use %s after closing it", i, devs[v.kind]);
			}
			close_fd(a.p, v.fd);
			break;
		}
		case E_SWITCH:
			r = a.l_switch(a.seat, x);
			break;
		case E_CLOSE:
			a.active = false;
			a.unacked = false;
			a.open = false;
			r = a.l_close(a.seat);
			a.seat = NULL;
			a.gone = true;
			if (r && !faulted) {
				report(ID, "close_seat of application %d fails with errno %d", i, proc_get_errno(a.p));
			}
			break;
		}
		if (k != E_ACK && k != E_DEV) {
			note(i, k, k == E_OPEN ? (a.seat ? 0 : -1) : r);
		}
		tracef("application %d: %s returns %d", i, name(k), r);
		a.api = 0;
	}
	void close_fd(Proc *p, int fd) {
		if (fd_of(p, fd) >= 0) {
			int of = p->fd[fd].of;
			p->fd[fd].of = -1;
			of_unref(of);
		}
	}
	void sim_exit_(int c) {
		h_exit(c);
	}
	// ------------------------------------------------------------ exploration
	bool alive(Proc *p) { return p->st != PS_EXITED && p->st != PS_NONE; }
	u64 &pos_of(Proc *p) {
		for (int i = 0; i < na; i++) {
			if (A[i].p == p) {
				return A[i].pos;
			}
		}
		if (p == d) {
			return dpos;
		}
		return opos[p->id];
	}
	int ninject() override { return P.num("pre", 0) && cur && alive(cur); }
	void inject(int) override {
		tracef("process %d is preempted", cur->id);
		preempted = true;
		SPUN = true;
		coro_yield();
	}
	void run(Proc *p) {
		if (!alive(p) || over) {
			return;
		}
		pos_of(p) = 0;
		u32 fg0 = 1u << K->fg;
		proc_run(p, 5000);
		for (int i = 0; i < na; i++) {
			if (A[i].api == E_OPEN) {
				A[i].fgm |= fg0 | 1u << K->fg;
			}
		}
		if (preempted) {
			preempted = SPUN = false;
			u64 h = prekey;
			u64 v[3] = {(u64)SC.ndev, (u64)SC.dev[0].point << 16 | SC.dev[0].alt, (u64)SC.dev[1].point << 16 | SC.dev[1].alt};
			pos_of(p) = hash_bytes(v, 8 + 8 * std::min(SC.ndev, 2), h);
			return;
		}
		if (SPUN) {
			SPUN = false;
			report(ID, "process %d runs without end", p->id);
			over = true;
			return;
		}
		if (p->crashed) {
			report(ID, "process %d crashes: %s", p->id, p->crash);
			over = true;
			return;
		}
		if (p->st == PS_EXITED && p == d) {
			report(ID, "the daemon exits");
			over = true;
		} else if (p->st == PS_EXITED && p == A[0].p) {
			report(ID, "the application is ended (%x)", p->exit_status);
			over = true;
		}
	}
	bool isapp(Proc *p) {
		for (int i = 0; i < na; i++) {
			if (A[i].p == p) {
				return true;
			}
		}
		return false;
	}
	void apply(int op) override {
		int k = op >> 16, i = op >> 8 & 255, x = op & 255;
		nops++;
		prekey = 0;
		if (SC.ndev) {
			prekey = key();
			prekey = hash_bytes(&op, sizeof op, prekey);
		}
		switch (k) {
		case E_RUN:
			run(&PR[i]);
			return;
		case E_VT:
			fgsw++;
			for (int j = 0; j < na; j++) {
				if (A[j].api == E_OPEN) {
					A[j].fgm |= 1u << K->fg;
				}
			}
			vt_user_switch(x);
			return;
		case E_TERM:
			termed = faulted = true; // calls may fail from now on
			proc_signal(&PR[i], x ? SIGINT : SIGTERM);
			return;
		case E_KILL:
			A[i].killed = true;
			A[i].open = A[i].active = A[i].unacked = false;
			A[i].api = 0;
			proc_kill(A[i].p, 9);
			return;
		}
		App &a = A[i];
		if (k != E_DISPATCH && k != E_ACK) {
			a.acts++;
		}
		if (k == E_OPEN) {
			a.tried = true;
			a.fgm = 1u << K->fg;
		}
		proc_post(a.p, [this, op] { body(op); });
		run(a.p);
	}
	bool quiet(Proc *p) { return !proc_runnable(p); }
	void ops(std::vector<int> &out) override {
		if (over) {
			return;
		}
		int maxacts = (int)P.num("acts", 3);
		std::string menu = P.str("menu", "oavdcskx");
		auto has = [&](char c) { return menu.find(c) != std::string::npos; };
		for (int i = 0; i < K->nproc; i++) {
			if (alive(&PR[i]) && proc_runnable(&PR[i]) && !(isapp(&PR[i]) && !proc_busy(&PR[i]))) {
				out.push_back(mk(E_RUN, i, 0));
			}
		}
		for (int i = 0; i < na; i++) {
			App &a = A[i];
			if (a.killed || a.gone) {
				continue;
			}
			if (!a.tried) {
				out.push_back(mk(E_OPEN, i, 0));
				continue;
			}
			if (has('k')) {
				out.push_back(mk(E_KILL, i, 0));
			}
			if (proc_busy(a.p) || !a.open) {
				continue;
			}
			if (has('a')) {
				out.push_back(mk(E_DISPATCH, i, 0));
			}
			if (a.unacked) {
				out.push_back(mk(E_ACK, i, 0));
			}
			if (a.acts >= maxacts) {
				continue;
			}
			if (has('d') && a.dev.size() < 2) {
				for (int q = 0; q < P.num("ndev", 1); q++) {
					out.push_back(mk(E_DEV, i, q));
				}
			}
			if (has('c') && !a.dev.empty()) {
				out.push_back(mk(E_CDEV, i, 0));
			}
			if (has('s')) {
				for (int q = 1; q <= P.num("targets", 2); q++) {
					out.push_back(mk(E_SWITCH, i, q));
				}
			}
			if (has('x')) {
				out.push_back(mk(E_CLOSE, i, 0));
			}
		}
		if (builtin && has('t') && K->nproc > 1 && alive(&PR[1]) && !termed && !faulted && A[0].open) {
			out.push_back(mk(E_TERM, 1, 0));
			out.push_back(mk(E_TERM, 1, 1));
		}
		if (vt && has('v') && fgsw < P.num("vtsw", 2)) {
			for (int v = 1; v <= K->nvt; v++) {
				if (v != K->fg) {
					out.push_back(mk(E_VT, 0, v));
				}
			}
		}
	}
	// everybody runs until nothing moves
	void settle(bool acks) {
		for (int round = 0; round < 60 && !over; round++) {
			bool moved = false;
			for (int i = K->nproc - 1; i >= 0; i--) {
				Proc *p = &PR[i];
				if (alive(p) && proc_runnable(p) && !(isapp(p) && !proc_busy(p))) {
					run(p);
					moved = true;
				}
			}
			for (int i = 0; i < na && !over; i++) {
				App &a = A[i];
				if (!a.open || a.killed || proc_busy(a.p)) {
					continue;
				}
				if (acks && a.unacked) {
					proc_post(a.p, [this, i] { body(mk(E_ACK, i, 0)); });
					run(a.p);
					moved = true;
					continue;
				}
				if (quiet(a.p) && round && !pending(a.p)) {
					continue;
				}
				int n = a.nev;
				proc_post(a.p, [this, i] { body(mk(E_DISPATCH, i, 0)); });
				run(a.p);
				moved |= a.nev != n || pending(a.p);
			}
			if (!moved && round) {
				return;
			}
		}
		if (!over) {
			report(ID, "the applications and the daemon do not come to rest");
			over = true;
		}
	}
	bool pending(Proc *p) { // unread data on its sockets
		for (int f = 0; f < p->maxfd; f++) {
			int of = p->fd[f].of;
			if (of >= 0 && K->of[of].type == OF_SOCK && h_pending(K->of[of].obj) > 0) {
				return true;
			}
		}
		return false;
	}
	void rest_checks(bool acked) {
		if (over || faulted) {
			return;
		}
		int nopen = 0, nen = 0;
		bool un = false, anyf = false;
		for (int i = 0; i < na; i++) {
			App &a = A[i];
			if (a.killed || !a.tried) {
				continue;
			}
			if (proc_busy(a.p)) {
				report(ID, "%s of application %d does not return", name(a.api), i);
				over = true;
				return;
			}
			nopen += a.open;
			nen += a.open && a.last == 1;
			un |= a.unacked;
			anyf |= a.open && vt && a.session == K->fg;
		}
		if (nen > 1) {
			report(ID, "%d applications are enabled at rest", nen);
		}
		if (un) {
			return;
		}
		if (acked && vt && vt_release_pending() && K->vt[K->fg].owner >= 0 && alive(&PR[K->vt[K->fg].owner])) {
			report(ID, "the switch to another VT does not take place");
		}
		if (!vt && nopen && !nen) {
			report(ID, "no application is enabled at rest");
		}
		if (vt && anyf && !nen) {
			report(ID, "the application of the VT in the foreground is not enabled at rest");
		}
		for (int i = 0; i < na && !over; i++) {
			App &a = A[i];
			if (a.killed || !a.open) {
				continue;
			}
			if (vt && a.last == 1 && a.session && a.session != K->fg) {
				report(ID, "application %d of VT %d is enabled at rest with VT %d in the foreground", i, a.session, K->fg);
			}
			// what the daemon thinks
			size_t nd = a.dev.size();
			int res = -9;
			proc_post(a.p, [&, i] { res = opendev(i, 2); });
			drive(a.p);
			if (over) {
				return;
			}
			if (res == -9) {
				report(ID, "open_device of application %d does not return", i);
				over = true;
				return;
			}
			if ((res >= 0) != (a.last == 1)) {
				report(ID, "application %d was last told %s, and the daemon %s it a device", i, a.last == 1 ? "enabled" : a.last ? "disabled" : "nothing",
				       res >= 0 ? "gives" : "refuses");
			}
			if (res >= 0 && a.dev.size() > nd) {
				int idx = (int)nd;
				proc_post(a.p, [&, i, idx] { body(mk(E_CDEV, i, idx)); });
				drive(a.p);
			}
			for (auto &v : a.dev) {
				if (dead(v) == (a.last == 1) && (v.kind == 0 || a.last != 1)) {
					report(ID, "application %d was last told %s and its %s is %s", i, a.last == 1 ? "enabled" : "disabled", devs[v.kind],
					       dead(v) ? "dead" : "usable");
				}
			}
		}
	}
	void drive(Proc *p) {
		for (int r = 0; r < 40 && !over; r++) {
			bool moved = false;
			for (int i = 0; i < K->nproc; i++) {
				Proc *q = &PR[i];
				if (alive(q) && proc_runnable(q) && !(isapp(q) && !proc_busy(q))) {
					run(q);
					moved = true;
				}
			}
			if (!moved) {
				return;
			}
		}
	}
	void finish() override {
		if (over) {
			return;
		}
		settle(false);
		rest_checks(false);
		settle(true);
		rest_checks(true);
		if (termed && !over && alive(&PR[1])) {
			report(ID, "the private daemon goes on after a signal to terminate");
		}
		for (auto &v : A[0].dev) {
			if (termed && !A[0].killed && !dead(v)) {
				report(ID, "the private daemon is terminated and its application can still use %s", devs[v.kind]);
			}
		}
		if (over) {
			return;
		}
		// everybody leaves, one way or the other
		for (int i = 0; i < na; i++) {
			App &a = A[i];
			if (a.killed || !a.tried) {
				continue;
			}
			if (nops % 2 && a.open && !proc_busy(a.p)) {
				proc_post(a.p, [this, i] { body(mk(E_CLOSE, i, 0)); });
				drive(a.p);
				if (!over && proc_busy(a.p) && !faulted) {
					report(ID, "close_seat of application %d does not return", i);
				}
				for (auto &v : a.dev) {
					if (!dead(v) && !faulted) {
						report(ID, "application %d has closed its seat and can still use %s", i, devs[v.kind]);
					}
					close_fd(a.p, v.fd);
				}
				a.dev.clear();
				if (!over && proc_nfds(a.p) != nwas[i] && !faulted) {
					report(ID, "application %d has closed its seat and %d descriptors are left", i, proc_nfds(a.p) - nwas[i]);
				}
			} else if (!over) {
				apply(mk(E_KILL, i, 0));
				drive(a.p);
			}
			if (over) {
				return;
			}
		}
		settle(true);
		if (over) {
			return;
		}
		if (termed) {
			// (a request to release the VT that comes when its handlers are gone ends it)
			int st = K->nproc > 1 && !alive(&PR[1]) ? PR[1].exit_status : 0;
			if (st && !(vt && fgsw && (st == SIGUSR1 || st == SIGUSR2))) {
				report(ID, "the private daemon ends with status %x on a signal", st);
			}
		}
		if (builtin) {
			for (int i = 1; i < K->nproc; i++) {
				if (alive(&PR[i])) {
					report(ID, "the application is gone and its private daemon lives");
				} else if (PR[i].exit_status && !faulted && !(vt && fgsw && (PR[i].exit_status == SIGUSR1 || PR[i].exit_status == SIGUSR2))) {
					// (a request to release the VT that comes when its handlers are gone ends it)
					report(ID, "the private daemon ends with status %x", PR[i].exit_status);
				}
			}
		}
		if (faulted && !builtin) {
			return;
		}
		if (vt && (!faulted || termed)) {
			for (int v = 1; v <= K->nvt; v++) {
				if (K->vt[v].kd != KD_TEXT || K->vt[v].kb == K_OFF) {
					report(ID, "everybody is gone and VT %d is not as it was", v);
				}
			}
		}
		if (d && !faulted && proc_nfds(d) != dfds) {
			report(ID, "everybody is gone and the daemon keeps %d descriptors", proc_nfds(d) - dfds);
		}
	}
	u64 key() override {
		std::string s;
		auto add = [&](u64 v) { s.append((char *)&v, 8); };
		add(over | faulted << 1 | termed << 2);
		add(fgsw);
		add(nops & 1);
		for (int i = 0; i < na; i++) {
			App &a = A[i];
			add(a.last | a.unacked << 3 | a.active << 4 | a.open << 5 | a.tried << 6 | a.gone << 7 | a.killed << 8);
			add(a.api << 8 | a.arg);
			add(a.acts);
			add(a.session);
			add(a.fgm);
			for (auto &v : a.dev) {
				add(v.id << 8 | v.kind);
				add(dead(v));
			}
		}
		if (vt) {
			add(K->fg);
			for (int v = 1; v <= K->nvt; v++) {
				add(K->vt[v].kd | K->vt[v].kb << 8 | K->vt[v].process << 16 | K->vt[v].newvt << 20);
			}
		}
		u64 h = 0;
		for (int i = 0; i < K->nproc; i++) {
			Proc *p = &PR[i];
			add(p->st);
			if (p->st == PS_EXITED) {
				add(p->exit_status);
				continue;
			}
			add(p->st == PS_BLOCKED ? p->bk : -1);
			add(p->st == PS_BLOCKED && p->bk == B_POLL ? p->timeout : -2);
			add(p->sigpend);
			add(pos_of(p));
			for (int f = 0; f < p->maxfd; f++) {
				int of = p->fd[f].of;
				if (of < 0) {
					continue;
				}
				add(f << 8 | K->of[of].type);
				if (K->of[of].type == OF_NODE) {
					add(K->of[of].obj << 1 | K->of[of].revoked);
				}
				if (K->of[of].type == OF_PIPER) {
					Pipe *q = &K->pipe[K->of[of].obj];
					add(q->hd - q->tl);
				}
				if (K->of[of].type == OF_SOCK) {
					int n = K->of[of].obj;
					Sock *k = &K->sock[n];
					add(k->state << 8 | k->naccq);
					for (u32 b = k->tl; b != k->hd; b++) {
						s += SB[n].buf[b % SOCKBUF];
					}
					add(k->skb_hd - k->skb_tl);
				}
			}
			h = proc_heap_shape(p, h, 1 << 20, {});
		}
		return hash_bytes(s.data(), s.size(), h + 37);
	}
	static const char *name(int k) {
		static const char *n[] = {"nothing", "open_seat", "dispatch", "disable_seat", "open_device", "close_device", "switch_session", "close_seat"};
		return n[k];
	}
	std::string op_name(int op) override {
		int k = op >> 16, i = op >> 8 & 255, x = op & 255;
		switch (k) {
		case E_RUN: {
			for (int j = 0; j < na; j++) {
				if (A[j].p == &PR[i]) {
					return "application " + std::to_string(j) + " goes on";
				}
			}
			return "the daemon runs";
		}
		case E_VT:
			return "user switches to VT " + std::to_string(x);
		case E_TERM:
			return x ? "SIGINT to the private daemon" : "SIGTERM to the private daemon";
		case E_KILL:
			return "application " + std::to_string(i) + " is killed";
		case E_DEV:
			return "application " + std::to_string(i) + " opens " + devs[x];
		case E_SWITCH:
			return "application " + std::to_string(i) + " switches to session " + std::to_string(x);
		}
		return "application " + std::to_string(i) + ": " + name(k);
	}
	std::string describe() override {
		std::string r;
		for (int i = 0; i < na; i++) {
			static const char *e[] = {"-", "enabled", "disabled"};
			r += (i ? ", " : "") + std::to_string(i) + " " + (A[i].killed ? "killed" : A[i].open ? e[A[i].last] : "no seat") + (A[i].unacked ? " unacknowledged" : "") +
			     (proc_busy(A[i].p) ? std::string(" in ") + name(A[i].api) : "");
		}
		return r;
	}
};
E2eScn *E2eScn::self;
SCENARIO("e2e", E2eScn)

// G01: the same once more, logging.
int log_errno;
void log_disturb(int, const char *fmt, va_list args) {
	char b[2000];
	vsnprintf(b, sizeof b, fmt, args);
	tracef("   log: %s", b);
	if (log_errno) {
		proc_set_errno(cur, log_errno);
	}
}
struct E2eTwin : E2eScn {
	std::vector<int> hist;
	int level = 0, how = 0;
	bool second = false;
	void load() override {
		E2eScn::load();
		ID = "G01x"; // other findings are not this property's
	}
	void setup() override {
		hist.clear();
		level = how = 0;
		second = false;
		STDIO_ERRNO = log_errno = 0;
		dlog = "silent";
		E2eScn::setup();
	}
	void apply(int op) override {
		if (!second) {
			hist.push_back(op);
		}
		E2eScn::apply(op);
	}
	std::string rest() {
		std::string s = obs;
		s += "; VT " + std::to_string(K->fg);
		for (int v = 1; v <= K->nvt; v++) {
			Vt &x = K->vt[v];
			s += " " + std::to_string(x.process) + std::to_string(x.kb) + std::to_string(x.kd) + std::to_string(x.newvt);
		}
		for (int i = 0; i < K->nproc; i++) {
			s += "; " + std::to_string(alive(&PR[i])) + " " + std::to_string(proc_nfds(&PR[i]));
			s += " " + std::to_string(proc_runnable(&PR[i]));
		}
		return s;
	}
	void finish() override {
		std::string ref = rest();
		std::vector<int> h = hist;
		for (level = 1; level <= 3; level++) {
			for (how = 0; how < 4; how++) {
				static const int es[] = {0, EAGAIN, EINTR, ENOENT};
				tracef("-- the same at log level %d", level);
				sim_reset();
				H = this;
				STDIO_ERRNO = log_errno = es[how];
				dlog = level == 1 ? "error" : level == 2 ? "info" : "debug";
				E2eScn::setup();
				for (int i = 0; i < na; i++) {
					auto sl = (void (*)(int))amod[i]->sym("libseat_set_log_level");
					auto sh = (void (*)(void (*)(int, const char *, va_list)))amod[i]->sym("libseat_set_log_handler");
					int l = level, w = how;
					proc_post(A[i].p, [sl, sh, l, w] {
						sl(l);
						sh(w ? log_disturb : NULL);
					});
					proc_run(A[i].p, 100);
				}
				second = true;
				for (int op : h) {
					tracef("-- %s", op_name(op).c_str());
					apply(op);
				}
				second = false;
				std::string r = rest();
				if (r != ref) {
					report("G01", "at log level %d%s the applications see: %s; without logging: %s", level, how ? " with a handler that disturbs errno" : "", r.c_str(), ref.c_str());
					how = level = 9;
				}
			}
		}
		STDIO_ERRNO = log_errno = 0;
	}
};
SCENARIO("e2etwin", E2eTwin)
} // namespace

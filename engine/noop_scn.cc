// L07: the noop backend under every sequence of API calls.
#include "daemon.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct libseat;
struct Listener {
	void (*enable)(struct libseat *, void *);
	void (*disable)(struct libseat *, void *);
};
extern "C" int sim_close(int);
void proc_set_errno(Proc *, int);
int proc_get_errno(Proc *);
void proc_fire_timeout(Proc *);

enum { N_OPEN, N_DISP, N_DEV, N_CLOSEDEV, N_DISABLE, N_SWITCH, N_CLOSE, N_NAME, N_FD, N_TIMEOUT, N_APPCLOSE };
static const char *DEV[] = {"/dev/dri/card0", "/dev/input/event0", "/tmp/mycard", "/dev/dri/loop", "/nowhere", "/dev/dri/bad0", "/etc/secret", "/dev/input/../dri/card1", ""};
enum { NDEV = 9 };
static int mk(int k, int a) { return k << 8 | a; }

struct NoopScn : Scenario {
	Module *mod;
	Proc *p;
	struct libseat *seat;
	Listener lst;
	int udata, fdbase, blockbase, enables, ncalls, act;
	bool opened, gone, faulted, spun, low, disp_running, devrunning;
	int disp_t; // timeout of the dispatch under way
	int disp_en; // enables when it began
	std::vector<std::pair<int, int>> dev; // id, fd the application holds
	struct Opened {
		std::string path;
		int node, of, flags;
	};
	std::vector<Opened> opens;
	static NoopScn *self;
	struct libseat *(*l_open)(Listener *, void *);
	int (*l_disable)(struct libseat *), (*l_close)(struct libseat *), (*l_opendev)(struct libseat *, const char *, int *);
	int (*l_closedev)(struct libseat *, int), (*l_switch)(struct libseat *, int), (*l_getfd)(struct libseat *), (*l_dispatch)(struct libseat *, int);
	const char *(*l_name)(struct libseat *);
	template <class T> void get(T &f, const char *n) {
		f = (T)mod->sym(n);
		if (!f) {
			fprintf(stderr, "harness: no %s\n", n);
			exit(2);
		}
	}
	std::vector<int> acts;
	void load() override {
		mod = mod_load((SUTDIR + "/libseat.so").c_str());
		get(l_open, "libseat_open_seat");
		get(l_disable, "libseat_disable_seat");
		get(l_close, "libseat_close_seat");
		get(l_opendev, "libseat_open_device");
		get(l_closedev, "libseat_close_device");
		get(l_switch, "libseat_switch_session");
		get(l_getfd, "libseat_get_fd");
		get(l_dispatch, "libseat_dispatch");
		get(l_name, "libseat_seat_name");
		acts.clear();
		std::string s = P.str("acts", "0,1,2,3");
		for (char *t = strtok(&s[0], ","); t; t = strtok(NULL, ",")) {
			acts.push_back(atoi(t));
		}
	}
	void setup() override {
		self = this;
		mod_reset(mod);
		mk_devices(3);
		p = proc_new(mod, 0, 0);
		proc_setenv(p, "LIBSEAT_BACKEND", "noop");
		seat = NULL;
		enables = ncalls = act = 0;
		opened = gone = faulted = spun = disp_running = devrunning = false;
		dev.clear();
		opens.clear();
		lst.enable = [](struct libseat *s, void *d) { self->cb(true, s, d); };
		lst.disable = [](struct libseat *s, void *d) { self->cb(false, s, d); };
		proc_start_jobs(p);
		low = P.num("low", 0); // the application closes its standard input one day
		fdbase = proc_nfds(p);
		blockbase = p->live_blocks;
	}
	void on_fault(Proc *, const char *, int) override { faulted = true; }
	void on_inherit(Proc *q, int fd) override {
		if (q == p) {
			report("L09", "descriptor %d of the application is not close-on-exec", fd);
		}
	}
	void on_badfd(Proc *, const char *w, int fd) override { report("L07", "%s on descriptor %d, which is not open", w, fd); }
	void on_open(Proc *, const char *path, int node, int of, int flags) override {
		if (!devrunning) {
			report("L07", "'%s' is opened outside of open_device", path);
		}
		opens.push_back({path, node, of, flags});
	}
	void cb(bool en, struct libseat *s, void *d) {
		tracef("listener: %s", en ? "enable" : "disable");
		if (!en) {
			report("L07", "the listener is told to disable");
			return;
		}
		enables++;
		if (enables > 1) {
			report("L07", "the listener is told to enable %d times", enables);
		}
		if (!disp_running) {
			report("L07", "the listener is called outside of dispatch");
		}
		if (s != seat || d != &udata) {
			report("L07", "the listener is called with another seat or other data");
		}
		int a = act;
		act = 0;
		switch (a) {
		case 1:
			do_dispatch(0);
			break;
		case 2:
			do_dev(0);
			break;
		case 3:
			l_disable(seat);
			do_dispatch(-1);
			break;
		}
	}
	void do_dispatch(int t) {
		int en = enables, od = disp_t, oe = disp_en;
		bool was = disp_running;
		disp_running = true;
		disp_t = t;
		disp_en = en;
		proc_set_errno(p, 0);
		bool of = faulted;
		faulted = false;
		int r = l_dispatch(seat, t);
		bool f = faulted;
		faulted |= of;
		disp_running = was;
		disp_t = od;
		disp_en = oe;
		tracef("dispatch(%d) returns %d", t, r);
		if (r < 0 && !f) {
			report("L07", "dispatch fails with errno %d", proc_get_errno(p));
		}
		if (enables == 0 && r >= 0 && !was) {
			report("L07", "the first dispatch does not enable the seat");
		}
	}
	void do_dev(int i) {
		opens.clear();
		devrunning = true;
		int fd = -55;
		bool of = faulted;
		faulted = false;
		proc_set_errno(p, 0);
		int r = l_opendev(seat, DEV[i], &fd);
		int en = proc_get_errno(p);
		devrunning = false;
		bool f = faulted;
		faulted |= of;
		tracef("open_device(%s) returns %d, descriptor %d, errno %d", DEV[i], r, fd, en);
		for (auto &o : opens) {
			if (o.path != DEV[i]) {
				report("L07", "'%s' is opened instead of '%s'", o.path.c_str(), DEV[i]);
			}
			if ((o.flags & O_ACCMODE) != O_RDWR || !(o.flags & O_NOFOLLOW) || (o.flags & (O_CREAT | O_TRUNC))) {
				report("L07", "'%s' is opened with flags %x", DEV[i], o.flags);
			}
			if (!(o.flags & O_CLOEXEC)) {
				report("L07", "'%s' is opened without close-on-exec", DEV[i]);
			}
		}
		int e = 0;
		int n = *DEV[i] ? node_lookup(DEV[i], false, &e) : -1;
		bool can = n >= 0 && K->node[n].type == N_CHR && !K->node[n].open_err;
		can |= n >= 0 && K->node[n].type == N_REG;
		if (r >= 0) {
			int o = fd_of(p, fd);
			if (!can) {
				report("L07", "open_device(%s) succeeds", DEV[i]);
			} else if (o < 0 || K->of[o].type != OF_NODE || K->of[o].obj != n) {
				report("L07", "the descriptor for %s is not that file", DEV[i]);
			}
			for (auto &d : dev) {
				if (d.second == fd) {
					report("L07", "the descriptor for %s is one the application already has", DEV[i]);
				}
			}
			if (o >= 0) {
				dev.push_back({r, fd});
			}
		} else if (r != -1 || (can && !f)) {
			report("L07", "open_device(%s) returns %d with errno %d", DEV[i], r, en);
		} else if (!en) {
			report("L07", "open_device(%s) fails without setting errno", DEV[i]);
		}
		if (r < 0 && !f && proc_nfds(p) != held()) {
			report("L07", "a refused open_device leaves a descriptor open");
		}
	}
	int own = 0; // the seat's own descriptors
	int held() { return fdbase + own + (int)dev.size(); }
	void check_dev() {
		for (auto &d : dev) {
			if (fd_of(p, d.second) < 0) {
				report("L07", "the application's descriptor of device %d was closed", d.first);
			}
		}
	}
	void call(int op) {
		int k = op >> 8, a = op & 255, r;
		bool f = faulted;
		switch (k) {
		case N_OPEN:
			proc_set_errno(p, 0);
			seat = l_open(&lst, &udata);
			opened = seat;
			gone = !seat;
			if (!seat && !faulted) {
				report("L07", "the noop backend cannot be opened");
			}
			if (!seat && !proc_get_errno(p)) {
				report("L07", "opening fails without setting errno");
			}
			if (enables) {
				report("L07", "the seat is enabled while it is being opened");
			}
			own = proc_nfds(p) - fdbase;
			if (!seat) {
				baseline();
			}
			break;
		case N_DISP:
			act = a >> 4;
			do_dispatch((a & 15) == 0 ? 0 : (a & 15) == 1 ? -1 : 100);
			act = 0;
			break;
		case N_DEV:
			do_dev(a);
			break;
		case N_CLOSEDEV:
			r = l_closedev(seat, a < (int)dev.size() ? dev[a].first : 77);
			if (r != 0) {
				report("L07", "close_device returns %d", r);
			}
			check_dev();
			break;
		case N_DISABLE:
			r = l_disable(seat);
			if (r != 0) {
				report("L07", "disable_seat returns %d", r);
			}
			break;
		case N_SWITCH:
			r = l_switch(seat, a == 1 ? 1 : a == 2 ? 0 : a == 3 ? -1 : 9);
			if (r != -1) {
				report("L07", "switch_session returns %d", r);
			}
			break;
		case N_CLOSE:
			r = l_close(seat);
			gone = true;
			seat = NULL;
			if (r != 0) {
				report("L07", "close_seat returns %d", r);
			}
			check_dev();
			own = 0;
			baseline();
			break;
		case N_NAME: {
			const char *n = l_name(seat);
			if (!n || !*n) {
				report("L07", "the seat has no name");
			}
			break;
		}
		case N_FD: {
			int fd = l_getfd(seat);
			if (fd_of(p, fd) < 0) {
				report("L07", "the seat's descriptor %d is not open", fd);
			} else if (fd_revents(p, fd, POLLIN)) {
				report("L07", "the seat's descriptor is readable");
			}
			break;
		}
		}
		(void)f;
	}
	void baseline() {
		if (proc_nfds(p) != fdbase + (int)dev.size()) {
			report("L07", "%d descriptors more than before are open after the seat is gone", proc_nfds(p) - fdbase - (int)dev.size());
		}
		if (p->live_blocks != blockbase) {
			report("L07", "%d blocks of memory stay allocated after the seat is gone", p->live_blocks - blockbase);
		}
	}
	void run() {
		proc_run(p, 20000);
		if (SPUN) {
			spun = true;
			report("L07", "a call runs without end");
			proc_kill(p, 9);
			return;
		}
		if (p->st == PS_EXITED) {
			report("L07", "the application is ended: %s", p->crash);
			return;
		}
		if (proc_busy(p)) { // only a dispatch told to wait may wait
			bool poll = p->st == PS_BLOCKED && p->bk == B_POLL;
			if (!disp_running || !disp_t || !poll) {
				report("L07", "%s waits", disp_running ? "dispatch without waiting" : "a call");
			} else if (enables > disp_en) {
				report("L07", "dispatch(%d) waits after having enabled the seat", disp_t);
			} else if (enables == 0) {
				report("L07", "dispatch waits instead of enabling the seat");
			} else if (disp_t > 0 && (p->timeout < 0 || p->timeout > disp_t)) {
				report("L07", "dispatch(%d) waits for %d", disp_t, p->timeout);
			} else if (disp_t < 0 && p->timeout >= 0) {
				report("L07", "dispatch(-1) waits for %d only", p->timeout);
			}
		}
	}
	void apply(int op) override {
		if (op >> 8 == N_TIMEOUT) {
			proc_fire_timeout(p);
		} else if (op >> 8 == N_APPCLOSE) {
			int fd = 0;
			if (op & 1) {
				low = false;
				fdbase--;
			} else {
				fd = dev.back().second;
				dev.pop_back();
			}
			proc_post(p, [fd]() { sim_close(fd); });
		} else {
			ncalls++;
			proc_post(p, [this, op]() { call(op); });
		}
		run();
	}
	void ops(std::vector<int> &out) override {
		if (p->st == PS_EXITED || spun || gone) {
			return;
		}
		if (proc_busy(p)) {
			if (p->timeout > 0) {
				out.push_back(mk(N_TIMEOUT, 0));
			}
			return;
		}
		if (!opened) {
			out.push_back(mk(N_OPEN, 0));
			return;
		}
		for (int t = 0; t < 3; t++) {
			for (int a : acts) {
				if (!a || !enables) {
					out.push_back(mk(N_DISP, a << 4 | t));
				}
			}
		}
		for (int i = 0; i < NDEV && dev.size() < 3; i++) {
			out.push_back(mk(N_DEV, i));
		}
		for (int i = 0; i <= (int)dev.size(); i++) {
			out.push_back(mk(N_CLOSEDEV, i));
		}
		if (low) {
			out.push_back(mk(N_APPCLOSE, 1));
		}
		if (!dev.empty()) {
			out.push_back(mk(N_APPCLOSE, 0));
		}
		out.push_back(mk(N_DISABLE, 0));
		for (int i = 1; i < 5; i++) {
			out.push_back(mk(N_SWITCH, i));
		}
		out.push_back(mk(N_CLOSE, 0));
		out.push_back(mk(N_NAME, 0));
		out.push_back(mk(N_FD, 0));
	}
	void finish() override {
		if (p->st == PS_EXITED || spun || gone || !opened || proc_busy(p) || !VIOL.empty()) {
			return;
		}
		proc_post(p, [this]() { call(mk(N_DISP, 1)); });
		run();
		if (VIOL.empty() && !proc_busy(p) && p->st != PS_EXITED) {
			proc_post(p, [this]() { call(mk(N_CLOSE, 0)); });
			run();
		}
	}
	u64 key() override {
		std::string s;
		auto add = [&](u64 v) { s.append((char *)&v, 8); };
		add(enables | opened << 4 | gone << 5 | faulted << 6 | proc_busy(p) << 7 | low << 8);
		for (auto &d : dev) {
			int of = fd_of(p, d.second);
			add(of < 0 ? -1 : K->of[of].obj);
		}
		add(p->st == PS_BLOCKED && p->bk == B_POLL ? p->timeout : -2);
		u64 h = hash_bytes(s.data(), s.size(), 5);
		return p->st == PS_EXITED ? h : proc_heap_shape(p, h);
	}
	std::string op_name(int op) override {
		static const char *n[] = {"open_seat", "dispatch", "open_device", "close_device", "disable_seat", "switch_session", "close_seat", "seat_name", "get_fd", "the wait times out", "the application closes a descriptor"};
		int k = op >> 8, a = op & 255;
		std::string r = n[k];
		if (k == N_DISP) {
			r += (a & 15) == 0 ? "(0)" : (a & 15) == 1 ? "(-1)" : "(100)";
			r += a >> 4 ? ", reacting with " + std::to_string(a >> 4) : "";
		} else if (k == N_DEV) {
			r += std::string("(") + DEV[a] + ")";
		} else if (k == N_CLOSEDEV || k == N_SWITCH) {
			r += " #" + std::to_string(a);
		}
		return r;
	}
};
NoopScn *NoopScn::self;
SCENARIO("noop", NoopScn)

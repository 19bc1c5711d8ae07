// L08: an application on libseat's logind backend; the explorer is logind and
// the bus: it answers, sends signals, refuses, misbehaves or goes away.
#include "bus.h"
#include "daemon.h"
#include <errno.h>
#include <set>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sysmacros.h>
#include <algorithm>
#include <map>

struct libseat;
struct Listener {
	void (*enable)(struct libseat *, void *);
	void (*disable)(struct libseat *, void *);
};
extern "C" int sim_close(int);
extern "C" int sim_sd_bus_process(Bus *, BMsg **);
extern "C" int sim_sd_bus_default_system(Bus **);
extern "C" Bus *sim_sd_bus_unref(Bus *);
void proc_set_errno(Proc *, int);
int proc_get_errno(Proc *);
extern int STDIO_ERRNO;
void proc_fire_timeout(Proc *);
void proc_unsetenv(Proc *, const char *);

static const char *LOGIND = "org.freedesktop.login1";
static const BusSess SESS[] = {
	{"1", "/org/freedesktop/login1/session/_31", "seat0", "/org/freedesktop/login1/seat/seat0"},
	{"c2", "/org/freedesktop/login1/session/c2", "seat1", "/org/freedesktop/login1/seat/seat1"},
	{"77", "/org/freedesktop/login1/session/_377", "seat-usb-pci-0000_00_1d_0-usb-0_1_5", "/org/freedesktop/login1/seat/seat_2dusb_2dpci_2d0000_5f00_5f1d_5f0_2dusb_2d0_5f1_5f5"},
	{"5", "/org/freedesktop/login1/session/_35", NULL, NULL},
};
static const int NSESS = 4;
static const char *ISESSION = "org.freedesktop.login1.Session";
enum { D_OPEN, D_DISP, D_DEV, D_CLOSEDEV, D_SWITCH, D_DISABLE, D_CLOSE };
enum { Q_CALL, Q_SIG, Q_REPLY, Q_LOSE, Q_TIMEOUT, Q_CALLV };
static int mk(int k, int a) { return k << 24 | a; }
static const int CODES[] = {16, 1, 19};
static const char *DPATH[] = {"/dev/dri/card0", "/dev/input/event0", "/tmp/mycard", "/nowhere", "/dev/dri/card1", "/dev/input/event300", "/dev/dri/card4660", "/dev/vend"};

struct LogindScn : Scenario {
	Module *mod;
	Proc *p;
	struct libseat *seat;
	Listener lst;
	int udata, fdbase, blockbase, ncalls, nsig, nested, acts;
	BusSess sess_; // the one to be opened
	int who; // how it is found
	static int oddv;
	bool opened, gone, lost, faulted, callfault, spun;
	int active; // what logind says
	int reported; // -1 nothing yet
	int first; // what the first report has to be, -1 unknown
	struct DCall {
		int api, arg;
		bool busy;
		int cbs; // callbacks made when it began
		int answered; // 0 no, 1 granted, 2 refused, 3 malformed
		int code;
		int asked; // calls of its own
		int req; // the last of them
		int of;
		u32 serial;
		DCall *up;
	} *top;
	int ncb;
	struct Held {
		int id, fd;
		u32 maj, min;
	};
	std::vector<Held> dev;
	std::vector<BMsg *> reqs; // unanswered
	// signal being handled
	struct Sig {
		int kind;
		std::vector<int> steps; // 0/1 set, 2 ask, 3 pause
		u32 maj, min;
	};
	std::vector<std::pair<BMsg *, Sig>> sigs;
	Sig nowv, *now;
	std::vector<int> got; // callbacks during it
	std::vector<int> asked; // answers to the questions it asked, -1 refused
	int acks, rep0;
	std::set<std::string> armed; // signals the bus has been told to send
	bool stale; // the session changed unseen after its activity was read
	std::set<int> errs; // what the calls made to fail failed with
	bool relaxed; // a call failed: what is left to be done may not be
	std::vector<int> msig, mreply, men, mdis;
	std::vector<std::string> mcall;
	static LogindScn *self;

	struct libseat *(*l_open)(Listener *, void *);
	int (*l_disable)(struct libseat *), (*l_close)(struct libseat *), (*l_opendev)(struct libseat *, const char *, int *);
	int (*l_closedev)(struct libseat *, int), (*l_switch)(struct libseat *, int), (*l_getfd)(struct libseat *), (*l_dispatch)(struct libseat *, int);
	const char *(*l_name)(struct libseat *);
	void (*l_level)(int);
	template <class T> void get(T &f, const char *n) {
		f = (T)mod->sym(n);
		if (!f) {
			fprintf(stderr, "harness: no %s\n", n);
			exit(2);
		}
	}
	static std::vector<std::string> split(const std::string &s) {
		std::vector<std::string> r;
		for (size_t i = 0; i < s.size();) {
			size_t c = std::min(s.find(',', i), s.size());
			r.push_back(s.substr(i, c - i));
			i = c + 1;
		}
		return r;
	}
	std::vector<int> ints(const char *k, const char *d) {
		std::vector<int> r;
		for (auto &s : split(P.str(k, d))) {
			r.push_back(atoi(s.c_str()));
		}
		return r;
	}
	void load() override {
		mod = mod_load((SUTDIR + "/libseat.so").c_str());
		get(l_open, "libseat_open_seat");
		get(l_disable, "libseat_disable_seat");
		get(l_close, "libseat_close_seat");
		get(l_opendev, "libseat_open_device");
		get(l_closedev, "libseat_close_device");
		get(l_switch, "libseat_switch_session");
		get(l_getfd, "libseat_get_fd");
		get(l_dispatch, "libseat_dispatch");
		get(l_name, "libseat_seat_name");
		get(l_level, "libseat_set_log_level");
		msig = ints("sig", "0,1,5,8");
		mreply = ints("reply", "0,1");
		men = ints("en", "0");
		mdis = ints("dis", "0");
		mcall = split(P.str("call", "d0,d1,o0,c0,s1,x,X"));
	}
	void rep(const char *f, ...) __attribute__((format(printf, 2, 3))) {
		char b[400];
		va_list ap;
		va_start(ap, f);
		vsnprintf(b, sizeof b, f, ap);
		va_end(ap);
		report("L08", "%s", b);
	}
	void setup() override {
		self = this;
		bus_reset();
		mod_reset(mod);
		mk_devices(2);
		bus_hook = [this](BMsg *m, bool begin) { handling(m, begin); };
		bus_sess_pid = P.num("nopid", 0) ? NULL : "1";
		bus_sess_display = "1";
		bus_sess_seat = P.num("noseat", 0) ? NULL : "seat0";
		sess_ = SESS[0];
		who = oddv = 0;
		if (P.num("nodes", 0)) {
			int e;
			auto chr = [&](const char *f, NDev d, int num) {
				node_mkpath(f, N_CHR, 0600);
				int n = node_lookup(f, true, &e);
				K->node[n].dev = d;
				K->node[n].num = num;
			};
			chr(DPATH[5], D_EVDEV, 300);
			chr(DPATH[6], D_DRM, 4660);
			chr(DPATH[7], D_HIDRAW, 0xfffff);
		}
		p = proc_new(mod, 1000, 1000);
		proc_setenv(p, "LIBSEAT_BACKEND", "logind");
		if (P.num("type", 0)) {
			proc_setenv(p, "XDG_SESSION_TYPE", "wayland");
		}
		if (P.num("id", 0)) {
			proc_setenv(p, "XDG_SESSION_ID", "1");
		}
		seat = NULL;
		now = NULL;
		top = NULL;
		ncalls = nsig = nested = acts = ncb = acks = 0;
		opened = gone = lost = faulted = callfault = spun = relaxed = false;
		active = (int)P.num("active", 1);
		reported = first = -1;
		dev.clear();
		reqs.clear();
		sigs.clear();
		got.clear();
		asked.clear();
		errs.clear();
		armed.clear();
		stale = false;
		bus_blockmatch = P.num("match", 0);
		bus_sess_active = P.num("active", 1);
		STDIO_ERRNO = (int)P.num("disturb", 0);
		lst.enable = [](struct libseat *s, void *d) { self->callback(1, s, d); };
		lst.disable = [](struct libseat *s, void *d) { self->callback(0, s, d); };
		proc_start_jobs(p);
		if (STDIO_ERRNO) {
			proc_post(p, [this]() { l_level(3); });
			proc_run(p, 1000);
		}
		if (P.num("shared", 0)) { // the application has the bus open itself
			proc_post(p, []() {
				Bus *b;
				sim_sd_bus_default_system(&b);
			});
			proc_run(p, 1000);
		}
		fdbase = proc_nfds(p);
		blockbase = p->live_blocks;
		if (P.num("preopen", 1)) {
			Frozen f;
			start(D_OPEN, 0, 0);
			pump();
			if (P.num("first", 1) && opened) {
				start(D_DISP, 0, 0);
			}
		}
		fd_shut(p, (int)P.num("hole", 0));
		fdbase -= (int)P.num("hole", 0);
	}
	// ------------------------------------------------------------ logind
	static BTok T(char t, long v) { return {t, 0, v, ""}; }
	static BTok S(const char *s) { return {'s', 0, 0, s}; }
	static BTok O(char c) { return {'(', c, 0, ""}; }
	static BTok E(char c) { return {')', c, 0, ""}; }
	static void dict(std::vector<BTok> &b, const char *k, BTok v) {
		for (BTok t : {O('e'), S(k), O('v'), v, E('v'), E('e')}) {
			b.push_back(t);
		}
	}
	// which session: XDG_SESSION_ID, that of the process, the user's primary one; 0 none
	void set_who(int w) {
		who = w;
		if (!w) {
			return;
		}
		int x = (w - 1) % 6, pi = (w - 1) / 6 % 5, di = (w - 1) / 30 % 5;
		bus_sess.assign(SESS, SESS + NSESS);
		if (x) {
			proc_setenv(p, "XDG_SESSION_ID", x == 5 ? "9" : SESS[x - 1].id);
		} else {
			proc_unsetenv(p, "XDG_SESSION_ID");
		}
		bus_sess_pid = pi ? SESS[pi - 1].id : NULL;
		bus_sess_display = di ? SESS[di - 1].id : NULL;
		int k = x ? x : pi ? pi : di;
		if (k >= 1 && k <= NSESS) {
			sess_ = SESS[k - 1];
		} else {
			sess_ = {NULL, "", NULL, ""};
		}
	}
	void signal(int kind) {
		if (lost || BUS.sock < 0 || BUS.refs == 0) {
			return;
		}
		BMsg *m = bus_new(BM_SIGNAL);
		Sig s;
		s.kind = kind;
		s.maj = 226;
		s.min = 0;
		m->path = sess_.path;
		m->peer = LOGIND;
		m->iface = "org.freedesktop.DBus.Properties";
		m->member = "PropertiesChanged";
		auto &b = m->body;
		bool pause = (kind >= 8 && kind <= 10) || kind == 13 || kind == 14 || (kind >= 16 && kind <= 23) || kind >= 1000;
		if (pause) {
			m->iface = ISESSION;
			m->member = "PauseDevice";
			if (kind == 16) {
				s.maj = 13;
				s.min = 64;
			}
			if (kind >= 1000) { // any device
				size_t n = odd_numbers().size();
				s.maj = (u32)odd_numbers()[kind - 1000];
				s.min = (u32)odd_numbers()[n - 1 - (size_t)(kind - 1000)];
			}
			static const char *odd[] = {"other", "pausing", "", "paus", "Pause"};
			if (kind == 22) { // not from logind
				m->peer = "org.example.other";
			}
			if (kind == 23) {
				m->member = "ResumeDevice";
			}
			b = {T('u', s.maj)};
			if (kind != 13) {
				b.push_back(T('u', s.min));
				b.push_back(S(kind == 9 ? "force" : kind == 10 ? "gone" : kind >= 17 && kind <= 21 ? odd[kind - 17] : "pause"));
			}
			if (kind == 14) {
				m->path = "/org/freedesktop/login1/session/_32";
			}
			if (kind == 8 || kind == 16 || kind >= 1000) {
				s.steps = {0, 3};
			}
		} else if (kind != 11) {
			static const char *oif[] = {"org.freedesktop.login1.Sessio", "org.freedesktop.login1.Session2", "", "org.freedesktop.login1.session"};
			static const char *onm[] = {"Activ", "ActiveX", "active", ""};
			b = {S(kind == 2 ? "org.freedesktop.login1.Seat" : kind >= 30 && kind <= 33 ? oif[kind - 30] : ISESSION), O('a')};
			switch (kind) {
			case 0:
			case 2:
				dict(b, "Active", T('b', 1));
				break;
			case 1:
				dict(b, "Active", T('b', 0));
				break;
			case 3:
				dict(b, "State", S("active"));
				dict(b, "Active", T('b', 1));
				break;
			case 4:
				dict(b, "Active", T('b', 0));
				dict(b, "Level", T('u', 7));
				break;
			case 7:
				dict(b, "Active", T('b', 1));
				dict(b, "Active", T('b', 0));
				break;
			case 30:
			case 31:
			case 32:
			case 33:
				dict(b, "Active", T('b', !active));
				break;
			case 34:
			case 35:
			case 36:
			case 37:
				dict(b, onm[kind - 34], T('b', !active));
				break;
			case 42: // changed and invalidated
				dict(b, "Active", T('b', 0));
				break;
			case 43:
				dict(b, "Active", T('b', 1));
				dict(b, "IdleHint", T('b', 0));
				break;
			case 44: // not from logind
			case 45: // of another session
				dict(b, "Active", T('b', !active));
				if (kind == 44) {
					m->peer = "org.example.other";
				} else {
					m->path = "/org/freedesktop/login1/session/_399";
				}
				break;
			case 12:
				dict(b, "Active", S("yes"));
				break;
			case 15:
				b.push_back(O('e'));
				b.push_back(S("List"));
				b.push_back(O('v'));
				b.push_back(O('a'));
				b.push_back(S("x"));
				b.push_back(E('a'));
				b.push_back(E('v'));
				b.push_back(E('e'));
				dict(b, "Active", T('b', 1));
				break;
			}
			b.push_back(E('a'));
			b.push_back(O('a'));
			if (kind == 6) {
				b.push_back(S("State"));
			}
			if (kind >= 38 && kind <= 41) {
				b.push_back(S(onm[kind - 38]));
			}
			if (kind == 5 || kind == 6 || kind == 42) {
				b.push_back(S("Active"));
			}
			b.push_back(E('a'));
			static const std::vector<int> st[] = {{1}, {0}, {}, {1}, {0}, {2}, {2}, {1, 0}};
			s.steps = kind < 8 ? st[kind] : kind == 15 || kind == 43 ? std::vector<int>{1} : kind == 42 ? std::vector<int>{0, 2} : std::vector<int>{};
			for (int x : s.steps) {
				if (x < 2) {
					active = x;
				}
			}
		}
		nsig++;
		if (bus_blockmatch && !armed.count(m->member)) {
			stale = first >= 0 && active != first;
			return;
		}
		sigs.push_back({m, s});
		bus_send(m);
	}
	void service() {
		while (BMsg *m = bus_recv()) {
			reqs.push_back(m);
			on_request(m);
		}
	}
	std::string argstr(BMsg *m) {
		std::string s;
		for (auto &t : m->body) {
			s += t.t == 's' || t.t == 'o' ? t.s + ";" : std::to_string(t.v) + ";";
		}
		return s;
	}
	// what the library asks of logind
	void on_request(BMsg *m) {
		std::string a = argstr(m);
		const std::string &n = m->member;
		tracef("logind is asked %s(%s)", n.c_str(), a.c_str());
		bool own = false;
		static const std::map<std::string, std::string> ifs = {
			{"GetSession", "org.freedesktop.login1.Manager"}, {"GetSeat", "org.freedesktop.login1.Manager"}, {"Get", "org.freedesktop.DBus.Properties"}, {"TakeControl", ISESSION}, {"ReleaseControl", ISESSION}, {"SetType", ISESSION}, {"TakeDevice", ISESSION}, {"ReleaseDevice", ISESSION}, {"PauseDeviceComplete", ISESSION}, {"SwitchTo", "org.freedesktop.login1.Seat"},
		};
		if (n != "AddMatch" && (m->peer != LOGIND || (ifs.count(n) && m->iface != ifs.at(n)))) {
			rep("the library calls %s of %s, interface %s", n.c_str(), m->peer.c_str(), m->iface.c_str());
			return;
		}
		if (ifs.count(n) && m->path != (n == "GetSession" || n == "GetSeat" ? "/org/freedesktop/login1" : n == "SwitchTo" ? sess_.seatpath : sess_.path)) {
			rep("the library calls %s on %s", n.c_str(), m->path.c_str());
			return;
		}
		if (n == "Ping") {
			return;
		}
		if (now) { // from a signal handler
			if (n == "PauseDeviceComplete") {
				acks++;
				bool due = false;
				for (int x : now->steps) {
					due |= x == 3;
				}
				if (!due || acks > 1) {
					rep("a pause is acknowledged %s", acks > 1 ? "twice" : "that must not be");
				} else if (a != std::to_string(now->maj) + ";" + std::to_string(now->min) + ";") {
					rep("the pause of device %u:%u is acknowledged as that of %s", now->maj, now->min, a.c_str());
				}
				if (reported == 1) {
					rep("a pause is acknowledged while the application has the seat");
				}
				return;
			}
			if (n == "Get" && a == std::string(ISESSION) + ";Active;") {
				return;
			}
			if (!nested) {
				rep("a signal makes the library call %s", n.c_str());
				return;
			}
		}
		if (!top) {
			rep("%s is called by nobody", n.c_str());
			return;
		}
		top->asked++;
		top->req = m->id;
		switch (top->api) {
		case D_OPEN:
			if (!sess_.id || !sess_.seat) { // asking about it is no harm
				own = sess_.id && n == "GetSession";
				break;
			}
			own = n == "GetSession" ? a == std::string(sess_.id) + ";" : n == "AddMatch" ? true : n == "GetSeat" ? a == std::string(sess_.seat) + ";" : n == "TakeControl" ? a == "0;" : n == "SetType" ? a == "wayland;" && P.num("type", 0) : n == "Get" ? a == std::string(ISESSION) + ";Active;" : false;
			break;
		case D_DEV: {
			int e;
			int nd = node_lookup(DPATH[top->arg], true, &e);
			own = nd >= 0 && n == "TakeDevice" && a == devstr(nd);
			break;
		}
		case D_CLOSEDEV:
			own = top->arg < (int)dev.size() && n == "ReleaseDevice" && a == std::to_string(dev[top->arg].maj) + ";" + std::to_string(dev[top->arg].min) + ";";
			break;
		case D_SWITCH:
			own = n == "SwitchTo" && a == std::to_string(sess(top->arg)) + ";";
			break;
		case D_CLOSE:
			own = n == "ReleaseControl" && a.empty();
			break;
		}
		if (!own) {
			rep("%s makes the library call %s(%s) on %s", api_name(top->api), n.c_str(), a.c_str(), m->path.c_str());
		}
	}
	std::string devstr(int node) {
		u32 mj, mn;
		numbers(node, mj, mn);
		return std::to_string(mj) + ";" + std::to_string(mn) + ";";
	}
	static void numbers(int node, u32 &mj, u32 &mn) {
		unsigned d = (unsigned)node_rdev(node);
		mj = major(d);
		mn = minor(d);
	}
	void answer(int v) {
		if (reqs.empty()) {
			return;
		}
		BMsg *m = reqs.front();
		reqs.erase(reqs.begin());
		DCall *c = top && top->req == m->id ? top : NULL; // NULL: nobody waits for this any more
		bool sync = !m->async;
		BMsg *r;
		if (v >= 1 && v <= 3) {
			r = bus_new(BM_ERROR, m->id);
			r->err = CODES[v - 1];
			r->errname = "System.Error";
			r->errmsg = "no";
		} else {
			r = logind_reply(m, active);
			if (v == 8) {
				r->body.clear();
				r->body.push_back(S("what"));
			}
		}
		if (m->member == "AddMatch" && !(v >= 1 && v <= 3)) {
			armed.insert(argstr(m).substr(0, argstr(m).size() - 1));
		}
		if (m->member == "Get" && now) {
			asked.push_back(v ? -1 : active);
		} else if (m->member == "Get" && c && c->api == D_OPEN && v == 0) {
			first = active;
			stale = false;
		}
		if (sync && c && m->member != "SetType" && (!now || (m->member != "Get" && m->member != "PauseDeviceComplete"))) {
			bool hard = v >= 1 && v <= 3;
			bool readsreply = m->member == "GetSession" || m->member == "GetSeat" || m->member == "Get" || m->member == "TakeDevice";
			c->answered = hard ? 2 : v == 8 && readsreply ? 3 : 1;
			if (c->api == D_OPEN && c->answered == 1 && m->member != "TakeControl") {
				c->answered = 0;
			}
			c->code = hard ? CODES[v - 1] : 0;
		}
		if (m->member == "TakeDevice" && v != 8 && r->kind == BM_REPLY) {
			int e;
			int nd = node_lookup(c ? DPATH[c->arg] : "/dev/null", true, &e);
			r->of = of_new(OF_NODE, nd < 0 ? 0 : nd, 2);
			K->of[r->of].refs = 1;
			if (c) {
				c->of = r->of;
				c->serial = K->of[r->of].serial;
			}
			r->body.push_back(T('h', 0));
			r->body.push_back(T('b', v == 9));
		}
		if (m->member == "PauseDeviceComplete" && v) {
			relaxed = true;
		}
		bus_send(r);
	}
	void lose() {
		if (lost || BUS.sock < 0) {
			return;
		}
		lost = relaxed = true;
		reqs.clear();
		h_close(BUS.sock);
	}
	// ------------------------------------------------------------ application
	static const char *api_name(int a) {
		static const char *n[] = {"open_seat", "dispatch", "open_device", "close_device", "switch_session", "disable_seat", "close_seat"};
		return n[a];
	}
	static int disp_arg(int i) { return i == 0 ? 0 : i == 1 ? -1 : 100; }
	static int sess(int i) { return i == 255 ? odd_numbers()[oddv] : i == 0 ? 0 : i == 1 ? 1 : i == 2 ? INT_MAX : i == 3 ? -1 : INT_MIN; }
	void on_fault(Proc *, const char *, int e) override {
		if (e != EINTR) { // an interruption is no excuse
			faulted = callfault = relaxed = true;
			errs.insert(e);
		}
	}
	void on_inherit(Proc *q, int fd) override {
		if (q == p) {
			report("L09", "descriptor %d of the application is not close-on-exec", fd);
		}
	}
	void on_badfd(Proc *, const char *w, int fd) override {
		if (top && top->api == D_CLOSEDEV && top->arg >= (int)dev.size()) {
			return;
		}
		rep("%s on descriptor %d, which is not open", w, fd);
	}
	void handling(BMsg *m, bool begin) {
		if (m->kind != BM_SIGNAL || gone || !opened) {
			return;
		}
		if (begin) {
			for (auto &s : sigs) {
				if (s.first == m) {
					nowv = s.second;
					now = &nowv;
				}
			}
			got.clear();
			asked.clear();
			acks = 0;
			rep0 = reported;
			relaxed = lost;
			return;
		}
		service();
		if (!now) {
			return;
		}
		std::vector<int> want;
		int cur = rep0;
		size_t q = 0;
		bool ack = false;
		for (int s : now->steps) {
			int v = s;
			if (s == 3) {
				ack = true;
				continue;
			}
			if (s == 2) {
				v = q < asked.size() ? asked[q] : -2;
				q++;
				if (v == -2 && !relaxed) {
					rep("the library does not ask for the property that changed");
				}
				if (v < 0) {
					continue;
				}
			}
			if (v != cur) {
				want.push_back(v);
				cur = v;
			}
		}
		auto str = [](const std::vector<int> &v) {
			std::string s;
			for (int x : v) {
				s += x ? " enable" : " disable";
			}
			return s.empty() ? " nothing" : s;
		};
		bool ok = got == want;
		if (relaxed && got.size() < want.size()) {
			ok = std::equal(got.begin(), got.end(), want.begin());
		}
		if (!ok) {
			rep("after signal %d the application, last told %s, is told%s instead of%s", now->kind, rep0 == 1 ? "enable" : rep0 == 0 ? "disable" : "nothing", str(got).c_str(), str(want).c_str());
		}
		if (ack && !acks && !relaxed) {
			rep("the request to pause device %u:%u is not answered", now->maj, now->min);
		}
		for (size_t i = 0; i < sigs.size(); i++) {
			if (sigs[i].first == m) {
				sigs.erase(sigs.begin() + i);
				break;
			}
		}
		now = NULL;
	}
	void callback(int kind, struct libseat *s, void *d) {
		tracef("listener: %s", kind ? "enable" : "disable");
		if (s != seat || d != &udata) {
			rep("the listener is called with another seat or other data");
		}
		if (!top || top->api != D_DISP) {
			rep("the listener is called from within %s", top ? api_name(top->api) : "nothing");
		}
		ncb++;
		if (reported == -1) {
			if (first >= 0 && kind != first) {
				rep("the first report is %s, the session is %s", kind ? "enable" : "disable", first ? "active" : "not active");
			}
			if (now) {
				rep("the first report is made by a signal");
			}
			if (stale) {
				rep("the first report is out of date: the session changed after its activity was read and before its signals were asked for");
			}
		} else {
			if (kind == reported) {
				rep("the application is told %s twice in a row", kind ? "enable" : "disable");
			}
			if (!now) {
				rep("the application is told %s without cause", kind ? "enable" : "disable");
			}
		}
		reported = kind;
		got.push_back(kind);
		int a = kind ? acts & 15 : acts >> 4 & 15;
		if (nested >= (int)P.num("nest", 1) || !a) {
			return;
		}
		nested++;
		switch (a) {
		case 1:
			call(D_DISABLE, 0);
			break;
		case 2:
			call(D_DISP, 0);
			break;
		case 3:
			call(D_DEV, 0);
			break;
		case 4:
			if (!dev.empty()) {
				call(D_CLOSEDEV, 0);
			}
			break;
		}
		nested--;
	}
	void call(int api, int a) {
		DCall c = {api, a, true, ncb, 0, 0, 0, -1, -1, 0, top};
		top = &c;
		bool of = callfault;
		callfault = false;
		proc_set_errno(p, 0);
		int r = 0, en, fd = -77;
		switch (api) {
		case D_OPEN:
			seat = l_open(&lst, &udata);
			r = seat ? 0 : -1;
			break;
		case D_DISP:
			r = l_dispatch(seat, disp_arg(a));
			break;
		case D_DEV:
			r = l_opendev(seat, DPATH[a], &fd);
			break;
		case D_CLOSEDEV:
			r = l_closedev(seat, a == 255 ? odd_numbers()[oddv] : a < (int)dev.size() ? dev[a].id : a == 7 ? -1 : 399);
			break;
		case D_SWITCH:
			r = l_switch(seat, sess(a));
			break;
		case D_DISABLE:
			r = l_disable(seat);
			break;
		case D_CLOSE:
			r = l_close(seat);
			break;
		}
		en = proc_get_errno(p);
		service();
		top = c.up;
		bool f = callfault;
		callfault |= of;
		tracef("%s returns %d (errno %d)", api_name(api), r, r < 0 ? en : 0);
		returned(c, r, en, fd, f);
	}
	void returned(DCall &c, int r, int en, int fd, bool f) {
		const char *n = api_name(c.api);
		bool inval = (c.api == D_SWITCH && sess(c.arg) < 0) || (c.api == D_CLOSEDEV && (c.arg == 7 || (c.arg == 255 && odd_numbers()[oddv] < 0)));
		bool bad = inval || (c.api == D_DEV && c.arg == 3) || (c.api == D_CLOSEDEV && c.arg >= (int)dev.size()); // may not get as far as logind
		if (r < 0 && !en && c.api != D_CLOSE) {
			rep("%s fails without setting errno", n);
		}
		if (r < 0 && f && c.api != D_CLOSE && c.answered < 2 && !lost && en != c.code && !errs.count(en)) {
			rep("%s fails with errno %d, which is not why it failed", n, en);
		}
		switch (c.api) {
		case D_OPEN:
			opened = seat;
			gone = !seat;
			if (seat && c.answered != 1) {
				rep("open_seat succeeds although logind did not grant control");
			}
			if (seat && (!sess_.id || !sess_.seat)) {
				rep("open_seat succeeds without a session on a seat");
			}
			if (!seat && !c.answered && !f && !lost && sess_.id && sess_.seat && !P.num("noseat", 0)) {
				rep("open_seat fails with errno %d without having asked logind for control", en);
			}
			if (!seat && c.answered == 1 && !f && !lost) {
				rep("open_seat fails with errno %d although logind granted everything", en);
			}
			if (!seat && c.answered == 2 && !f && en != c.code) {
				rep("open_seat was refused with %d and fails with errno %d", c.code, en);
			}
			if (!seat && BUS.refs == (int)P.num("shared", 0)) {
				baseline();
			} else if (!seat) {
				rep("the bus is not released when opening fails");
			} else {
				const char *nm = l_name(seat);
				if (!nm || strcmp(nm, sess_.seat ? sess_.seat : "")) {
					rep("the seat's name is '%s'", nm ? nm : "(null)");
				}
			}
			return;
		case D_DISP:
			if (r < 0 && !f && !lost) {
				rep("dispatch fails with errno %d on a working bus", en);
			}
			if (r >= 0 && reported == -1 && !c.up) {
				rep("the first dispatch reports nothing");
			}
			return;
		case D_DISABLE:
			if (r != 0) {
				rep("disable_seat returns %d", r);
			}
			return;
		case D_CLOSE:
			gone = true;
			seat = NULL;
			if (!c.asked && !f && !lost) {
				rep("close_seat does not release control");
			}
			baseline();
			return;
		}
		if (bad) {
			if (r != -1 || (inval && en != EINVAL)) {
				rep("%s with an argument out of range returns %d with errno %d", n, r, en);
			}
			if (inval && c.asked) {
				rep("%s with an argument out of range asks logind", n);
			}
			return;
		}
		if (r >= 0) {
			if (c.answered != 1) {
				rep("%s succeeds %s", n, c.answered ? "although it was refused" : "without logind's answer");
			}
			if (c.api == D_DEV) {
				int of = fd_of(p, fd);
				if (of < 0 || !same_of(of, c.serial)) {
					rep("open_device gives descriptor %d, which is not the one logind sent", fd);
				} else {
					if (!p->fd[fd].cloexec) {
						rep("open_device gives a descriptor without close-on-exec");
					}
					u32 mj, mn;
					numbers(K->of[of].obj, mj, mn);
					dev.push_back({r, fd, (int)mj, (int)mn});
				}
			} else if (r != 0) {
				rep("%s returns %d", n, r);
			}
			return;
		}
		if (r != -1) {
			rep("%s returns %d", n, r);
		}
		if (c.answered == 1 && !f && !lost) {
			rep("%s was granted and fails with errno %d", n, en);
		}
		if (c.answered == 2 && !f && en != c.code) {
			rep("%s was refused with %d and fails with errno %d", n, c.code, en);
		}
		if (c.answered == 0 && !f && !lost) {
			rep("%s fails with errno %d before logind answered", n, en);
		}
	}
	void baseline() {
		int shared = (int)P.num("shared", 0);
		if (BUS.refs != shared) {
			rep("the bus %s after the seat is gone", BUS.refs > shared ? "stays open" : "is released too often");
			return;
		}
		if (shared && !lost && BUS.state) {
			rep("the application's own bus is closed");
		}
		if (!shared || BUS.rq.empty()) {
			if (bus_live_msgs) {
				rep("%d bus messages are never released", bus_live_msgs);
			}
		}
		if (bus_live_errs) {
			rep("%d bus errors are never released", bus_live_errs);
		}
		if (!BUS.matches.empty() && shared) {
			rep("signal handlers stay registered after the seat is gone");
		}
		int n = proc_nfds(p) - (int)dev.size();
		if (n != fdbase - (shared && BUS.fd < 0) && !(shared && bus_live_msgs)) { // the application has not taken a late answer
			rep("%d descriptors more than before are open after the seat is gone", n - fdbase);
		}
		if (p->live_blocks != blockbase) {
			rep("%d blocks of memory stay allocated after the seat is gone", p->live_blocks - blockbase);
		}
	}
	void run() {
		for (int i = 0; i < 3 && p->st != PS_EXITED; i++) {
			proc_run(p, 20000);
			service();
			if (!proc_runnable(p) || SPUN) {
				break;
			}
		}
		if (SPUN && !spun) {
			spun = true;
			rep("%s runs without end", top ? api_name(top->api) : "the library");
			proc_kill(p, 9);
		} else if (p->st == PS_EXITED && !spun) {
			spun = true;
			rep("the application is ended: %s", p->crash);
		}
	}
	void start(int api, int a, int react) {
		acts = react;
		proc_post(p, [this, api, a]() { call(api, a); });
		run();
	}
	void check_blocked() {
		if (p->st == PS_EXITED || !proc_busy(p) || !top) {
			return;
		}
		const char *n = api_name(top->api);
		if (lost) {
			rep("%s waits although the bus is lost", n);
			return;
		}
		if (!reqs.empty() && !reqs.back()->async) {
			return; // for the answer
		}
		if (top->api != D_DISP) {
			rep("%s waits without waiting for logind", n);
			return;
		}
		int t = disp_arg(top->arg);
		if (t == 0) {
			rep("dispatch without waiting waits");
		} else if (t > 0 && (p->bk != B_POLL || p->timeout < 0 || p->timeout > t)) {
			rep("dispatch(%d) waits for %d", t, p->timeout);
		} else if (t < 0 && p->bk == B_POLL && p->timeout >= 0) {
			rep("dispatch(-1) waits for %d only", p->timeout);
		}
		if (ncb > top->cbs) {
			rep("dispatch waits after having reported something");
		}
		if (!BUS.rq.empty()) {
			rep("dispatch waits although a signal is queued");
		}
	}
	void pump() {
		for (int i = 0; i < 12 && p->st != PS_EXITED; i++) {
			service();
			while (!reqs.empty()) {
				answer(0);
			}
			run();
			if (reqs.empty() && !proc_runnable(p)) {
				return;
			}
		}
	}
	// ------------------------------------------------------------ exploration
	void apply(int op) override {
		int k = op >> 24, a = op & 0xffffff;
		switch (k) {
		case Q_CALLV:
			ncalls++;
			oddv = a & 0xffff;
			start(a >> 16, 255, 0);
			break;
		case Q_CALL:
			ncalls++;
			if ((a >> 8 & 255) == D_OPEN && (a & 255)) {
				set_who(a & 255);
			}
			start(a >> 8 & 255, a & 255, a >> 16);
			break;
		case Q_SIG:
			signal(a);
			break;
		case Q_REPLY:
			answer(a);
			break;
		case Q_LOSE:
			lose();
			break;
		case Q_TIMEOUT:
			proc_fire_timeout(p);
			break;
		}
		run();
		check_blocked();
	}
	void ops(std::vector<int> &out) override {
		if (p->st == PS_EXITED || spun) {
			return;
		}
		if (!lost && BUS.refs > 0 && !gone) {
			if (nsig < (int)P.num("sigs", 2)) {
				for (int s : msig) {
					out.push_back(mk(Q_SIG, s));
				}
				if (P.num("num", 0) & 1) {
					for (size_t i = 0; i < odd_numbers().size(); i++) {
						out.push_back(mk(Q_SIG, 1000 + (int)i));
					}
				}
			}
			if (!reqs.empty()) {
				for (int r : mreply) {
					if (!reqs.front()->async || r == 0 || (r >= 1 && r <= 3)) {
						out.push_back(mk(Q_REPLY, r));
					}
				}
			}
			if (P.num("lose", 0)) {
				out.push_back(mk(Q_LOSE, 0));
			}
		}
		if (proc_busy(p)) {
			if (p->st == PS_BLOCKED && p->bk == B_POLL && p->timeout > 0) {
				out.push_back(mk(Q_TIMEOUT, 0));
			}
		} else if (!gone && ncalls < (int)P.num("calls", 3)) {
			if (!opened) {
				out.push_back(mk(Q_CALL, D_OPEN << 8));
				for (int i = 1; i <= (P.num("who", 0) ? 150 : 0); i++) {
					out.push_back(mk(Q_CALL, D_OPEN << 8 | i));
				}
				return;
			}
			if (P.num("num", 0) & 2) {
				for (size_t i = 0; i < odd_numbers().size(); i++) {
					out.push_back(mk(Q_CALLV, D_SWITCH << 16 | (int)i));
					if (odd_numbers()[i] < 0 || fd_of(p, odd_numbers()[i]) < 0) {
						out.push_back(mk(Q_CALLV, D_CLOSEDEV << 16 | (int)i));
					}
				}
			}
			for (auto &s : mcall) {
				int a = s.size() > 1 ? atoi(s.c_str() + 1) : 0;
				int api = s[0] == 'd' ? D_DISP : s[0] == 'o' ? D_DEV : s[0] == 'c' ? D_CLOSEDEV : s[0] == 's' ? D_SWITCH : s[0] == 'x' ? D_DISABLE : D_CLOSE;
				if (api == D_CLOSEDEV && a < 6 && a >= (int)dev.size()) {
					continue;
				}
				for (int x : mdis) {
					for (int y : men) {
						if (api == D_DISP || (x == mdis[0] && y == men[0])) {
							out.push_back(mk(Q_CALL, (x << 4 | y) << 16 | api << 8 | a));
						}
					}
				}
			}
		}
	}
	void finish() override {
		if (p->st == PS_EXITED || spun || !VIOL.empty()) {
			return;
		}
		acts = 0;
		for (int i = 0; i < 8 && proc_busy(p) && p->st != PS_EXITED; i++) {
			pump();
			check_blocked();
			if (proc_busy(p) && top && top->api == D_DISP) {
				if (p->timeout > 0) {
					proc_fire_timeout(p);
					run();
				} else if (!lost) {
					signal(reported == 1 ? 1 : 0);
					pump();
				}
			}
			if (!VIOL.empty()) {
				return;
			}
		}
		if (p->st == PS_EXITED) {
			return;
		}
		if (proc_busy(p)) {
			rep("%s does not end although logind answers everything", top ? api_name(top->api) : "a call");
			return;
		}
		if (!opened || gone) {
			after();
			return;
		}
		if (!lost && !faulted) {
			if (reported == -1 && !(P.num("fin", 0) & 4)) {
				start(D_DISP, 0, 0);
				pump();
			}
			for (int i = 0; i < 24 && p->st != PS_EXITED && VIOL.empty(); i++) {
				pump();
				int fd = -1;
				proc_post(p, [this, &fd]() { fd = l_getfd(seat); });
				run();
				if (fd != BUS.fd) {
					rep("the descriptor to poll (%d) is not that of the bus", fd);
					return;
				}
				if (!fd_revents(p, fd, POLLIN)) {
					break;
				}
				start(D_DISP, (int)P.num("fin", 0) & 1, 0);
				pump();
				check_blocked();
				if (i == 23) {
					rep("the descriptor is readable without end");
				}
			}
			if (!VIOL.empty() || p->st == PS_EXITED) {
				return;
			}
			if (!sigs.empty()) {
				rep("%d signals are never handled by an application that dispatches whenever the descriptor is readable", (int)sigs.size());
				return;
			}
		}
		if ((P.num("fin", 0) & 2) && !lost && !faulted) {
			lose();
		}
		if (lost) {
			for (int t = 0; t < 3; t++) {
				int r = 0;
				for (int n = 0; n < (int)sigs.size() + 3 && r >= 0; n++) {
					proc_post(p, [this, &r, t]() {
						DCall c = {D_DISP, t, true, ncb, 0, 0, 0, -1, -1, 0, NULL};
						top = &c;
						r = l_dispatch(seat, disp_arg(t));
						top = NULL;
					});
					run();
					if (p->st == PS_EXITED) {
						return;
					}
					if (proc_busy(p)) {
						rep("dispatch(%d) waits although the bus is lost", disp_arg(t));
						return;
					}
				}
				if (r >= 0) {
					rep("dispatch(%d) does not report that the bus is lost", disp_arg(t));
					return;
				}
			}
			start(D_DEV, 0, 0);
			start(D_SWITCH, 1, 0);
			check_blocked();
			if (!VIOL.empty() || p->st == PS_EXITED || proc_busy(p)) {
				return;
			}
		}
		start(D_CLOSE, 0, 0);
		pump();
		if (p->st != PS_EXITED && proc_busy(p)) {
			rep("close_seat does not end");
			return;
		}
		after();
	}
	// what the application's own use of the bus meets afterwards
	void after() {
		if (!P.num("shared", 0) || lost || p->st == PS_EXITED || !VIOL.empty() || BUS.refs != 1) {
			return;
		}
		signal(0);
		signal(1);
		signal(8);
		service();
		while (!reqs.empty()) {
			answer(0);
		}
		proc_post(p, []() {
			for (int i = 0; i < 20 && sim_sd_bus_process(&BUS, NULL) > 0; i++) {
			}
		});
		run();
	}
	u64 key() override {
		std::string s;
		auto add = [&](u64 v) { s.append((char *)&v, 8); };
		add(ncalls << 8 | nsig);
		add(who << 16 | oddv);
		add(opened | gone << 1 | lost << 2 | faulted << 3 | proc_busy(p) << 4 | relaxed << 5 | (now ? now->kind + 1 : 0) << 8 | nested << 16);
		add(active << 8 | (reported + 1) << 4 | (first + 1));
		add(acts);
		add(armed.size() << 1 | stale);
		for (DCall *c = top; c; c = c->up) {
			add(c->api << 16 | c->arg << 8 | c->answered << 4 | c->asked);
			add(ncb - c->cbs);
		}
		if (now) {
			add(got.size() << 8 | asked.size() << 4 | acks);
			add(rep0);
		}
		for (auto &d : dev) {
			add((u64)d.maj << 32 | d.min);
		}
		for (auto m : reqs) {
			s += m->member;
		}
		auto msg = [&](BMsg *m) {
			add(m->kind);
			add(m->err);
			s += m->member;
			for (auto &t : m->body) {
				s += t.t;
				s += t.c;
				s += t.s;
				add(t.v);
			}
			if (m->kind != BM_SIGNAL && m->reply_to >= 0) {
				s += bus_msgs[m->reply_to]->member;
			}
		};
		if (BUS.refs > 0) {
			for (auto m : BUS.rq) {
				msg(m);
			}
			int of = fd_of(p, BUS.fd);
			if (of >= 0) {
				Sock *k = &K->sock[K->of[of].obj];
				for (u32 b = k->tl; b != k->hd; b += 4) {
					int id;
					for (int j = 0; j < 4; j++) {
						((char *)&id)[j] = SB[K->of[of].obj].buf[(b + j) % SOCKBUF];
					}
					msg(bus_msgs[id]);
				}
			}
		}
		add(BUS.refs << 16 | BUS.matches.size() << 8 | BUS.pend.size());
		add(bus_live_msgs << 8 | bus_live_errs);
		add(proc_nfds(p));
		add(p->st == PS_EXITED ? 1 : p->bk);
		add(p->st == PS_BLOCKED && p->bk == B_POLL ? p->timeout : -2);
		u64 h = hash_bytes(s.data(), s.size(), 17);
		return p->st == PS_EXITED ? h : proc_heap_shape(p, h);
	}
	std::string op_name(int op) override {
		static const char *sg[] = {"Active: true", "Active: false", "another interface's Active: true", "State and Active: true", "Active: false and Level", "Active invalidated", "State and Active invalidated", "Active: true, Active: false",
		                           "pause device 226:0", "force device 226:0", "gone device 226:0", "an empty PropertiesChanged", "Active: \"yes\"", "a truncated PauseDevice", "pause device of another session", "a list and Active: true", "pause device 13:64", "unknown pause of 226:0", "pausing of 226:0", "empty pause of 226:0", "paus of 226:0", "Pause of 226:0", "pause device 226:0 from another program", "resume device 226:0",
		                           "", "", "", "", "", "", "Active of a shorter interface", "Active of a longer interface", "Active of an empty interface", "Active of a small interface", "Activ", "ActiveX", "active", "an empty property", "Activ invalidated", "ActiveX invalidated", "active invalidated", "an empty property invalidated", "Active: false and invalidated", "Active: true and IdleHint: false", "Active from another program", "Active of another session"};
		int k = op >> 24, a = op & 0xffffff;
		switch (k) {
		case Q_CALL: {
			int api = a >> 8 & 255, g = a & 255;
			std::string r = std::string("application calls ") + api_name(api);
			r += api == D_DISP ? "(" + std::to_string(disp_arg(g)) + ")" : api == D_DEV ? std::string("(") + DPATH[g] + ")" : api == D_SWITCH ? "(" + std::to_string(sess(g)) + ")" : api == D_CLOSEDEV ? " #" + std::to_string(g) : "";
			if (a >> 16) {
				r += ", reacting to disable with " + std::to_string(a >> 20 & 15) + " and to enable with " + std::to_string(a >> 16 & 15);
			}
			return r;
		}
		case Q_SIG:
			return a >= 1000 ? "logind signals pause device " + std::to_string((u32)odd_numbers()[a - 1000]) : std::string("logind signals ") + sg[a];
		case Q_CALLV:
			return std::string("application calls ") + api_name(a >> 16) + "(" + std::to_string(odd_numbers()[a & 0xffff]) + ")";
		case Q_REPLY:
			return a == 0 ? "logind grants" : a == 9 ? "logind grants, paused" : a == 8 ? "logind answers nonsense" : "logind refuses with " + std::to_string(CODES[a - 1]);
		case Q_LOSE:
			return "the bus is lost";
		default:
			return "the wait times out";
		}
	}
	std::string describe() override { return "last told " + std::to_string(reported) + ", unhandled signals " + std::to_string(sigs.size()) + ", requests " + std::to_string(reqs.size()) + (proc_busy(p) ? std::string(", in ") + (top ? api_name(top->api) : "?") : ""); }
};
LogindScn *LogindScn::self;
int LogindScn::oddv;
SCENARIO("logind", LogindScn)

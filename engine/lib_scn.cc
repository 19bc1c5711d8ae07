// L01-L04: an application on libseat's seatd backend; the daemon's end of the
// socket is held by the explorer, which answers, notifies, cuts the stream,
// misbehaves or goes away at any moment.
#include "explore.h"
#include <errno.h>
#include <limits.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <deque>

struct libseat;
struct Listener {
	void (*enable)(struct libseat *, void *);
	void (*disable)(struct libseat *, void *);
};
void proc_set_errno(Proc *, int);
int proc_get_errno(Proc *);
void proc_fire_timeout(Proc *);

enum Api { A_OPEN, A_DISPATCH, A_OPENDEV, A_CLOSEDEV, A_SWITCH, A_DISABLE, A_CLOSE, A_NAME };
enum { O_NOTE, O_XMIT, O_REPLY, O_BAD, O_CALL, O_CLOSE, O_TIMEOUT, O_CALLV };
enum { // wire
	C_OPEN = 1, C_CLOSE, C_OPENDEV, C_CLOSEDEV, C_DISABLE, C_SWITCH, C_PING,
	S_OPENED = 0x8001, S_CLOSED, S_DEVOPENED, S_DEVCLOSED, S_DISABLE_EV, S_ENABLE_EV, S_PONG, S_SWITCHED, S_DISABLED, S_ERROR = 0xffff
};
static int mk(int k, int a) { return k << 24 | a; }
static std::string u16s(int v) { return std::string{(char)(v & 255), (char)(v >> 8 & 255)}; }
static std::string hdr(int op, size_t size) { return u16s(op) + u16s((int)size); }
static std::string i32s(int v) { return std::string((char *)&v, 4); }
static const int errcodes[] = {1, 9, 24, 22, 32, 107};
static int errcode_of(int v) { return v >= 0x10000 ? odd_numbers()[v & 0xffff] : v >= 1000 ? v - 1000 : errcodes[v - 1]; }

struct LCall {
	int api, arg;
	std::string expect; // the request, empty if none may be sent
	bool sent = false, replied = false, granted = false, bad = false, inval = false, waitsmore = false;
	int code = 0, id = -1;
	int of = -1;
	u32 serial = 0;
	u64 end = 0; // position of the end of the reply in the daemon's stream
	std::string name;
	int ndel = 0;
	bool dead = false; // made on a broken connection
	LCall *up = nullptr; // next outer call
};
struct Notice {
	int kind; // 1 enable
	u64 end;
};
struct LibScn : Scenario {
	Module *mod = nullptr;
	Proc *p;
	// application
	struct libseat *seat, *cbseat;
	LCall *top;
	std::deque<LCall> pool;
	int depth, ncalls, acts, ndel, fdbase, heapbase, nopened;
	bool opened, gone; // gone: closed, or opening failed
	std::vector<int> myfds;
	std::vector<std::string> paths;
	Listener lst;
	int udata;
	// daemon
	int lsock, srv, appsock;
	std::string in; // request bytes of the application, not yet parsed
	struct Req {
		LCall *c; // NULL: ping
	};
	std::deque<Req> reqs;
	std::string outq;
	std::vector<int> outfds;
	u64 composed, rcvb;
	std::vector<Notice> notes;
	int nextid, nbad, nnote;
	bool closed, faulted, badmsg, spun, unsol, dead; // dead: the connection was found broken
	u64 stray; // end of a message nobody can be waiting for
	std::vector<std::pair<const char *, const char *>> iobuf;

	struct libseat *(*l_open)(Listener *, void *);
	int (*l_disable)(struct libseat *), (*l_close)(struct libseat *), (*l_opendev)(struct libseat *, const char *, int *);
	int (*l_closedev)(struct libseat *, int), (*l_switch)(struct libseat *, int), (*l_getfd)(struct libseat *), (*l_dispatch)(struct libseat *, int);
	const char *(*l_name)(struct libseat *);

	template <class T> void get(T &f, const char *n) {
		f = (T)mod->sym(n);
		if (!f) {
			fprintf(stderr, "harness: no %s\n", n);
			exit(2);
		}
	}
	bool clean() { return !closed && !faulted && !badmsg; }
	static std::vector<std::string> split(const std::string &s) {
		std::vector<std::string> r;
		for (size_t i = 0; i < s.size();) {
			size_t c = s.find(',', i);
			if (c == std::string::npos) {
				c = s.size();
			}
			r.push_back(s.substr(i, c - i));
			i = c + 1;
		}
		return r;
	}
	std::vector<int> ints(const char *k, const char *d) {
		std::vector<int> r;
		for (auto &s : split(P.str(k, d))) {
			r.push_back(atoi(s.c_str()));
		}
		return r;
	}
	void load() override {
		mod = mod_load((SUTDIR + "/libseat.so").c_str());
		get(l_open, "libseat_open_seat");
		get(l_disable, "libseat_disable_seat");
		get(l_close, "libseat_close_seat");
		get(l_opendev, "libseat_open_device");
		get(l_closedev, "libseat_close_device");
		get(l_switch, "libseat_switch_session");
		get(l_getfd, "libseat_get_fd");
		get(l_dispatch, "libseat_dispatch");
		get(l_name, "libseat_seat_name");
		for (int len : {3, 0, 1, 254, 255, 256, 257, 5000, 200}) {
			paths.push_back(path_of(len));
		}
		paths.resize(256);
		sweep = split(P.str("sw", ""));
		mxmit = ints("xmit", "0");
		mreply = ints("reply", "0,1");
		mbad = ints("bad", "");
		if (P.str("bad", "").empty()) {
			mbad.clear();
		}
		mcall = split(P.str("call", "d0,o0,s1,x"));
		mdis = ints("dis", "0");
		men = ints("en", "0");
		minj = P.str("inj", "");
	}
	std::vector<int> mxmit, mreply, mbad, mdis, men;
	std::vector<std::string> mcall, sweep;
	std::string minj;
	static LibScn *self;

	void setup() override {
		self = this;
		seat = cbseat = NULL;
		top = NULL;
		pool.clear();
		depth = ncalls = acts = ndel = nopened = oddv = 0;
		opened = gone = false;
		myfds.clear();
		srv = appsock = -1;
		in.clear();
		reqs.clear();
		outq.clear();
		outfds.clear();
		composed = rcvb = 0;
		notes.clear();
		nextid = 1;
		nbad = nnote = 0;
		closed = faulted = badmsg = spun = unsol = dead = false;
		stray = 0;
		iobuf.clear();
		p = proc_new(mod, 1000, 1000);
		proc_setenv(p, "LIBSEAT_BACKEND", "seatd");
		int dir = node_mkpath("/run", N_DIR, 0755);
		int n = node_mk(dir, "seatd.sock", N_SOCK, 0777);
		lsock = sock_new();
		K->sock[lsock].state = SS_LISTEN;
		K->sock[lsock].owner = -1;
		K->sock[lsock].backlog = 10;
		K->node[n].lsock = lsock;
		K->sock[lsock].node = n;
		int e;
		if (node_lookup("/dev/null", true, &e) < 0) {
			node_mkpath("/dev/null", N_CHR, 0666);
		}
		lst.enable = [](struct libseat *s, void *d) { self->callback(1, s, d); };
		lst.disable = [](struct libseat *s, void *d) { self->callback(0, s, d); };
		proc_start_jobs(p);
		fdbase = proc_nfds(p);
		heapbase = p->live_blocks;
		if (P.num("preopen", 1)) {
			start(A_OPEN << 8, 0);
			pump(true);
			if (P.num("preenable", 0)) {
				note(1);
				pump(true);
				start(A_DISPATCH << 8, 0);
			}
		}
		fd_shut(p, (int)P.num("hole", 0));
		fdbase -= (int)P.num("hole", 0);
	}
	// ---------------------------------------------------------- application
	static const char *api_name(int a) {
		static const char *n[] = {"open_seat", "dispatch", "open_device", "close_device", "switch_session", "disable_seat", "close_seat", "seat_name"};
		return n[a];
	}
	static int num_arg(int i) { // argument of close_device and switch_session
		static const int v[] = {1, 2, 0, 7, 12345, INT_MAX, -1, INT_MIN};
		return i == 255 ? odd_numbers()[oddv] : v[i & 7];
	}
	static int oddv;
	static std::string path_of(int len) {
		std::string s;
		for (int i = 0; i < len; i++) {
			s += i == 0 ? '/' : (char)(1 + (i * 37 + len) % 255);
		}
		return s;
	}
	static const std::vector<int> &path_lens() {
		static std::vector<int> v;
		if (v.empty()) {
			for (int i = 0; i <= 700; i++) {
				v.push_back(i);
			}
			for (int k = 1024; k <= 131072; k *= 2) {
				for (int d = -3; d <= 258; d += d < 3 || d > 250 ? 1 : 8) {
					v.push_back(k + d);
				}
			}
		}
		return v;
	}
	static int disp_arg(int i) { return i == 0 ? 0 : i == 1 ? -1 : 100; }
	void call(int what) {
		int api = what >> 8, a = what & 255;
		pool.emplace_back();
		LCall &c = pool.back();
		c.api = api;
		c.arg = a;
		c.up = top;
		c.ndel = ndel;
		c.dead = dead;
		struct libseat *s = seat ? seat : cbseat;
		switch (api) {
		case A_OPEN:
			c.expect = hdr(C_OPEN, 0);
			break;
		case A_OPENDEV:
			if (paths[a].size() + 1 <= 256) {
				c.expect = hdr(C_OPENDEV, 2 + paths[a].size() + 1) + u16s((int)paths[a].size() + 1) + paths[a] + std::string(1, 0);
			} else {
				c.inval = true;
			}
			break;
		case A_CLOSEDEV:
		case A_SWITCH:
			if (num_arg(a) >= 0) {
				c.expect = hdr(api == A_CLOSEDEV ? C_CLOSEDEV : C_SWITCH, 4) + i32s(num_arg(a));
			} else {
				c.inval = true;
			}
			break;
		case A_DISABLE:
			c.expect = hdr(C_DISABLE, 0);
			break;
		case A_CLOSE:
			c.expect = hdr(C_CLOSE, 0);
			break;
		}
		top = &c;
		proc_set_errno(p, 0);
		int r = 0, en, fd = -77;
		switch (api) {
		case A_OPEN:
			seat = l_open(&lst, &udata);
			en = proc_get_errno(p);
			r = seat ? 0 : -1;
			break;
		case A_DISPATCH:
			r = l_dispatch(s, disp_arg(a));
			break;
		case A_OPENDEV:
			r = l_opendev(s, paths[a].c_str(), &fd);
			break;
		case A_CLOSEDEV:
			r = l_closedev(s, num_arg(a));
			break;
		case A_SWITCH:
			r = l_switch(s, num_arg(a));
			break;
		case A_DISABLE:
			r = l_disable(s);
			break;
		case A_CLOSE:
			r = l_close(s);
			break;
		}
		en = proc_get_errno(p);
		top = c.up;
		tracef("%s returns %d (errno %d)", api_name(api), r, r < 0 ? en : 0);
		returned(c, r, en, fd);
		c.expect.clear();
	}
	void returned(LCall &c, int r, int en, int fd) {
		const char *n = api_name(c.api);
		if (c.dead && c.api != A_CLOSE && r != -1) {
			report("L04", "%s returns %d although the connection was found to be broken before", n, r);
		}
		if (c.api == A_DISPATCH && stray && rcvb >= stray && !faulted) {
			if (r >= 0) {
				report("L04", "dispatch returns %d although the daemon sent something it must not", r);
			} else {
				dead = true;
			}
		}
		if (r < 0 && c.bad && !c.waitsmore && !unsol && rcvb >= c.end && !faulted) {
			dead = true;
		}
		if (c.api == A_OPEN) {
			if (seat) {
				opened = true;
				if (cbseat && cbseat != seat) {
					report("L01", "the listener was called with a seat that is not the one being opened");
				}
				const char *nm = l_name(seat);
				if (c.replied && c.granted && (!nm || c.name != nm)) {
					report("L02", "the seat's name is '%s', the daemon said '%s'", nm ? nm : "(null)", c.name.c_str());
				}
			} else {
				gone = true;
			}
		}
		if (c.api == A_CLOSE) {
			gone = true;
			seat = cbseat = NULL;
			all_told(c, r);
		}
		if (c.api == A_DISPATCH) {
			if (r < 0 && clean()) {
				report("L04", "dispatch fails with errno %d on a working connection", en);
				report("L01", "dispatch fails with errno %d on a working connection", en);
			}
			if (r == 0 && ndel > c.ndel) {
				report("L01", "dispatch delivered %d notices and returns 0", ndel - c.ndel);
			}
			return;
		}
		if (c.inval) {
			if (r != -1 || (en != EINVAL && clean())) {
				report("L02", "%s with an argument out of range returns %d with errno %d", n, r, en);
			}
			return;
		}
		bool arrived = c.replied && !c.bad && rcvb >= c.end;
		if (r >= 0) {
			if (unsol) { // the answers may have been shifted
				if (c.api == A_OPENDEV && fd >= 0 && fd_of(p, fd) >= 0) {
					myfds.push_back(fd);
				}
				return;
			}
			if (!arrived) {
				report(c.bad ? "L04" : "L02", "%s succeeds %s", n, !c.sent ? "without having been requested" : c.bad ? "on a malformed answer" : "before the daemon answered");
				report(c.bad ? "L02" : "L04", "%s succeeds %s", n, !c.sent ? "without having been requested" : c.bad ? "on a malformed answer" : "before the daemon answered");
				if (c.api == A_OPENDEV && fd >= 0 && fd_of(p, fd) >= 0) {
					myfds.push_back(fd);
				}
				return;
			}
			if (!c.granted) {
				report("L02", "%s was refused with %d and returns %d", n, c.code, r);
				return;
			}
			if (c.api == A_OPENDEV) {
				if (r != c.id) {
					report("L02", "open_device returns %d, the daemon's id is %d", r, c.id);
				}
				int of = fd_of(p, fd);
				if (of < 0) {
					report("L02", "open_device gives descriptor %d, which is not open", fd);
				} else if (!same_of(of, c.serial) && !unsol) {
					report("L02", "open_device gives a descriptor that is not the one sent with the answer");
				}
				if (of >= 0) {
					myfds.push_back(fd);
				}
			} else if (r != 0) {
				report("L02", "%s returns %d", n, r);
			}
			return;
		}
		if (r != -1) {
			report("L02", "%s returns %d", n, r);
		}
		if (c.granted && arrived && clean()) {
			report("L02", "%s was granted and fails with errno %d", n, en);
		} else if (clean() && !c.sent) {
			report("L02", "%s fails with errno %d without asking the daemon", n, en);
		} else if (clean() && !arrived) {
			report("L02", "%s fails with errno %d before the daemon answered", n, en);
		} else if (arrived && !c.granted && clean() && en != c.code) {
			report("L02", "%s was refused with %d and fails with errno %d", n, c.code, en);
		}
	}
	// there will be no other chance to deliver what came before the daemon let us go
	void all_told(LCall &c, int r) {
		int due = 0;
		for (auto &x : notes) {
			due += x.end <= c.end;
		}
		if (r == 0 && clean() && !unsol && c.replied && c.granted && ndel < due) {
			report("L01", "%d of %d notices sent before the seat was closed are not delivered", due - ndel, due);
		}
	}
	void callback(int kind, struct libseat *s, void *d) {
		tracef("listener: %s", kind ? "enable" : "disable");
		if (d != &udata) {
			report("L01", "the listener is called with other user data");
		}
		if (opened ? s != seat : cbseat && s != cbseat) {
			report("L01", "the listener is called with another seat");
		}
		cbseat = s;
		if (!top || (top->api != A_OPEN && top->api != A_DISPATCH && top->api != A_CLOSE)) {
			report("L01", "the listener is called from within %s", top ? api_name(top->api) : "nothing");
		}
		if (unsol) {
			// what follows may have changed its meaning
		} else if (ndel >= (int)notes.size()) {
			report("L01", "the listener's %s is called %d times in all, the daemon sent %d notices", kind ? "enable" : "disable", ndel + 1, (int)notes.size());
		} else {
			if (notes[ndel].kind != kind) {
				report("L01", "notice %d was %s, the listener is told %s", ndel + 1, notes[ndel].kind ? "enable" : "disable", kind ? "enable" : "disable");
			}
			if (rcvb < notes[ndel].end) {
				report("L01", "the listener is told of notice %d before it arrived", ndel + 1);
			}
		}
		ndel++;
		int a = kind ? acts & 15 : acts >> 4 & 15;
		if (depth >= (int)P.num("nest", 1) || !a) {
			return;
		}
		depth++;
		switch (a) {
		case 1:
			call(A_DISABLE << 8);
			break;
		case 2:
			call(A_DISPATCH << 8);
			break;
		case 3:
			call(A_OPENDEV << 8);
			break;
		case 4:
			call(A_CLOSEDEV << 8);
			break;
		case 5:
			call(A_SWITCH << 8);
			break;
		case 6:
			call(A_DISPATCH << 8 | 1);
			break;
		case 7:
			call(A_DISABLE << 8);
			call(A_DISPATCH << 8);
			break;
		}
		depth--;
	}
	void run() {
		for (int i = 0; i < 3 && p->st != PS_EXITED; i++) {
			proc_run(p, 20000);
			service();
			if (!proc_runnable(p) || SPUN) {
				break;
			}
		}
		if (SPUN && !spun) {
			spun = true;
			report("L04", "%s runs without end", top ? api_name(top->api) : "the library");
			report("L03", "%s runs without end", top ? api_name(top->api) : "the library");
			report("L01", "%s runs without end", top ? api_name(top->api) : "the library");
			report("L02", "%s runs without end", top ? api_name(top->api) : "the library");
			proc_kill(p, 9);
		} else if (p->st == PS_EXITED && !spun) {
			spun = true;
			for (const char *x : {"L01", "L02", "L03", "L04"}) {
				report(x, "the application is ended: %s", p->crash);
			}
		}
	}
	void start(int what, int a) {
		acts = a;
		proc_post(p, [this, what]() { call(what); });
		run();
	}
	// what a blocked call must not be waiting for
	void check_blocked() {
		if (p->st == PS_EXITED || !proc_busy(p) || !top) {
			return;
		}
		LCall &c = *top;
		const char *n = api_name(c.api);
		bool quiet = outq.empty();
		if (closed) {
			report("L04", "%s waits although the daemon's end is closed", n);
		}
		if (c.api == A_DISPATCH) {
			if (disp_arg(c.arg) == 0) {
				report("L03", "dispatch without waiting waits");
				report("L04", "dispatch without waiting waits");
			}
			if (disp_arg(c.arg) > 0 && p->st == PS_BLOCKED && (p->bk != B_POLL || p->timeout < 0 || p->timeout > disp_arg(c.arg))) {
				report("L03", "dispatch(%d) waits for %d", disp_arg(c.arg), p->bk == B_POLL ? p->timeout : -1);
			}
			if (disp_arg(c.arg) < 0 && p->st == PS_BLOCKED && p->bk == B_POLL && p->timeout >= 0) {
				report("L03", "dispatch(-1) waits for %d only", p->timeout);
			}
			int got = 0;
			for (auto &x : notes) {
				got += x.end <= rcvb;
			}
			if (got > ndel && clean()) {
				report("L03", "dispatch waits although a notice that arrived is undelivered");
				report("L01", "dispatch waits although a notice that arrived is undelivered");
			}
			if (ndel > c.ndel && clean() && !c.up) {
				report("L03", "dispatch waits after having delivered something");
			}
			return;
		}
		if (c.inval) {
			report("L02", "%s with an argument out of range waits", n);
		}
		if (!c.sent && srv >= 0 && !closed) {
			report("L02", "%s waits without having asked", n);
		}
		if (c.replied && quiet && rcvb >= c.end && !c.waitsmore && !unsol) {
			report(c.bad ? "L04" : "L02", "%s was answered and waits", n);
			if (!c.bad) {
				report("L04", "%s was answered and waits", n);
			}
		}
	}
	// ---------------------------------------------------------- daemon
	void service() {
		if (srv < 0 && K->sock[lsock].naccq > 0) {
			srv = K->sock[lsock].accq[0];
			K->sock[lsock].naccq = 0;
			K->sock[srv].embryo = false;
			K->sock[srv].owner = -1;
			appsock = K->sock[srv].peer;
		}
		if (srv >= 0 && !closed) {
			char b[512];
			int r;
			while ((r = h_recv(srv, b, sizeof b, NULL)) > 0) {
			}
		}
	}
	void on_send(Proc *, int sock, const char *d, size_t n, const std::vector<int> &ofs) override {
		if (!ofs.empty()) {
			report("L02", "the library sends descriptors");
		}
		in.append(d, n);
		while (in.size() >= 4) {
			int op = (u8)in[0] | (u8)in[1] << 8;
			size_t sz = (u8)in[2] | (u8)in[3] << 8;
			if (in.size() < 4 + sz) {
				break;
			}
			std::string m = in.substr(0, 4 + sz);
			in.erase(0, 4 + sz);
			if (op == C_PING) {
				if (sz) {
					report("L02", "a ping of %zu bytes is sent", sz);
				}
				reqs.push_back({NULL});
				continue;
			}
			if (!top || top->sent || top->expect != m) {
				report("L02", "%s sends the daemon a message (%d, %zu bytes) that is not its request", top ? api_name(top->api) : "nobody", op, sz);
				if (!top || top->sent) {
					continue;
				}
			}
			top->sent = true;
			stray = 0;
			reqs.push_back({top});
		}
	}
	void on_recv(Proc *, int sock, const char *, size_t n, const std::vector<int> &) override {
		rcvb += n;
	}
	void on_inherit(Proc *q, int fd) override {
		if (q == p) {
			report("L09", "descriptor %d of the application is not close-on-exec", fd);
		}
	}
	void on_badfd(Proc *, const char *w, int fd) override {
		report("L04", "%s on descriptor %d, which is not open", w, fd);
	}
	void on_fault(Proc *, const char *, int) override { faulted = true; }
	void on_iobuf(Proc *, const void *b, size_t n) override {
		const char *x = (const char *)b, *y = x + n;
		if (x < p->arena || x >= p->arena + (64 << 20) || !n) {
			return;
		}
		for (auto &r : iobuf) {
			if (x >= r.first && y <= r.second) {
				return;
			}
			if (x <= r.second && y >= r.first) {
				r.first = std::min(r.first, x);
				r.second = std::max(r.second, y);
				return;
			}
		}
		iobuf.push_back({x, y});
	}
	void put(const std::string &s, int of = -1) {
		outq += s;
		composed += s.size();
		if (of >= 0) {
			outfds.push_back(of);
		}
	}
	int newof() {
		int e;
		return of_new(OF_NODE, node_lookup("/dev/null", true, &e), 2);
	}
	void note(int kind) {
		put(hdr(kind ? S_ENABLE_EV : S_DISABLE_EV, 0));
		notes.push_back({kind, composed});
		nnote++;
	}
	void xmit(size_t k) {
		if (closed || srv < 0) {
			return;
		}
		if (k == 0 || k > outq.size()) {
			k = outq.size();
		}
		std::string d = outq.substr(0, k);
		outq.erase(0, k);
		std::vector<int> f;
		f.swap(outfds);
		if (k == 0) {
			return;
		}
		int r = h_send(srv, d.data(), d.size(), f.data(), (int)f.size());
		for (int of : f) {
			// ours until now; the message in flight holds its own reference
			if (r < 0) {
				K->of[of].refs = 1;
				of_unref(of);
			}
		}
		if (r < 0) {
			tracef("daemon: send fails %d", r);
		}
	}
	void answer(int v) { // 0 grant
		Req q = reqs.front();
		reqs.pop_front();
		LCall *c = q.c;
		if (!c) {
			put(hdr(S_PONG, 0));
			return;
		}
		c->replied = true;
		if (v >= 0x30000) { // a name of any length, with its null byte or (from an old seatd) without
			c->granted = true;
			std::string nm((size_t)(v & 0xffff), 'n');
			c->name = nm;
			if (v < 0x40000) {
				nm += '\0';
			}
			put(hdr(S_OPENED, 2 + nm.size()) + u16s((int)nm.size()) + nm);
		} else if (v >= 0x20000) {
			c->granted = true;
			c->id = odd_numbers()[v & 0xffff];
			c->of = newof();
			c->serial = K->of[c->of].serial;
			put(hdr(S_DEVOPENED, 4) + i32s(c->id), c->of);
		} else if (v >= 10 && v < 1000) { // variants of the seat's name
			c->granted = true;
			std::string nm = v == 10 ? std::string() : v == 11 ? std::string(63, 'n') + std::string(1, 0) : v == 12 ? std::string("seat0") : std::string(1, 0);
			c->name = nm.c_str();
			put(hdr(S_OPENED, 2 + nm.size()) + u16s((int)nm.size()) + nm);
		} else if (v) {
			c->code = errcode_of(v);
			put(hdr(S_ERROR, 4) + i32s(c->code));
		} else {
			c->granted = true;
			switch (c->api) {
			case A_OPEN: {
				c->name = "seat0";
				put(hdr(S_OPENED, 8) + u16s(6) + std::string("seat0\0", 6));
				break;
			}
			case A_OPENDEV: {
				c->id = nextid++ % 4 == 3 ? INT_MAX : nextid;
				c->of = newof();
				c->serial = K->of[c->of].serial;
				put(hdr(S_DEVOPENED, 4) + i32s(c->id), c->of);
				break;
			}
			case A_CLOSEDEV:
				put(hdr(S_DEVCLOSED, 0));
				break;
			case A_SWITCH:
				put(hdr(S_SWITCHED, 0));
				break;
			case A_DISABLE:
				put(hdr(S_DISABLED, 0));
				break;
			case A_CLOSE:
				put(hdr(S_CLOSED, 0));
				break;
			}
		}
		c->end = composed;
	}
	static int reply_op(int api) {
		static const int r[] = {S_OPENED, 0, S_DEVOPENED, S_DEVCLOSED, S_SWITCHED, S_DISABLED, S_CLOSED};
		return r[api];
	}
	static int reply_size(int api) { return api == A_OPEN ? 8 : api == A_OPENDEV ? 4 : 0; }
	bool bad_ok(int b) {
		bool idle = reqs.empty();
		LCall *c = idle ? NULL : reqs.front().c;
		if (b >= 30 && b < 100) { // unsolicited
			return true;
		}
		if (!c) {
			return false;
		}
		if (b >= 20 && b < 30) {
			return c->api == A_OPEN;
		}
		if (b == 8 || b == 9) {
			return c->api == A_OPENDEV;
		}
		return true;
	}
	void bad(int b) {
		LCall *c = NULL;
		badmsg = true;
		if ((b == 31 || b == 33 || b == 34 || b >= 0x10000) && reqs.empty() && !unsol && (!proc_busy(p) || (top && top->api == A_DISPATCH && !top->up))) {
			stray = 1;
		}
		unsol |= (b >= 30 && b < 100) || b == 6 || b == 10 || (b >= 100 && reqs.empty()); // what follows is read as something else
		nbad++;
		if (b < 30 || (b >= 100 && !reqs.empty())) {
			c = reqs.front().c;
			reqs.pop_front();
			c->replied = c->bad = true;
		}
		std::string body = c ? std::string(reply_size(c->api), 1) : "";
		auto opened = [&](int nlen, std::string nm) { put(hdr(S_OPENED, 2 + nm.size()) + u16s(nlen) + nm); };
		switch (b >> 16) {
		case 1: // any opcode
			put(hdr(b & 0xffff, 0));
			break;
		case 2: // any size
			put(hdr(reply_op(c->api), b & 0xffff) + std::string((size_t)(b & 0xffff), 1), c->api == A_OPENDEV ? newof() : -1);
			break;
		case 3:
			put(hdr(S_ERROR, b & 0xffff) + std::string((size_t)(b & 0xffff), 1));
			break;
		case 4: // a name that ends early
			opened(b & 255, std::string((size_t)(b >> 8 & 255), 'n') + std::string(1, 0) + std::string((size_t)((b & 255) - (b >> 8 & 255) - 1), 'm'));
			break;
		case 5: // a name of another length than said
			opened(b & 0xffff, std::string("seat0\0", 6));
			break;
		case 6: // a name that is too long
			opened(b & 0xffff, std::string((size_t)(b & 0xffff) - 1, 'n') + std::string(1, 0));
			break;
		}
		switch (b) {
		case 0:
			put(hdr(0, 0));
			break;
		case 1:
			put(hdr(0x1234, 0));
			break;
		case 2:
			put(hdr(c->api == A_CLOSEDEV ? S_DISABLED : S_DEVCLOSED, 0));
			break;
		case 3: // too long
			put(hdr(reply_op(c->api), body.size() + 4) + body + i32s(7));
			if (c->api == A_OPEN) {
				c->bad = true;
			}
			break;
		case 4:
			put(hdr(S_ERROR, 0));
			break;
		case 5:
			put(hdr(S_ERROR, 8) + i32s(1) + i32s(1));
			break;
		case 6: // never completed
			put(hdr(reply_op(c->api), 65535));
			c->waitsmore = true;
			break;
		case 7: // longer than any buffer
			put(hdr(reply_op(c->api), 600) + std::string(600, 'x'));
			break;
		case 8: { // no descriptor
			put(hdr(S_DEVOPENED, 4) + i32s(3));
			break;
		}
		case 9: // too short for the id
			put(hdr(S_DEVOPENED, 2) + u16s(3), newof());
			break;
		case 10: // cut off
			put(hdr(c->api == A_OPENDEV || c->api == A_OPEN ? reply_op(c->api) : S_ERROR, 4) + std::string(2, 1));
			c->waitsmore = true;
			break;
		case 11: // a client's opcode
			put(hdr(C_PING, 0));
			break;
		case 12: // a surplus of descriptors with the answer
			for (int i = 0; i < 70; i++) {
				outfds.push_back(newof());
			}
			put(hdr(c->api == A_CLOSEDEV ? S_DISABLED : S_DEVCLOSED, 0));
			break;
		case 13: // error with size 4 but opcode of another, payload
			put(hdr(c->api == A_CLOSEDEV ? S_DISABLED : S_DEVCLOSED, 4) + i32s(1));
			break;
		case 14: // what is too much looks like a notice
			put(hdr(S_ERROR, 8) + i32s(1) + hdr(S_ENABLE_EV, 0));
			break;
		case 15:
			put(hdr(reply_op(c->api), body.size() + 4) + body + hdr(S_ENABLE_EV, 0), c->api == A_OPENDEV ? newof() : -1);
			break;
		case 16: // too little, and what follows makes up for it
			put(hdr(S_ERROR, 2) + i32s(1));
			break;
		case 20:
			opened(5, std::string("seat0\0", 6)); // length does not match
			break;
		case 21:
			opened(65, std::string(64, 'a') + std::string(1, 0)); // too long
			break;
		case 22:
			opened(64, std::string(64, 'a')); // not terminated
			break;
		case 23:
			opened(6, std::string("se\0t0\0", 6)); // ends early
			break;
		case 24:
			put(hdr(S_OPENED, 1) + "x");
			break;
		case 25:
			put(hdr(S_OPENED, 0));
			break;
		case 26:
			opened(200, std::string(200, 'a'));
			break;
		case 27:
			opened(0, "abc");
			break;
		case 30:
			put(hdr(S_PONG, 0));
			break;
		case 31:
			put(hdr(S_DEVCLOSED, 0));
			break;
		case 32:
			put(hdr(S_ERROR, 4) + i32s(13));
			break;
		case 33:
			put(hdr(0, 0));
			break;
		case 34:
			put(hdr(0x7777, 30) + std::string(30, 'y'));
			break;
		case 35: // a header's half
			put(std::string("\x06\x80", 2));
			break;
		case 36: // descriptors nobody asked for
			for (int i = 0; i < 3; i++) {
				outfds.push_back(newof());
			}
			note(1);
			break;
		case 37:
			for (int i = 0; i < 100; i++) {
				outfds.push_back(newof());
			}
			note(1);
			break;
		case 38: // more than the buffer holds
			put(hdr(S_DEVCLOSED, 600) + std::string(600, 'z'));
			break;
		}
		if (c) {
			c->end = composed;
		}
		if (stray == 1) {
			stray = composed;
		}
	}
	void close_srv() {
		if (closed || srv < 0) {
			return;
		}
		closed = true;
		for (int of : outfds) {
			K->of[of].refs = 1;
			of_unref(of);
		}
		outfds.clear();
		outq.clear();
		reqs.clear();
		if (P.num("half", 0)) {
			h_shutdown_wr(srv);
		} else {
			h_close(srv);
		}
	}
	int ninject() override {
		service();
		return srv < 0 || closed ? 0 : (int)minj.size();
	}
	void inject(int i) override {
		service();
		char c = minj[i];
		tracef("injected: %c", c);
		switch (c) {
		case 'x':
			xmit(0);
			break;
		case 'E':
		case 'D':
			note(c == 'E');
			xmit(0);
			break;
		case 'r':
			if (!reqs.empty()) {
				answer(0);
				xmit(0);
			}
			break;
		case 'R': // answer preceded and followed by notices
			note(0);
			if (!reqs.empty()) {
				answer(0);
			}
			note(1);
			xmit(0);
			break;
		case 'c':
			xmit(0);
			close_srv();
			break;
		}
	}
	// answers and transmits everything, lets the application run
	void pump(bool once) {
		for (int i = 0; i < 12; i++) {
			service();
			while (!reqs.empty()) {
				answer(0);
			}
			xmit(0);
			if (p->st == PS_EXITED) {
				return;
			}
			run();
			if (reqs.empty() && outq.empty() && !proc_runnable(p)) {
				return;
			}
		}
	}
	// ---------------------------------------------------------- exploration
	void apply(int op) override {
		int k = op >> 24, a = op & 0xffffff;
		switch (k) {
		case O_CALLV:
			ncalls++;
			oddv = a & 0xffff;
			if (a >> 16 == A_OPENDEV) {
				paths[255] = path_of(path_lens()[oddv]);
			}
			start(a >> 16 << 8 | 255, 0);
			break;
		case O_NOTE:
			note(a);
			break;
		case O_XMIT:
			xmit(a);
			break;
		case O_REPLY:
			answer(a);
			break;
		case O_BAD:
			bad(a);
			break;
		case O_CALL:
			ncalls++;
			start(a & 0xffff, a >> 16);
			break;
		case O_CLOSE:
			close_srv();
			break;
		case O_TIMEOUT:
			proc_fire_timeout(p);
			break;
		}
		run();
		check_blocked();
	}
	int call_code(const std::string &s) {
		int a = s.size() > 1 ? atoi(s.c_str() + 1) : 0;
		switch (s[0]) {
		case 'O':
			return A_OPEN << 8;
		case 'd':
			return A_DISPATCH << 8 | a;
		case 'o':
			return A_OPENDEV << 8 | a;
		case 'c':
			return A_CLOSEDEV << 8 | a;
		case 's':
			return A_SWITCH << 8 | a;
		case 'x':
			return A_DISABLE << 8;
		case 'X':
			return A_CLOSE << 8;
		}
		fprintf(stderr, "harness: call %s\n", s.c_str());
		exit(2);
	}
	// all values of one field
	void sweeps(std::vector<int> &out) {
		LCall *c = reqs.empty() ? NULL : reqs.front().c;
		for (auto &s : sweep) {
			if (s == "opc") {
				if (reqs.empty() ? proc_busy(p) && !(top && top->api == A_DISPATCH && !top->up) : !c) {
					continue;
				}
				for (int i = 0; i < 65536; i++) {
					if (i == S_PONG || i == S_ENABLE_EV || i == S_DISABLE_EV || (!c && i == S_ERROR) || (c && i == reply_op(c->api) && !reply_size(c->api))) {
						continue;
					}
					out.push_back(mk(O_BAD, 0x10000 + i));
				}
			} else if (!c) {
			} else if (s == "siz") {
				for (int i = 0; i < 65536; i += i < 700 || i > 65500 ? 1 : 61) {
					if (c->api != A_OPEN && i != reply_size(c->api)) {
						out.push_back(mk(O_BAD, 0x20000 + i));
					}
					if (i != 4) {
						out.push_back(mk(O_BAD, 0x30000 + i));
					}
				}
			} else if (s == "num") {
				for (size_t i = 0; i < odd_numbers().size(); i++) {
					if (odd_numbers()[i] > 0) {
						out.push_back(mk(O_REPLY, 0x10000 + (int)i));
					}
					if (odd_numbers()[i] >= 0 && c->api == A_OPENDEV) {
						out.push_back(mk(O_REPLY, 0x20000 + (int)i));
					}
				}
			} else if (s == "nam" && c->api == A_OPEN) {
				for (int i = 0; i < 64; i++) {
					out.push_back(mk(O_REPLY, 0x30000 + i));
					out.push_back(mk(O_REPLY, 0x40000 + i));
					for (int k = 0; k < i; k++) {
						out.push_back(mk(O_BAD, 0x40000 | k << 8 | (i + 1)));
					}
				}
				for (int i = 65; i < 65534; i += i < 700 || i > 65500 ? 1 : 61) {
					out.push_back(mk(O_BAD, 0x60000 + i));
				}
				for (int i = 0; i < 65536; i += i < 700 || i > 65500 ? 1 : 61) {
					if (i != 6) {
						out.push_back(mk(O_BAD, 0x50000 + i));
					}
				}
			}
		}
	}
	void ops(std::vector<int> &out) override {
		if (p->st == PS_EXITED || spun) {
			return;
		}
		if (srv >= 0 && !closed) {
			if (nnote < (int)P.num("notes", 3)) {
				out.push_back(mk(O_NOTE, 1));
				out.push_back(mk(O_NOTE, 0));
			}
			for (int x : mxmit) {
				if (!outq.empty() && (x == 0 || x < (int)outq.size())) {
					out.push_back(mk(O_XMIT, x));
				}
			}
			if (!reqs.empty()) {
				if (!reqs.front().c) {
					out.push_back(mk(O_REPLY, 0));
				} else {
					for (int x : mreply) {
						if (x < 10 || x >= 1000 || reqs.front().c->api == A_OPEN) {
							out.push_back(mk(O_REPLY, x));
						}
					}
				}
			}
			for (int b : mbad) {
				if (nbad < (int)P.num("nbad", 1) && bad_ok(b)) {
					out.push_back(mk(O_BAD, b));
				}
			}
			if (nbad < (int)P.num("nbad", 1)) {
				sweeps(out);
			}
			if (P.num("close", 0)) {
				out.push_back(mk(O_CLOSE, 0));
			}
		}
		if (proc_busy(p)) {
			if (p->st == PS_BLOCKED && p->bk == B_POLL && p->timeout > 0) {
				out.push_back(mk(O_TIMEOUT, 0));
			}
		} else if (!gone && ncalls < (int)P.num("calls", 4)) {
			for (auto &s : sweep) {
				if (s == "arg" && opened) {
					for (size_t i = 0; i < odd_numbers().size(); i++) {
						out.push_back(mk(O_CALLV, A_CLOSEDEV << 16 | (int)i));
						out.push_back(mk(O_CALLV, A_SWITCH << 16 | (int)i));
					}
					for (size_t i = 0; i < path_lens().size(); i++) {
						out.push_back(mk(O_CALLV, A_OPENDEV << 16 | (int)i));
					}
				}
			}
			for (auto &s : mcall) {
				if ((s[0] == 'O') != !opened) {
					continue;
				}
				bool cbs = s[0] == 'O' || s[0] == 'd' || s[0] == 'X';
				for (int x : mdis) {
					for (int y : men) {
						if (cbs || (x == mdis[0] && y == men[0])) {
							out.push_back(mk(O_CALL, call_code(s) | (x << 4 | y) << 16));
						}
					}
				}
			}
		}
	}
	void baseline() {
		if (p->st == PS_EXITED || proc_busy(p)) {
			return;
		}
		int n = proc_nfds(p) - (int)myfds.size();
		if (n != fdbase) {
			report("L04", "%d descriptors %s after the seat is gone", n > fdbase ? n - fdbase : fdbase - n, n > fdbase ? "stay open" : "too many are closed");
			if (clean()) {
				report("L02", "%d descriptors more than before are open after the seat is gone", n - fdbase);
			}
		}
		if (p->live_blocks != heapbase) {
			report("L04", "%d blocks of memory stay allocated after the seat is gone", p->live_blocks - heapbase);
		}
	}
	int job_ret(int what) {
		int r = 0;
		acts = 0;
		LCall *before = pool.empty() ? NULL : &pool.back();
		(void)before;
		start(what, 0);
		return 0;
	}
	int lastr;
	void finish() override {
		if (p->st == PS_EXITED || spun || !VIOL.empty()) {
			return;
		}
		acts = 0;
		int fin = (int)P.num("fin", 0);
		// 1. whatever call is under way ends
		for (int i = 0; i < 8 && proc_busy(p) && p->st != PS_EXITED; i++) {
			if (badmsg) {
				xmit(0);
				run();
				close_srv();
				run();
			}
			pump(false);
			check_blocked();
			if (proc_busy(p) && top && top->api == A_DISPATCH && p->st == PS_BLOCKED) {
				if (p->timeout > 0) {
					proc_fire_timeout(p);
					run();
				} else if (!closed && srv >= 0) {
					note(1);
					pump(false);
				}
			}
			if (!VIOL.empty()) {
				return;
			}
		}
		if (p->st == PS_EXITED) {
			return;
		}
		if (proc_busy(p)) {
			report("L04", "%s does not end although the daemon answers everything", top ? api_name(top->api) : "a call");
			if (clean()) {
				report("L02", "%s does not end although the daemon answers everything", top ? api_name(top->api) : "a call");
			}
			return;
		}
		if (gone) {
			baseline();
			return;
		}
		if (!opened) {
			return;
		}
		// 2. everything sent is delivered, to an application that sleeps in poll
		int fd = -1;
		if (clean()) {
			for (int i = 0; i < 24 && p->st != PS_EXITED && VIOL.empty(); i++) {
				pump(false);
				proc_post(p, [this, &fd]() { fd = l_getfd(seat); });
				run();
				if (fd_of(p, fd) < 0 || K->of[fd_of(p, fd)].obj != appsock || K->of[fd_of(p, fd)].type != OF_SOCK) {
					report("L03", "the descriptor to poll (%d) is not the connection", fd);
					break;
				}
				if (!fd_revents(p, fd, POLLIN)) {
					break;
				}
				start(A_DISPATCH << 8 | (fin & 1), 0);
				check_blocked();
				if (proc_busy(p)) {
					report("L03", "dispatch waits although the descriptor was readable");
					return;
				}
				if (i == 23) {
					report("L03", "the descriptor is readable without end");
				}
			}
			if (!VIOL.empty() || p->st == PS_EXITED) {
				return;
			}
			if (ndel < (int)notes.size()) {
				report("L03", "%d of %d notices are never delivered to an application that dispatches whenever the descriptor is readable",
				       (int)notes.size() - ndel, (int)notes.size());
				// once more, for those that need no waking
				start(A_DISPATCH << 8, 0);
				pump(false);
				if (ndel < (int)notes.size()) {
					report("L01", "%d of %d notices are never delivered", (int)notes.size() - ndel, (int)notes.size());
				}
				return;
			}
		}
		// 3. the end: in order, or by losing the daemon
		if ((fin >= 2 && !faulted) || closed || badmsg) {
			xmit(0);
			if (!dead && !stray) {
				close_srv();
			}
			int t = fin >> 1 & 3; // which timeout
			t = t == 0 ? 0 : t - 1;
			int r = 0, n = 0;
			for (n = 0; n < (int)notes.size() + 4; n++) {
				proc_post(p, [this, &r, t]() {
					top = NULL;
					pool.emplace_back();
					LCall &c = pool.back();
					c.api = A_DISPATCH;
					c.arg = t;
					c.ndel = ndel;
					top = &c;
					r = l_dispatch(seat, disp_arg(t));
					top = NULL;
				});
				run();
				if (p->st == PS_EXITED) {
					return;
				}
				if (proc_busy(p)) {
					report("L04", "dispatch(%d) waits although the daemon's end is closed", disp_arg(t));
					return;
				}
				if (r < 0) {
					break;
				}
			}
			if (r >= 0) {
				report("L04", "dispatch(%d) does not report that the daemon's end is closed", disp_arg(t));
				return;
			}
			struct {
				const char *n;
				int r;
			} later[6] = {{"dispatch(0)", 0}, {"open_device", 0}, {"close_device", 0}, {"switch_session", 0}, {"disable_seat", 0}, {"dispatch(-1)", 0}};
			proc_post(p, [this, &later]() {
				int fd = -1;
				LCall c;
				c.api = A_DISPATCH;
				c.arg = 1;
				c.sent = true;
				top = &c;
				later[0].r = l_dispatch(seat, 0);
				c.api = A_OPENDEV;
				later[1].r = l_opendev(seat, "/dev/null", &fd);
				later[2].r = l_closedev(seat, 1);
				later[3].r = l_switch(seat, 1);
				later[4].r = l_disable(seat);
				c.api = A_DISPATCH;
				later[5].r = l_dispatch(seat, -1);
				top = NULL;
			});
			run();
			if (p->st != PS_EXITED && proc_busy(p)) {
				report("L04", "a call after the loss of the daemon waits");
				return;
			}
			for (auto &l : later) {
				if (l.r != -1 && p->st != PS_EXITED) {
					report("L04", "%s returns %d after the loss of the daemon", l.n, l.r);
				}
			}
			if (!VIOL.empty() || p->st == PS_EXITED) {
				return;
			}
		}
		int r = 1;
		proc_post(p, [this, &r]() {
			pool.emplace_back();
			LCall &c = pool.back();
			c.api = A_CLOSE;
			c.expect = hdr(C_CLOSE, 0);
			c.ndel = ndel;
			top = &c;
			r = l_close(seat);
			top = NULL;
			gone = true;
			seat = NULL;
			all_told(c, r);
		});
		run();
		pump(false);
		if (p->st == PS_EXITED) {
			return;
		}
		if (proc_busy(p)) {
			if (!closed && faulted) {
				close_srv();
				run();
			}
			if (p->st != PS_EXITED && proc_busy(p)) {
				report("L04", "close_seat does not end");
				return;
			}
		}
		if (clean() && r != 0) {
			report("L02", "close_seat was granted and returns %d", r);
		}
		baseline();
	}
	u64 key() override {
		std::string s;
		auto add = [&](u64 v) { s.append((char *)&v, 8); };
		add(ndel);
		add(nnote);
		add(nbad);
		add(oddv);
		add(ncalls);
		add(opened | gone << 1 | closed << 2 | faulted << 3 | badmsg << 4 | proc_busy(p) << 5 | dead << 6 | unsol << 7);
		add(acts);
		add(stray ? stray - rcvb : 1 << 20);
		for (LCall *c = top; c; c = c->up) {
			add(c->api << 8 | c->arg);
			add(c->sent | c->replied << 1 | c->granted << 2 | c->bad << 3 | c->waitsmore << 4 | c->dead << 5);
			add(c->code);
			add(c->ndel);
			add(c->end - rcvb);
		}
		s += "|" + in + "|" + outq + "|";
		add(outfds.size());
		add(reqs.size());
		for (auto &r : reqs) {
			int d = 0;
			for (LCall *c = top; c; c = c->up, d++) {
				if (c == r.c) {
					break;
				}
			}
			add(r.c ? d : 99);
		}
		for (size_t i = ndel; i < notes.size(); i++) {
			add(notes[i].kind);
			add(notes[i].end - rcvb);
		}
		add(composed - rcvb);
		if (appsock >= 0 && p->st != PS_EXITED) {
			Sock *k = &K->sock[appsock];
			for (u32 b = k->tl; b != k->hd; b++) {
				s += SB[appsock].buf[b % SOCKBUF];
			}
			for (u32 b = k->skb_tl; b != k->skb_hd; b++) {
				add(SB[appsock].skb[b % SKBMAX].len);
				add(SB[appsock].skb[b % SKBMAX].nfds);
			}
			add(k->state);
		}
		add(proc_nfds(p) - myfds.size());
		add(p->st == PS_EXITED ? 1 : p->bk);
		add(p->st == PS_BLOCKED && p->bk == B_POLL ? p->timeout : -2);
		u64 h = hash_bytes(s.data(), s.size(), 11);
		return p->st == PS_EXITED ? h : proc_heap_shape(p, h, P.num("raw", 1) ? 1 << 20 : 128, iobuf);
	}
	std::string op_name(int op) override {
		int k = op >> 24, a = op & 0xffffff;
		switch (k) {
		case O_NOTE:
			return a ? "daemon queues an enable notice" : "daemon queues a disable notice";
		case O_XMIT:
			return a ? "daemon's next " + std::to_string(a) + " bytes arrive" : "all the daemon's bytes arrive";
		case O_REPLY:
			if (a >= 0x20000) {
				return a < 0x30000 ? "daemon grants the request, naming the device " + std::to_string(odd_numbers()[a & 0xffff]) : "daemon grants the request, with a name of " + std::to_string(a & 0xffff) + (a < 0x40000 ? " bytes and a null byte" : " bytes");
			}
			return a == 0 || (a >= 10 && a < 1000) ? "daemon grants the request" : "daemon refuses with " + std::to_string(errcode_of(a));
		case O_BAD:
			switch (a >> 16) {
			case 1:
				return "daemon sends opcode " + std::to_string(a & 0xffff);
			case 2:
				return "daemon answers with " + std::to_string(a & 0xffff) + " bytes";
			case 3:
				return "daemon refuses with " + std::to_string(a & 0xffff) + " bytes";
			case 4:
				return "daemon gives a name of " + std::to_string((a & 255) - 1) + " bytes that ends after " + std::to_string(a >> 8 & 255);
			case 5:
				return "daemon gives a name of 6 bytes, saying " + std::to_string(a & 0xffff);
			case 6:
				return "daemon gives a name of " + std::to_string(a & 0xffff) + " bytes";
			}
			return "daemon sends malformed message " + std::to_string(a);
		case O_CALLV:
			return std::string("application calls ") + api_name(a >> 16) + "(" + (a >> 16 == A_OPENDEV ? "path of " + std::to_string(path_lens()[a & 0xffff]) : std::to_string(odd_numbers()[a & 0xffff])) + ")";
		case O_CALL: {
			int w = a & 0xffff, api = w >> 8, g = w & 255;
			std::string r = std::string("application calls ") + api_name(api);
			if (api == A_DISPATCH) {
				r += "(" + std::to_string(disp_arg(g)) + ")";
			} else if (api == A_OPENDEV) {
				r += "(path of " + std::to_string(paths[g].size()) + ")";
			} else if (api == A_CLOSEDEV || api == A_SWITCH) {
				r += "(" + std::to_string(num_arg(g)) + ")";
			}
			if (a >> 16) {
				r += ", reacting to disable with " + std::to_string(a >> 20 & 15) + " and to enable with " + std::to_string(a >> 16 & 15);
			}
			return r;
		}
		case O_CLOSE:
			return "daemon's end closes";
		default:
			return "the wait times out";
		}
	}
	std::string describe() override {
		return "delivered " + std::to_string(ndel) + "/" + std::to_string(nnote) + (proc_busy(p) ? std::string(", in ") + (top ? api_name(top->api) : "?") : "") +
		       ", requests " + std::to_string(reqs.size()) + ", queued bytes " + std::to_string(outq.size());
	}
};
LibScn *LibScn::self;
int LibScn::oddv;
SCENARIO("lib", LibScn)

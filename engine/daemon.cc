#include "daemon.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>

extern int point_fd;
extern const char *point_path;
extern unsigned long point_req;

#define X8(s) s s s s s s s s
#define X120(s) X8(s s s s s s s s s s s s s s s)
#define N200 X8("0123456789abcdefghijklmno")
const char *PATHS[] = {
	"/dev/dri/card0", // 0
	"/dev/input/event0", // 1
	"/dev/dri/card1", // 2
	"/dev/input/event1", // 3
	"/dev/hidraw0", // 4
	"/dev/null", // 5
	"/dev/tty1", // 6
	"/dev/dri/evil", // 7 -> /etc/secret
	"/dev/dri/../null", // 8
	"/dev/input/by-id/kbd", // 9 -> ../event0
	"/dev/dri/nothere", // 10
	"/dev/input/../dri/./card0", // 11
	"/dev/dri/bad0", // 12: open fails
	"/dev/input/mouse0", // 13
	"/tmp/mycard", // 14 -> /dev/dri/card0
	"/dev/dri/by-path", // 15 directory
	"/etc/secret", // 16
	"", // 17
	"/dev/input/event0/../../../etc/secret", // 18
	"/dev/dri/loop", // 19
	"/dev/input/eventx", // 20 -> /dev/null
	"/dev/dri", // 21
	"/tmp/dev/dri/card0", // 22 (regular file)
	"//dev//input/event0", // 23
	"/dev/hidraw", // 24 missing
	"/dev/input/event0x/../event1", // 25 (component missing)
	"/tmp/away/secret", // 26: /tmp/away -> /etc
	"/dev/dri/by-path/card", // 27 -> ../card1
	"/dev/dri/card00", // 28
	"/dev/input/event00", // 29
	"/dev/dri/far", // 30 -> a path longer than the protocol's, of a device
	"dev/dri/card0", // 31
	"/dev/drix/card0", // 32
	"/dev/dri/card0/", // 33
	"/dev/dri/" N200 "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJ", // 34: the longest path
	"/dev/dri//" X120("./") "card0", // 35: likewise
	"/dev/input/event0" X120("/") "/" X8("/") X8("/") X8("/") X8("/") X8("/") X8("/") X8("/") X8("/") X8("/") X8("/") X8("/") X8("/") X8("/") X8("/"), // 36
	"/dev/hidraw00", // 37
	// 38: room for the near misses
	NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
};
// every permitted kind's directory and name with one character changed: not permitted
static struct NearMisses {
	std::string s[36];
	NearMisses() {
		int n = 0;
		for (std::string p : {"/dev/dri/", "/dev/input/event", "/dev/hidraw"}) {
			for (size_t i = 0; i < p.size(); i++, n++) {
				s[n] = p + "0";
				s[n][i] = i ? p[i] == '/' ? '-' : p[i] + 1 : '.';
				PATHS[38 + n] = s[n].c_str();
			}
		}
	}
} near_misses;

static int lnk(const char *p, const char *t) {
	int n = node_mkpath(p, N_LNK, 0777);
	snprintf(K->node[n].target, sizeof K->node[n].target, "%s", t);
	return n;
}
static int chr(const char *p, NDev d, int num) {
	int n = node_mkpath(p, N_CHR, 0600);
	K->node[n].dev = d;
	K->node[n].num = num;
	return n;
}
void mk_devices(int nvt) {
	node_mkpath("/run", N_DIR, 0755);
	node_mkpath("/tmp", N_DIR, 01777);
	for (int i = 0; i <= nvt; i++) {
		char b[32];
		snprintf(b, sizeof b, "/dev/tty%d", K->vtname[i]);
		chr(b, D_TTY, i);
	}
	chr("/dev/null", D_NULL, 3);
	chr("/dev/dri/card0", D_DRM, 0);
	chr("/dev/dri/card1", D_DRM, 1);
	chr("/dev/input/event0", D_EVDEV, 0);
	chr("/dev/input/event1", D_EVDEV, 1);
	chr("/dev/hidraw0", D_HIDRAW, 0);
	chr("/dev/input/mouse0", D_NULL, 9);
	node_mkpath("/etc/secret", N_REG, 0600);
	lnk("/dev/dri/evil", "/etc/secret");
	lnk("/dev/input/by-id/kbd", "../event0");
	chr(PATHS[28], D_DRM, 2);
	chr(PATHS[29], D_EVDEV, 2);
	chr(PATHS[32], D_NULL, 8);
	chr(PATHS[34], D_DRM, 4);
	chr(PATHS[37], D_HIDRAW, 2);
	chr("/dev/dri/" N200 "/" N200 "/card", D_DRM, 3);
	lnk("/dev/dri/far", "/dev/dri/" N200 "/" N200 "/card");
	int n = chr("/dev/dri/bad0", D_DRM, 7);
	K->node[n].open_err = ENXIO;
	lnk("/tmp/mycard", "/dev/dri/card0");
	node_mkpath("/dev/dri/by-path", N_DIR, 0755);
	lnk("/dev/dri/by-path/card", "../card1");
	lnk("/dev/dri/loop", "loop");
	lnk("/dev/input/eventx", "/dev/null");
	node_mkpath("/tmp/dev/dri/card0", N_REG, 0666);
	lnk("/tmp/away", "/etc");
}

void DaemonModel::rep(const char *props, const char *fmt, ...) {
	char b[500];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	std::string all = props;
	if (all == "*") {
		all = P.str("prop", "C00");
	}
	size_t p = 0;
	while (p < all.size()) {
		size_t e = all.find(' ', p);
		if (e == std::string::npos) {
			e = all.size();
		}
		report(all.substr(p, e - p).c_str(), "%s", b);
		p = e + 1;
	}
}
std::string DaemonModel::cname(const Conn &c) {
	return "client " + std::to_string(c.slot) + (c.idx >= nc ? " (connection " + std::to_string(c.idx) + ")" : "");
}

void DaemonModel::load() { mod = mod_load((SUTDIR + "/" + P.str("mod", "seatd.so")).c_str()); }

void DaemonModel::boot() {
	C.clear();
	nc = (int)P.num("nc", 2);
	nvt = (int)P.num("nvt", 3);
	vt = P.num("vt", 0);
	slot.assign(nc + 1, -1);
	nounlink = swapnow = false;
	swapped = 0;
	openerr = 0;
	memset(vtexc, 0, sizeof vtexc);
	faulty = in_step = terminating = gaveup = exited = vtfault = admfuzzy = fault_now = false;
	adm = 0;
	fgmask = 1u << K->fg;
	acqpend = 0;
	sw_from = sw_to = -1;
	exempt.clear();
	deferred.clear();
	dist.clear();
	held_run = 0;
	opslog.clear();
	termsig = 0;
	extra_fds = 0;
	K->nvt = nvt;
	for (size_t i = 0, at = 0; i < 3; i++) { // other numbers than 1, 2, 3
		std::string l = P.str("vtnum", "");
		if (at < l.size()) {
			K->vtname[i + 1] = atoi(l.c_str() + at);
			at = l.find(',', at);
			at = at == std::string::npos ? l.size() : at + 1;
		}
	}
	mk_devices(nvt);
	for (int i = 0; P.num("near", 0) && i < 36; i++) {
		if (*PATHS[38 + i] == '/') {
			chr(PATHS[38 + i], D_NULL, 100 + i);
		}
	}
	K->fg = (int)P.num("fg", 1);
	mod_reset(mod);
	d = proc_new(mod, 0, 0);
	d->nopollfault = !P.num("pollfault", 0); // not a call on behalf of any client
	if (!vt) {
		proc_setenv(d, "SEATD_VTBOUND", "0");
	}
	std::vector<std::string> av = {"seatd", "-l", P.str("log", "debug")};
	if (P.num("bootsys", 0)) {
		av.push_back("-g");
		av.push_back("video");
	}
	proc_start_main(d, av);
	proc_run(d, 100000);
	if (d->st == PS_EXITED || SPUN) {
		rep("*", "the daemon does not start");
		exited = true;
	}
	base_fds = proc_nfds(d);
	base_blocks = d->live_blocks;
}

// ---------------------------------------------------------------- client side
Conn *DaemonModel::connect(int s) {
	int err = 0;
	int k = h_socket_connect("/run/seatd.sock", 1000, 1000, 4000 + (int)C.size(), &err);
	if (k < 0) {
		if (!exited && !terminating) {
			rep("C06 C08 C15 C16", "the daemon's socket cannot be connected to: %s", strerror(err));
		}
		return nullptr;
	}
	C.emplace_back();
	Conn &c = C.back();
	c.idx = (int)C.size() - 1;
	c.slot = s;
	c.sock = k;
	c.dsock = -1;
	c.open = true;
	c.wr_shut = c.dropped = c.accepted = false;
	c.st = C_NEW;
	c.session = -1;
	c.smask = 0;
	c.badhead = c.loose = false;
	c.sent = c.readb = 0;
	c.last_notice = 0;
	c.concerned = c.hostile_fds = c.backlog = c.refusing = false;
	K->sock[k].tag = c.idx;
	K->sock[k].owner = -1;
	if (P.num("cap", 0)) {
		K->sock[k].cap = (u32)P.num("cap", 0);
	}
	slot[s] = c.idx;
	return &c;
}
int DaemonModel::send_raw(Conn &c, const void *b, size_t n, const int *ofs, int nofs) {
	int r = h_send(c.sock, b, n, ofs, nofs);
	if (r > 0) {
		c.sent += r;
	}
	return r;
}
void DaemonModel::send_req(Conn &c, int op, const std::string &body) {
	std::string m;
	u16 h[2] = {(u16)op, (u16)body.size()};
	m.append((char *)h, 4);
	m += body;
	send_raw(c, m.data(), m.size());
}
void DaemonModel::gone(Conn &c) {
	if (sw_to == c.idx) {
		sw_from = sw_to = -1;
	}
}
void DaemonModel::disconnect(Conn &c) {
	if (!c.open) {
		return;
	}
	c.open = false;
	slot[c.slot] = -1;
	gone(c);
	h_close(c.sock);
}
bool DaemonModel::drain(Conn &c) {
	if (!c.open) {
		return false;
	}
	char b[4096];
	bool any = false;
	while (true) {
		std::vector<int> ofs;
		int r = h_recv(c.sock, b, sizeof b, &ofs);
		for (int o : ofs) {
			c.keep.push_back(o);
		}
		if (r <= 0) {
			break;
		}
		any = true;
	}
	return any;
}

// ---------------------------------------------------------------- devices
bool DaemonModel::of_dead(const HOf &h) {
	if (!same_of(h.of, h.serial)) {
		return true;
	}
	OFile &o = K->of[h.of];
	Node &n = K->node[o.obj];
	if (n.dev == D_DRM) {
		return n.drm_master != h.of;
	}
	if (n.dev == D_EVDEV || n.dev == D_HIDRAW) {
		return o.revoked;
	}
	return true;
}
bool DaemonModel::of_live(const HOf &h, std::string *why) {
	if (!same_of(h.of, h.serial)) {
		*why = "is gone";
		return false;
	}
	OFile &o = K->of[h.of];
	Node &n = K->node[o.obj];
	if (n.dev == D_DRM) {
		*why = "is not DRM master";
		for (auto &x : exempt) {
			// somebody else was made to keep it
			if (x.first == n.drm_master && K->of[x.first].obj == o.obj && same_of(x.first, x.second)) {
				exempt.insert({h.of, h.serial}); // and so this one never got it
				return true;
			}
		}
		return n.drm_master == h.of;
	}
	if (n.dev == D_EVDEV || n.dev == D_HIDRAW) {
		*why = "is revoked";
		return !o.revoked;
	}
	return true;
}
static const char *devname(const HOf &h) { return K->node[K->of[h.of].obj].name; }

void DaemonModel::must_be_dead(const HOf &h, const char *props, const char *when, Conn &c) {
	if (!of_dead(h) && !exempt.count({h.of, h.serial})) {
		rep(props, "%s: a descriptor of %s handed to %s still works", when, devname(h), cname(c).c_str());
	}
}

// what opening this path must give an enabled client: 0 granted, else errno (-1: any error)
int DaemonModel::expect_open(const std::string &path, int *node, int *err) {
	int e = 0;
	int n = node_lookup(path.c_str(), true, &e);
	*node = n;
	if (n < 0) {
		return e ? e : -1;
	}
	Node &x = K->node[n];
	bool ok = x.type == N_CHR && (x.dev == D_DRM || x.dev == D_EVDEV || (x.dev == D_HIDRAW && hid()));
	(void)err;
	if (!ok) {
		// a directory or plain file among the devices may also fail in open
		std::string res;
		node_lookup(path.c_str(), true, &e, &res);
		if (res.compare(0, 9, "/dev/dri/") == 0 || res.compare(0, 16, "/dev/input/event") == 0) {
			return -1;
		}
		return ENOENT;
	}
	return x.open_err;
}

// ---------------------------------------------------------------- requests
int DaemonModel::may_admit(Conn &c) {
	if (c.st != C_NEW) {
		return 0;
	}
	if (!vt) {
		return 1;
	}
	int res = 1;
	for (auto &o : C) {
		if (&o == &c) {
			continue;
		}
		if ((o.backlog || (!o.open && o.accepted && o.st >= C_OPEN && o.st <= C_DISABLED)) && !o.dropped) {
			// how far the daemon got with it is not known
			res = -1;
			continue;
		}
		if (!seat_member(o)) {
			continue;
		}
		if (o.st == C_ENABLED) {
			return 0;
		}
		u32 m = o.session > 0 ? 1u << o.session : o.smask;
		if (m & fgmask) {
			if (__builtin_popcount(m) == 1 && m == fgmask) {
				return 0;
			}
			res = -1;
		}
	}
	return res;
}
// may the daemon drop the client for this request?
int DaemonModel::offending(Conn &c, Req &r) {
	if (r.bad) {
		return true;
	}
	if (r.op == R_PING) {
		return false;
	}
	if (r.op == R_OPEN_SEAT) {
		return may_admit(c) != 1;
	}
	return c.st == C_NEW || c.st == C_CLOSED;
}
void DaemonModel::parse_requests(Conn &c) {
	while (c.rx.size() >= 4) {
		u16 op, size;
		memcpy(&op, c.rx.data(), 2);
		memcpy(&size, c.rx.data() + 2, 2);
		bool bad = false;
		switch (op) {
		case R_OPEN_SEAT:
		case R_CLOSE_SEAT:
		case R_DISABLE_SEAT:
		case R_PING:
			bad = size != 0;
			break;
		case R_OPEN_DEVICE:
			bad = size < 3 || size > 258;
			break;
		case R_CLOSE_DEVICE:
		case R_SWITCH:
			bad = size != 4;
			break;
		default:
			bad = true;
		}
		c.badhead = bad;
		if (c.rx.size() < 4u + size) {
			return;
		}
		c.badhead = false;
		Req r;
		r.op = op;
		r.size = size;
		r.body = c.rx.substr(4, size);
		r.arg = 0;
		r.acked = r.faulted = false;
		r.activated = 0;
		r.swok = 0;
		r.fgm = 1u << K->fg;
		if (!bad && op == R_OPEN_DEVICE) {
			u16 pl;
			memcpy(&pl, r.body.data(), 2);
			std::string p = r.body.substr(2);
			size_t z = p.find('\0');
			if (pl != size - 2 || z == std::string::npos || z != p.size() - 1) {
				bad = true;
			} else {
				r.path = p.substr(0, z);
			}
		} else if (!bad && size == 4) {
			memcpy(&r.arg, r.body.data(), 4);
			if (vt && op == R_SWITCH && r.arg > 0) { // as the model numbers VTs
				int i = vt_index(r.arg);
				r.arg = i > 0 ? i : r.arg <= nvt ? 1000 + r.arg : r.arg;
			}
		}
		r.bad = bad;
		r.adm = 0;
		if (!bad && op == R_OPEN_SEAT && c.st == C_NEW) {
			bool first = true;
			for (auto &x : c.q) {
				first &= x.op != R_OPEN_SEAT;
			}
			if (first) {
				r.adm = ++adm;
			}
		}
		c.rx.erase(0, 4 + size);
		c.q.push_back(r);
	}
}
void DaemonModel::on_recv(Proc *p, int s, const char *b, size_t n, const std::vector<int> &ofs) {
	if (p != d || K->sock[s].tag < 0 || K->sock[s].tag >= (int)C.size()) {
		return;
	}
	Conn &c = C[K->sock[s].tag];
	c.readb += n;
	fgmask = 1u << K->fg;
	c.rx.append(b, n);
	parse_requests(c);
	if (c.badhead && c.rx.size() < 4) {
		c.badhead = false;
	}
	(void)ofs;
}
void DaemonModel::on_accept(Proc *p, int s) {
	if (p != d || K->sock[s].tag < 0 || K->sock[s].tag >= (int)C.size()) {
		return;
	}
	Conn &c = C[K->sock[s].tag];
	c.accepted = true;
	c.dsock = s;
}
Conn *DaemonModel::conn_of_sock(int s) {
	int t = K->sock[s].tag;
	return t < 0 || t >= (int)C.size() || K->sock[s].state == SS_LISTEN ? nullptr : &C[t];
}
void DaemonModel::on_sockclose(Proc *p, int s) {
	int t = K->sock[s].tag;
	if (p != d || t < 0 || t >= (int)C.size() || K->sock[s].state == SS_LISTEN) {
		return;
	}
	Conn &c = C[t];
	if (c.dropped) {
		return;
	}
	c.dropped = true;
	gone(c);
	for (auto &r : c.q) {
		admfuzzy |= r.op == R_OPEN_SEAT && !r.bad && c.st == C_NEW;
	}
	tracef("   (the daemon drops %s)", cname(c).c_str());
	if (!c.open || c.wr_shut || terminating || exited || c.concerned || c.hostile_fds || c.loose) {
		return;
	}
	if (c.badhead || (!c.q.empty() && offending(c, c.q.front()))) {
		return;
	}
	if (c.backlog) {
		return;
	}
	const char *what = c.q.empty() ? "with no request of it outstanding" : "instead of answering a request";
	if (!c.q.empty()) {
		Req &r = c.q.front();
		if (r.op == R_OPEN_SEAT) {
			rep(vt ? "C06 C12" : "C06", "%s is disconnected although its seat-open had to be granted", cname(c).c_str());
			rep("C08 C16 C09 C07", "%s is disconnected although its seat-open had to be granted", cname(c).c_str());
			return;
		}
		if (r.op == R_CLOSE_DEVICE) {
			rep("C05", "%s is disconnected %s (close-device %d)", cname(c).c_str(), what, r.arg);
		} else if (r.op == R_OPEN_DEVICE) {
			rep("C04 C05", "%s is disconnected %s (open-device %s)", cname(c).c_str(), what, r.path.c_str());
		} else if (r.op == R_SWITCH) {
			rep("C10", "%s is disconnected %s (switch %d)", cname(c).c_str(), what, r.arg);
		}
	}
	rep("C06 C07 C08 C15 C16 C14", "%s is disconnected %s%s%s", cname(c).c_str(), what, c.q.empty() ? "" : ": request ",
	    c.q.empty() ? "" : std::to_string(c.q.front().op).c_str());
}

// ---------------------------------------------------------------- daemon's messages
void DaemonModel::on_sendblock(Proc *p, int s) {
	if (p == d && K->sock[s].tag >= 0 && K->sock[s].tag < (int)C.size()) {
		C[K->sock[s].tag].backlog = true;
	}
}
void DaemonModel::on_send(Proc *p, int s, const char *b, size_t n, const std::vector<int> &ofs) {
	if (p != d || K->sock[s].tag < 0 || K->sock[s].tag >= (int)C.size()) {
		return;
	}
	Conn &c = C[K->sock[s].tag];
	for (int o : ofs) {
		HOf h{o, K->of[o].serial};
		c.fdq.push_back(h);
		c.handed.push_back(h);
	}
	c.tx.append(b, n);
	parse_messages(c);
}
static const char *mname(int m) {
	switch (m) {
	case M_SEAT_OPENED:
		return "seat-opened";
	case M_SEAT_CLOSED:
		return "seat-closed";
	case M_DEVICE_OPENED:
		return "device-opened";
	case M_DEVICE_CLOSED:
		return "device-closed";
	case M_DISABLE:
		return "DISABLE notice";
	case M_ENABLE:
		return "ENABLE notice";
	case M_PONG:
		return "pong";
	case M_SWITCHED:
		return "session-switched";
	case M_DISABLED:
		return "seat-disabled";
	case M_ERROR:
		return "error";
	}
	return "unknown message";
}
void DaemonModel::parse_messages(Conn &c) {
	while (c.tx.size() >= 4) {
		u16 op, size;
		memcpy(&op, c.tx.data(), 2);
		memcpy(&size, c.tx.data() + 2, 2);
		int want = -1;
		switch (op) {
		case M_SEAT_OPENED:
			want = -2;
			break;
		case M_DEVICE_OPENED:
		case M_ERROR:
			want = 4;
			break;
		case M_SEAT_CLOSED:
		case M_DEVICE_CLOSED:
		case M_DISABLE:
		case M_ENABLE:
		case M_PONG:
		case M_SWITCHED:
		case M_DISABLED:
			want = 0;
			break;
		}
		if (want == -1 || (want >= 0 && size != want)) {
			if (!c.loose) {
				rep("C06 C07 C15", "%s is sent a message with opcode %#x and size %u", cname(c).c_str(), op, size);
			}
			c.loose = true;
			c.tx.clear();
			return;
		}
		if (c.tx.size() < 4u + size) {
			return;
		}
		std::string body = c.tx.substr(4, size);
		c.tx.erase(0, 4 + size);
		if (TRACE) {
			std::string x;
			if (size == 4) {
				int v;
				memcpy(&v, body.data(), 4);
				x = " " + std::to_string(v);
			}
			tracef("   => %s: %s%s", cname(c).c_str(), mname(op), x.c_str());
		}
		c.log += (char)(op & 0xff);
		c.log += body;
		if (c.loose) {
			continue;
		}
		if (op == M_ENABLE) {
			on_enable(c);
		} else if (op == M_DISABLE) {
			on_disable(c);
		} else {
			HOf h{-1, 0};
			HOf *hp = nullptr;
			if (op == M_DEVICE_OPENED) {
				if (c.fdq.empty()) {
					rep("C06 C15 T02", "%s gets a device-opened reply without a descriptor", cname(c).c_str());
					c.loose = true;
					continue;
				}
				h = c.fdq.front();
				c.fdq.pop_front();
				hp = &h;
			}
			on_reply(c, op, body, hp);
		}
	}
}
void DaemonModel::on_enable(Conn &c) {
	bool bp = c.backlog;
	if (c.last_notice == M_ENABLE) {
		rep("C01", "%s is told enabled twice in a row", cname(c).c_str());
	}
	if (c.st == C_NEW || c.st == C_CLOSED) {
		rep("C01 C06", "%s is told enabled although it has no seat", cname(c).c_str());
	}
	// a member that answers its disable may be enabled again before the reply
	if (c.st == C_PENDING) {
		if (!c.q.empty() && c.q.front().op == R_DISABLE_SEAT && !c.q.front().bad) {
			c.q.front().acked = true;
		} else {
			rep("C01", "%s is enabled again although it has not acknowledged its disable", cname(c).c_str());
		}
	}
	for (auto &o : C) {
		if (&o == &c || o.dropped || !o.open) {
			continue;
		}
		if (o.st != C_ENABLED && o.st != C_PENDING) {
			continue;
		}
		if (o.wr_shut) {
			continue;
		}
		if (!o.q.empty() && !o.q.front().bad &&
		    (o.q.front().op == R_CLOSE_SEAT || (o.q.front().op == R_DISABLE_SEAT && o.st == C_PENDING))) {
			continue;
		}
		if (!c.backlog && !o.backlog) {
			deferred.push_back({c.idx, o.idx});
		}
	}
	for (auto &o : C) {
		if (&o == &c || c.backlog || o.backlog) {
			continue;
		}
		for (auto &h : o.handed) {
			must_be_dead(h, "C02", "another client is told enabled", o);
		}
	}
	c.last_notice = M_ENABLE;
	c.st = C_ENABLED;
	if (!bp) {
		for (auto &x : c.dev) {
			std::string why;
			if (x.drm && !of_live(x.of, &why) && !exempt.count({x.of.of, x.of.serial})) {
				rep("C03", "%s is told enabled while its open device %s %s", cname(c).c_str(), K->node[x.node].name,
				    why.c_str());
			}
		}
	}
	if (vt && !bp && c.session == -2 && on_vt(c, K->fg)) {
		c.session = K->fg;
	}
	if (vt && !vtfault) {
		if (!on_vt(c, K->fg) && !bp) {
			rep("C12", "%s of VT %d is enabled while VT %d is in the foreground", cname(c).c_str(), c.session, K->fg);
		}
		Vt &v = K->vt[c.session > 0 && c.session <= MAXVT ? c.session : 0];
		int ex = vtexc[c.session > 0 && c.session <= MAXVT ? c.session : 0];
		if (!bp && ((v.kd != KD_GRAPHICS && !(ex & 2)) || (v.kb != K_OFF && !(ex & 1)) || !v.process)) {
			rep("C13", "%s is told enabled on VT %d which is%s%s%s", cname(c).c_str(), c.session,
			    v.kd != KD_GRAPHICS ? " in text mode" : "", v.kb != K_OFF ? " with keyboard input on" : "",
			    v.process ? "" : " not under process-controlled switching");
		}
	}
	if (!vt && sw_to >= 0) {
		// a target that could not be told may be on its way out
		if (sw_to != c.idx && seat_member(C[sw_to]) && !C[sw_to].concerned && !admfuzzy && !c.backlog && !C[sw_to].backlog) {
			rep("C10", "%s is enabled although a switch to %s is pending", cname(c).c_str(), cname(C[sw_to]).c_str());
		}
		sw_from = sw_to = -1;
	}
}
void DaemonModel::on_disable(Conn &c) {
	if (c.last_notice != M_ENABLE) {
		rep("C01", "%s is told disabled %s", cname(c).c_str(), c.last_notice ? "twice in a row" : "before it was ever enabled");
	} else if (c.st != C_ENABLED) {
		rep("C01", "%s is told disabled while it is not enabled", cname(c).c_str());
	}
	if (!c.backlog) {
		for (auto &h : c.handed) {
			must_be_dead(h, "C02", "the client is told disabled", c);
		}
	}
	if (!vt && !c.backlog) {
		bool due = sw_from == c.idx;
		if (!c.q.empty() && !c.q.front().bad && c.q.front().op == R_SWITCH) {
			Req &r = c.q.front();
			if (r.arg >= 1 && r.arg != c.session && sw_from < 0) {
				for (auto &o : C) {
					if (seat_member(o) && o.session == r.arg) {
						due = true;
						sw_from = c.idx;
						sw_to = o.idx;
					} else if (!o.open && !o.dropped && o.session == r.arg) {
						due = true; // has left, which the daemon has not noticed yet
					}
				}
			}
		}
		if (!due && !c.backlog && !admfuzzy) {
			rep("C10", "%s is told disabled although no other session was asked for", cname(c).c_str());
		}
	}
	c.last_notice = M_DISABLE;
	c.st = C_PENDING;
}
void DaemonModel::on_reply(Conn &c, int m, const std::string &body, HOf *fd) {
	if (c.q.empty()) {
		rep("C06 C07 C15", "%s gets a %s without a request", cname(c).c_str(), mname(m));
		c.loose = true;
		return;
	}
	Req r = c.q.front();
	c.q.pop_front();
	int code = 0;
	if (body.size() == 4) {
		memcpy(&code, body.data(), 4);
	}
	if (r.bad) {
		if (m != M_ERROR) {
			rep("C08 C06", "%s gets a %s for a malformed request (opcode %d, size %d)", cname(c).c_str(), mname(m), r.op, r.size);
		}
		c.loose = true;
		return;
	}
	static const int kind[] = {0, M_SEAT_OPENED, M_SEAT_CLOSED, M_DEVICE_OPENED, M_DEVICE_CLOSED, M_DISABLED, M_SWITCHED, M_PONG};
	if (m != M_ERROR && m != kind[r.op]) {
		rep("C06 C07 C15", "%s gets a %s as the reply to request %d", cname(c).c_str(), mname(m), r.op);
		c.loose = true;
		return;
	}
	if (m == M_ERROR && code <= 0) {
		rep("C06 C10 C04", "%s gets an error reply with code %d to request %d", cname(c).c_str(), code, r.op);
	}
	bool flt = r.faulted || c.concerned;
	if (r.op != R_PING && r.op != R_OPEN_SEAT && (c.st == C_NEW || c.st == C_CLOSED)) {
		if (m != M_ERROR) {
			rep("C08 C06", "%s without a seat gets a %s", cname(c).c_str(), mname(m));
		}
		return;
	}
	switch (r.op) {
	case R_PING:
		if (m == M_ERROR && !flt) {
			rep("C06", "%s: a ping is answered with error %d", cname(c).c_str(), code);
		}
		break;
	case R_OPEN_SEAT: {
		int may = may_admit(c);
		if (m == M_ERROR) {
			admfuzzy |= may != 0;
			if (may == 1 && !flt && !(vt && vtfault)) {
				rep("C06 C12 C09", "%s: seat-open refused with error %d", cname(c).c_str(), code);
			}
			break;
		}
		u16 l = 0;
		if (body.size() >= 2) {
			memcpy(&l, body.data(), 2);
		}
		if (body.size() != 2u + l || l < 2 || body[body.size() - 1] != 0 || strlen(body.data() + 2) != l - 1u) {
			rep("C06", "%s: seat-opened reply with a malformed seat name", cname(c).c_str());
		}
		if (!may) {
			rep(c.st != C_NEW ? "C06 C08" : "C12", "%s: seat-open granted although %s", cname(c).c_str(),
			    c.st != C_NEW ? "this connection already had a seat"
					  : "the foreground VT has a session or the seat an enabled client");
		}
		c.st = C_OPEN;
		if (vt) {
			c.smask = c.backlog ? r.fgm : fgmask;
			c.session = __builtin_popcount(c.smask) == 1 ? __builtin_ctz(c.smask) : -2;
		} else {
			c.session = r.adm;
			admfuzzy |= r.adm == 0;
		}
		break;
	}
	case R_CLOSE_SEAT:
		if (m == M_ERROR) {
			if (!flt) {
				rep("C06", "%s: seat-close refused with error %d", cname(c).c_str(), code);
			}
			break;
		}
		if (!c.backlog) {
			for (auto &h : c.handed) {
				must_be_dead(h, "C02", "seat-close is confirmed", c);
			}
		}
		c.dev.clear();
		gone(c);
		c.st = C_CLOSED;
		break;
	case R_OPEN_DEVICE: {
		int node = -1, err = 0;
		int want = expect_open(r.path, &node, &err);
		if (swapnow && m == M_DEVICE_OPENED && fd && K->of[fd->of].type == OF_NODE && K->node[K->of[fd->of].obj].type == N_CHR) {
			node = K->of[fd->of].obj; // opened before its path came to mean something else
			want = 0;
		}
		if (c.st != C_ENABLED) {
			if (m != M_ERROR) {
				rep("C04 C08", "%s gets a descriptor of %s while it is not enabled", cname(c).c_str(), r.path.c_str());
				must_be_dead(*fd, "C02", "sent to a client that is not enabled", c);
				break;
			}
			if (code != EPERM && !flt) {
				rep("C04", "%s, not enabled, is refused %s with error %d instead of EPERM", cname(c).c_str(),
				    r.path.c_str(), code);
			}
			break;
		}
		Held *have = nullptr;
		for (auto &x : c.dev) {
			std::string w;
			if (x.node == node && (of_live(x.of, &w) || (x.id == code && (c.backlog || exempt.count({x.of.of, x.of.serial}))))) {
				have = &x;
			}
		}
		if (want == 0 && !have && c.dev.size() >= 128) {
			want = EMFILE;
			if (m != M_ERROR) {
				rep("C05", "%s is granted device number %zu", cname(c).c_str(), c.dev.size() + 1);
			}
		}
		if (m == M_ERROR) {
			if (swapnow) {
				break;
			}
			if (flt) {
				if (openerr && code != openerr && !c.backlog) {
					rep("C04", "%s: opening %s failed with error %d but error %d is reported", cname(c).c_str(),
					    r.path.c_str(), openerr, code);
				}
				break;
			}
			if (want == 0) {
				rep(have ? "C05" : c.dev.empty() ? "C04 C03 C06" : "C04 C05 C03", "%s, enabled, is refused %s with error %d%s",
				    cname(c).c_str(), r.path.c_str(), code, have ? " although it holds it open" : "");
			} else if (want > 0 && code != want) {
				rep(want == EMFILE ? "C05" : "C04", "%s: opening %s fails with error %d instead of %d", cname(c).c_str(),
				    r.path.c_str(), code, want);
			}
			break;
		}
		if (!fd) {
			break;
		}
		if (want != 0 && want != EMFILE) {
			rep("C04 C08", "%s is granted %s", cname(c).c_str(), r.path.c_str());
		}
		OFile &o = K->of[fd->of];
		if (o.type != OF_NODE || o.obj != node) {
			rep("C04 C05", "%s asked for %s and gets a descriptor of %s", cname(c).c_str(), r.path.c_str(),
			    o.type == OF_NODE ? K->node[o.obj].name : "something else");
			break;
		}
		if ((o.flags & O_ACCMODE) != O_RDWR) {
			rep("C03 C04", "%s gets a descriptor of %s that is not open for reading and writing", cname(c).c_str(), r.path.c_str());
		}
		if (!(o.flags & O_NONBLOCK)) {
			rep("C04", "%s gets a descriptor of %s that blocks", cname(c).c_str(), r.path.c_str());
		}
		if (code <= 0) {
			rep("C05", "%s gets device id %d", cname(c).c_str(), code);
		}
		Held *byid = nullptr;
		for (auto &x : c.dev) {
			if (x.id == code) {
				byid = &x;
			}
		}
		std::string why;
		if (have) {
			if (have->id != code) {
				rep("C05", "%s opens %s again and gets id %d instead of %d", cname(c).c_str(), r.path.c_str(), code, have->id);
			}
			if (have->of.of != fd->of) {
				// a second open file for the same device: allowed only if it works
				have->of = *fd;
			}
			have->refs++;
		} else {
			if (byid) {
				rep("C05", "%s gets id %d for %s, which is in use for %s", cname(c).c_str(), code, r.path.c_str(),
				    K->node[byid->node].name);
			}
			c.dev.push_back({code, 1, node, K->node[node].dev == D_DRM, *fd});
		}
		if (!c.backlog && !of_live(*fd, &why) && !exempt.count({fd->of, fd->serial}) && !flt) {
			rep("C03", "%s, enabled, gets a descriptor of %s that %s", cname(c).c_str(), r.path.c_str(), why.c_str());
		}
		break;
	}
	case R_CLOSE_DEVICE: {
		size_t i;
		for (i = 0; i < c.dev.size(); i++) {
			if (c.dev[i].id == r.arg) {
				break;
			}
		}
		if (i == c.dev.size()) {
			if (m != M_ERROR) {
				rep("C05 C08", "%s: closing id %d, which it does not hold, succeeds", cname(c).c_str(), r.arg);
			} else if (code != EBADF && !flt) {
				rep("C05", "%s: closing id %d, which it does not hold, fails with error %d instead of EBADF", cname(c).c_str(),
				    r.arg, code);
			}
			break;
		}
		if (m == M_ERROR) {
			if (!flt) {
				rep("C05", "%s: closing its device %d fails with error %d", cname(c).c_str(), r.arg, code);
			}
			break;
		}
		if (--c.dev[i].refs == 0) {
			HOf h = c.dev[i].of;
			if (!c.backlog) {
				for (auto &x : c.handed) {
					if (x.of == h.of && x.serial == h.serial) {
						must_be_dead(x, "C02", "the last reference was closed", c);
					}
				}
			}
			c.dev.erase(c.dev.begin() + i);
		}
		break;
	}
	case R_DISABLE_SEAT:
		if (r.acked) {
			if (m == M_ERROR && !flt) {
				rep("C06", "%s: disable acknowledgement refused with error %d", cname(c).c_str(), code);
			}
			break;
		}
		if (c.st == C_PENDING) {
			if (m == M_ERROR) {
				if (!flt) {
					rep("C06 C09", "%s: disable acknowledgement refused with error %d", cname(c).c_str(), code);
				}
			} else {
				c.st = C_DISABLED;
			}
		} else if (m != M_ERROR) {
			rep("C06 C01", "%s: a disable acknowledgement is accepted without a disable", cname(c).c_str());
			c.st = C_DISABLED;
		}
		break;
	case R_SWITCH: {
		bool pend = c.st == C_PENDING && !vt && sw_from == c.idx;
		if (c.st != C_ENABLED && !pend) {
			if (m != M_ERROR && c.st != C_PENDING) {
				rep("C10", "%s, not enabled, may switch sessions", cname(c).c_str());
			}
			break;
		}
		if (pend || c.st == C_PENDING) {
			// either this very request caused the disable, or one was pending
			if (r.arg < 1 && m != M_ERROR) {
				rep("C10", "%s: switch to session %d is granted", cname(c).c_str(), r.arg);
			}
			break;
		}
		if (r.arg < 1) {
			if (m != M_ERROR) {
				rep("C10", "%s: switch to session %d is granted", cname(c).c_str(), r.arg);
			}
			break;
		}
		if (c.backlog || (c.session == -2 && on_vt(c, r.arg))) {
			break;
		}
		if (r.arg == c.session) {
			if (r.activated && r.activated != c.session) {
				rep("C10", "%s: switch to its own session makes the kernel switch to VT %d", cname(c).c_str(), r.activated);
			}
			break;
		}
		if (vt) {
			if (m != M_ERROR && r.activated != r.arg) {
				if (flt) {
					if (c.concerned) {
						rep("C16", "%s: switch to session %d is granted although the kernel refused it", cname(c).c_str(), r.arg);
					}
					break;
				}
				rep("C10", "%s: switch to session %d is granted but the kernel was %s", cname(c).c_str(), r.arg,
				    r.activated ? "asked for another VT" : "not asked to switch");
			}
			if (m == M_ERROR && !flt && r.arg <= nvt) {
				rep("C10", "%s: switch to VT %d is refused with error %d", cname(c).c_str(), r.arg, code);
			}
			break;
		}
		if (admfuzzy || c.backlog) {
			break;
		}
		Conn *t = nullptr;
		for (auto &o : C) {
			if (seat_member(o) && o.session == r.arg) {
				t = &o;
			}
		}
		if (!t) {
			// the target may have left only for the client's side of things
			bool was = false;
			for (auto &o : C) {
				was |= o.session == r.arg && !o.dropped && o.st != C_CLOSED;
			}
			if (m != M_ERROR && !was) {
				rep("C10", "%s: switch to session %d, which does not exist, is granted", cname(c).c_str(), r.arg);
			}
			break;
		}
		if (t->backlog) {
			break;
		}
		if (m == M_ERROR) {
			if (!flt) {
				rep("C10", "%s: switch to the existing session %d is refused with error %d", cname(c).c_str(), r.arg, code);
			}
			break;
		}
		// granted without the disable having been told yet: due by the time it is idle
		if (sw_from < 0) {
			sw_from = c.idx;
			sw_to = t->idx;
		}
		break;
	}
	}
}

// ---------------------------------------------------------------- kernel calls
void DaemonModel::on_open(Proc *p, const char *path, int node, int of, int flags) {
	(void)flags;
	if (p != d || of < 0 || node < 0) {
		return;
	}
	Node &n = K->node[node];
	if (n.dev == D_TTY || n.type == N_DIR) {
		return;
	}
	// Somebody must be entitled to it right now.
	for (auto &c : C) {
		int want, e;
		if (c.backlog && !c.dropped) {
			// what it has been told is still under way
			for (auto &r : c.q) {
				if (!r.bad && r.op == R_OPEN_DEVICE && expect_open(r.path, &want, &e) <= 0 && want == node) {
					return;
				}
			}
		}
		if (c.dropped || c.q.empty() || c.q.front().bad || c.q.front().op != R_OPEN_DEVICE) {
			continue;
		}
		if (c.st == C_ENABLED && expect_open(c.q.front().path, &want, &e) == 0 && want == node) {
			return;
		}
		if (c.st == C_ENABLED && want == node && (n.type == N_REG || n.type == N_DIR) &&
		    std::string(path).compare(0, 5, "/dev/") == 0 && expect_open(c.q.front().path, &want, &e) == -1) {
			return;
		}
	}
	rep("C04", "the daemon opens %s although no enabled client is asking for it", path);
}
void DaemonModel::on_ioctl(Proc *p, int of, unsigned long req, long arg, int res) {
	if (p != d) {
		return;
	}
	if (res > 0 && fault_now && SC.ndev > 0) {
		// made to fail: the daemon cannot do more about this device
		exempt.insert({of, K->of[of].serial});
	}
	saw_fg();
	if (!vt && K->of[of].type == OF_NODE && K->node[K->of[of].obj].dev == D_TTY && req != VT_GETSTATE && req != VT_GETMODE) {
		rep("C13", "the daemon, whose seat has no VTs, changes VT %d (request %#lx)", K->of[of].vt, req);
	}
	switch (req) {
	case KDSKBMODE:
	case KDSETMODE:
		if (res == 0) {
			vtexc[K->of[of].vt] &= req == KDSKBMODE ? ~1 : ~2;
		}
		break;
	case VT_ACTIVATE:
		if (res > 0) {
			break; // refused
		}
		for (auto &c : C) {
			if (!c.dropped && !c.q.empty() && c.q.front().op == R_SWITCH && !c.q.front().bad) {
				c.q.front().activated = (int)arg;
			}
			for (auto &r : c.q) {
				if (c.backlog && !c.dropped && !r.bad && r.op == R_SWITCH && r.arg == (int)arg) {
					r.activated = (int)arg;
				}
			}
		}
		break;
	case VT_RELDISP:
		if (arg == -1) {
			for (auto &c : C) {
				for (auto &h : c.handed) {
					must_be_dead(h, "C02", "a VT release is acknowledged", c);
				}
				if (seat_member(c) && c.st == C_ENABLED && !c.backlog && !c.concerned &&
				    c.session == K->of[of].vt) {
					bool leaving = !c.q.empty() && (c.q.front().op == R_CLOSE_SEAT);
					if (!leaving) {
						rep("C11", "a VT release is acknowledged while %s has not been told to disable",
						    cname(c).c_str());
					}
				}
			}
		} else if (arg == 2) {
			acqpend = 0;
		}
		break;
	}
}
void DaemonModel::on_vtsig(int v, bool acq) {
	if (acq && K->vt[v].owner == d->id) {
		acqpend = 1;
	}
}
void DaemonModel::on_badfd(Proc *p, const char *what, int fd) {
	if (p == d) {
		rep("C14 C16 C17", "the daemon calls %s on descriptor %d which is not open", what, fd);
	}
}
bool DaemonModel::vt_not_text(int v) {
	return (K->vt[v].kd != KD_TEXT && !(vtexc[v] & 2)) || (K->vt[v].kb != K_UNICODE && K->vt[v].kb != K_XLATE && !(vtexc[v] & 1));
}
void DaemonModel::on_fault(Proc *p, const char *name, int err) {
	(void)err;
	if (p != d) {
		return;
	}
	if (!strncmp(name, "poll", 4) || !strcmp(name, "ppoll")) {
		// it cannot wait for anything any more: it may give up, in good order
		terminating = gaveup = true;
		return;
	}
	faulty = fault_now = true;
	nounlink |= !strcmp(name, "unlink");
	openerr = 0;
	if (!strcmp(name, "realpath") || (!strcmp(name, "open") && strncmp(point_path, "/dev/tty", 8))) {
		int n = 0;
		for (auto &c : C) {
			n += !c.dropped && !c.q.empty() && (c.backlog || c.q.front().op == R_OPEN_DEVICE);
		}
		openerr = n == 1 ? err : 0;
	}
	if (vt && !strcmp(name, "ioctl")) {
		int of = fd_of(p, point_fd);
		if (of >= 0 && K->of[of].type == OF_NODE && K->node[K->of[of].obj].dev == D_TTY) {
			int v = K->of[of].vt;
			switch (point_req) {
			case KDSKBMODE:
				vtexc[v] |= 1;
				break;
			case KDSETMODE:
				vtexc[v] |= 2;
				break;
			case VT_ACTIVATE:
				break;
			default: // the daemon no longer knows or controls what the VTs do
				vtfault = true;
			}
		}
	} else if (vt && !strcmp(name, "open") && !strncmp(point_path, "/dev/tty", 8)) {
		vtfault = true;
		int v = atoi(point_path + 8);
		vtexc[v > 0 && v <= MAXVT ? v : K->fg] |= 3;
	}
	if (!strncmp(name, "send", 4) || !strncmp(name, "recv", 4) || !strcmp(name, "fcntl") || !strcmp(name, "getsockopt") ||
	    !strcmp(name, "dup")) {
		int of = fd_of(p, point_fd);
		if (of >= 0 && K->of[of].type == OF_SOCK && K->sock[K->of[of].obj].tag >= 0 &&
		    K->sock[K->of[of].obj].tag < (int)C.size()) {
			C[K->sock[K->of[of].obj].tag].concerned = true;
			return;
		}
	}
	// the client being served: the one whose request is being processed,
	// or the one that has just been accepted
	bool any = false;
	for (auto &c : C) {
		if (!c.dropped && !c.q.empty()) {
			c.q.front().faulted = true;
			c.concerned = true;
			any = true;
		}
	}
	for (auto &c : C) {
		if (c.accepted && !c.dropped && c.readb == 0 && (!any || c.dsock == (int)K->nsock - 1)) {
			c.concerned = true;
		}
	}
}
void DaemonModel::on_exit(Proc *p) {
	if (p != d || exited) {
		return;
	}
	exited = true;
	exit_checks();
}
void DaemonModel::exit_checks() {
	if (d->crashed) {
		rep("*", "the daemon crashes: %s", d->crash);
		return;
	}
	if (!terminating) {
		if (faulty) {
			rep("C16", "the daemon exits with status %d after a failed call", d->exit_status);
		} else {
			rep("*", "the daemon exits (status %#x) although nothing asked it to", d->exit_status);
		}
		return;
	}
	if (gaveup) {
		if (!d->exit_status || (d->exit_status & 127)) {
			rep("C17", "the daemon that cannot wait for events ends with status %#x", d->exit_status);
		}
	} else if (d->exit_status != 0) {
		rep("C17", "the daemon ends with status %#x on signal %d", d->exit_status, termsig);
	}
	for (auto &c : C) {
		for (auto &h : c.handed) {
			must_be_dead(h, "C17", "the daemon has exited", c);
		}
	}
	if (vt) {
		for (int i = 1; i <= nvt; i++) {
			if (vt_not_text(i)) {
				rep("C17 C13", "the daemon has exited and VT %d is%s%s", i, K->vt[i].kd != KD_TEXT ? " in graphics mode" : "",
				    K->vt[i].kb == K_OFF ? " without keyboard" : "");
			}
		}
	}
	int e;
	if (node_lookup("/run/seatd.sock", false, &e) >= 0 && !nounlink) {
		rep("C17", "the daemon has exited and its socket is still there");
	}
}

// ---------------------------------------------------------------- a run of the daemon
void DaemonModel::run() {
	if (exited || !d || d->st == PS_EXITED) {
		return;
	}
	bool manual = P.num("manual", 0);
	for (int i = 0; i < 200; i++) {
		proc_run(d, 60000);
		if (d->st == PS_EXITED) {
			break;
		}
		if (SPUN) {
			rep("C06 C08 C15 C16 C14 C09 C17 C07", "the daemon spins: it keeps making calls without getting anywhere");
			exited = true;
			proc_kill(d, 9);
			return;
		}
		bool any = false;
		if (!manual) {
			for (auto &c : C) {
				any |= drain(c);
			}
		}
		if (!any || !proc_runnable(d)) {
			break;
		}
	}
	held_run = 0;
	if (d->st != PS_EXITED) {
		idle_checks();
	}
	fault_now = swapnow = false;
	for (auto &c : C) {
		c.concerned = false;
		for (auto &r : c.q) {
			r.faulted = false;
		}
	}
}
void DaemonModel::idle_checks() {
	if (terminating && !gaveup) {
		rep("C17", "the daemon goes on after signal %d", termsig);
		return;
	}
	if (gaveup) {
		terminating = gaveup = false; // it has managed
	}
	bool bp = false;
	for (auto &c : C) {
		if (c.dropped || !c.open) {
			c.backlog = false;
		} else if (h_pending(c.sock) == 0 && !proc_runnable(d)) {
			// everything was read: nothing may be held back
			c.backlog = false;
		}
		bp |= c.backlog;
	}
	for (auto &x : deferred) {
		Conn &o = C[x.second];
		if (!o.dropped && o.open && !(o.backlog || C[x.first].backlog)) {
			rep("C01 C16", "%s is told enabled while %s is", cname(C[x.first]).c_str(), cname(o).c_str());
			rep("C08", "%s is told enabled while %s is", cname(C[x.first]).c_str(), cname(o).c_str());
		}
	}
	deferred.clear();
	int held = 0, conns = 0;
	for (auto &c : C) {
		if (c.open && !c.dropped && !c.accepted) {
			rep("C06 C08 C15 C16", "%s is never accepted", cname(c).c_str());
			continue;
		}
		if (!c.open && !c.dropped && c.accepted) {
			rep("C14 C06 C08", "%s has disconnected but the daemon keeps its connection", cname(c).c_str());
		}
		if (!c.open || c.dropped) {
			for (auto &h : c.handed) {
				must_be_dead(h, "C02 C14", "the client has gone", c);
			}
			if (vt && c.session != -1 && !vtfault && c.st >= C_OPEN) {
				c.st = C_CLOSED;
			}
			continue;
		}
		conns++;
		held += (int)c.dev.size();
		if (c.backlog) {
			continue;
		}
		if (c.loose) {
			continue;
		}
		if (!c.q.empty() && !c.wr_shut) {
			Req &r = c.q.front();
			if (r.bad) {
				rep("C08 C06", "%s sent a malformed request (opcode %d, size %d) and is neither disconnected nor told",
				    cname(c).c_str(), r.op, r.size);
			} else {
				rep("C06 C07 C08 C15 C16", "%s: request %d is never answered", cname(c).c_str(), r.op);
				if (r.op == R_SWITCH) {
					rep("C10", "%s: switch request is never answered", cname(c).c_str());
				}
			}
		}
		if (c.readb < c.sent && !c.wr_shut) {
			rep("C06 C07 C08 C15 C16", "%s: %llu bytes it sent are not read", cname(c).c_str(),
			    (unsigned long long)(c.sent - c.readb));
		}
		if (!c.tx.empty()) {
			rep("C06 C15 C07", "%s is left with an incomplete message", cname(c).c_str());
		}
		if (!c.fdq.empty()) {
			rep("C06", "%s is sent a descriptor that belongs to no device-opened reply", cname(c).c_str());
		}
		if (c.st == C_ENABLED) {
			for (auto &x : c.dev) {
				std::string why;
				bool opened_now = x.drm || !of_dead(x.of);
				(void)opened_now;
				if (x.drm && !of_live(x.of, &why) && !exempt.count({x.of.of, x.of.serial})) {
					rep("C03", "%s is enabled and its open device %s %s", cname(c).c_str(), K->node[x.node].name,
					    why.c_str());
				}
			}
		} else {
			for (auto &h : c.handed) {
				must_be_dead(h, "C02", "the client is not enabled", c);
			}
		}
	}
	// evdev revoked behind an enabled client's back
	for (auto &c : C) {
		if (!c.open || c.dropped || c.backlog || c.st != C_ENABLED) {
			continue;
		}
		for (auto &x : c.dev) {
			if (!x.drm && K->of[x.of.of].serial == x.of.serial && K->of[x.of.of].tag == 1 && of_dead(x.of) &&
			    !exempt.count({x.of.of, x.of.serial})) {
				rep("C03 C05", "%s is enabled and its device %s, opened since, is revoked", cname(c).c_str(),
				    K->node[x.node].name);
			}
		}
	}
	// tag: seen alive while idle; cleared when its holder is not enabled
	for (auto &c : C) {
		for (auto &x : c.dev) {
			if (K->of[x.of.of].serial == x.of.serial) {
				K->of[x.of.of].tag = c.st == C_ENABLED && !c.dropped && c.open && !of_dead(x.of) ? 1 : 0;
			}
		}
	}
	// who could be enabled
	if (!bp) {
		Conn *act = nullptr, *wait = nullptr;
		for (auto &c : C) {
			if (!seat_member(c) || c.loose) {
				continue;
			}
			if (c.st == C_ENABLED || c.st == C_PENDING) {
				act = &c;
			} else if (!vt || (c.session == K->fg && !vt_release_pending())) {
				wait = &c;
			}
		}
		if (!act && wait && !vtfault) {
			rep("C09 C16", "the seat is idle while %s is waiting", cname(*wait).c_str());
			if (faulty) {
				rep("C08", "the seat is idle while %s is waiting", cname(*wait).c_str());
			}
		}
		if (vt && !vtfault) {
			for (auto &c : C) {
				if (seat_member(c) && c.st == C_ENABLED && !on_vt(c, K->fg)) {
					rep("C12", "%s of VT %d is enabled while VT %d is in the foreground", cname(c).c_str(), c.session, K->fg);
				}
			}
			if (K->vt[K->fg].newvt > 0 && K->vt[K->fg].process && K->vt[K->fg].owner == d->id) {
				rep("C11 C10", "the kernel's request to release VT %d is never answered", K->fg);
			}
			if (acqpend) {
				rep("C11", "the kernel's VT acquire signal is never answered");
			}
		}
		if (vt) {
			for (int v = 1; v <= nvt; v++) {
				bool own = false;
				for (auto &c : C) {
					own |= seat_member(c) && on_vt(c, v);
				}
				if (!own && vt_not_text(v)) {
					rep("C13", "VT %d belongs to no session and is%s%s", v, K->vt[v].kd != KD_TEXT ? " in graphics mode" : "",
					    K->vt[v].kb == K_OFF ? " without keyboard" : "");
				}
			}
		}
		if (!vt && sw_from >= 0) {
			Conn &f = C[sw_from];
			if (seat_member(f) && f.st == C_ENABLED && !f.backlog && !admfuzzy) {
				rep("C10", "%s may switch to %s but is not told to disable", cname(f).c_str(), cname(C[sw_to]).c_str());
			}
			if (!seat_member(f) || f.st == C_DISABLED) {
				if (sw_to >= 0 && seat_member(C[sw_to]) && C[sw_to].st != C_ENABLED && !admfuzzy) {
					rep("C10", "a switch to %s was granted but it is not enabled", cname(C[sw_to]).c_str());
				}
				sw_from = sw_to = -1;
			}
		}
		int nf = proc_nfds(d);
		bool host = false; // what a client sent unasked may be kept while it is there
		for (auto &c : C) {
			host |= c.open && !c.dropped && c.hostile_fds;
		}
		if (host ? nf < base_fds + conns + held + extra_fds : nf != base_fds + conns + held + extra_fds) {
			rep("C14 C16 C08", "the daemon holds %d descriptors with %d clients and %d open devices (%d before any)", nf, conns, held,
			    base_fds);
		}
		if (conns == 0 && d->live_blocks != base_blocks) {
			rep("C14 C16", "with no client left the daemon holds %d allocations instead of %d", d->live_blocks, base_blocks);
		}
	}
}

void DaemonModel::leave_all() {
	for (auto &c : C) {
		if (c.open) {
			disconnect(c);
		}
	}
	run();
}
// after everything: a newcomer must be served in full
void DaemonModel::probe() {
	if (exited || terminating) {
		return;
	}
	long man = P.num("manual", 0);
	P.m["manual"] = "0";
	if (vt && vtfault) {
		return;
	}
	Conn *c = connect(nc);
	if (c) {
		send_req(*c, R_OPEN_SEAT, "");
		run();
		if (!exited && (c->st != C_ENABLED || c->dropped)) {
			rep("C09 C08 C16 C14", "after everybody left, a new client is not given the seat");
		} else if (!exited) {
			std::string p = swapped == 1 ? "/dev/dri/card1" : "/dev/dri/card0";
			u16 l = (u16)(p.size() + 1);
			send_req(*c, R_OPEN_DEVICE, std::string((char *)&l, 2) + p + std::string(1, 0));
			run();
			if (!exited && c->dev.size() != 1) {
				rep("C09 C08 C16 C14 C03", "after everybody left, a new client cannot open a device");
			}
		}
		if (!exited) {
			disconnect(*c);
			run();
		}
	}
	P.m["manual"] = std::to_string(man);
}

u64 DaemonModel::model_key() {
	std::string s;
	auto add = [&](long v) { s.append((char *)&v, 4); };
	add(exited);
	add(terminating);
	add(vtfault);
	for (int i = 0; i <= MAXVT; i++) {
		add(vtexc[i]);
	}
	add(admfuzzy);
	add(held_run);
	// order of admission among the members
	std::vector<std::pair<int, int>> ord;
	for (auto &c : C) {
		if (seat_member(c)) {
			ord.push_back({c.session == -2 ? -2 - (int)c.smask : c.session, c.slot});
		}
	}
	std::sort(ord.begin(), ord.end());
	for (auto &o : ord) {
		add(vt ? o.first : 0);
		add(o.second);
	}
	for (size_t i = 0; i < slot.size(); i++) {
		add(-7);
		if (slot[i] < 0) {
			continue;
		}
		Conn &c = C[slot[i]];
		add(c.open);
		add(c.wr_shut);
		add(c.dropped);
		add(c.accepted);
		add(c.loose);
		add(c.st);
		add(c.backlog);
		add((long)c.q.size());
		for (auto &r : c.q) {
			add(r.op);
			s += r.body;
		}
		add((long)c.rx.size());
		s += c.rx;
		add((long)c.tx.size());
		add((long)(c.sent - c.readb));
		add((long)h_pending(c.sock));
		for (auto &x : c.dev) {
			add(x.id);
			add(x.node);
			add(x.refs);
			add(of_dead(x.of));
		}
	}
	add(sw_from >= 0 ? C[sw_from].slot : -1);
	add(sw_to >= 0 ? C[sw_to].slot : -1);
	add(swapped);
	if (vt) {
		add(K->fg);
		for (int i = 1; i <= nvt; i++) {
			add(K->vt[i].kd);
			add(K->vt[i].kb);
			add(K->vt[i].process);
			add(K->vt[i].newvt);
		}
	}
	u64 h = hash_bytes(s.data(), s.size(), 17);
	if (!exited && d->st != PS_EXITED) {
		u64 sp = d->sigpend;
		h = hash_bytes(&sp, 8, h);
		int nf = proc_nfds(d);
		h = hash_bytes(&nf, 4, h);
		if (P.num("shape", 1)) {
			h = proc_heap_shape(d, h);
		}
	}
	long k = P.num("hist", 0);
	if (k) {
		size_t n = opslog.size() / 2, w = n > (size_t)k ? k : n;
		h = hash_bytes(opslog.data() + (n - w) * 2, w * 2, h);
	}
	return h;
}
std::string DaemonModel::describe() {
	std::string s;
	static const char *n[] = {"new", "open", "ENABLED", "pending-disable", "disabled", "closed"};
	for (auto &c : C) {
		if (!c.open) {
			continue;
		}
		s += cname(c) + ":" + (c.dropped ? "dropped" : n[c.st]) + (c.session >= 0 ? "(session " + std::to_string(c.session) + ")" : "");
		for (auto &x : c.dev) {
			s += std::string(" ") + K->node[x.node].name + "#" + std::to_string(x.id) + "x" + std::to_string(x.refs) +
			     (of_dead(x.of) ? "-" : "+");
		}
		s += "; ";
	}
	if (vt) {
		s += "fg VT " + std::to_string(K->fg) + " ";
		for (int i = 1; i <= nvt; i++) {
			s += "[" + std::string(K->vt[i].kd ? "G" : "t") + (K->vt[i].kb == K_OFF ? "-" : "k") + (K->vt[i].process ? "P" : "a") +
			     (K->vt[i].newvt ? ">" + std::to_string(K->vt[i].newvt) : "") + "]";
		}
	}
	return s;
}

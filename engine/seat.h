// Histories of client requests, departures, VT switches and signals.
#pragma once
#include "daemon.h"
#include <errno.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum {
	K_CONN, K_DISC, K_HALF, K_OPEN, K_CLOSE, K_DIS, K_PING, K_DEV, K_CDEV, K_SW, K_VT, K_SIG, K_RUN, K_READ, K_RAW, K_SPLIT, K_FDS,
	K_READ1, K_SWAP, K_OPC, K_SIZ, K_CDEVV, K_SWV
};
enum { HOLD = 1 << 15 };
inline int smk(int kind, int slot, int arg) { return kind << 10 | slot << 7 | arg; }

// byte strings a hostile client may send
inline std::string raw_msg(int i) {
	auto h = [](int op, int size, std::string body) {
		u16 x[2] = {(u16)op, (u16)size};
		return std::string((char *)x, 4) + body;
	};
	auto path = [&](int len, const std::string &p) {
		u16 l = (u16)len;
		return std::string((char *)&l, 2) + p;
	};
	switch (i) {
	case 0: return h(0, 0, "");
	case 1: return h(8, 0, "");
	case 2: return h(0xffff, 0, "");
	case 3: return h(R_OPEN_SEAT, 1, "x");
	case 4: return h(R_PING, 4, "abcd");
	case 5: return h(R_OPEN_DEVICE, 0, "");
	case 6: return h(R_OPEN_DEVICE, 2, path(0, ""));
	case 7: return h(R_OPEN_DEVICE, 2 + 15, path(15, std::string("/dev/dri/card0x")));          // unterminated
	case 8: return h(R_OPEN_DEVICE, 2 + 300, path(300, std::string(299, 'a') + std::string(1, 0))); // over-long
	case 9: return h(R_OPEN_DEVICE, 2 + 15, path(14, std::string("/dev/dri/card0\0", 15)));     // length mismatch
	case 10: return h(R_CLOSE_DEVICE, 3, "abc");
	case 11: return h(R_CLOSE_DEVICE, 5, "abcde");
	case 12: return h(R_SWITCH, 0, "");
	case 13: return h(R_PING, 0xffff, std::string(300, 'z'));
	case 14: return h(R_OPEN_DEVICE, 2 + 256, path(256, std::string(256, 'a')));                // longest, unterminated
	case 15: return h(R_OPEN_DEVICE, 2 + 257, path(257, std::string(256, 'a') + std::string(1, 0)));
	case 16: return h(R_OPEN_DEVICE, 2 + 15, path(15, std::string("/dev\0dri/card0\0", 15)));   // inner NUL
	case 17: return std::string("\x01", 1);                                                      // lone byte
	case 18: return h(R_CLOSE_SEAT, 0xfff0, "");                                                 // header only
	case 19: return h(R_OPEN_DEVICE, 2 + 15, path(0xffff, std::string("/dev/dri/card0\0", 15)));
	case 20: return h(R_DISABLE_SEAT, 8, "12345678");
	case 21: return h(R_OPEN_DEVICE, 1, "\x01");
	case 22: return h(0x8006, 0, "");
	case 23: return std::string(256, '\xff');
	case 24: return std::string(700, '\0');
	case 25: return h(R_OPEN_DEVICE, 2 + 15, path(15, std::string("/dev/dri/card0\0", 15))) + h(99, 0, "");
	case 26: return h(R_OPEN_DEVICE, 2 + 19, path(15, std::string("/dev/dri/card0\0\x07\0\0\0", 19))); // the path ends early, and what follows looks like a ping
	case 27: return h(R_OPEN_DEVICE, 2 + 16, path(15, std::string("/dev/dri/card0\0\0", 16)));
	case 28: return h(R_OPEN_DEVICE, 2 + 15, path(16, std::string("/dev/dri/card0\0", 15)));
	case 29: return h(R_CLOSE_DEVICE, 8, std::string("\1\0\0\0\7\0\0\0", 8));
	case 30: return h(R_SWITCH, 8, std::string("\2\0\0\0\7\0\0\0", 8));
	case 31: return h(R_OPEN_SEAT, 4, std::string("\7\0\0\0", 4));
	case 32: return h(R_CLOSE_SEAT, 4, std::string("\7\0\0\0", 4));
	case 33: return h(R_DISABLE_SEAT, 4, std::string("\7\0\0\0", 4));
	case 34: return h(R_SWITCH, 2, std::string("\2\0", 2));
	case 35: return h(R_OPEN_DEVICE, 2 + 0x10000 % 0x10000 + 15, path(0x8000 + 15, std::string("/dev/dri/card0\0", 15)));
	}
	return "";
}
enum { NRAW = 36 };

// a message of that opcode whose body is right for the request it resembles
inline std::string opc_msg(int op) {
	int like = (op & 255) >= 1 && (op & 255) <= 7 ? op & 255 : op >> 8 >= 1 && op >> 8 <= 7 ? op >> 8 : 0;
	std::string b = like == R_OPEN_DEVICE ? std::string("\017\0/dev/dri/card0\0", 17) : like == R_CLOSE_DEVICE || like == R_SWITCH ? std::string("\1\0\0\0", 4) : "";
	u16 x[2] = {(u16)op, (u16)b.size()};
	return std::string((char *)x, 4) + b;
}
// a request of that kind and size; opt: the path's length is what the size leaves, and only its end is NUL
inline std::string siz_msg(int op, int size, int opt) {
	std::string b = op == R_OPEN_DEVICE ? std::string("\017\0/dev/dri/card0\0", 17) : std::string("\1\0\0\0", 4);
	b.resize(size > 700 ? 300 : (size_t)size, '\0'); // a longer one is not sent in full
	if (op == R_OPEN_DEVICE && opt) {
		u16 l = (u16)(size - 2);
		for (size_t i = 2; i < b.size(); i++) {
			b[i] = i + 1 < (size_t)size ? '/' : 0;
		}
		for (size_t i = 0; i < b.size() && i < 2; i++) {
			b[i] = ((char *)&l)[i];
		}
	}
	u16 x[2] = {(u16)op, (u16)size};
	return std::string((char *)x, 4) + b;
}
struct SeatScn : DaemonModel {
	std::vector<std::string> toks, itoks;
	bool polite;
	int batch;
	std::vector<int> devs;
	bool injecting = false;
	void split(const std::string &s, std::vector<std::string> &o) {
		size_t p = 0;
		while (p <= s.size()) {
			size_t e = s.find(',', p);
			if (e == std::string::npos) {
				e = s.size();
			}
			if (e > p) {
				o.push_back(s.substr(p, e - p));
			}
			p = e + 1;
		}
	}
	void load() override {
		DaemonModel::load();
		split(P.str("menu", "conn,disc,open,close,dis,sw"), toks);
		split(P.str("inj", ""), itoks);
		polite = P.num("polite", 0);
		batch = (int)P.num("batch", 0);
	}
	void setup() override {
		boot();
		// a common prefix of ordinary life, so that the depth is spent where it matters
		for (char ch : P.str("pre", "")) {
			if (ch >= '0' && ch <= '9') {
				// connect and open the seat in that slot
				Conn *c = connect(ch - '0');
				if (c) {
					send_req(*c, R_OPEN_SEAT, "");
					run();
				}
			} else if (ch == 'd' || ch == 'e' || ch == 'h') {
				// every enabled client opens a graphics / input / hidraw device
				for (auto &c : C) {
					if (c.st == C_ENABLED && !c.dropped) {
						open_dev(c, PATHS[ch == 'd' ? 0 : ch == 'e' ? 1 : 4]);
						run();
					}
				}
			} else if (ch == 'c' || ch == 'w') {
				// many come and go; many come and stay, out of our hands
				for (int i = 0; i < (ch == 'c' ? 260 : 20); i++) {
					Conn *c = slot[0] < 0 ? connect(0) : NULL;
					if (!c) {
						break;
					}
					send_req(*c, R_OPEN_SEAT, "");
					run();
					if (ch == 'c') {
						disconnect(*c);
						run();
					} else {
						slot[0] = -1;
					}
				}
			} else if (ch == 'v') {
				vt_user_switch(K->fg % nvt + 1);
				run();
			} else if (ch == 'a') {
				for (auto &c : C) {
					if (c.st == C_PENDING && !c.dropped) {
						send_req(c, R_DISABLE_SEAT, "");
						run();
					}
				}
			}
		}
		if (int n = (int)P.num("hole", 0)) { // the next descriptors are the lowest
			fd_shut(d, n);
			base_fds -= n;
		}
	}
	void open_dev(Conn &c, const std::string &p) {
		u16 l = (u16)(p.size() + 1);
		send_req(c, R_OPEN_DEVICE, std::string((char *)&l, 2) + p + std::string(1, 0));
	}
	bool in_seat(Conn &c) { return c.st >= C_OPEN && c.st <= C_DISABLED; }
	void gen(const std::vector<std::string> &t, std::vector<int> &out) {
		for (auto &k : t) {
			std::string a;
			std::string n = k;
			size_t q = k.find(':');
			if (q != std::string::npos) {
				n = k.substr(0, q);
				a = k.substr(q + 1);
			}
			if (n == "conn") {
				for (int s = 0; s < nc; s++) {
					if (slot[s] < 0) {
						out.push_back(smk(K_CONN, s, 0));
						break;
					}
				}
				continue;
			}
			if (n == "vt") {
				for (int v = 1; v <= nvt; v++) {
					if (v != K->fg || K->vt[v].newvt) {
						out.push_back(smk(K_VT, 0, v));
					}
				}
				continue;
			}
			if (n == "swap") { // the path of a device comes to name something else
				if (!swapped) {
					out.push_back(smk(K_SWAP, 0, 0));
					out.push_back(smk(K_SWAP, 0, 1));
				}
				continue;
			}
			if (n == "term") {
				out.push_back(smk(K_SIG, 0, SIGTERM));
				continue;
			}
			if (n == "int") {
				out.push_back(smk(K_SIG, 0, SIGINT));
				continue;
			}
			for (int s = 0; s < nc; s++) {
				Conn *c = by_slot(s);
				if (!c) {
					continue;
				}
				if (n == "disc") {
					out.push_back(smk(K_DISC, s, 0));
					continue;
				}
				if (c->dropped || c->wr_shut) {
					continue;
				}
				if (n == "half") {
					out.push_back(smk(K_HALF, s, 0));
				} else if (n == "open") {
					if (!polite || (c->st == C_NEW && c->q.empty())) {
						out.push_back(smk(K_OPEN, s, 0));
					}
				} else if (n == "close") {
					if (!polite || in_seat(*c)) {
						out.push_back(smk(K_CLOSE, s, 0));
					}
				} else if (n == "dis") {
					if (!polite || c->st == C_PENDING) {
						out.push_back(smk(K_DIS, s, 0));
					}
				} else if (n == "ping") {
					out.push_back(smk(K_PING, s, 0));
				} else if (n == "dev") {
					if (!polite || in_seat(*c)) {
						out.push_back(smk(K_DEV, s, atoi(a.c_str())));
					}
				} else if (n == "cdev") {
					for (size_t i = 0; i < c->dev.size() && i < 4; i++) {
						out.push_back(smk(K_CDEV, s, (int)i));
					}
				} else if (n == "cdevx") {
					if (!polite || in_seat(*c)) {
						for (int i = 100; i < 110; i++) {
							out.push_back(smk(K_CDEV, s, i));
						}
					}
				} else if (n == "sw") {
					if (polite && c->st != C_ENABLED && c->st != C_PENDING) {
						continue;
					}
					if (vt) {
						for (int v = 1; v <= nvt; v++) {
							out.push_back(smk(K_SW, s, v));
						}
					} else {
						for (int j = 0; j < nc; j++) {
							Conn *o = by_slot(j);
							if (o && o->session >= 0) {
								out.push_back(smk(K_SW, s, j));
							}
						}
					}
				} else if (n == "swx") {
					for (int i = 101; i < 110; i++) {
						out.push_back(smk(K_SW, s, i));
					}
				} else if (n == "raw") {
					if (a.empty()) {
						for (int i = 0; i < NRAW; i++) {
							out.push_back(smk(K_RAW, s, i));
						}
					} else {
						out.push_back(smk(K_RAW, s, atoi(a.c_str())));
					}
				} else if (n == "opc") { // every opcode
					for (int i = 0; i < 65536; i++) {
						out.push_back(i << 16 | smk(K_OPC, s, 0));
					}
				} else if (n == "siz") { // every size of every request
					int step = std::max(1, atoi(a.c_str()));
					for (int op = 1; op <= 7; op++) {
						for (int i = 0; i < 65536; i += i < 600 ? 1 : step) {
							out.push_back(i << 16 | smk(K_SIZ, s, op));
							if (op == R_OPEN_DEVICE) {
								out.push_back(i << 16 | smk(K_SIZ, s, op + 16));
							}
						}
					}
				} else if (n == "num") {
					for (size_t i = 0; i < odd_numbers().size(); i++) {
						out.push_back((int)i << 16 | smk(K_CDEVV, s, 0));
						out.push_back((int)i << 16 | smk(K_SWV, s, 0));
					}
				} else if (n == "read") {
					if (h_pending(c->sock)) {
						out.push_back(smk(K_READ, s, 0));
						if (a == "1") {
							out.push_back(smk(K_READ1, s, 0));
						}
					}
				} else if (n == "fds") {
					out.push_back(smk(K_FDS, s, 1));
					out.push_back(smk(K_FDS, s, 20));
					out.push_back(smk(K_FDS, s, 70));
				}
			}
		}
	}
	void ops(std::vector<int> &out) override {
		if (exited || terminating) {
			return;
		}
		std::vector<int> o;
		gen(toks, o);
		for (int x : o) {
			out.push_back(x);
		}
		if (held_run < batch) {
			for (int x : o) {
				out.push_back(x | HOLD); // (not with the kinds that number their messages)
			}
		}
	}
	int ninject() override {
		if (injecting || exited || terminating) {
			return 0;
		}
		std::vector<int> o;
		gen(itoks, o);
		return (int)o.size();
	}
	void inject(int i) override {
		std::vector<int> o;
		gen(itoks, o);
		if (i < (int)o.size()) {
			injecting = true;
			tracef("   !! meanwhile: %s", op_name(o[i]).c_str());
			opslog.append((char *)&o[i], 2);
			act(o[i]);
			saw_fg();
			injecting = false;
		}
	}
	int sw_arg(Conn &c, int a) {
		if (vt && a < 100) {
			return a;
		}
		int mx = 0;
		for (auto &o : C) {
			if (o.session > mx) {
				mx = o.session;
			}
		}
		switch (a) {
		case 101:
			return 0;
		case 102:
			return -1;
		case 103:
			return mx + 1;
		case 104:
			return INT_MIN;
		case 105:
			return c.session > 0 ? c.session : 77;
		}
		if (a >= 106) { // resembling somebody's
			int s = 1;
			for (auto &o : C) {
				if (&o != &c && o.session > 0) {
					s = o.session;
				}
			}
			return a == 106 ? -s : a == 107 ? s + 65536 : a == 108 ? s + 256 : s | INT_MIN;
		}
		Conn *o = by_slot(a);
		return o ? o->session : 1000;
	}
	int cdev_arg(Conn &c, int a) {
		switch (a) {
		case 100:
			return 0;
		case 101:
			return -1;
		case 102:
			return 99;
		case 103: {
			for (auto &o : C) {
				if (&o == &c || o.dropped || !o.open) {
					continue;
				}
				for (auto &x : o.dev) {
					bool mine = false;
					for (auto &y : c.dev) {
						mine |= y.id == x.id;
					}
					if (!mine) {
						return x.id;
					}
				}
			}
			int mx = 0;
			for (auto &y : c.dev) {
				mx = y.id > mx ? y.id : mx;
			}
			return mx + 1;
		}
		case 104:
			return INT_MIN;
		case 105:
			return INT_MAX;
		}
		if (a >= 106) { // resembling one it has
			int id = c.dev.empty() ? 1 : c.dev.back().id;
			return a == 106 ? -id : a == 107 ? id + 65536 : a == 108 ? id + 256 : id | INT_MIN;
		}
		return a < (int)c.dev.size() ? c.dev[a].id : 98;
	}
	void act(int op) {
		int kind = (op >> 10) & 31, s = (op >> 7) & 7, a = op & 127;
		Conn *c = by_slot(s);
		switch (kind) {
		case K_CONN:
			connect(s);
			return;
		case K_VT:
			vt_user_switch(a);
			return;
		case K_SWAP: {
			int e, x = node_lookup(a ? "/dev/input/event0" : "/dev/dri/card0", false, &e);
			if (x >= 0) {
				snprintf(K->node[x].name, sizeof K->node[x].name, "away");
				int l = node_mkpath(a ? "/dev/input/event0" : "/dev/dri/card0", N_LNK, 0777);
				snprintf(K->node[l].target, sizeof K->node[l].target, "/etc/secret");
				swapped = a + 1;
				swapnow = true;
			}
			return;
		}
		case K_SIG:
			termsig = a;
			terminating = true;
			proc_signal(d, a);
			return;
		case K_RUN:
			return;
		}
		if (!c) {
			return;
		}
		switch (kind) {
		case K_DISC:
			disconnect(*c);
			break;
		case K_HALF:
			c->wr_shut = true;
			h_shutdown_wr(c->sock);
			break;
		case K_OPEN:
			send_req(*c, R_OPEN_SEAT, "");
			break;
		case K_CLOSE:
			send_req(*c, R_CLOSE_SEAT, "");
			break;
		case K_DIS:
			send_req(*c, R_DISABLE_SEAT, "");
			break;
		case K_PING:
			send_req(*c, R_PING, "");
			break;
		case K_DEV:
			open_dev(*c, PATHS[a]);
			break;
		case K_CDEV: {
			int id = cdev_arg(*c, a);
			send_req(*c, R_CLOSE_DEVICE, std::string((char *)&id, 4));
			break;
		}
		case K_SW: {
			int v = sw_arg(*c, a);
			v = vt && v > 0 && v <= nvt ? K->vtname[v] : v;
			send_req(*c, R_SWITCH, std::string((char *)&v, 4));
			break;
		}
		case K_RAW: {
			std::string m = raw_msg(a);
			send_raw(*c, m.data(), m.size());
			break;
		}
		case K_OPC: {
			std::string m = opc_msg((unsigned)op >> 16);
			send_raw(*c, m.data(), m.size());
			break;
		}
		case K_SIZ: {
			std::string m = siz_msg(a & 15, (int)((unsigned)op >> 16), a >> 4);
			send_raw(*c, m.data(), m.size());
			break;
		}
		case K_CDEVV:
		case K_SWV: {
			int v = odd_numbers()[(unsigned)op >> 16];
			send_req(*c, kind == K_SWV ? R_SWITCH : R_CLOSE_DEVICE, std::string((char *)&v, 4));
			break;
		}
		case K_READ:
			drain(*c);
			break;
		case K_READ1: {
			char b;
			std::vector<int> ofs;
			h_recv(c->sock, &b, 1, &ofs);
			for (int o : ofs) {
				c->keep.push_back(o);
			}
			break;
		}
		case K_FDS: {
			// a ping carrying descriptors
			int e, n = node_lookup("/dev/null", true, &e);
			std::vector<int> ofs;
			for (int i = 0; i < a; i++) {
				int o = of_new(OF_NODE, n, 2);
				ofs.push_back(o);
			}
			u16 h[2] = {R_PING, 0};
			c->hostile_fds = true;
			int r = send_raw(*c, h, 4, ofs.data(), (int)ofs.size());
			(void)r;
			for (int o : ofs) {
				if (K->of[o].refs == 0) {
					K->of[o].refs = 1;
					of_unref(o);
				}
			}
			break;
		}
		}
	}
	void apply(int op) override {
		act(op & ~HOLD);
		u16 o16 = (u16)op;
		opslog.append((char *)&o16, 2);
		if (op & HOLD) {
			held_run++;
			return;
		}
		run();
	}
	void finish() override {
		if (exited) {
			return;
		}
		std::string e = P.str("epi", "leave");
		if (e == "none") {
			return;
		}
		if (terminating) {
			run();
			return;
		}
		if (e == "term" || e == "int") {
			termsig = e == "term" ? SIGTERM : SIGINT;
			terminating = true;
			proc_signal(d, termsig);
			proc_run(d, 60000);
			if (d->st != PS_EXITED) {
				rep("C17", "the daemon goes on after signal %d", termsig);
			}
			return;
		}
		long man = P.num("manual", 0);
		P.m["manual"] = "0";
		for (auto &c : C) {
			drain(c);
		}
		run();
		leave_all();
		probe();
		P.m["manual"] = std::to_string(man);
	}
	u64 key() override { return model_key(); }
	std::string op_name(int op) override {
		int kind = (op >> 10) & 31, s = (op >> 7) & 7, a = op & 127;
		static const char *n[] = {"connects", "disconnects", "shuts down its sending side", "asks to open the seat",
					  "asks to close the seat", "acknowledges disable", "pings", "asks to open ", "closes device ",
					  "switches to session ", "", "", "", "reads", "sends raw bytes #", "", "sends descriptors: ",
					  "reads one byte"};
		std::string r;
		if (kind == K_VT) {
			r = "user switches to VT " + std::to_string(a);
		} else if (kind == K_SWAP) {
			r = std::string(a ? "/dev/input/event0" : "/dev/dri/card0") + " is replaced by a link to /etc/secret";
		} else if (kind == K_SIG) {
			r = std::string("signal ") + strsignal(a);
		} else {
			unsigned x = (unsigned)op >> 16;
			r = "client " + std::to_string(s) + " " +
			    (kind == K_OPC ? "sends opcode " + std::to_string(x) : kind == K_SIZ ? "sends request " + std::to_string(a & 15) + " with size " + std::to_string(x) :
			     kind == K_CDEVV ? "closes device " + std::to_string(odd_numbers()[x]) : kind == K_SWV ? "switches to session " + std::to_string(odd_numbers()[x]) : n[kind]);
			if (kind == K_DEV) {
				r += PATHS[a];
			} else if (kind == K_CDEV || kind == K_SW || kind == K_RAW || kind == K_FDS) {
				r += std::to_string(a);
			}
		}
		if (op & HOLD) {
			r += " (daemon not yet scheduled)";
		}
		return r;
	}
};

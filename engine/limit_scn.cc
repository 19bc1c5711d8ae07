// C05: every number of devices from none to beyond the limit, and what can be done from there.
#include "daemon.h"
#include <stdio.h>
#include <string.h>

struct LimitScn : DaemonModel {
	enum { L_FILL = 1, L_NEW, L_AGAIN, L_CLOSE, L_CLOSEX, L_SWITCH, L_ACK, L_LEAVE, L_ALL, L_CHURN };
	enum { NDEV = 140 };
	std::vector<int> next; // per slot: device to open next
	std::vector<bool> filled;
	static int mk(int k, int s, int a) { return k << 16 | s << 12 | a; }
	void setup() override {
		char b[40];
		boot();
		for (int i = 0; i < NDEV; i++) {
			snprintf(b, sizeof b, "/dev/input/event%d", 100 + i);
			int n = node_mkpath(b, N_CHR, 0660);
			K->node[n].dev = i % 4 == 3 ? D_DRM : D_EVDEV;
			if (i % 4 == 3) {
				snprintf(b, sizeof b, "/dev/dri/card%d", 100 + i);
				K->node[n].linked = false;
				n = node_mkpath(b, N_CHR, 0660);
				K->node[n].dev = D_DRM;
			}
			K->node[n].num = 100 + i;
		}
		next.assign(nc, 0);
		filled.assign(nc, false);
		for (int s = 0; s < nc && !exited; s++) {
			Conn *c = connect(s);
			send_req(*c, R_OPEN_SEAT, "");
			run();
		}
	}
	std::string dev(int i) { return (i % 4 == 3 ? "/dev/dri/card" : "/dev/input/event") + std::to_string(100 + i); }
	void open(Conn &c, int i) {
		std::string p = dev(i);
		u16 l = (u16)(p.size() + 1);
		send_req(c, R_OPEN_DEVICE, std::string((char *)&l, 2) + p + std::string(1, 0));
		run();
	}
	void close(Conn &c, int id) {
		send_req(c, R_CLOSE_DEVICE, std::string((char *)&id, 4));
		run();
	}
	void ops(std::vector<int> &out) override {
		if (exited) {
			return;
		}
		for (int s = 0; s < nc; s++) {
			Conn *c = by_slot(s);
			if (!c || c->dropped) {
				continue;
			}
			if (c->st == C_PENDING) {
				out.push_back(mk(L_ACK, s, 0));
			}
			if (c->st != C_ENABLED) {
				continue;
			}
			if (!filled[s]) {
				for (int n = (int)P.num(s ? "min2" : "min", 0); n <= (int)P.num("max", 130); n++) {
					out.push_back(mk(L_FILL, s, n));
				}
				continue;
			}
			if (next[s] < NDEV) {
				out.push_back(mk(L_NEW, s, 0));
			}
			for (int w = 0; w < 3; w++) {
				if (w < (int)c->dev.size()) {
					out.push_back(mk(L_AGAIN, s, w));
					out.push_back(mk(L_CLOSE, s, w));
				}
			}
			if (!c->dev.empty()) {
				out.push_back(mk(L_ALL, s, 0));
			}
			if (next[s] == 3 && c->dev.size() < 3) {
				out.push_back(mk(L_CHURN, s, 0));
			}
			out.push_back(mk(L_CLOSEX, s, 0));
			if (nc > 1 && by_slot(1 - s)) {
				out.push_back(mk(L_SWITCH, s, 1 - s));
				out.push_back(mk(L_LEAVE, s, 0));
			}
		}
	}
	void apply(int op) override {
		int k = op >> 16, s = op >> 12 & 15, a = op & 4095;
		Conn *c = by_slot(s);
		if (!c) {
			return;
		}
		auto pick = [&](int w) { return w == 0 ? 0 : w == 1 ? (int)c->dev.size() / 2 : (int)c->dev.size() - 1; };
		switch (k) {
		case L_FILL:
			filled[s] = true;
			for (int i = 0; i < a && !exited && !c->dropped; i++) {
				open(*c, next[s]++);
			}
			break;
		case L_NEW: {
			int f = proc_nfds(d), b = d->live_blocks;
			size_t n = c->dev.size();
			open(*c, next[s]++);
			if (c->dev.size() == n && !exited && !c->dropped && (proc_nfds(d) != f || d->live_blocks != b)) {
				rep("C05", "%s: a refused device leaves %d descriptors and %d pieces of memory behind", cname(*c).c_str(), proc_nfds(d) - f, d->live_blocks - b);
			}
			break;
		}
		case L_CHURN: // never without a device, for a long time
			next[s]++;
			for (int i = 0; i < 300 && !exited && !c->dropped; i++) {
				int g = i % 2 ? 120 : 121;
				size_t n = c->dev.size();
				open(*c, g);
				if (c->dev.size() == n) {
					rep("C05", "%s: a device is refused after %d others were opened and closed", cname(*c).c_str(), i);
					break;
				}
				if (i) {
					close(*c, c->dev[n - 1].id);
				}
			}
			break;
		case L_AGAIN: {
			Held &h = c->dev[pick(a)];
			open(*c, K->node[h.node].num - 100);
			break;
		}
		case L_CLOSE:
			close(*c, c->dev[pick(a)].id);
			break;
		case L_CLOSEX: {
			int mx = 0;
			for (auto &h : c->dev) {
				mx = h.id > mx ? h.id : mx;
			}
			close(*c, mx + 1);
			break;
		}
		case L_ALL:
			for (int i = 0; i < 400 && !c->dev.empty() && !exited && !c->dropped; i++) {
				size_t n = c->dev.size();
				int refs = c->dev[n / 2].refs;
				close(*c, c->dev[n / 2].id);
				if (c->dev.size() == n && n / 2 < n && c->dev[n / 2].refs == refs) {
					rep("C05", "%s: a device it holds cannot be closed", cname(*c).c_str());
					break;
				}
			}
			break;
		case L_SWITCH: {
			Conn *o = by_slot(a);
			int v = o ? o->session : 0;
			send_req(*c, R_SWITCH, std::string((char *)&v, 4));
			run();
			break;
		}
		case L_ACK:
			send_req(*c, R_DISABLE_SEAT, "");
			run();
			break;
		case L_LEAVE:
			disconnect(*c);
			run();
			break;
		}
	}
	void finish() override {
		if (exited) {
			return;
		}
		leave_all();
		probe();
	}
	u64 key() override {
		u64 h = model_key();
		for (int s = 0; s < nc; s++) {
			int x[2] = {next[s], filled[s]};
			h = hash_bytes(x, sizeof x, h);
		}
		return h;
	}
	std::string op_name(int op) override {
		static const char *n[] = {"", "opens so many devices: ", "opens one more device", "opens again held device (first, middle, last) ", "closes held device (first, middle, last) ",
					  "closes a device it does not hold", "switches to the session of client ", "acknowledges", "leaves", "closes all", "opens and closes many"};
		int k = op >> 16, s = op >> 12 & 15, a = op & 4095;
		return "client " + std::to_string(s) + " " + n[k] + (k == L_FILL || k == L_AGAIN || k == L_CLOSE || k == L_SWITCH ? std::to_string(a) : "");
	}
};
SCENARIO("limit", LimitScn)

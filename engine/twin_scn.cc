// The same history twice: once as the reference has it, once with the byte
// streams cut, joined or interleaved differently (mode=cut), or with another
// log level and an error stream that disturbs errno (mode=log).  What clients
// see and what the daemon does to devices and VTs must not differ.
#include "seat.h"

extern int STDIO_ERRNO;

struct TwinScn : SeatScn {
	struct StepRec {
		int op;
		int ci; // connection the bytes went to, -1
		std::string bytes;
	};
	std::vector<StepRec> A;
	// what is observed
	std::map<int, std::string> seen; // per connection
	std::vector<std::string> eff;
	// the variant being run
	bool second = false;
	int cutall;
	std::set<int> cuts; // of the current request
	int skip; // bytes already sent of the current request
	std::string acc;
	bool accum;
	StepRec *rec = nullptr;

	void reset_obs() {
		seen.clear();
		eff.clear();
		cuts.clear();
		cutall = 0;
		skip = 0;
		accum = false;
		acc.clear();
		rec = nullptr;
	}
	void setup() override {
		A.clear();
		second = false;
		STDIO_ERRNO = 0;
		reset_obs();
		P.m["log"] = P.str("mode", "cut") == "log" ? "silent" : "debug";
		SeatScn::setup();
	}
	int send_raw(Conn &c, const void *b, size_t n, const int *ofs, int nofs) override {
		if (rec) {
			rec->ci = c.idx;
			rec->bytes.append((const char *)b, n);
		}
		if (!second || nofs) {
			return DaemonModel::send_raw(c, b, n, ofs, nofs);
		}
		const char *p = (const char *)b;
		if (accum) {
			acc.append(p, n);
			return (int)n;
		}
		size_t at = (size_t)skip;
		std::vector<size_t> cc;
		for (int x : cuts) {
			if (x > (int)at && x < (int)n) {
				cc.push_back(x);
			}
		}
		if (cutall > (int)at && cutall < (int)n) {
			cc.push_back(cutall);
		}
		cc.push_back(n);
		int ci = c.idx;
		for (size_t i = 0; i < cc.size(); i++) {
			if (cc[i] > at && C[ci].open) {
				DaemonModel::send_raw(C[ci], p + at, cc[i] - at, nullptr, 0);
				at = cc[i];
				if (i + 1 < cc.size()) {
					run();
				}
			}
		}
		return (int)n;
	}
	// ---- observation
	void on_send(Proc *p, int s, const char *b, size_t n, const std::vector<int> &o) override {
		SeatScn::on_send(p, s, b, n, o);
		if (p == d) {
			Conn *c = conn_of_sock(s);
			if (c) {
				for (int x : o) {
					eff.push_back("sends descriptor of " + std::string(K->of[x].type == OF_NODE ? K->node[K->of[x].obj].name : "?") + " to connection " + std::to_string(c->idx));
				}
				seen[c->idx].append(b, n);
			}
		}
	}
	void on_sockclose(Proc *p, int s) override {
		Conn *c = p == d ? conn_of_sock(s) : nullptr;
		if (c) {
			eff.push_back("closes connection " + std::to_string(c->idx));
		}
		SeatScn::on_sockclose(p, s);
	}
	void on_open(Proc *p, const char *path, int node, int of, int flags) override {
		if (p == d) {
			eff.push_back(std::string("opens ") + path + " " + std::to_string(of >= 0) + " " + std::to_string(flags));
		}
		SeatScn::on_open(p, path, node, of, flags);
	}
	void on_ioctl(Proc *p, int of, unsigned long req, long arg, int res) override {
		if (p == d) {
			char b[120];
			OFile &o = K->of[of];
			snprintf(b, sizeof b, "ioctl %lx of %s, %ld: %d", req, o.type == OF_NODE ? K->node[o.obj].name : "?", arg < 100000 ? arg : 0, res);
			eff.push_back(b);
		}
		SeatScn::on_ioctl(p, of, req, arg, res);
	}
	std::string hex(const std::string &s) {
		std::string r;
		char b[4];
		for (unsigned char ch : s) {
			snprintf(b, sizeof b, "%02x", ch);
			r += b;
		}
		return r.size() > 160 ? "..." + r.substr(r.size() - 160) : r;
	}
	std::string vtstate() {
		std::string s = "VT " + std::to_string(K->fg) + " in front";
		for (int v = 1; v <= K->nvt; v++) {
			Vt &x = K->vt[v];
			s += "; " + std::to_string(x.process) + std::to_string(x.kb) + std::to_string(x.kd) + std::to_string(x.newvt);
		}
		s += exited || d->st == PS_EXITED ? "; daemon gone" : "; daemon runs with " + std::to_string(proc_nfds(d)) + " descriptors and " + std::to_string(d->live_blocks) + " blocks";
		return s;
	}
	void apply(int op) override {
		A.push_back({op, -1, ""});
		rec = &A.back();
		act(op);
		rec = nullptr;
		u16 o16 = (u16)op;
		opslog.append((char *)&o16, 2);
		run();
	}
	// ---- the other run
	std::map<int, std::string> refseen;
	std::vector<std::string> refeff;
	std::string refvt;
	const char *id() { return P.str("mode", "cut") == "log" ? "G01" : "C07"; }
	bool compare(const std::string &how) {
		if (seen != refseen) {
			int ci = 0;
			for (auto &x : refseen) {
				if (seen[x.first] != x.second) {
					ci = x.first;
				}
			}
			report(id(), "%s, connection %d is sent %s instead of %s", how.c_str(), ci, hex(seen[ci]).c_str(), hex(refseen[ci]).c_str());
			return false;
		}
		if (eff != refeff) {
			size_t i = 0;
			while (i < eff.size() && i < refeff.size() && eff[i] == refeff[i]) {
				i++;
			}
			report(id(), "%s, the daemon: %s; otherwise: %s", how.c_str(), i < eff.size() ? eff[i].c_str() : "nothing", i < refeff.size() ? refeff[i].c_str() : "nothing");
			return false;
		}
		std::string v = vtstate();
		if (v != refvt) {
			report(id(), "%s, in the end: %s; otherwise: %s", how.c_str(), v.c_str(), refvt.c_str());
			return false;
		}
		return true;
	}
	void again() {
		tracef("-- the same once more");
		sim_reset();
		second = false;
		reset_obs();
		SeatScn::setup();
		second = true;
	}
	void one(int op) {
		tracef("-- %s", op_name(op).c_str());
		act(op);
		run();
	}
	bool plain(int op) {
		int k = (op >> 10) & 31;
		return k != K_CONN && k != K_VT && k != K_DISC && k != K_HALF && k != K_FDS;
	}
	void finish() override {
		if (A.empty()) {
			return;
		}
		refseen = seen;
		refeff = eff;
		refvt = vtstate();
		std::vector<StepRec> h = A;
		size_t n = h.size();
		if (P.str("mode", "cut") == "log") {
			for (const char *l : {"error", "info", "debug"}) {
				for (int e : {0, EAGAIN, EINTR, ENOENT}) {
					P.m["log"] = l;
					STDIO_ERRNO = e;
					again();
					for (auto &s : h) {
						one(s.op);
					}
					std::string how = std::string("at log level ") + l + (e ? std::string(" with an error stream that leaves errno at ") + strerror(e) : "");
					if (!compare(how)) {
						STDIO_ERRNO = 0;
						return;
					}
				}
			}
			STDIO_ERRNO = 0;
			return;
		}
		// every request cut at the same place
		if (P.num("same", 1)) {
			for (int p = 1; p <= 8; p++) {
				bool any = false;
				for (auto &s : h) {
					any |= (int)s.bytes.size() > p;
				}
				if (!any) {
					break;
				}
				again();
				cutall = p;
				for (auto &s : h) {
					one(s.op);
				}
				if (!compare("with every request cut after byte " + std::to_string(p))) {
					return;
				}
			}
		}
		StepRec &last = h[n - 1];
		if (!plain(last.op) || last.bytes.empty()) {
			return;
		}
		int len = (int)last.bytes.size();
		// the last request cut in two, in three, and in single bytes
		long pairs = P.num("pairs", 1); // 1: the second cut directly after the first, 2: all
		for (int a = 1; a < len; a++) {
			for (int b = a; b < len; b++) {
				if (b > a && (pairs == 0 || (pairs == 1 && b > a + 1))) {
					break;
				}
				again();
				for (size_t i = 0; i + 1 < n; i++) {
					one(h[i].op);
				}
				cuts = {a, b};
				one(last.op);
				if (!compare("with the last request cut after bytes " + std::to_string(a) + " and " + std::to_string(b))) {
					return;
				}
			}
		}
		again();
		for (size_t i = 0; i + 1 < n; i++) {
			one(h[i].op);
		}
		for (int a = 1; a < len; a++) {
			cuts.insert(a);
		}
		one(last.op);
		if (!compare("with the last request arriving byte by byte")) {
			return;
		}
		// the first part of the last request arrives before the steps that precede it
		for (size_t k = 1; k < n && k <= (size_t)P.num("early", 2); k++) {
			StepRec &o = h[n - 1 - k];
			if (((o.op >> 10) & 31) != K_VT && o.ci == last.ci) {
				break; // the stream keeps its own order
			}
			if (((o.op >> 10) & 31) == K_CONN && ((o.op >> 7) & 7) == ((last.op >> 7) & 7)) {
				break; // did not exist before
			}
			for (int a = 1; a < len; a++) {
				again();
				for (size_t i = 0; i + 1 + k < n; i++) {
					one(h[i].op);
				}
				if (last.ci >= (int)C.size() || !C[last.ci].open) {
					return;
				}
				tracef("-- the first %d bytes of the last request", a);
				DaemonModel::send_raw(C[last.ci], last.bytes.data(), a, nullptr, 0);
				run();
				for (size_t i = n - 1 - k; i + 1 < n; i++) {
					one(h[i].op);
				}
				skip = a;
				one(last.op);
				if (!compare("with the first " + std::to_string(a) + " bytes of the last request arriving " + std::to_string(k) + " steps early")) {
					return;
				}
			}
		}
		// several requests of the client arrive together, whole or cut somewhere
		if (vt) {
			return; // what the VT does in between would come later
		}
		for (size_t k = 2; k <= n && k <= (size_t)P.num("join", 4); k++) {
			StepRec &o = h[n - k];
			if (o.ci != last.ci || !plain(o.op) || o.bytes.empty()) {
				break;
			}
			std::string all;
			for (size_t i = n - k; i < n; i++) {
				all += h[i].bytes;
			}
			for (int a = 0; a < (int)all.size(); a++) {
				if (a && !P.num("joincut", 1)) {
					break;
				}
				again();
				for (size_t i = 0; i + k < n; i++) {
					one(h[i].op);
				}
				if (last.ci >= (int)C.size() || !C[last.ci].open) {
					return;
				}
				tracef("-- the last %d requests together%s", (int)k, a ? ", cut" : "");
				if (a) {
					DaemonModel::send_raw(C[last.ci], all.data(), a, nullptr, 0);
					run();
				}
				DaemonModel::send_raw(C[last.ci], all.data() + a, all.size() - a, nullptr, 0);
				run();
				if (!compare("with the last " + std::to_string(k) + " requests arriving together" + (a ? ", cut after byte " + std::to_string(a) : ""))) {
					return;
				}
			}
		}
	}
};
SCENARIO("twin", TwinScn)

// Every request (and several requests in one go) at every position of the
// receive buffer, cut at every place: the replies are those of undisturbed
// delivery.  The state is the position; every position is reached.
struct SweepScn : DaemonModel {
	struct Msg {
		std::string name;
		std::vector<std::string> parts;
		std::string all;
	};
	std::vector<Msg> T;
	std::map<std::string, std::string> ref; // reply per request
	std::string got;
	u64 total;
	bool prepared = false, quiet = false;
	static std::string h(int op, const std::string &body, int size = -1) {
		u16 x[2] = {(u16)op, (u16)(size < 0 ? (int)body.size() : size)};
		return std::string((char *)x, 4) + body;
	}
	static std::string num(int v) { return std::string((char *)&v, 4); }
	static std::string path(int l, char end = 0) {
		std::string p = l > 16 ? "/dev/input/event" : "";
		while ((int)p.size() < l - 1) {
			p += (char)('a' + p.size() % 26);
		}
		p += end;
		u16 n = (u16)l;
		return std::string((char *)&n, 2) + p;
	}
	void load() override {
		DaemonModel::load();
		auto add = [&](const std::string &n, std::vector<std::string> p) {
			std::string a;
			for (auto &x : p) {
				a += x;
			}
			T.push_back({n, p, a});
		};
		std::string ping = h(R_PING, ""), cd = h(R_CLOSE_DEVICE, num(77)), sw = h(R_SWITCH, num(-5));
		std::string ev = std::string("/dev/input/event0") + '\0';
		u16 l = (u16)ev.size();
		std::string dev = h(R_OPEN_DEVICE, std::string((char *)&l, 2) + ev);
		std::string longest = h(R_OPEN_DEVICE, path(256));
		add("ping", {ping});
		add("close_device 77", {cd});
		add("switch -5", {sw});
		add("open_seat again", {h(R_OPEN_SEAT, "")});
		add("disable_seat", {h(R_DISABLE_SEAT, "")});
		add("open_device event0", {dev});
		add("longest open_device", {longest});
		std::vector<int> ls = {1, 2, 15, 120, 255};
		if (P.num("every", 0)) {
			ls.clear();
			for (int i = 1; i < 256; i++) {
				ls.push_back(i);
			}
		}
		for (int i : ls) {
			add("open_device with " + std::to_string(i) + " bytes of path", {h(R_OPEN_DEVICE, path(i))});
		}
		add("unterminated path", {h(R_OPEN_DEVICE, path(40, 'x'))});
		add("overlong path", {h(R_OPEN_DEVICE, path(257))});
		add("unknown request", {h(99, "")});
		add("ping with a body", {h(R_PING, "1234")});
		add("open_device without a body", {h(R_OPEN_DEVICE, "")});
		add("close_device cut short", {h(R_CLOSE_DEVICE, "123")});
		if (P.num("multi", 1)) {
			add("2 x longest", {longest, longest});
			add("longest, ping, open_device, close_device", {longest, ping, dev, cd});
			add("close_device, open_device, longest, ping", {cd, dev, longest, ping});
			add("130 x ping", std::vector<std::string>(130, ping));
			add("3 x longest", {longest, longest, longest});
			add("switch, ping with a body", {sw, h(R_PING, "1234")});
		}
	}
	void begin() {
		boot();
		total = 0;
		if (exited) {
			return;
		}
		Conn *c = connect(0);
		u16 l = 18;
		send_req(*c, R_OPEN_SEAT, "");
		run();
		send_req(*c, R_OPEN_DEVICE, std::string((char *)&l, 2) + std::string("/dev/input/event0", 18));
		run();
		total = c->sent;
		got.clear();
	}
	void setup() override {
		if (!prepared) {
			prepared = true;
			bool t = TRACE;
			TRACE = false;
			for (auto &m : T) {
				for (auto &p : m.parts) {
					if (!ref.count(p)) {
						sim_reset();
						begin();
						if (exited || !C.size() || C[0].dropped) {
							continue;
						}
						send_raw(C[0], p.data(), p.size());
						run();
						ref[p] = got + (C[0].dropped ? "X" : "");
					}
				}
			}
			TRACE = t;
			sim_reset();
		}
		begin();
	}
	void on_send(Proc *p, int s, const char *b, size_t n, const std::vector<int> &o) override {
		DaemonModel::on_send(p, s, b, n, o);
		if (p == d) {
			got.append(b, n);
			for (int x : o) {
				got += K->of[x].type == OF_NODE ? K->node[K->of[x].obj].name : "?";
			}
		}
	}
	enum { BYTES = 1023 };
	void ops(std::vector<int> &out) override {
		if (exited || C.empty() || C[0].dropped) {
			return;
		}
		long pairs = P.num("pairs", 0), bytes = P.num("bytes", 1);
		for (size_t i = 0; i < T.size(); i++) {
			int n = (int)T[i].all.size();
			for (int a = 0; a < n && a < BYTES; a++) {
				out.push_back((int)i << 20 | a << 10);
				if (a && pairs) {
					for (int b = a + 1; b < n && b < BYTES && (b - a < pairs || n <= 40); b++) {
						out.push_back((int)i << 20 | a << 10 | b);
					}
				}
			}
			if (bytes) {
				out.push_back((int)i << 20 | BYTES << 10);
			}
		}
	}
	void apply(int op) override {
		Msg &m = T[op >> 20];
		int a = op >> 10 & 1023, b = op & 1023;
		got.clear();
		std::vector<int> cc;
		if (a == BYTES) {
			for (size_t i = 1; i < m.all.size(); i++) {
				cc.push_back((int)i);
			}
		} else {
			if (a) {
				cc.push_back(a);
			}
			if (b) {
				cc.push_back(b);
			}
		}
		cc.push_back((int)m.all.size());
		int at = 0;
		for (int x : cc) {
			if (C[0].dropped) {
				break;
			}
			send_raw(C[0], m.all.data() + at, x - at);
			at = x;
			run();
		}
		total += m.all.size();
		std::string want;
		for (auto &p : m.parts) {
			want += ref[p];
			if (!want.empty() && want.back() == 'X') {
				break; // costs the connection
			}
		}
		if (C[0].dropped) {
			got += "X";
		}
		if (got != want) {
			report("C07", "%s, %s, at position %d of the stream: %zu bytes of reply instead of %zu%s", m.name.c_str(),
			       a == BYTES ? "byte by byte" : a ? ("cut after byte " + std::to_string(a) + (b ? " and " + std::to_string(b) : "")).c_str() : "whole",
			       (int)(total - m.all.size()), got.size(), want.size(), C[0].dropped ? ", connection lost" : "");
		}
	}
	u64 key() override {
		u64 x[2] = {total % (u64)P.num("ring", 512), (u64)(exited || C.empty() || C[0].dropped)};
		return hash_bytes(x, sizeof x, 1);
	}
	std::string op_name(int op) override {
		int a = op >> 10 & 1023, b = op & 1023;
		return T[op >> 20].name + (a == BYTES ? ", byte by byte" : a ? ", cut after byte " + std::to_string(a) : "") + (b ? " and " + std::to_string(b) : "");
	}
};
SCENARIO("sweep", SweepScn)

// The seatd daemon under a reference model: clients, monitors, operations.
#pragma once
#include "explore.h"
#include <deque>
#include <set>
#include <string>
#include <vector>

enum {
	R_OPEN_SEAT = 1,
	R_CLOSE_SEAT,
	R_OPEN_DEVICE,
	R_CLOSE_DEVICE,
	R_DISABLE_SEAT,
	R_SWITCH,
	R_PING,
};
enum {
	M_SEAT_OPENED = 0x8001,
	M_SEAT_CLOSED,
	M_DEVICE_OPENED,
	M_DEVICE_CLOSED,
	M_DISABLE,
	M_ENABLE,
	M_PONG,
	M_SWITCHED,
	M_DISABLED,
	M_ERROR = 0xffff,
};
enum CState { C_NEW, C_OPEN, C_ENABLED, C_PENDING, C_DISABLED, C_CLOSED };

struct Req {
	int op, size;
	std::string body;
	bool bad; // malformed: may only cost the sender its connection
	int arg;
	std::string path;
	bool acked; // DISABLE_SEAT already taken as acknowledged
	int adm; // its place among the seat-open requests read
	int activated; // VT asked for while this request was being served
	bool faulted;
	// switch requests: what the target looked like when it was made
	int swok; // 1 a switch was due, 0 not
	int fglast;
	u32 fgm; // VTs that were in the foreground since it was read
};
struct HOf {
	int of;
	u32 serial;
};
struct Held {
	int id, refs, node;
	bool drm;
	HOf of;
};
struct Conn {
	int idx, slot, sock, dsock;
	bool open, wr_shut, dropped, accepted;
	CState st;
	int session; // on a seat with VTs: -2 when it is one of smask
	u32 smask;
	std::string rx; // read by the daemon, not yet parsed
	bool badhead, loose;
	u64 sent, readb;
	std::deque<Req> q;
	std::string tx; // sent by the daemon, not yet parsed
	std::deque<HOf> fdq;
	std::vector<Held> dev;
	std::vector<HOf> handed;
	int last_notice; // 0, M_ENABLE, M_DISABLE
	bool concerned;
	bool hostile_fds;
	bool backlog; // the daemon may be holding output for this client
	bool refusing;
	u32 lastreq;
	std::string log; // messages, for G01/C07 comparisons
	std::vector<int> keep;
};

struct DaemonModel : Scenario {
	Proc *d = nullptr;
	Module *mod = nullptr;
	std::deque<Conn> C; // all connections of this execution
	std::vector<int> slot; // slot -> conn index or -1
	bool vt, faulty, in_step, terminating, gaveup, exited, strict_ps;
	int nc, nvt, adm;
	int base_fds, base_blocks;
	u32 fgmask; // VTs that were in the foreground since the daemon last read a request
	int acqpend;
	int sw_from, sw_to; // pending switch: conn indexes
	u8 vtexc[MAXVT + 1]; // setting the keyboard (1) or the mode (2) of a VT was made to fail last
	bool vt_not_text(int v);
	int openerr; // what the failed call for the one device request under way failed with
	bool nounlink;
	bool vtfault, admfuzzy; // admfuzzy: how many sessions the daemon has numbered is not known
	int swapped; // path replaced
	bool swapnow; // in this step
	bool fault_now; // a fault was injected in this step
	std::set<std::pair<int, u32>> exempt; // devices whose revocation was made to fail
	std::vector<std::pair<int, int>> deferred;
	std::vector<HOf> dist; // all handed out
	int held_run;
	std::string opslog;
	int termsig;
	int extra_fds;

	void load() override;
	void boot();
	Conn *conn_of_sock(int s);
	Conn *by_slot(int s) { return s < (int)slot.size() && slot[s] >= 0 ? &C[slot[s]] : nullptr; }
	bool hid() { return P.num("hid", 0); }

	// client actions
	Conn *connect(int slot);
	virtual int send_raw(Conn &c, const void *d, size_t n, const int *ofs = nullptr, int nofs = 0);
	void send_req(Conn &c, int op, const std::string &body);
	void disconnect(Conn &c);
	void run();
	bool drain(Conn &c);
	void idle_checks();

	// monitors
	void parse_requests(Conn &c);
	void parse_messages(Conn &c);
	void on_reply(Conn &c, int m, const std::string &body, HOf *fd);
	void on_enable(Conn &c);
	void on_disable(Conn &c);
	int offending(Conn &c, Req &r);
	int expect_open(const std::string &path, int *node, int *err);
	bool of_dead(const HOf &h);
	bool of_live(const HOf &h, std::string *why);
	void must_be_dead(const HOf &h, const char *props, const char *when, Conn &c);
	int may_admit(Conn &c); // -1: depends on when the daemon looked
	bool on_vt(const Conn &c, int v) { return c.session > 0 ? c.session == v : c.session == -2 && (c.smask >> v & 1); }
	void saw_fg() {
		fgmask |= 1u << K->fg;
		for (auto &c : C) {
			for (auto &r : c.q) {
				r.fgm |= 1u << K->fg;
			}
		}
	}
	std::string cname(const Conn &c);
	void exit_checks();
	void gone(Conn &c);
	bool seat_member(const Conn &c) { return c.open && !c.dropped && c.st >= C_OPEN && c.st <= C_DISABLED; }

	void on_sendblock(Proc *, int) override;
	void on_send(Proc *, int, const char *, size_t, const std::vector<int> &) override;
	void on_recv(Proc *, int, const char *, size_t, const std::vector<int> &) override;
	void on_sockclose(Proc *, int) override;
	void on_accept(Proc *, int) override;
	void on_open(Proc *, const char *, int, int, int) override;
	void on_ioctl(Proc *, int, unsigned long, long, int) override;
	void on_exit(Proc *) override;
	void on_badfd(Proc *, const char *, int) override;
	void on_fault(Proc *, const char *, int) override;
	bool fault_ok(Proc *, const char *nm) override { return !P.num("pollfault", 0) || !__builtin_strcmp(nm, "poll"); }
	void on_vtsig(int, bool) override;

	void leave_all();
	void probe();
	u64 model_key();
	void rep(const char *props, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
	std::string describe() override;
};
void mk_devices(int nvt);
extern const char *PATHS[];

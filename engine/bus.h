// A stand-in for libsystemd's bus client and for login queries.  Messages are
// kept here; what travels through the simulated socket is their number, so that
// readability, end of file and interleaving are the simulated kernel's.
#pragma once
#include "sim.h"
#include <deque>
struct BTok {
	char t; // u s o b h; '(' container of kind c; ')' its end
	char c;
	long v;
	std::string s;
};
enum BKindMsg { BM_CALL, BM_REPLY, BM_ERROR, BM_SIGNAL };
struct BMsg {
	int kind, id, reply_to, err;
	std::string path, iface, member, errname, errmsg, peer; // peer: who sent it, or who is to get it
	std::vector<BTok> body;
	size_t pos;
	int refs;
	int of; // open file sent along, -1
	int fd; // its descriptor in the process
	bool async;
};
struct Bus {
	int refs, fd, sock; // sock: the harness' end
	Proc *owner;
	std::deque<BMsg *> rq;
	struct Match {
		std::string peer, path, iface, member;
		int (*h)(BMsg *, void *, void *);
		void *data;
		long slot;
	};
	std::vector<Match> matches;
	struct Pend {
		int id;
		int (*h)(BMsg *, void *, void *);
		void *data;
	};
	std::vector<Pend> pend;
	bool lost;
	int state; // 0 running, 1 closing, 2 closed
};
extern std::vector<BMsg *> bus_msgs; // all messages of this execution
extern Bus BUS;
extern bool bus_blockmatch, bus_sess_active; // blockmatch: asking for signals takes a call to the bus
extern int bus_live_msgs, bus_live_errs, bus_uses, bus_slots; // bus_uses: times logind was turned to
extern const char *bus_sess_pid, *bus_sess_display, *bus_sess_seat; // NULL: none
struct BusSess {
	const char *id, *path, *seat, *seatpath;
};
extern std::vector<BusSess> bus_sess; // the sessions there are; empty: one, whatever its name
void bus_reset();
BMsg *bus_new(int kind, int reply_to = -1);
int bus_send(BMsg *); // harness -> process
BMsg *bus_recv(); // process -> harness, NULL if none
BMsg *logind_reply(BMsg *, bool active);
extern std::function<void(BMsg *, bool)> bus_hook; // a message is about to be, or has been, handed to its handlers

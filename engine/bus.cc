#include "bus.h"
#include <errno.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <initializer_list>

#define X extern "C" __attribute__((visibility("default")))
struct sd_bus_error {
	const char *name, *message;
	int need_free;
};
std::vector<BMsg *> bus_msgs;
Bus BUS;
std::function<void(BMsg *, bool)> bus_hook;
static bool processing;
static long last_slot;
bool bus_blockmatch, bus_sess_active;
int bus_live_msgs, bus_live_errs, bus_uses, bus_slots;
const char *bus_sess_pid, *bus_sess_display, *bus_sess_seat;
std::vector<BusSess> bus_sess;
Alt bus_point(const char *name, std::initializer_list<int> errs);
X int sim_close(int);
X void *sim_malloc(size_t);
X char *sim_strdup(const char *);
X ssize_t sim_recv(int, void *, size_t, int);
X int sim_poll(struct pollfd *, unsigned long, int);
void *heap_alloc(Proc *, size_t, int);
bool heap_free(Proc *, void *);
int proc_get_errno(Proc *);
void proc_set_errno(Proc *, int);
// releasing something may leave anything in errno
static void junk() {
	if (cur) {
		proc_set_errno(cur, EXFULL);
	}
}
int sock_send(int, const char *, size_t, const int *, int);
int sock_recv(int, char *, size_t, std::vector<int> *);

void bus_reset() {
	for (auto m : bus_msgs) {
		if (m->of >= 0) {
			of_unref(m->of);
		}
		delete m;
	}
	bus_msgs.clear();
	BUS = Bus();
	BUS.fd = BUS.sock = -1;
	bus_hook = nullptr;
	processing = false;
	last_slot = 0;
	bus_live_msgs = bus_live_errs = bus_uses = bus_slots = 0;
	bus_sess_pid = bus_sess_display = bus_sess_seat = NULL;
	bus_sess.clear();
}
BMsg *bus_new(int kind, int reply_to) {
	BMsg *m = new BMsg();
	m->kind = kind;
	m->id = (int)bus_msgs.size();
	m->reply_to = reply_to;
	m->of = m->fd = -1;
	bus_msgs.push_back(m);
	return m;
}
int bus_send(BMsg *m) {
	int id = m->id;
	return h_send(BUS.sock, &id, 4);
}
BMsg *bus_recv() {
	int id;
	if (BUS.sock < 0 || h_recv(BUS.sock, &id, 4, NULL) != 4) {
		return NULL;
	}
	return bus_msgs[id];
}
static int seterr(sd_bus_error *e, const char *name, const char *msg) {
	if (e) {
		auto dup = [](const char *s) {
			size_t n = strlen(s) + 1;
			char *p = (char *)heap_alloc(cur, n, 0);
			memcpy(p, s, n);
			return p;
		};
		e->name = dup(name);
		e->message = dup(msg);
		e->need_free = 1;
		bus_live_errs++;
	}
	return 0;
}
static int errset(sd_bus_error *e, int en) {
	seterr(e, "org.freedesktop.DBus.Error.Failed", strerror(en));
	return -en;
}
static int psock() {
	int of = fd_of(BUS.owner, BUS.fd);
	return of < 0 ? -1 : K->of[of].obj;
}
// one message from the socket into the queue: 1, 0 nothing, <0 error
static int take() {
	int id;
	int s = psock();
	if (s < 0) {
		return -EBADF;
	}
	std::vector<int> ofs;
	int r = sock_recv(s, (char *)&id, 4, &ofs);
	if (r == 0) {
		BUS.lost = true;
		return -ECONNRESET;
	}
	if (r < 0) {
		return r == -EAGAIN ? 0 : r;
	}
	BMsg *m = bus_msgs[id];
	m->refs = 1;
	bus_live_msgs++;
	if (m->of >= 0) {
		m->fd = fd_alloc(cur, m->of, true);
		of_unref(m->of);
		m->of = -1;
	}
	BUS.rq.push_back(m);
	H->on_recv(cur, s, (char *)&id, 4, ofs);
	return 1;
}
X void sim_sd_bus_message_unref(BMsg *m);
X BMsg *sim_sd_bus_message_ref(BMsg *m) {
	m->refs++;
	return m;
}
static void unref(BMsg *m) {
	if (!m) {
		return;
	}
	if (m->refs <= 0) {
		report("L08", "a bus message is released more often than acquired");
		return;
	}
	if (--m->refs == 0) {
		bus_live_msgs--;
		for (auto &t : m->body) {
			for (auto &ch : t.s) {
				ch = '?'; // what was read from it is no longer there
			}
		}
		if (m->fd >= 0) {
			sim_close(m->fd);
			m->fd = -1;
		}
	}
}
X BMsg *sim_sd_bus_message_unrefp_(BMsg *m) { return m; }
X void sim_sd_bus_message_unref(BMsg *m) {
	unref(m);
	junk();
}
X void sim_sd_bus_error_free(sd_bus_error *e) {
	if (e && e->need_free > 0) {
		heap_free(cur, (void *)e->name);
		heap_free(cur, (void *)e->message);
		bus_live_errs--;
	}
	if (e) {
		e->name = e->message = NULL;
		e->need_free = 0;
	}
	junk();
}
X int sim_sd_bus_error_is_set(const sd_bus_error *e) { return e && e->name; }
X int sim_sd_bus_error_has_name(const sd_bus_error *e, const char *n) { return e && e->name && strcmp(e->name, n) == 0; }
X int sim_sd_bus_default_system(Bus **b) {
	bus_uses++;
	Alt a = bus_point("sd_bus_default_system", {ENOENT, ENOMEM});
	if (a.type == ALT_FAULT) {
		return -a.val;
	}
	if (BUS.refs > 0) { // per thread default bus
		BUS.refs++;
		*b = &BUS;
		return 1;
	}
	int s1, s2;
	h_socketpair(&s1, &s2);
	K->sock[s1].owner = cur->id;
	int of = of_new(OF_SOCK, s1, 2 | 04000);
	BUS.fd = fd_alloc(cur, of, true);
	BUS.sock = s2;
	BUS.owner = cur;
	BUS.refs = 1;
	BUS.lost = false;
	BUS.state = 0;
	*b = &BUS;
	return 1;
}
X Bus *sim_sd_bus_unref(Bus *b) {
	if (b && --b->refs == 0) {
		while (!b->rq.empty()) {
			unref(b->rq.front());
			b->rq.pop_front();
		}
		if (b->fd >= 0) {
			sim_close(b->fd);
		}
		b->fd = -1;
		b->matches.clear();
		b->pend.clear();
	}
	junk();
	return NULL;
}
X Bus *sim_sd_bus_flush_close_unref(Bus *b) {
	if (b && b->refs > 1) { // others lose it too
		if (b->fd >= 0) {
			sim_close(b->fd);
		}
		b->fd = -1;
		b->state = 2;
	}
	return sim_sd_bus_unref(b);
}
X int sim_sd_bus_get_fd(Bus *b) { return b->state == 2 ? -ENOTCONN : b->fd; }
X int sim_sd_bus_get_n_queued_read(Bus *b, uint64_t *n) {
	*n = b->rq.size();
	return 0;
}
X int sim_sd_bus_get_n_queued_write(Bus *, uint64_t *n) {
	*n = 0;
	return 0;
}
static int args(BMsg *m, const char *types, va_list ap) {
	for (const char *t = types ? types : ""; *t; t++) {
		BTok k = {*t, 0, 0, ""};
		switch (*t) {
		case 'u':
		case 'b':
		case 'i':
		case 'h':
			k.v = *t == 'u' ? (long)va_arg(ap, unsigned) : (long)va_arg(ap, int);
			break;
		case 's':
		case 'o': {
			const char *s = va_arg(ap, const char *);
			if (!s) {
				s = "";
			}
			k.s = s;
			break;
		}
		default:
			fprintf(stderr, "harness: bus type %c\n", *t);
			abort();
		}
		m->body.push_back(k);
	}
	return 0;
}
static int post(BMsg *m, const char *path, const char *iface, const char *member) {
	m->path = path;
	m->iface = iface;
	m->member = member;
	int id = m->id;
	int s = psock();
	if (s < 0 || BUS.lost || BUS.state) {
		return -ENOTCONN;
	}
	int r = sock_send(s, (char *)&id, 4, NULL, 0);
	if (r < 0) {
		return r == -EPIPE ? -ECONNRESET : r;
	}
	tracef("bus call %s.%s", iface, member);
	H->on_send(cur, s, (char *)&id, 4, {});
	return 0;
}
static int vcall(Bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, BMsg **reply, const char *types, va_list ap) {
	Alt a = bus_point("sd_bus_call", {ETIMEDOUT, EACCES});
	if (reply) {
		*reply = NULL;
	}
	if (a.type == ALT_FAULT) {
		return errset(e, a.val);
	}
	if (!path || !iface || !member) {
		return errset(e, EINVAL);
	}
	BMsg *m = bus_new(BM_CALL);
	m->peer = dest ? dest : "";
	args(m, types, ap);
	int r = post(m, path, iface, member);
	if (r < 0) {
		return errset(e, -r);
	}
	size_t seen = b->rq.size();
	while (true) {
		while ((r = take()) > 0) {
		}
		for (size_t i = 0; i < b->rq.size(); i++) {
			BMsg *q = b->rq[i];
			if ((q->kind == BM_REPLY || q->kind == BM_ERROR) && q->reply_to == m->id) {
				b->rq.erase(b->rq.begin() + i);
				if (q->kind == BM_ERROR) {
					seterr(e, q->errname.c_str(), q->errmsg.c_str());
					int en = q->err;
					unref(q);
					return -en;
				}
				if (reply) {
					*reply = q;
				} else {
					unref(q);
				}
				return 1;
			}
		}
		if (r < 0) {
			b->state = b->state ? b->state : 1;
			return errset(e, -r);
		}
		struct pollfd p = {b->fd, POLLIN, 0};
		if (sim_poll(&p, 1, -1) < 0) {
			int en = proc_get_errno(cur);
			if (en != EINTR) {
				return errset(e, en);
			}
		}
	}
	(void)seen;
}
X int sim_sd_bus_call_method(Bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, BMsg **reply, const char *types, ...) {
	va_list ap;
	va_start(ap, types);
	int r = vcall(b, dest, path, iface, member, e, reply, types, ap);
	va_end(ap);
	return r;
}
X int sim_sd_bus_call_method_async(Bus *b, void **, const char *dest, const char *path, const char *iface, const char *member, int (*h)(BMsg *, void *, void *), void *data, const char *types, ...) {
	Alt a = bus_point("sd_bus_call_async", {ENOMEM});
	if (a.type == ALT_FAULT) {
		return -a.val;
	}
	BMsg *m = bus_new(BM_CALL);
	va_list ap;
	va_start(ap, types);
	args(m, types, ap);
	va_end(ap);
	m->async = true;
	m->peer = dest ? dest : "";
	int r = post(m, path, iface, member);
	if (r < 0) {
		return r;
	}
	b->pend.push_back({m->id, h, data});
	return 1;
}
X int sim_sd_bus_get_property_trivial(Bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, char type, void *ptr) {
	BMsg *reply = NULL;
	struct Call {
		static int go(Bus *b, const char *dest, const char *path, sd_bus_error *e, BMsg **r, const char *types, ...) {
			va_list ap;
			va_start(ap, types);
			int x = vcall(b, dest, path, "org.freedesktop.DBus.Properties", "Get", e, r, types, ap);
			va_end(ap);
			return x;
		}
	};
	int r = Call::go(b, dest, path, e, &reply, "ss", iface, member);
	if (r < 0) {
		return r;
	}
	if (reply->body.size() != 1 || reply->body[0].t != type) {
		unref(reply);
		return errset(e, ENXIO);
	}
	*(int *)ptr = (int)reply->body[0].v; // like the real one, a whole int for 'b'
	unref(reply);
	return 1;
}
X int sim_sd_bus_match_signal(Bus *b, void **slot, const char *sender, const char *path, const char *iface, const char *member, int (*h)(BMsg *, void *, void *), void *data) {
	Alt a = bus_point("sd_bus_match_signal", {ENOMEM, EACCES});
	if (a.type == ALT_FAULT) {
		return -a.val;
	}
	if (b->state) {
		return -ENOTCONN;
	}
	if (bus_blockmatch) { // a call to the bus itself
		BMsg *reply = NULL;
		struct Call {
			static int go(Bus *b, BMsg **r, const char *types, ...) {
				va_list ap;
				va_start(ap, types);
				int x = vcall(b, "org.freedesktop.DBus", "/org/freedesktop/DBus", "org.freedesktop.DBus", "AddMatch", NULL, r, types, ap);
				va_end(ap);
				return x;
			}
		};
		int r = Call::go(b, &reply, "s", member);
		if (r < 0) {
			return r;
		}
		unref(reply);
	}
	b->matches.push_back({sender ? sender : "", path ? path : "", iface ? iface : "", member ? member : "", h, data, slot ? ++last_slot : 0});
	if (slot) {
		bus_slots++;
		BUS.refs++; // such a slot holds the bus
		*slot = (void *)(intptr_t)last_slot;
	}
	return 1;
}
X void *sim_sd_bus_slot_unref(void *slot) {
	if (!slot) {
		return NULL;
	}
	bus_slots--;
	for (size_t i = 0; i < BUS.matches.size(); i++) {
		if (BUS.matches[i].slot == (intptr_t)slot) {
			BUS.matches.erase(BUS.matches.begin() + i);
			break;
		}
	}
	return sim_sd_bus_unref(&BUS);
}
X int sim_sd_bus_message_is_method_error(BMsg *m, const char *name) {
	return m->kind == BM_ERROR && (!name || m->errname == name);
}
X const sd_bus_error *sim_sd_bus_message_get_error(BMsg *m) {
	static thread_local sd_bus_error e;
	if (m->kind != BM_ERROR) {
		return NULL;
	}
	e.name = m->errname.c_str();
	e.message = m->errmsg.c_str();
	return &e;
}
// --- reading ---
static int at_end(BMsg *m) { return m->pos >= m->body.size() || m->body[m->pos].t == ')'; }
static int read1(BMsg *m, char type, void *p) {
	if (m->pos >= m->body.size()) {
		return -ENXIO;
	}
	BTok &k = m->body[m->pos];
	if (k.t == ')') {
		return k.c == 'a' ? 0 : -ENXIO;
	}
	if (k.t != type) {
		return -ENXIO;
	}
	m->pos++;
	switch (type) {
	case 's':
	case 'o':
		*(const char **)p = k.s.c_str();
		break;
	case 'h':
		*(int *)p = m->fd;
		break;
	default:
		*(int *)p = (int)k.v;
	}
	return 1;
}
X int sim_sd_bus_message_read_basic(BMsg *m, char type, void *p) {
	Alt a = bus_point("sd_bus_message_read_basic", {EBADMSG});
	return a.type == ALT_FAULT ? -a.val : read1(m, type, p);
}
X int sim_sd_bus_message_read(BMsg *m, const char *types, ...) {
	Alt a = bus_point("sd_bus_message_read", {EBADMSG});
	if (a.type == ALT_FAULT) {
		return -a.val;
	}
	va_list ap;
	va_start(ap, types);
	int r = 1;
	for (const char *t = types; *t && r > 0; t++) {
		r = read1(m, *t, va_arg(ap, void *));
	}
	va_end(ap);
	return r;
}
X int sim_sd_bus_message_enter_container(BMsg *m, char type, const char *) {
	if (m->pos >= m->body.size()) {
		return -ENXIO;
	}
	BTok &k = m->body[m->pos];
	if (k.t == ')') {
		return k.c == 'a' ? 0 : -ENXIO;
	}
	if (k.t != '(' || k.c != type) {
		return -ENXIO;
	}
	m->pos++;
	return 1;
}
X int sim_sd_bus_message_exit_container(BMsg *m) {
	if (m->pos >= m->body.size() || m->body[m->pos].t != ')') {
		return -EBUSY;
	}
	m->pos++;
	return 1;
}
X int sim_sd_bus_message_skip(BMsg *m, const char *) {
	if (at_end(m)) {
		return -ENXIO;
	}
	int d = 0;
	do {
		d += m->body[m->pos].t == '(' ? 1 : m->body[m->pos].t == ')' ? -1 : 0;
		m->pos++;
	} while (d > 0);
	return 1;
}
X int sim_sd_bus_process(Bus *b, BMsg **ret) {
	if (processing) { // not from within a handler
		return -EBUSY;
	}
	Alt a = bus_point("sd_bus_process", {ECONNRESET});
	if (ret) {
		*ret = NULL;
	}
	if (a.type == ALT_FAULT) {
		return -a.val;
	}
	if (b->state == 2) {
		return -ECONNRESET;
	}
	BMsg *m;
	if (b->state == 1) { // first what waits for an answer, then the end
		if (b->pend.empty()) {
			sim_close(b->fd);
			b->fd = -1;
			b->state = 2;
			return 1;
		}
		m = bus_new(BM_ERROR, b->pend[0].id);
		m->errname = "org.freedesktop.DBus.Error.NoReply";
		m->errmsg = "Connection terminated";
		m->err = ETIMEDOUT;
		m->refs = 1;
		bus_live_msgs++;
	} else {
		if (b->rq.empty()) {
			int r = take();
			if (r == -ECONNRESET || r == -ENOTCONN || r == -EPIPE) {
				b->state = 1;
				return 1;
			}
			if (r <= 0) {
				return r;
			}
		}
		m = b->rq.front();
		b->rq.pop_front();
	}
	sd_bus_error e = {NULL, NULL, 0};
	b->refs++;
	processing = true;
	if (bus_hook) {
		bus_hook(m, true);
	}
	if (m->kind == BM_SIGNAL) {
		for (size_t i = 0; i < b->matches.size(); i++) {
			auto mt = b->matches[i];
			if ((mt.peer.empty() || mt.peer == m->peer) && (mt.path.empty() || mt.path == m->path) && (mt.iface.empty() || mt.iface == m->iface) && (mt.member.empty() || mt.member == m->member)) {
				m->pos = 0;
				mt.h(m, mt.data, &e);
			}
		}
	} else {
		for (size_t i = 0; i < b->pend.size(); i++) {
			if (b->pend[i].id == m->reply_to) {
				auto p = b->pend[i];
				b->pend.erase(b->pend.begin() + i);
				p.h(m, p.data, &e);
				break;
			}
		}
	}
	if (e.need_free) {
		sim_sd_bus_error_free(&e);
	}
	processing = false;
	if (bus_hook) {
		bus_hook(m, false);
	}
	unref(m);
	sim_sd_bus_unref(b);
	return 1;
}
// --- login queries ---
static int dupto(const char *s, char **o) {
	if (!s) {
		return -ENODATA;
	}
	char *p = (char *)sim_malloc(strlen(s) + 1);
	if (!p) {
		return -ENOMEM;
	}
	strcpy(p, s);
	*o = p;
	return 0;
}
static BusSess *sess_of(const char *id) {
	for (auto &x : bus_sess) {
		if (id && !strcmp(x.id, id)) {
			return &x;
		}
	}
	return NULL;
}
X int sim_sd_session_is_active(const char *s) {
	bus_uses++;
	Alt a = bus_point("sd_session_is_active", {ENXIO});
	return a.type == ALT_FAULT ? -a.val : !bus_sess.empty() && !sess_of(s) ? -ENXIO : bus_sess_active;
}
X int sim_sd_pid_get_session(pid_t, char **o) {
	bus_uses++;
	return dupto(bus_sess_pid, o);
}
X int sim_sd_uid_get_display(uid_t, char **o) {
	bus_uses++;
	return dupto(bus_sess_display, o);
}
X int sim_sd_session_get_seat(const char *s, char **o) {
	Alt a = bus_point("sd_session_get_seat", {ENXIO});
	if (a.type != ALT_FAULT && !bus_sess.empty()) {
		return sess_of(s) ? dupto(sess_of(s)->seat, o) : -ENXIO;
	}
	return a.type == ALT_FAULT ? -a.val : dupto(bus_sess_seat, o);
}

// logind's answer to a call, if all is well
BMsg *logind_reply(BMsg *m, bool active) {
	BMsg *r = bus_new(BM_REPLY, m->id);
	const char *path = "/org/freedesktop/login1/session/_31", *seatpath = "/org/freedesktop/login1/seat/seat0";
	if (!bus_sess.empty() && (m->member == "GetSession" || m->member == "GetSeat")) {
		const char *arg = m->body.empty() ? "" : m->body[0].s.c_str();
		path = seatpath = NULL;
		for (auto &x : bus_sess) {
			if (!strcmp(x.id, arg)) {
				path = x.path;
			}
			if (x.seat && !strcmp(x.seat, arg)) {
				seatpath = x.seatpath;
			}
		}
		if (!(m->member == "GetSession" ? path : seatpath)) {
			r->kind = BM_ERROR;
			r->err = ENXIO;
			r->errname = "org.freedesktop.login1.NoSuchThing";
			r->errmsg = "no such thing";
			return r;
		}
	}
	if (m->member == "GetSession") {
		r->body.push_back({'o', 0, 0, path});
	} else if (m->member == "GetSeat") {
		r->body.push_back({'o', 0, 0, seatpath});
	} else if (m->member == "Get") {
		r->body.push_back({'b', 0, active, ""});
	}
	return r;
}

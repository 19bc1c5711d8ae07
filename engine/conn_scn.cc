// T01, T02: two connections over one socket pair, against two byte streams and
// two descriptor queues.
#include "explore.h"
#include <errno.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <deque>

enum { PUT, FLUSH, READ, GET, RESTORE, PUTFD, GETFD, CLOSEFDS, RAWFD, HANGUP, OFFSET, GETALL };
static int mk(int kind, int e, int arg) { return kind << 11 | e << 10 | arg; }
static u8 fbyte(int e, u64 p) { return (u8)((p * 167 + (p >> 8) * 13 + e * 91) & 0xff); }

struct QFd {
	int of;
	u32 serial;
	u64 pos;
};
struct End {
	char *conn;
	int fd, sock;
	u64 put, limit, sent; // accepted by put; may be sent; sent
	std::deque<QFd> fdq;
	u64 fdput, rcv, got, restorable, fdgot;
	std::deque<QFd> fdin;
	bool dead, overflowed;
};

struct ConnScn : Scenario {
	Module *mod = nullptr;
	Proc *p;
	End e[2];
	int base, B, F, stage;
	bool faulted, sockfault, hung, in_read;
	std::vector<int> psizes, gsizes, fdsizes;
	int (*c_read)(void *), (*c_flush)(void *), (*c_put)(void *, const void *, size_t), (*c_put_fd)(void *, int);
	size_t (*c_pending)(void *);
	int (*c_get)(void *, void *, size_t), (*c_get_fd)(void *, int *);
	void (*c_close)(void *), (*c_restore)(void *, size_t);
	int (*counters)(void *, unsigned, unsigned, unsigned, unsigned);

	void nums(const char *k, const char *d, std::vector<int> &o) {
		std::string s = P.str(k, d);
		for (size_t i = 0; i < s.size();) {
			size_t c = s.find(',', i);
			if (c == std::string::npos) {
				c = s.size();
			}
			std::string t = s.substr(i, c - i);
			size_t pl = t.find('b');
			int v;
			if (t[0] == 'b') {
				v = B + atoi(t.c_str() + 1); // relative to the buffer size
			} else if (t[0] == 'f') {
				v = F + atoi(t.c_str() + 1);
			} else {
				v = atoi(t.c_str());
			}
			(void)pl;
			o.push_back(v);
			i = c + 1;
		}
	}
	template <class T> void get(T &f, const char *n) {
		f = (T)mod->sym(n);
		if (!f) {
			fprintf(stderr, "harness: no %s\n", n);
			exit(2);
		}
	}
	void load() override {
		mod = mod_load((SUTDIR + "/parts.so").c_str());
		get(c_read, "connection_read");
		get(c_flush, "connection_flush");
		get(c_put, "connection_put");
		get(c_put_fd, "connection_put_fd");
		get(c_pending, "connection_pending");
		get(c_get, "connection_get");
		get(c_get_fd, "connection_get_fd");
		get(c_close, "connection_close_fds");
		get(c_restore, "connection_restore");
		get(counters, "parts_conn_counters");
		B = ((int (*)())mod->sym("parts_bufsize"))();
		F = ((int (*)())mod->sym("parts_maxfds"))();
		nums("put", "1,300,b-1,b,b1", psizes);
		nums("get", "1,300,b", gsizes);
		nums("fds", "1,f-1", fdsizes);
	}
	int job(std::function<int()> f, int *err) {
		int r = 0, en = 0;
		proc_post(p, [&]() {
			extern void proc_set_errno(Proc *, int);
			extern int proc_get_errno(Proc *);
			proc_set_errno(p, 0);
			r = f();
			en = proc_get_errno(p);
		});
		proc_run(p, 20000);
		if (p->st == PS_EXITED) {
			report("T01", "the connection code ends the process: %s", p->crash);
			report("T02", "the connection code ends the process: %s", p->crash);
			r = -2;
		} else if (proc_busy(p)) {
			report("T01", "a connection call does not return");
			proc_kill(p, 9);
			r = -2;
		}
		if (err) {
			*err = en;
		}
		return r;
	}
	void setup() override {
		faulted = sockfault = hung = in_read = false;
		stage = 0;
		infl[0] = infl[1] = 0;
		p = proc_new(mod, 1000, 1000);
		proc_start_jobs(p);
		int s[2];
		h_socketpair(&s[0], &s[1]);
		size_t sz = ((size_t(*)())mod->sym("parts_conn_size"))();
		auto setfd = (void (*)(void *, int))mod->sym("parts_conn_setfd");
		for (int i = 0; i < 2; i++) {
			e[i] = End();
			e[i].sock = s[i];
			K->sock[s[i]].owner = p->id;
			K->sock[s[i]].cap = (u32)P.num("cap", 65536);
			int of = of_new(OF_SOCK, s[i], 2);
			e[i].fd = fd_alloc(p, of, true);
		}
		for (int i = 0; i < 2; i++) {
			job([&]() {
				extern void *heap_alloc(Proc *, size_t, int);
				e[i].conn = (char *)heap_alloc(p, sz, 0);
				setfd(e[i].conn, e[i].fd);
				long c = P.num("ctr", -1);
				if (c >= 0) {
					unsigned x = (unsigned)c & ~3u;
					counters(e[i].conn, (unsigned)c, (unsigned)c, x, x);
				}
				return 0;
			}, NULL);
		}
		base = proc_nfds(p);
		long off = P.num("off", 0), foff = P.num("fdoff", 0);
		for (long k = 0; k < off; k++) {
			act(mk(PUT, 0, 1));
			act(mk(FLUSH, 0, 0));
			act(mk(READ, 1, 0));
			act(mk(GET, 1, 1));
		}
		for (long k = 0; k < foff; k++) {
			act(mk(PUTFD, 0, 1));
			act(mk(PUT, 0, 1));
			act(mk(FLUSH, 0, 0));
			act(mk(READ, 1, 0));
			act(mk(GET, 1, 1));
			act(mk(GETFD, 1, 0));
		}
	}
	u64 unsent(int i) { return e[i].put - e[i].sent; }
	u64 pend(int i) { return e[i].rcv - e[i].got; }
	void check_fds(const char *after) {
		if (p->st == PS_EXITED) {
			return;
		}
		int want = base, n = proc_nfds(p);
		for (int i = 0; i < 2; i++) {
			want += (int)e[i].fdq.size() + (int)e[i].fdin.size();
		}
		if (e[0].overflowed || e[1].overflowed) {
			if (n > base + 4 * F) {
				report("T02", "%s: %d descriptors are open", after, n - base);
			}
		} else if (n != want) {
			report("T02", "%s: %d descriptors are open besides the sockets, %d are queued", after, n - base, want - base);
		}
	}
	void on_send(Proc *, int sock, const char *d, size_t n, const std::vector<int> &ofs) override {
		for (int i = 0; i < 2; i++) {
			if (e[i].sock != sock) {
				continue;
			}
			for (size_t k = 0; k < n; k++) {
				if (e[i].sent + k >= e[i].limit) {
					report("T01", "end %d sends %zu more bytes than were put", i, n - k);
					break;
				}
				if ((u8)d[k] != fbyte(i, e[i].sent + k)) {
					report("T01", "end %d sends a wrong byte at position %llu", i, (unsigned long long)(e[i].sent + k));
					break;
				}
			}
			e[i].sent += n;
			for (int of : ofs) {
				if (e[i].fdq.empty()) {
					report("T02", "end %d sends a descriptor that was not queued (or was sent before)", i);
					break;
				}
				QFd q = e[i].fdq.front();
				if (q.of != of || !same_of(q.of, q.serial)) {
					report("T02", "end %d sends descriptors out of order", i);
				}
				e[i].fdq.pop_front();
				e[1 - i].fdin.push_back(q); // in flight: moved to fdin when read
				infl[1 - i]++;
			}
			if (!e[i].fdq.empty() && e[i].fdq.front().pos < e[i].sent) {
				report("T02", "end %d sends data behind which a descriptor was queued without the descriptor", i);
			}
		}
	}
	int infl[2];
	int rcvfds;
	void on_recv(Proc *, int sock, const char *, size_t n, const std::vector<int> &ofs) override {
		for (int i = 0; i < 2; i++) {
			if (e[i].sock == sock) {
				e[i].rcv += n;
				infl[i] -= (int)ofs.size();
				rcvfds += (int)ofs.size();
			}
		}
	}
	void on_fdloss(Proc *, int sock, int n) override {
		for (int i = 0; i < 2; i++) {
			if (e[i].sock == sock) {
				rcvfds -= n;
				size_t at = e[i].fdin.size() - infl[i] - n;
				e[i].fdin.erase(e[i].fdin.begin() + at, e[i].fdin.begin() + at + n);
			}
		}
	}
	void on_badfd(Proc *, const char *w, int fd) override { report("T02", "%s on descriptor %d, which is not open", w, fd); }
	void on_fault(Proc *, const char *w, int err) override {
		faulted = true;
		if (!strcmp(w, "sendmsg") || !strcmp(w, "recvmsg")) {
			sockfault = true;
		}
	}
	void settle(int, const char *what) {
		// descriptors in flight are not open in the process
		int want = base, n = proc_nfds(p);
		if (p->st == PS_EXITED) {
			return;
		}
		for (int i = 0; i < 2; i++) {
			want += (int)e[i].fdq.size() + (int)e[i].fdin.size() - infl[i];
		}
		if (!e[0].overflowed && !e[1].overflowed && n != want) {
			report("T02", "after %s, %d descriptors are open besides the sockets but %d are queued", what, n - base, want - base);
		}
	}
	void act(int op) {
		int kind = op >> 11, i = op >> 10 & 1, a = op & 1023, en;
		End &x = e[i];
		faulted = sockfault = false;
		rcvfds = 0;
		if (p->st == PS_EXITED) {
			return;
		}
		switch (kind) {
		case PUT: {
			u64 un = unsent(i), put0 = x.put;
			std::string d;
			for (int k = 0; k < a; k++) {
				d += (char)fbyte(i, x.put + k);
			}
			x.limit = x.put + a;
			int r = job([&]() { return c_put(x.conn, d.data(), d.size()); }, &en);
			if (r == -2) {
				return;
			}
			if (r == -1) {
				x.limit = x.put;
				if (x.sent > put0) {
					report("T01", "a put of %d bytes failed but some of them were sent", a);
				}
				if ((u64)a + un <= (u64)B) {
					report("T01", "a put of %d bytes behind %llu fails with %s", a, (unsigned long long)un, strerror(en));
				}
				if (a <= B && unsent(i) == 0 && !faulted && !hung && !XC.shortio) {
					report("T01", "a put of %d bytes into an empty buffer fails with %s", a, strerror(en));
				}
			} else {
				if (a > B) {
					report("T01", "a put of %d bytes succeeds, the buffer has %d", a, B);
				}
				x.put += a;
				if (unsent(i) > (u64)B) {
					report("T01", "%llu bytes are held in a buffer of %d", (unsigned long long)unsent(i), B);
				}
			}
			break;
		}
		case FLUSH: {
			int r = job([&]() { return c_flush(x.conn); }, &en);
			if (r == -2) {
				return;
			}
			if (r >= 0 && unsent(i)) {
				report("T01", "flush returns %d with %llu bytes unsent", r, (unsigned long long)unsent(i));
			}
			if (r < 0 && en == EAGAIN && !unsent(i)) {
				report("T01", "flush reports EAGAIN with nothing left to send");
			}
			if (r < 0 && en != EAGAIN && !faulted && !hung) {
				report("T01", "flush fails with %s", strerror(en));
			}
			if (r < 0 && en == EAGAIN && !XC.shortio && !hung) {
				// the socket must indeed be full
				Sock *q = K->sock[x.sock].peer >= 0 ? &K->sock[K->sock[x.sock].peer] : NULL;
				if (q && q->hd - q->tl < q->cap) {
					report("T01", "flush gives up although the socket takes more");
				}
			}
			break;
		}
		case READ: {
			u64 room = (u64)B - pend(i), r0 = x.rcv;
			size_t avail = h_pending(x.sock);
			int fds0 = (int)x.fdin.size() - infl[i];
			int r = job([&]() { return c_read(x.conn); }, &en);
			if (r == -2) {
				return;
			}
			u64 n = x.rcv - r0;
			bool ovf = fds0 + rcvfds > F;
			x.restorable = 0;
			if (n > room) {
				report("T01", "%llu bytes are read into a buffer with room for %llu", (unsigned long long)n, (unsigned long long)room);
			}
			if (r < 0 && n) {
				x.dead = true;
			}
			if (ovf) {
				// more descriptors than fit: an error, and all surplus ones closed
				if (r >= 0) {
					report("T02", "%d descriptors are received with %d pending, %d fit, and no error is reported", rcvfds, fds0, F);
				}
				x.overflowed = x.dead = true;
			} else if (r > 0) {
				if ((u64)r != pend(i)) {
					report("T01", "read returns %d with %llu bytes available", r, (unsigned long long)pend(i));
				}
				if (!n) {
					report("T01", "read returns %d without having read anything", r);
				}
			} else if (r == 0) {
				if (!hung || avail) {
					report("T01", "read reports the end of the stream");
				}
			} else {
				if (n && !faulted) {
					report("T01", "read fails with %s and drops %llu bytes", strerror(en), (unsigned long long)n);
				}
				if (avail && room && !faulted && !XC.shortio) {
					report("T01", "read fails with %s although there is data and room", strerror(en));
				}
				if (hung && !avail && room && !faulted && !XC.shortio && en == EAGAIN) {
					report("T01", "read does not report the end of the stream");
				}
				if (room && !n && !faulted && en != EAGAIN && !hung) {
					report("T01", "read fails with %s", strerror(en));
				}
			}
			break;
		}
		case GET:
		case GETALL: {
			if (kind == GETALL) {
				a = (int)pend(i);
			}
			std::string d(a + 8, '\x5a');
			size_t before = 0, after = 0;
			int r = job([&]() {
				before = c_pending(x.conn);
				int rr = c_get(x.conn, &d[0], a);
				int k = 0;
				(void)k;
				extern int proc_get_errno(Proc *);
				extern void proc_set_errno(Proc *, int);
				int se = proc_get_errno(p);
				after = c_pending(x.conn);
				proc_set_errno(p, se);
				return rr;
			}, &en);
			if (r == -2 || x.dead) {
				break;
			}
			if (before != pend(i)) {
				report("T01", "%zu bytes are pending, should be %llu", before, (unsigned long long)pend(i));
			}
			if ((u64)a > pend(i)) {
				if (r != -1) {
					report("T01", "a get of %d succeeds with %llu bytes available", a, (unsigned long long)pend(i));
				}
				if (after != before) {
					report("T01", "a failed get consumes");
				}
			} else {
				if (r < 0) {
					report("T01", "a get of %d fails with %llu bytes available", a, (unsigned long long)pend(i));
					break;
				}
				for (int k = 0; k < a; k++) {
					if ((u8)d[k] != fbyte(1 - i, x.got + k)) {
						report("T01", "end %d receives a wrong byte at position %llu", i, (unsigned long long)(x.got + k));
						break;
					}
				}
				x.got += a;
				x.restorable += a;
				if (after != pend(i)) {
					report("T01", "a get of %d leaves %zu bytes, should be %llu", a, after, (unsigned long long)pend(i));
				}
			}
			for (int k = a; k < a + 8; k++) {
				if (d[k] != '\x5a') {
					report("T01", "a get writes beyond what was asked for");
				}
			}
			break;
		}
		case RESTORE: {
			u64 k = a == 0 ? x.restorable : (u64)a;
			if (k > x.restorable) {
				return;
			}
			size_t after = 0;
			job([&]() { c_restore(x.conn, k); after = c_pending(x.conn); return 0; }, &en);
			x.got -= k;
			x.restorable -= k;
			if (after != pend(i) && !x.dead) {
				report("T01", "%zu bytes are pending after restoring, should be %llu", after, (unsigned long long)pend(i));
			}
			break;
		}
		case PUTFD: {
			int er;
			int nul = node_lookup("/dev/null", true, &er);
			for (int k = 0; k < a; k++) {
				int of = of_new(OF_NODE, nul, 2);
				int fd = fd_alloc(p, of, true);
				if (fd < 0) {
					K->of[of].refs = 1;
					of_unref(of);
					break;
				}
				int r = job([&]() { return c_put_fd(x.conn, fd); }, &en);
				if (r == -2) {
					return;
				}
				if ((int)x.fdq.size() >= F) {
					if (r >= 0) {
						report("T02", "descriptor %d is queued, %d fit", (int)x.fdq.size() + 1, F);
					}
				} else if (r < 0) {
					report("T02", "queueing descriptor %d fails with %s", (int)x.fdq.size() + 1, strerror(en));
				}
				if (r < 0) {
					// still the caller's
					if (fd_of(p, fd) == of) {
						p->fd[fd].of = -1;
						of_unref(of);
					}
					break;
				}
				x.fdq.push_back({of, K->of[of].serial, x.put});
				x.fdput++;
			}
			break;
		}
		case GETFD: {
			int fd = -7;
			int r = job([&]() { return c_get_fd(x.conn, &fd); }, &en);
			if (r == -2) {
				return;
			}
			int have = (int)x.fdin.size() - infl[i];
			if (x.overflowed) {
				if (r == 0) {
					int of = fd_of(p, fd);
					if (of < 0) {
						report("T02", "end %d gets a descriptor that is not open", i);
					} else {
						p->fd[fd].of = -1;
						of_unref(of);
					}
				}
				break;
			}
			if (have == 0) {
				if (r != -1) {
					report("T02", "end %d gets a descriptor that was not sent", i);
				}
				break;
			}
			if (r != 0) {
				report("T02", "end %d does not get the descriptor it received", i);
				break;
			}
			QFd q = x.fdin.front();
			x.fdin.pop_front();
			x.fdgot++;
			int of = fd_of(p, fd);
			if (of != q.of || !same_of(q.of, q.serial)) {
				report("T02", "end %d gets another descriptor than the next one sent", i);
			}
			if (of >= 0) {
				if (!p->fd[fd].cloexec) {
					report("T02", "a received descriptor is inherited by programs executed");
				}
				p->fd[fd].of = -1;
				of_unref(of);
			}
			break;
		}
		case CLOSEFDS: {
			int r = job([&]() { c_close(x.conn); return 0; }, &en);
			if (r == -2) {
				return;
			}
			x.fdq.clear();
			// what has been read is closed, the rest is still in the socket
			while ((int)x.fdin.size() > infl[i]) {
				x.fdin.pop_front();
			}
			if (x.overflowed) {
				int want = base;
				for (int j = 0; j < 2; j++) {
					want += (int)e[j].fdq.size() + (j == i ? 0 : (int)e[j].fdin.size() - infl[j]);
				}
				if (!e[1 - i].overflowed && proc_nfds(p) != want) {
					report("T02", "after an overflow and closing the connection's descriptors %d more than queued are open", proc_nfds(p) - want);
				}
				x.overflowed = false;
			}
			break;
		}
		case RAWFD: {
			// a peer that is not this code sends a bytes' worth with a descriptors
			int er, nul = node_lookup("/dev/null", true, &er);
			std::vector<int> ofs;
			End &y = e[1 - i];
			for (int k = 0; k < a; k++) {
				ofs.push_back(of_new(OF_NODE, nul, 2));
			}
			char b = (char)fbyte(1 - i, y.put);
			int r = h_send(y.sock, &b, 1, ofs.data(), a);
			for (int of : ofs) {
				if (r == 1) {
					x.fdin.push_back({of, K->of[of].serial, y.put});
				} else {
					K->of[of].refs = 1;
					of_unref(of);
				}
			}
			if (r == 1) {
				infl[i] += a;
				y.put++;
				y.sent++;
				y.limit = y.put;
			}
			break;
		}
		case HANGUP: {
			int of = fd_of(p, e[1 - i].fd);
			p->fd[e[1 - i].fd].of = -1;
			base--;
			of_unref(of);
			hung = true;
			e[1 - i].dead = true;
			break;
		}
		case OFFSET:
			for (int k = 0; k < a; k++) {
				act(mk(PUT, 0, 1));
				act(mk(FLUSH, 0, 0));
				act(mk(READ, 1, 0));
				act(mk(GET, 1, 1));
			}
			break;
		}
		settle(i, op_name(op).c_str());
	}
	void apply(int op) override {
		stage++;
		act(op);
	}
	void ops(std::vector<int> &out) override {
		if (p->st == PS_EXITED) {
			return;
		}
		int sweep = (int)P.num("sweep", 0);
		if (sweep) {
			// every offset, every size
			if (stage == 0) {
				for (int k = 0; k < B; k += sweep) {
					out.push_back(mk(OFFSET, 0, k));
				}
			} else if (stage == 1) {
				for (int k = 1; k <= B; k += 1) {
					if (k <= 4 || k >= B - 4 || k % (int)P.num("sstep", 1) == 0) {
						out.push_back(mk(PUT, 0, k));
					}
				}
			} else if (stage == 2) {
				out.push_back(mk(FLUSH, 0, 0));
			} else if (stage == 3) {
				out.push_back(mk(READ, 1, 0));
			} else if (stage == 4) {
				out.push_back(mk(GETALL, 1, 0));
			}
			return;
		}
		std::string m = P.str("menu", "prfg");
		bool both = P.num("both", 0);
		for (int i = 0; i < 2; i++) {
			bool tx = both || i == 0, rx = both || i == 1;
			for (char c : m) {
				if (e[i].dead && c != 'x' && !(c == 'G' && rx) && !(c == 'g' && rx)) {
					continue;
				}
				if (tx && c == 'p') {
					for (int s : psizes) {
						out.push_back(mk(PUT, i, s));
					}
					out.push_back(mk(FLUSH, i, 0));
				} else if (rx && c == 'r') {
					out.push_back(mk(READ, i, 0));
				} else if (rx && c == 'g') {
					for (int s : gsizes) {
						out.push_back(mk(GET, i, s));
					}
				} else if (rx && c == 'b') {
					if (e[i].restorable) {
						out.push_back(mk(RESTORE, i, 0));
						if (e[i].restorable > 1) {
							out.push_back(mk(RESTORE, i, 1));
						}
					}
				} else if (tx && c == 'd') {
					for (int s : fdsizes) {
						out.push_back(mk(PUTFD, i, s));
					}
				} else if (rx && c == 'G') {
					out.push_back(mk(GETFD, i, 0));
				} else if (c == 'x') {
					out.push_back(mk(CLOSEFDS, i, 0));
				} else if (rx && c == 'w') {
					if (e[1 - i].put == e[1 - i].sent && !hung && e[1 - i].fdq.empty()) {
						for (int n : {1, 100, F - 1, F, F + 1, 200}) {
							out.push_back(mk(RAWFD, i, n));
						}
					}
				} else if (rx && c == 'h' && !hung) {
					out.push_back(mk(HANGUP, i, 0));
				}
			}
		}
	}
	void finish() override {
		if (p->st == PS_EXITED || P.num("sweep", 0)) {
			return;
		}
		// everything that was put arrives; then nothing is left open
		for (int k = 0; k < 12 && !hung; k++) {
			for (int i = 0; i < 2; i++) {
				if (!e[i].dead && !e[1 - i].dead) {
					act(mk(FLUSH, i, 0));
					act(mk(READ, 1 - i, 0));
					act(mk(GETALL, 1 - i, 0));
					while ((int)e[1 - i].fdin.size() - infl[1 - i] > 0 && !e[1 - i].overflowed && p->st != PS_EXITED && VIOL.empty()) {
						act(mk(GETFD, 1 - i, 0));
					}
				}
			}
		}
		if (!sockfault && !hung && VIOL.empty() && K->sock[e[0].sock].cap >= 64) {
			for (int i = 0; i < 2; i++) {
				if (!e[i].dead && !e[1 - i].dead && (unsent(i) || e[1 - i].got != e[i].put)) {
					report("T01", "only %llu of %llu bytes arrive at end %d", (unsigned long long)e[1 - i].got,
					       (unsigned long long)e[i].put, 1 - i);
				}
			}
		}
		act(mk(CLOSEFDS, 0, 0));
		act(mk(CLOSEFDS, 1, 0));
		if (p->st != PS_EXITED && proc_nfds(p) != base) {
			report("T02", "%d descriptors stay open after closing the connections' descriptors", proc_nfds(p) - base);
		}
	}
	u64 key() override {
		std::string s;
		auto add = [&](u64 v) { s.append((char *)&v, 8); };
		for (int i = 0; i < 2; i++) {
			End &x = e[i];
			add(x.put % B);
			add(unsent(i));
			add(x.rcv % B);
			add(pend(i));
			add(x.restorable);
			add(x.fdput % F);
			add(x.fdq.size());
			for (auto &q : x.fdq) {
				add(x.put - q.pos);
			}
			add(x.fdgot % F);
			add(x.fdin.size());
			add(infl[i]);
			add(x.dead | x.overflowed << 1 | hung << 2);
			Sock *k = &K->sock[x.sock];
			for (u32 b = k->skb_tl; b != k->skb_hd; b++) {
				add(SB[x.sock].skb[b % SKBMAX].len);
				add(SB[x.sock].skb[b % SKBMAX].nfds);
			}
			add(k->err);
		}
		add(stage * (P.num("sweep", 0) ? 1 : 0));
		add(proc_nfds(p));
		return hash_bytes(s.data(), s.size(), 3);
	}
	std::string op_name(int op) override {
		static const char *n[] = {"puts ", "flushes", "reads", "gets ", "restores ", "queues descriptors: ", "takes a descriptor",
					  "closes its descriptors", "is sent descriptors: ", "sees its peer close", "passes bytes: ", "gets all"};
		int k = op >> 11, a = op & 1023;
		std::string r = std::string("end ") + (op >> 10 & 1 ? "B " : "A ") + n[k];
		if (k == PUT || k == GET || k == RESTORE || k == PUTFD || k == RAWFD || k == OFFSET) {
			r += k == RESTORE && !a ? "all" : std::to_string(a);
		}
		return r;
	}
};
SCENARIO("conn", ConnScn)

// P01, P02: the poller against what the (simulated) kernel reported.
#include "explore.h"
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>

bool deliver_signals();
void *heap_alloc(Proc *, size_t, int);
void proc_set_errno(Proc *, int);
int proc_get_errno(Proc *);

struct PollerScn;
static PollerScn *S;

enum { RIN = 1, ROUT = 2, RERR = 4, RHUP = 8 };
struct Src {
	int slot, gen, fd;
	int mask; // RIN | ROUT
	bool live;
	short ready; // RIN...
	int expect; // RIN...: to be called with this before the iteration ends
	void *es;
};
struct SigSrc {
	int slot, sig;
	bool live, owed, adding;
	int delivered, calls;
	void *es;
};
struct PollerScn : Scenario {
	Module *mod = nullptr;
	Proc *p;
	int NS, NG; // slots
	char *pl;
	std::vector<Src> src;
	std::vector<SigSrc> sg;
	std::vector<int> fds; // per slot
	std::vector<int> free_fds; // for bulk
	std::vector<short> ready; // per slot
	int acts[4], sacts[4];
	std::vector<int> rdy, actm, sactm, masks, bulks;
	bool iter, in_call, faulted, ended;
	std::string since; // changes since the last wait
	int depth_act, polls;
	int ret, ret_errno;
	int (*f_init)(void *), (*f_finish)(void *), (*f_poll)(void *);
	void *(*f_add)(void *, int, u32, int (*)(int, u32, void *), void *);
	void *(*f_sadd)(void *, int, int (*)(int, void *), void *);
	int (*f_del)(void *), (*f_upd)(void *, u32), (*f_sdel)(void *);
	unsigned (*f_mask)(unsigned, unsigned, unsigned, unsigned);

	template <class T> void get(T &f, const char *n) {
		f = (T)mod->sym(n);
		if (!f) {
			fprintf(stderr, "harness: no %s\n", n);
			exit(2);
		}
	}
	std::vector<int> nums(const char *k, const char *d) {
		std::vector<int> o;
		std::string s = P.str(k, d);
		for (size_t i = 0; i < s.size();) {
			size_t c = s.find(',', i);
			c = c == std::string::npos ? s.size() : c;
			o.push_back(atoi(s.substr(i, c - i).c_str()));
			i = c + 1;
		}
		return o;
	}
	void load() override {
		S = this;
		mod = mod_load((SUTDIR + "/parts.so").c_str());
		get(f_init, "poller_init");
		get(f_finish, "poller_finish");
		get(f_poll, "poller_poll");
		get(f_add, "poller_add_fd");
		get(f_sadd, "poller_add_signal");
		get(f_del, "event_source_fd_destroy");
		get(f_upd, "event_source_fd_update");
		get(f_sdel, "event_source_signal_destroy");
		get(f_mask, "parts_mask");
		NS = (int)P.num("slots", 3);
		NG = (int)P.num("sigs", 0);
		rdy = nums("rdy", "9");
		masks = nums("masks", "1");
		actm = nums("acts", "1,2,3,4,5,6,7,8,9");
		sactm = nums("sacts", "1,2,3,4,5,6,7");
		bulks = nums("bulk", "");
		PIPECAP = (int)P.num("pipecap", 4096);
	}
	unsigned tr(int m) { return f_mask(m & RIN, m & ROUT, m & RERR, m & RHUP); }
	static int sigof(int slot) { return slot < 2 ? SIGUSR1 : SIGUSR2; }

	// --- the poller's functions, called as the process ---
	static int cb_fd(int fd, u32 mask, void *data) { return S->called(fd, mask, (int)(long)data); }
	static int cb_sig(int sig, void *data) { return S->sigcalled(sig, (int)(long)data); }
	Src *live(int slot) {
		for (auto &s : src) {
			if (s.slot == slot && s.live) {
				return &s;
			}
		}
		return NULL;
	}
	SigSrc *slive(int slot) {
		for (auto &s : sg) {
			if (s.slot == slot && s.live) {
				return &s;
			}
		}
		return NULL;
	}
	void add(int slot, int mask) {
		int gen = (int)src.size();
		Src s = {};
		s.slot = slot;
		s.gen = gen;
		s.mask = mask;
		s.fd = fds[slot];
		s.live = true;
		src.push_back(s);
		bool f0 = faulted;
		faulted = false;
		void *es = f_add(pl, s.fd, tr(mask), cb_fd, (void *)(long)gen);
		if (!es) {
			if (!faulted) {
				report("P01", "adding a source fails");
			}
			src[gen].live = false;
		} else {
			src[gen].es = es;
		}
		faulted |= f0;
		since += "a" + std::to_string(slot);
	}
	void del(int slot) {
		Src *s = live(slot);
		s->live = false;
		s->expect = 0;
		f_del(s->es);
		since += "d" + std::to_string(slot);
	}
	void upd(int slot, int mask) {
		Src *s = live(slot);
		s->mask = mask;
		f_upd(s->es, tr(mask));
		since += "u";
	}
	void sadd(int slot) {
		int gen = (int)sg.size();
		SigSrc s = {};
		s.slot = slot;
		s.sig = sigof(slot);
		s.live = false; // until registered
		s.adding = true;
		sg.push_back(s);
		void *es = f_sadd(pl, s.sig, cb_sig, (void *)(long)gen);
		if (es) {
			sg[gen].es = es;
			sg[gen].live = true;
		} else if (!faulted) {
			report("P02", "adding a signal source fails");
		}
		sg[gen].adding = false;
		since += "A" + std::to_string(slot);
	}
	void sdel(int slot) {
		SigSrc *s = slive(slot);
		s->live = s->owed = false;
		f_sdel(s->es);
		since += "D" + std::to_string(slot);
	}
	void raise(int sig) {
		bool any = false;
		for (auto &s : sg) {
			any |= s.live && s.sig == sig;
		}
		if (any) {
			proc_signal(p, sig);
			deliver_signals();
		}
	}
	int called(int fd, u32 mask, int gen) {
		if (gen < 0 || gen >= (int)src.size()) {
			report("P01", "a callback is called with another pointer than it was registered with");
			return 0;
		}
		Src &s = src[gen];
		if (!s.live) {
			report("P01", "the callback of a removed source is called");
			return 0;
		}
		if (!s.expect) {
			report("P01", "the callback of a source that is not ready is called");
		} else {
			if (fd != s.fd) {
				report("P01", "a callback is told descriptor %d, its source has %d", fd, s.fd);
			}
			if (mask != tr(s.expect)) {
				report("P01", "a callback is told events %#x, the system reported %#x", mask, tr(s.expect));
			}
		}
		s.expect = 0;
		tracef("callback of source %d", s.slot);
		if (s.slot >= NS || depth_act) {
			return 0;
		}
		int slot = s.slot, a = acts[slot];
		acts[slot] = 0;
		in_call = true;
		switch (a) {
		case 1:
			del(slot);
			break;
		case 2: // another one
		case 3: {
			int o = (slot + (a == 2 ? 1 : NS - 1)) % NS;
			if (live(o)) {
				del(o);
			}
			break;
		}
		case 4:
			upd(slot, s.mask == RIN ? ROUT : RIN);
			break;
		case 5:
			for (int o = 0; o < NS; o++) {
				if (o != slot && live(o)) {
					upd(o, live(o)->mask == RIN ? ROUT : RIN);
				}
			}
			break;
		case 6:
			for (int o = 0; o < NS; o++) {
				if (!live(o)) {
					add(o, RIN);
					break;
				}
			}
			break;
		case 7:
			del(slot);
			add(slot, RIN | ROUT);
			break;
		case 8: {
			int o = (slot + 1) % NS;
			if (live(o)) {
				del(o);
				add(o, RIN);
			}
			break;
		}
		case 9:
			for (int o = 0; o < NS; o++) {
				if (live(o)) {
					del(o);
				}
			}
			break;
		case 10:
			bulk_add(20);
			break;
		case 11:
			raise(SIGUSR1);
			break;
		case 12: // remove and add to reuse its memory
			if (live((slot + 1) % NS)) {
				del((slot + 1) % NS);
			}
			upd(slot, RIN | ROUT);
			break;
		case 13:
			if (slive(0)) {
				sdel(0);
			}
			break;
		}
		in_call = false;
		return 0;
	}
	int sigcalled(int sig, int gen) {
		if (gen < 0 || gen >= (int)sg.size()) {
			report("P02", "a signal callback is called with another pointer than it was registered with");
			return 0;
		}
		SigSrc &s = sg[gen];
		tracef("signal callback %d", s.slot);
		if (!s.live) {
			report("P02", "the callback of a removed signal source is called");
			return 0;
		}
		if (sig != s.sig) {
			report("P02", "a signal callback is told signal %d, not %d", sig, s.sig);
		}
		s.owed = false;
		s.calls++;
		if (s.calls > s.delivered) {
			report("P02", "a signal callback is called %d times for %d deliveries", s.calls, s.delivered);
		}
		int slot = s.slot, a = sacts[slot];
		sacts[slot] = 0;
		switch (a) {
		case 1:
			sdel(slot);
			break;
		case 2: {
			int o = (slot + 1) % NG;
			if (slive(o)) {
				sdel(o);
			}
			break;
		}
		case 3:
			raise(s.sig);
			break;
		case 4:
			raise(s.sig == SIGUSR1 ? SIGUSR2 : SIGUSR1);
			break;
		case 5:
			for (int o = 0; o < NG; o++) {
				if (!slive(o)) {
					sadd(o);
					break;
				}
			}
			break;
		case 6:
			if (live(0)) {
				del(0);
			}
			break;
		case 7:
			sdel(slot);
			sadd(slot);
			break;
		case 8: // a source on a descriptor
			for (int o = 0; o < NS; o++) {
				if (!live(o)) {
					add(o, RIN);
					break;
				}
			}
			break;
		case 9:
			if (live(0)) {
				upd(0, live(0)->mask == RIN ? ROUT : RIN);
			}
			break;
		case 10:
			if (live(0)) {
				del(0);
				add(0, RIN);
			}
			break;
		case 11:
			bulk_add(20);
			break;
		}
		return 0;
	}
	void bulk_add(int n) {
		int er, nul = node_lookup("/dev/null", true, &er);
		for (int i = 0; i < n; i++) {
			int slot = (int)fds.size();
			fds.push_back(fd_alloc(p, of_new(OF_NODE, nul, 2), true));
			static const short pat[] = {RIN, 0, ROUT, RHUP, RERR, RIN | ROUT, 0, 0, RIN};
			ready.push_back(pat[slot % 9]);
			add(slot, 1 + slot % 3);
		}
	}

	// --- what the kernel reports ---
	int now(const Src &s) { return s.live ? (ready[s.slot] & (s.mask | RERR | RHUP)) : 0; }
	short revents(Proc *, int fd, short events, short r) override {
		for (size_t i = 0; i < fds.size(); i++) {
			if (fds[i] == fd) {
				int m = ready[i];
				short o = (m & RIN ? POLLIN : 0) | (m & ROUT ? POLLOUT : 0) | (m & RERR ? POLLERR : 0) |
					  (m & RHUP ? POLLHUP : 0);
				return o & (events | POLLERR | POLLHUP);
			}
		}
		return r;
	}
	void missed(const char *when) {
		for (auto &s : src) {
			if (s.live && s.expect) {
				report("P01", "%s, the callback of source %d was not called for events the system reported", when, s.slot);
				s.expect = 0;
			}
		}
	}
	void on_poll(Proc *) override { missed("when waiting again"); }
	void on_pollret(Proc *, struct pollfd *, int) override {
		for (auto &s : src) {
			s.expect = now(s);
		}
		since.clear();
		polls++;
	}
	void on_handler(Proc *, int sig, int e0, int e1) override {
		if (e0 != e1) {
			report("P02", "the signal handler changes errno from %s to %s", strerror(e0), strerror(e1));
		}
		for (auto &s : sg) {
			if (s.live && s.sig == sig) {
				s.owed = true;
				s.delivered++;
			} else if (s.adding && s.sig == sig) {
				s.delivered++; // may or may not count
			}
		}
	}
	void on_fault(Proc *, const char *, int) override { faulted = true; }
	int ninject() override {
		int n = 0;
		for (int sig : {SIGUSR1, SIGUSR2}) {
			bool any = false;
			for (auto &s : sg) {
				any |= s.live && s.sig == sig;
			}
			n = any ? (sig == SIGUSR1 ? 1 : 2) : n;
		}
		return n;
	}
	void inject(int i) override {
		int sig = i ? SIGUSR2 : SIGUSR1;
		bool any = false;
		for (auto &s : sg) {
			any |= s.live && s.sig == sig;
		}
		if (any) {
			tracef("signal %d", sig);
			proc_signal(p, sig);
		}
	}

	// --- scenario ---
	void run() {
		proc_run(p, 20000);
		if (p->st == PS_EXITED) {
			report("P01", "the poller ends the process: %s", p->crash);
			report("P02", "the poller ends the process: %s", p->crash);
			return;
		}
		if (p->st == PS_READY) {
			report("P01", "a poller call does not return");
			report("P02", "a poller call does not return");
			proc_kill(p, 9);
			return;
		}
		if (proc_busy(p)) {
			// waiting
			for (auto &s : src) {
				if (now(s)) {
					report("P01", "the poller waits although source %d is ready", s.slot);
				}
			}
			for (auto &s : sg) {
				if (s.owed && !p->sigpend) {
					report("P02", "the poller waits although signal %d was delivered and its callback not called since", s.sig);
				}
			}
		}
	}
	void job(std::function<void()> f) {
		proc_post(p, f);
		run();
	}
	void setup() override {
		src.clear();
		sg.clear();
		fds.clear();
		ready.clear();
		since.clear();
		iter = in_call = faulted = ended = false;
		depth_act = polls = 0;
		memset(acts, 0, sizeof acts);
		memset(sacts, 0, sizeof sacts);
		src.reserve(4000);
		sg.reserve(1000);
		p = proc_new(mod, 1000, 1000);
		proc_start_jobs(p);
		Frozen fr;
		int er, nul = node_lookup("/dev/null", true, &er);
		for (int i = 0; i < NS; i++) {
			fds.push_back(fd_alloc(p, of_new(OF_NODE, nul, 2), true));
			ready.push_back(0);
		}
		size_t sz = ((size_t(*)())mod->sym("parts_poller_size"))();
		job([&]() {
			pl = (char *)heap_alloc(p, sz, 0);
			if (f_init(pl)) {
				report("P01", "the poller cannot be set up");
			}
			for (long i = P.num("pre", 0); i > 0; i--) {
				bulk_add(1);
			}
			for (long i = 0; i < P.num("srcs", 0); i++) {
				add((int)i, masks[0]);
			}
			for (long i = 0; i < P.num("ssrcs", 0); i++) {
				sadd((int)i);
			}
		});
	}
	enum { ADD, DEL, UPD, SADD, SDEL, POLL, SIGNAL, BULK };
	static int mk(int k, int v) { return k << 27 | v; }
	void start_poll() {
		job([this]() {
			iter = true;
			proc_set_errno(p, 0);
			ret = f_poll(pl);
			ret_errno = proc_get_errno(p);
			iter = false;
			if (ret < 0 && !faulted) {
				report("P01", "the poller fails with %s", strerror(ret_errno));
				report("P02", "the poller fails with %s", strerror(ret_errno));
			}
			if (ret >= 0) {
				missed("at the end of the iteration");
			}
			for (auto &s : src) {
				s.expect = 0;
			}
		});
	}
	void apply(int op) override {
		int k = op >> 27, v = op & ((1 << 27) - 1);
		faulted = false;
		switch (k) {
		case ADD:
			job([&]() { add(v >> 4, v & 15); });
			break;
		case DEL:
			job([&]() { del(v); });
			break;
		case UPD:
			job([&]() { upd(v >> 4, v & 15); });
			break;
		case SADD:
			job([&]() { sadd(v); });
			break;
		case SDEL:
			job([&]() { sdel(v); });
			break;
		case BULK:
			job([&]() { bulk_add(v); });
			break;
		case SIGNAL:
			proc_signal(p, v);
			run();
			break;
		case POLL:
			for (int i = 0; i < NS; i++) {
				int x = v >> (7 * i) & 127;
				ready[i] = x & 7 ? rdy[(x & 7) - 1] : 0;
				acts[i] = x >> 3;
			}
			for (int i = 0; i < NG; i++) {
				sacts[i] = v >> (7 * NS + 4 * i) & 15;
			}
			if (proc_busy(p)) {
				run();
			} else {
				start_poll();
			}
			for (int i = 0; i < NS; i++) {
				acts[i] = 0;
				if (!proc_busy(p)) {
					ready[i] = 0;
				}
			}
			break;
		}
	}
	void combos(std::vector<int> &out, int slot, int v, int nact) {
		if (slot == NS + NG) {
			out.push_back(mk(POLL, v));
			return;
		}
		int maxact = (int)P.num("nact", 2);
		combos(out, slot + 1, v, nact);
		if (slot < NS) {
			if (!live(slot)) {
				// readiness of a descriptor that is not watched must not matter
				if (P.num("unwatched", 0)) {
					combos(out, slot + 1, v | 1 << (7 * slot), nact);
				}
				return;
			}
			for (size_t r = 0; r < rdy.size(); r++) {
				combos(out, slot + 1, v | (int)(r + 1) << (7 * slot), nact);
				if (nact < maxact && rdy[r] & (live(slot)->mask | RERR | RHUP)) {
					for (int a : actm) {
						combos(out, slot + 1, v | ((int)(r + 1) | a << 3) << (7 * slot), nact + 1);
					}
				}
			}
		} else if (slive(slot - NS) && nact < maxact) {
			for (int a : sactm) {
				combos(out, slot + 1, v | a << (7 * NS + 4 * (slot - NS)), nact + 1);
			}
		}
	}
	void ops(std::vector<int> &out) override {
		if (p->st == PS_EXITED) {
			return;
		}
		if (!proc_busy(p)) {
			for (int i = 0; i < NS; i++) {
				if (!live(i)) {
					for (int m : masks) {
						out.push_back(mk(ADD, i << 4 | m));
					}
				} else {
					if (P.num("outside", 1)) {
						for (int m : masks) {
							if (m != live(i)->mask) {
								out.push_back(mk(UPD, i << 4 | m));
							}
						}
						out.push_back(mk(DEL, i));
					}
				}
			}
			for (int i = 0; i < NG; i++) {
				out.push_back(slive(i) ? mk(SDEL, i) : mk(SADD, i));
			}
			if ((int)fds.size() < 200) {
				for (int n : bulks) {
					out.push_back(mk(BULK, n));
				}
			}
		}
		combos(out, 0, 0, 0);
		int n = ninject();
		if (n > 0 && P.num("signal", 1)) {
			for (int sig : {SIGUSR1, SIGUSR2}) {
				for (auto &s : sg) {
					if (s.live && s.sig == sig) {
						out.push_back(mk(SIGNAL, sig));
						break;
					}
				}
			}
		}
	}
	void finish() override {
		// nothing is ready from now on, every signal has been delivered
		for (int i = 0; i < 8 && p->st != PS_EXITED && VIOL.empty(); i++) {
			for (auto &r : ready) {
				r = 0;
			}
			if (proc_busy(p)) {
				run();
				if (proc_busy(p)) {
					break;
				}
			} else {
				start_poll();
			}
		}
		if (p->st != PS_EXITED && VIOL.empty() && !proc_busy(p)) {
			report("P02", "the poller keeps returning although nothing happens");
		}
	}
	u64 key() override {
		std::string s = since;
		auto a = [&](u64 v) { s.append((char *)&v, 8); };
		a(proc_busy(p));
		for (auto &x : src) {
			if (x.live) {
				a(x.slot | x.mask << 16);
			}
		}
		for (int i = 0; i < NS; i++) {
			a(ready[i]);
		}
		for (auto &x : sg) {
			if (x.live) {
				a(x.slot | x.owed << 8 | std::min(x.delivered - x.calls, 3) << 9);
			}
		}
		a(fds.size());
		a(p->sigpend);
		for (int i = 0; i < K->npipe; i++) {
			a(K->pipe[i].hd - K->pipe[i].tl);
		}
		for (int g : {SIGUSR1, SIGUSR2}) {
			a(p->sig[g].h == SIG_DFL);
		}
		return proc_heap_shape(p, hash_bytes(s.data(), s.size(), 5));
	}
	std::string op_name(int op) override {
		int k = op >> 27, v = op & ((1 << 27) - 1);
		static const char *rn[] = {"", "in", "out", "in+out", "err", "in+err", "out+err", "in+out+err", "hup", "in+hup",
					   "out+hup", "in+out+hup", "err+hup", "in+err+hup", "out+err+hup", "all"};
		static const char *an[] = {"", "removes itself", "removes the next", "removes the previous", "changes its mask",
					   "changes the others' masks", "adds a source", "replaces itself", "replaces the next",
					   "removes all", "adds 20 sources", "raises SIGUSR1", "removes the next and changes its mask",
					   "removes signal source 0"};
		static const char *sn[] = {"", "removes itself", "removes the next", "raises its signal", "raises the other signal",
					   "adds a source", "removes source 0", "replaces itself",
					   "adds a descriptor", "changes source 0's mask", "replaces source 0", "adds 20 descriptors"};
		switch (k) {
		case ADD:
			return "add source " + std::to_string(v >> 4) + " for " + rn[v & 15];
		case DEL:
			return "remove source " + std::to_string(v);
		case UPD:
			return "change source " + std::to_string(v >> 4) + " to " + rn[v & 15];
		case SADD:
			return "add signal source " + std::to_string(v) + " for " + strsignal(sigof(v));
		case SDEL:
			return "remove signal source " + std::to_string(v);
		case SIGNAL:
			return std::string("signal ") + strsignal(v);
		case BULK:
			return "add " + std::to_string(v) + " sources";
		}
		std::string r = "poll";
		for (int i = 0; i < NS; i++) {
			int x = v >> (7 * i) & 127;
			if (x) {
				r += ", source " + std::to_string(i) + " ready for " + rn[x & 7 ? rdy[(x & 7) - 1] : 0];
				if (x >> 3) {
					r += std::string(" and then ") + an[x >> 3];
				}
			}
		}
		for (int i = 0; i < NG; i++) {
			int x = v >> (7 * NS + 4 * i) & 15;
			if (x) {
				r += ", signal source " + std::to_string(i) + " when called " + sn[x];
			}
		}
		return r;
	}
};
SCENARIO("poller", PollerScn)

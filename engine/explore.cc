#include "explore.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

std::string SUTDIR = ".";
static std::map<std::string, ScnFactory> &reg() {
	static std::map<std::string, ScnFactory> r;
	return r;
}
void scn_register(const char *n, ScnFactory f) { reg()[n] = f; }

struct NodeRec {
	u32 parent;
	u32 op;
	u8 ndev, depth, budget, pad;
	Dev d[2];
	u64 key;
};
enum { MAXNODES = 40 << 20 };
enum { VISBITS = 27 };
struct VRec {
	u32 parent;
	u32 op;
	u8 ndev, valid;
	Dev d[2];
	u8 known;
	char prop[8];
	char msg[600];
};
struct Slot {
	std::atomic<u32> parent;
	std::atomic<u32> op;
	std::atomic<u32> dev[2];
	std::atomic<u32> ndev;
	std::atomic<u64> execs;
	std::atomic<int> busy;
};
struct Shared {
	std::atomic<u32> nnodes, next, layer_end;
	std::atomic<u64> execs, states, trans, points, devruns, validated, finishes;
	std::atomic<int> active, stop, timeup, maxdepth, truncated, keymismatch;
	std::atomic<int> nviol, vlock, nviol_known;
	VRec viol[64];
	std::atomic<u32> nmiss, nsamples;
	char samples[6][600];
	Slot slot[64];
};
static Shared *SH;
static NodeRec *ND;
static std::atomic<u64> *VIS;
static Scenario *S;
static std::string target;
static int maxdepth, maxbudget, devper, njobs;
static double tlimit;
static u64 maxstates;
static std::vector<std::string> known;
static int worker_id;
static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static double t0;

static bool visit(u64 k) {
	if (k == 0) {
		k = 1;
	}
	u64 mask = (1ull << VISBITS) - 1;
	u64 i = (k * 0x9E3779B97F4A7C15ull) >> (64 - VISBITS);
	for (u64 n = 0; n <= mask; n++, i = (i + 1) & mask) {
		u64 v = VIS[i].load(std::memory_order_relaxed);
		if (v == k) {
			return false;
		}
		if (v == 0) {
			u64 exp = 0;
			if (VIS[i].compare_exchange_strong(exp, k)) {
				return true;
			}
			if (exp == k) {
				return false;
			}
		}
	}
	return false;
}

struct Step {
	u32 op;
	u8 ndev;
	Dev d[2];
};
static void path_of(u32 node, std::vector<Step> &out) {
	std::vector<Step> r;
	while (node != 0) {
		NodeRec &n = ND[node];
		Step s;
		s.op = n.op;
		s.ndev = n.ndev;
		s.d[0] = n.d[0];
		s.d[1] = n.d[1];
		r.push_back(s);
		node = n.parent;
	}
	out.assign(r.rbegin(), r.rend());
}
static void do_step(const Step &st, bool record) {
	SC.ndev = st.ndev;
	for (int i = 0; i < st.ndev; i++) {
		SC.dev[i] = st.d[i];
	}
	SC.pt = 0;
	SC.arity.clear();
	SC.record = record;
	SC.frozen = false;
	S->apply(st.op);
	SC.record = false;
	SC.frozen = true;
	SC.ndev = 0;
}
static void run_path(const std::vector<Step> &path) {
	VIOL.clear();
	SC.frozen = true;
	SC.ndev = 0;
	SC.record = false;
	sim_reset();
	H = S;
	S->setup();
	for (auto &s : path) {
		if (TRACE) {
			printf("-- %s", S->op_name(s.op).c_str());
			for (int i = 0; i < s.ndev; i++) {
				printf("  [deviation %u at point %u]", s.d[i].alt, s.d[i].point);
			}
			printf("\n");
		}
		do_step(s, false);
		if (TRACE) {
			std::string d = S->describe();
			if (!d.empty()) {
				printf("   => %s\n", d.c_str());
			}
		}
	}
}
static bool relevant(const Viol &v) { return target.empty() || v.prop == target; }
static std::string crash_tag(int st);

static void add_viol(u32 parent, const Step *st, const std::string &prop, const std::string &msg) {
	bool isknown = false;
	for (auto &k : known) {
		if (msg.find(k) != std::string::npos) {
			isknown = true;
		}
	}
	while (SH->vlock.exchange(1)) {
		usleep(10);
	}
	bool dup = false;
	for (int i = 0; i < SH->nviol; i++) {
		if (SH->viol[i].prop == prop && SH->viol[i].msg == msg.substr(0, 599)) {
			dup = true;
		}
	}
	if (!dup && SH->nviol < 64) {
		VRec &v = SH->viol[SH->nviol];
		memset((void *)&v, 0, sizeof v);
		v.parent = parent;
		if (st) {
			v.op = st->op;
			v.ndev = st->ndev;
			v.d[0] = st->d[0];
			v.d[1] = st->d[1];
			v.valid = 1;
		}
		v.known = isknown;
		snprintf(v.prop, sizeof v.prop, "%s", prop.c_str());
		snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
		SH->nviol++;
	}
	SH->vlock = 0;
	if (!isknown) {
		SH->stop = 1;
	}
}
static void collect(u32 parent, const Step *st) {
	for (auto &v : VIOL) {
		if (relevant(v)) {
			add_viol(parent, st, v.prop, v.msg);
		}
	}
}

static u64 hang_last;
static int hang_ticks;
static void on_vtalrm(int) {
	u64 e = SH->slot[worker_id].execs;
	if (e == hang_last && SH->slot[worker_id].busy) {
		if (++hang_ticks >= 4) {
			_exit(78);
		}
	} else {
		hang_ticks = 0;
	}
	hang_last = e;
}
static void start_timer() {
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_vtalrm;
	sa.sa_flags = SA_ONSTACK;
	static char alt[65536];
	stack_t ss;
	ss.ss_sp = alt;
	ss.ss_size = sizeof alt;
	ss.ss_flags = 0;
	sigaltstack(&ss, NULL);
	sigaction(SIGVTALRM, &sa, NULL);
	struct itimerval it = {{1, 0}, {1, 0}};
	setitimer(ITIMER_VIRTUAL, &it, NULL);
}

// one execution: path + step; returns key
static u64 exec_step(u32 parent, const std::vector<Step> &path, const Step &st, bool record, int budget, bool *pruned) {
	Slot &sl = SH->slot[worker_id];
	sl.parent = parent;
	sl.op = st.op;
	sl.ndev = st.ndev;
	sl.dev[0] = st.d[0].point << 16 | st.d[0].alt;
	sl.dev[1] = st.d[1].point << 16 | st.d[1].alt;
	sl.execs++;
	run_path(path);
	bool had = false;
	for (auto &v : VIOL) {
		had |= relevant(v);
	}
	if (had) {
		// belongs to an ancestor, reported there
		*pruned = true;
		return 0;
	}
	VIOL.clear();
	do_step(st, record);
	u64 k = S->key();
	k = hash_bytes(&budget, sizeof budget, k);
	std::vector<u16> ar;
	if (record) {
		ar = SC.arity;
	}
	*pruned = false;
	for (auto &v : VIOL) {
		*pruned |= relevant(v);
	}
	if (!*pruned) {
		S->finish();
		SH->finishes++;
	}
	if (record) {
		SC.arity = ar;
	}
	for (auto &v : VIOL) {
		*pruned |= relevant(v);
	}
	collect(parent, &st);
	SH->trans++;
	return k;
}
static void push(u32 parent, const Step &st, int depth, int budget, u64 k) {
	if (!visit(k)) {
		return;
	}
	SH->states++;
	if (depth > SH->maxdepth) {
		SH->maxdepth = depth;
	}
	u32 i = SH->nnodes.fetch_add(1);
	if (i >= MAXNODES || SH->states > maxstates) {
		SH->truncated = 1;
		SH->stop = 1;
		return;
	}
	NodeRec &n = ND[i];
	n.parent = parent;
	n.op = st.op;
	n.ndev = st.ndev;
	n.d[0] = st.d[0];
	n.d[1] = st.d[1];
	n.depth = depth;
	n.key = k;
	n.budget = budget;
	std::atomic_thread_fence(std::memory_order_seq_cst);
	n.pad = 1;
}
static void expand(u32 ni) {
	NodeRec &n = ND[ni];
	while (ni != 0 && *(volatile u8 *)&n.pad == 0) {
		if (SH->stop) {
			return;
		}
	}
	if (n.depth >= maxdepth) {
		return;
	}
	std::vector<Step> path;
	path_of(ni, path);
	Slot &sl = SH->slot[worker_id];
	sl.parent = n.parent;
	sl.op = n.op;
	sl.ndev = n.ndev;
	sl.dev[0] = n.d[0].point << 16 | n.d[0].alt;
	sl.dev[1] = n.d[1].point << 16 | n.d[1].alt;
	sl.execs++;
	run_path(path);
	int b = n.budget;
	if (ni != 0) {
		u64 k = S->key();
		k = hash_bytes(&b, sizeof b, k);
		if (k != n.key) {
			SH->keymismatch++;
		}
		SH->validated++;
	}
	std::vector<int> ops;
	S->ops(ops);
	for (int op : ops) {
		if (SH->stop) {
			return;
		}
		Step st;
		memset(&st, 0, sizeof st);
		st.op = op;
		bool pr;
		bool rec = n.budget < maxbudget;
		u64 k = exec_step(ni, path, st, rec, n.budget, &pr);
		if (SH->nsamples < 6 && path.size() >= 2) {
			u32 q = SH->nsamples.fetch_add(1);
			if (q < 6) {
				std::string s;
				for (auto &x : path) {
					s += S->op_name(x.op) + "; ";
				}
				s += S->op_name(op);
				snprintf(SH->samples[q], sizeof SH->samples[q], "%s", s.c_str());
			}
		}
		if (!pr) {
			push(ni, st, n.depth + 1, n.budget, k);
		}
		if (!rec) {
			continue;
		}
		std::vector<u16> ar = SC.arity;
		for (size_t p = 0; p < ar.size(); p++) {
			for (int a = 1; a <= ar[p]; a++) {
				if (SH->stop) {
					return;
				}
				Step s2 = st;
				s2.ndev = 1;
				s2.d[0].point = p;
				s2.d[0].alt = a;
				bool two = devper >= 2 && n.budget + 2 <= maxbudget;
				u64 k2 = exec_step(ni, path, s2, two, n.budget + 1, &pr);
				SH->devruns++;
				if (!pr) {
					push(ni, s2, n.depth + 1, n.budget + 1, k2);
				}
				if (!two) {
					continue;
				}
				std::vector<u16> ar2 = SC.arity;
				for (size_t q = p + 1; q < ar2.size(); q++) {
					for (int c = 1; c <= ar2[q]; c++) {
						if (SH->stop) {
							return;
						}
						Step s3 = s2;
						s3.ndev = 2;
						s3.d[1].point = q;
						s3.d[1].alt = c;
						u64 k3 = exec_step(ni, path, s3, false, n.budget + 2, &pr);
						SH->devruns++;
						if (!pr) {
							push(ni, s3, n.depth + 1, n.budget + 2, k3);
						}
					}
				}
			}
		}
	}
}
static void worker(int id) {
	worker_id = id;
	start_timer();
	SH->slot[id].busy = 0;
	bool act = false;
	int spins = 0;
	// layer by layer, so that every state is first seen at its least depth
	while (!SH->stop) {
		u32 le = SH->layer_end.load();
		if (!act) {
			SH->active++;
			act = true;
		}
		u32 i = SH->next.load();
		if (i < le && le == SH->layer_end.load()) {
			if (!SH->next.compare_exchange_strong(i, i + 1)) {
				continue;
			}
			spins = 0;
			SH->slot[id].busy = 1;
			expand(i);
			SH->slot[id].busy = 0;
			if (now() - t0 > tlimit) {
				SH->timeup = 1;
				SH->stop = 1;
			}
			continue;
		}
		SH->active--;
		act = false;
		while (SH->vlock.exchange(1)) {
			usleep(10);
		}
		bool done = false;
		if (SH->active == 0 && SH->next.load() >= SH->layer_end.load()) {
			if (SH->nnodes.load() > SH->layer_end.load()) {
				SH->layer_end = SH->nnodes.load();
			} else {
				done = true;
			}
		}
		SH->vlock = 0;
		if (done) {
			break;
		}
		if (SH->next.load() >= SH->layer_end.load() && ++spins > 50) {
			usleep(50);
		}
	}
	_exit(0);
}

static void write_path_json(FILE *f, const std::vector<Step> &p) {
	fprintf(f, "[");
	for (size_t i = 0; i < p.size(); i++) {
		fprintf(f, "%s[%u", i ? "," : "", p[i].op);
		for (int j = 0; j < p[i].ndev; j++) {
			fprintf(f, ",%u,%u", p[i].d[j].point, p[i].d[j].alt);
		}
		fprintf(f, "]");
	}
	fprintf(f, "]");
}
static std::string jesc(const std::string &s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (c == '\n') {
			r += "\\n";
		} else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			r += b;
		} else {
			r += c;
		}
	}
	return r;
}

// replay in a child; returns text output; res: 0 no violation, 1 violation, else crash status
static std::string replay_child(const std::vector<Step> &path, int *res) {
	int pfd[2];
	if (pipe(pfd)) {
		exit(2);
	}
	fflush(stdout);
	pid_t c = fork();
	if (c == 0) {
		dup2(pfd[1], 1);
		dup2(pfd[1], 2);
		close(pfd[0]);
		TRACE = true;
		setvbuf(stdout, NULL, _IOLBF, 0);
		alarm(60);
		start_timer();
		worker_id = 63;
		SH->slot[63].busy = 1;
		run_path(path);
		bool had = false;
		for (auto &v : VIOL) {
			had |= relevant(v);
		}
		if (!had) {
			printf("-- end of history\n");
			S->finish();
		}
		bool any = false;
		for (auto &v : VIOL) {
			if (relevant(v)) {
				any = true;
				printf("VIOLATED %s: %s\n", v.prop.c_str(), v.msg.c_str());
			}
		}
		fflush(stdout);
		_exit(any ? 1 : 0);
	}
	close(pfd[1]);
	std::string out;
	char buf[65536];
	ssize_t n;
	while ((n = read(pfd[0], buf, sizeof buf)) > 0) {
		if (out.size() < (4u << 20)) {
			out.append(buf, n);
		}
	}
	close(pfd[0]);
	int st;
	waitpid(c, &st, 0);
	if (WIFEXITED(st)) {
		*res = WEXITSTATUS(st);
	} else {
		*res = 1000 + WTERMSIG(st);
	}
	return out;
}
static std::string crash_summary(const std::string &out, int res) {
	size_t p = out.find("SUMMARY: ");
	if (p != std::string::npos) {
		return "memory error: " + out.substr(p + 9, out.find('\n', p) - p - 9);
	}
	if (res == 78) {
		return "code under test loops without making any call";
	}
	if (res >= 1000) {
		return std::string("code under test crashed: ") + strsignal(res - 1000);
	}
	return "code under test crashed (status " + std::to_string(res) + ")";
}

static std::vector<Step> parse_path(const std::string &j) {
	std::vector<Step> r;
	size_t p = j.find("\"steps\"");
	if (p == std::string::npos) {
		return r;
	}
	p = j.find('[', p) + 1;
	while (p < j.size()) {
		while (j[p] == ',' || j[p] == ' ' || j[p] == '\n') {
			p++;
		}
		if (j[p] != '[') {
			break;
		}
		p++;
		std::vector<long> v;
		while (j[p] != ']') {
			char *e;
			v.push_back(strtol(j.c_str() + p, &e, 10));
			p = e - j.c_str();
			while (isspace(j[p])) {
				p++;
			}
			if (j[p] == ',') {
				p++;
			}
		}
		p++;
		Step s;
		memset(&s, 0, sizeof s);
		s.op = v[0];
		s.ndev = (v.size() - 1) / 2;
		for (int i = 0; i < s.ndev && i < 2; i++) {
			s.d[i].point = v[1 + 2 * i];
			s.d[i].alt = v[2 + 2 * i];
		}
		r.push_back(s);
	}
	return r;
}

int main(int argc, char **argv) {
	if (argc < 2) {
		fprintf(stderr, "usage: mc scenario key=value...\n");
		for (auto &x : reg()) {
			fprintf(stderr, " %s", x.first.c_str());
		}
		fprintf(stderr, "\n");
		return 2;
	}
	std::string name = argv[1];
	Params P;
	for (int i = 2; i < argc; i++) {
		char *e = strchr(argv[i], '=');
		if (!e) {
			continue;
		}
		std::string k(argv[i], e - argv[i]);
		if (k == "known") {
			known.push_back(e + 1);
			continue;
		}
		P.m[k] = e + 1;
	}
	if (!reg().count(name)) {
		fprintf(stderr, "no scenario %s\n", name.c_str());
		return 2;
	}
	SHUT = (int)P.num("shut", 0);
	SUTDIR = P.str("sut", ".");
	target = P.str("prop", "");
	CHECKED = target;
	maxdepth = P.num("depth", 4);
	maxbudget = P.num("budget", 0);
	devper = P.num("devper", 1);
	njobs = P.num("jobs", 8);
	tlimit = P.num("time", 60);
	maxstates = P.num("maxstates", 30 << 20);
	XC.faults = P.num("faults", 0);
	XC.shortio = P.num("shortio", 0);
	XC.wide = P.num("wide", 0);
	XC.spurious = P.num("spurious", 1);
	XC.inject = P.num("inject", 0);
	XC.bbpoints = P.num("bb", 0);
	TRACE = P.num("trace", 0);

	sim_global_init();
	SH = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	ND = (NodeRec *)mmap(NULL, sizeof(NodeRec) * (size_t)MAXNODES, PROT_READ | PROT_WRITE,
			     MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	VIS = (std::atomic<u64> *)mmap(NULL, sizeof(u64) << VISBITS, PROT_READ | PROT_WRITE,
				       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	S = reg()[name]();
	S->P = P;
	H = S;
	S->load();
	t0 = now();

	std::string rp = P.str("replay", "");
	if (!rp.empty()) {
		FILE *f = fopen(rp.c_str(), "r");
		std::string j;
		char b[4096];
		size_t n;
		while (f && (n = fread(b, 1, sizeof b, f)) > 0) {
			j.append(b, n);
		}
		int res;
		std::string out = replay_child(parse_path(j), &res);
		fputs(out.c_str(), stdout);
		if (res > 1) {
			printf("VIOLATED: %s\n", crash_summary(out, res).c_str());
		}
		return res ? 1 : 0;
	}

	// root
	SH->nnodes = 1;
	SH->layer_end = 1;
	SH->states = 1;
	int rres = 0;
	std::string rout = replay_child({}, &rres);
	VIOL.clear();
	bool rootbad = false;
	std::string rootmsg;
	if (rres != 0) {
		rootbad = true;
		size_t q = rout.find("VIOLATED ");
		rootmsg = rres == 1 && q != std::string::npos ? rout.substr(q + 9, rout.find('\n', q) - q - 9)
							       : crash_summary(rout, rres);
		SH->stop = 1;
	}
	std::vector<pid_t> pids;
	std::vector<std::string> crashes;
	u32 crash_parent = 0;
	Step crash_step;
	bool crashed = false;
	fflush(stdout);
	if (!SH->stop) {
		for (int i = 0; i < njobs; i++) {
			pid_t c = fork();
			if (c == 0) {
				int d = open("/dev/null", O_WRONLY);
				dup2(d, 2);
				worker(i);
			}
			pids.push_back(c);
		}
		int left = njobs;
		while (left) {
			int st;
			pid_t c = wait(&st);
			if (c < 0) {
				break;
			}
			left--;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
				continue;
			}
			int id = 0;
			for (size_t i = 0; i < pids.size(); i++) {
				if (pids[i] == c) {
					id = i;
				}
			}
			Slot &sl = SH->slot[id];
			if (!crashed && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
				crashed = true;
				crash_parent = sl.parent;
				memset(&crash_step, 0, sizeof crash_step);
				crash_step.op = sl.op;
				crash_step.ndev = sl.ndev;
				for (int i = 0; i < 2; i++) {
					crash_step.d[i].point = sl.dev[i] >> 16;
					crash_step.d[i].alt = sl.dev[i] & 0xffff;
				}
			} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
				SH->truncated = 1;
			}
			SH->stop = 1;
		}
	}
	double el = now() - t0;

	// report
	struct Final {
		std::string prop, msg;
		std::vector<Step> path;
		bool known;
	};
	std::vector<Final> fin;
	if (rootbad) {
		fin.push_back({target, rootmsg, {}, false});
	}
	if (crashed) {
		std::vector<Step> p;
		path_of(crash_parent, p);
		p.push_back(crash_step);
		fin.push_back({target, "CRASH", p, false});
	}
	for (int i = 0; i < SH->nviol; i++) {
		VRec &v = SH->viol[i];
		std::vector<Step> p;
		path_of(v.parent, p);
		if (v.valid) {
			Step s;
			s.op = v.op;
			s.ndev = v.ndev;
			s.d[0] = v.d[0];
			s.d[1] = v.d[1];
			p.push_back(s);
		}
		fin.push_back({v.prop, v.msg, p, (bool)v.known});
	}
	// shortest unknown first
	Final *best = NULL;
	int nknown = 0;
	for (auto &f : fin) {
		if (f.known) {
			nknown++;
			printf("KNOWN %s %s\n", f.prop.c_str(), f.msg.c_str());
			continue;
		}
		if (!best || f.path.size() < best->path.size()) {
			best = &f;
		}
	}
	int rc = 0;
	std::string rdir = P.str("outdir", "/tmp");
	std::string repfile;
	if (best) {
		int r1, r2;
		std::string o1 = replay_child(best->path, &r1);
		std::string o2 = replay_child(best->path, &r2);
		std::string msg = best->msg;
		if (r1 > 1) {
			msg = crash_summary(o1, r1);
		} else if (msg == "CRASH") {
			size_t q = o1.find("VIOLATED ");
			if (q != std::string::npos) {
				msg = o1.substr(q + 9, o1.find('\n', q) - q - 9);
			}
		}
		bool isknown = false;
		for (auto &k : known) {
			if (msg.find(k) != std::string::npos) {
				isknown = true;
			}
		}
		if (r1 == 0 || r2 == 0) {
			fprintf(stderr, "harness: violation did not reproduce: %s %s\n", best->prop.c_str(), msg.c_str());
			rc = 3;
		} else if (isknown) {
			printf("KNOWN %s %s\n", best->prop.c_str(), msg.c_str());
		} else {
			std::string prop = best->prop.empty() ? target : best->prop;
			repfile = rdir + "/" + prop + "-" + name + ".json";
			FILE *f = fopen(repfile.c_str(), "w");
			fprintf(f, "{\"property\":\"%s\",\"message\":\"%s\",\"scenario\":\"%s\",\"params\":{", prop.c_str(),
				jesc(msg).c_str(), name.c_str());
			bool first = true;
			for (auto &k : P.m) {
				if (k.first == "sut" || k.first == "outdir" || k.first == "stats") {
					continue;
				}
				fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(k.first).c_str(), jesc(k.second).c_str());
				first = false;
			}
			fprintf(f, "},\"steps\":");
			write_path_json(f, best->path);
			fprintf(f, ",\"trace\":\"%s\"}\n", jesc(o1.substr(o1.size() > 60000 ? o1.size() - 60000 : 0)).c_str());
			fclose(f);
			printf("VIOL %s %s\n", prop.c_str(), repfile.c_str());
			printf("  %s\n", msg.c_str());
			if (P.num("verbose", 0)) {
				fputs(o1.c_str(), stdout);
			}
			rc = 1;
		}
	}
	if (SH->keymismatch) {
		fprintf(stderr, "harness: %d replays reached a different state (nondeterminism)\n", (int)SH->keymismatch);
		if (rc == 0) {
			rc = 3;
		}
	}
	std::string sf = P.str("stats", "");
	if (!sf.empty()) {
		FILE *f = fopen(sf.c_str(), "w");
		fprintf(f,
			"{\"scenario\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"deviation_runs\":%llu,\"validated\":%llu,"
			"\"finishes\":%llu,\"max_depth\":%d,\"time\":%.2f,\"exhausted\":%s,\"known\":%d,\"samples\":[",
			name.c_str(), (unsigned long long)SH->states, (unsigned long long)SH->trans,
			(unsigned long long)SH->devruns, (unsigned long long)SH->validated, (unsigned long long)SH->finishes,
			(int)SH->maxdepth, el, SH->timeup || SH->truncated ? "false" : "true", nknown);
		for (u32 i = 0; i < SH->nsamples && i < 6; i++) {
			fprintf(f, "%s\"%s\"", i ? "," : "", jesc(SH->samples[i]).c_str());
		}
		fprintf(f, "]}\n");
		fclose(f);
	}
	if (P.num("verbose", 1)) {
		printf("stats: states %llu transitions %llu devruns %llu depth %d time %.2f %s\n",
		       (unsigned long long)SH->states, (unsigned long long)SH->trans, (unsigned long long)SH->devruns,
		       (int)SH->maxdepth, el, SH->timeup ? "TIME" : SH->truncated ? "TRUNC" : "exhausted");
	}
	return rc;
}

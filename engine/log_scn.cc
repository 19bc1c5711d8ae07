// G01: which messages reach whom, with what text, and what is left behind.
#include "explore.h"
#include <errno.h>
#include <stdio.h>
#include <string.h>

void proc_set_errno(Proc *, int);
int proc_get_errno(Proc *);
extern int STDIO_ERRNO;
namespace {
enum { O_LEVEL, O_HANDLER, O_INIT, O_LOG };
struct LogScn : Scenario {
	Module *mod = nullptr;
	Proc *p;
	void (*l_level)(int), (*l_handler)(void (*)(int, const char *, va_list)), (*l_init)();
	void (*l_log)(int, const char *, ...);
	int level, handler, inited, logged;
	struct Got {
		int by, level;
		std::string text;
	};
	std::vector<Got> got;
	std::string err; // error stream
	static LogScn *self;
	static void put(int by, int lv, const char *fmt, va_list a) {
		char b[9000];
		vsnprintf(b, sizeof b, fmt, a);
		self->got.push_back({by, lv, b});
	}
	static void h1(int l, const char *f, va_list a) { put(1, l, f, a); }
	static void h2(int l, const char *f, va_list a) {
		put(2, l, f, a);
		proc_set_errno(cur, EAGAIN);
	}
	static void h3(int l, const char *f, va_list a) { // one that uses the arguments twice and fails
		char b[100];
		va_list c;
		va_copy(c, a);
		vsnprintf(b, sizeof b, f, c);
		va_end(c);
		put(3, l, f, a);
		proc_set_errno(cur, 0);
	}
	void load() override {
		mod = mod_load((SUTDIR + "/parts.so").c_str());
		auto get = [&](auto &f, const char *n) {
			f = (std::remove_reference_t<decltype(f)>)mod->sym(n);
			if (!f) {
				fprintf(stderr, "harness: no %s\n", n);
				exit(2);
			}
		};
		get(l_level, "libseat_set_log_level");
		get(l_handler, "libseat_set_log_handler");
		get(l_init, "log_init");
		get(l_log, "_logf");
	}
	void on_log(Proc *, const char *s) override { err += s; }
	void setup() override {
		self = this;
		mod_reset(mod);
		p = proc_new(mod, 0, 0);
		proc_start_jobs(p);
		level = handler = inited = logged = 0;
		got.clear();
		err.clear();
		STDIO_ERRNO = (int)P.num("disturb", 0);
	}
	int mk(int k, int a, int b) { return k << 16 | a << 8 | b; }
	enum { NVAR = 7 };
	void ops(std::vector<int> &out) override {
		if (p->st == PS_EXITED) {
			return;
		}
		for (int l = 0; l < 4; l++) {
			out.push_back(mk(O_LEVEL, l, 0));
			out.push_back(mk(O_HANDLER, l, 0));
		}
		out.push_back(mk(O_LEVEL, 4, 0)); // more than there is: everything is at or below it
		out.push_back(mk(O_LEVEL, 200, 0));
		out.push_back(mk(O_INIT, 0, 0));
		for (int l = 1; l < 4; l++) {
			for (int v = 0; v < NVAR; v++) {
				out.push_back(mk(O_LOG, l, v));
			}
		}
	}
	std::string big = std::string(3000, 'b');
	std::string text(int v) {
		switch (v) {
		case 0:
			return "plain";
		case 1:
			return "[f.c:12] x 100%";
		case 2:
			return "-5 ab zzz 4294967290";
		case 3:
			return "/" + big + "/";
		case 4:
			return "";
		case 5:
			return "1 2 3 4 5 6 7 8 end 1152921504606846976";
		}
		return "1.50 q %s %d";
	}
	void send(int l, int v) {
		switch (v) {
		case 0:
			l_log(l, "plain");
			break;
		case 1:
			l_log(l, "[%s:%d] %s", "f.c", 12, "x 100%");
			break;
		case 2:
			l_log(l, "%d %s %c%c%c %u", -5, "ab", 'z', 'z', 'z', 4294967290u);
			break;
		case 3:
			l_log(l, "/%s/", big.c_str());
			break;
		case 4:
			l_log(l, "%s", "");
			break;
		case 5:
			l_log(l, "%d %d %d %d %d %d %d %d %s %ld", 1, 2, 3, 4, 5, 6, 7, 8, "end", 1l << 60);
			break;
		default:
			l_log(l, "%.2f %c %s", 1.5, 'q', "%s %d");
		}
	}
	void apply(int op) override {
		int k = op >> 16, a = op >> 8 & 255, v = op & 255;
		got.clear();
		err.clear();
		static const int es[] = {EBADF, 0, EAGAIN, 4095};
		for (int e : es) {
			int after = -1;
			proc_post(p, [&, e] {
				proc_set_errno(p, e);
				switch (k) {
				case O_LEVEL:
					l_level(a);
					break;
				case O_HANDLER: {
					static void (*const hs[])(int, const char *, va_list) = {NULL, h1, h2, h3};
					l_handler(hs[a]);
					break;
				}
				case O_INIT:
					l_init();
					break;
				case O_LOG:
					send(a, v);
				}
				after = proc_get_errno(p);
			});
			proc_run(p, 1000);
			if (p->st == PS_EXITED) {
				report("G01", "logging ends the process: %s", p->crash);
				return;
			}
			if (after != e && k != O_INIT) {
				report("G01", "%s turns errno %d into %d", op_name(op).c_str(), e, after);
			}
			if (k != O_LOG) {
				break;
			}
		}
		size_t ne = sizeof es / sizeof es[0];
		if (k == O_LEVEL) {
			level = a;
		} else if (k == O_HANDLER) {
			handler = a;
		} else if (k == O_INIT) {
			inited = 1;
		} else if (a > level) {
			if (!got.empty() || !err.empty()) {
				report("G01", "a message of level %d is logged at level %d", a, level);
			}
			return;
		} else if (handler) {
			if (got.size() != ne) {
				report("G01", "a message of level %d reaches the handler %zu times instead of once at level %d", a, got.size() / ne, level);
				return;
			}
			for (auto &x : got) {
				if (x.by != handler) {
					report("G01", "a message reaches handler %d instead of %d", x.by, handler);
				} else if (x.level != a) {
					report("G01", "a message of level %d reaches the handler as level %d", a, x.level);
				} else if (x.text != text(v)) {
					report("G01", "the handler gets the text '%.60s' instead of '%.60s'", x.text.c_str(), text(v).c_str());
				}
			}
			if (!err.empty()) {
				report("G01", "with a handler installed, a message goes to standard error");
			}
			return;
		} else {
			if (!got.empty()) {
				report("G01", "a message reaches a handler that was taken back");
			}
			size_t lines = 0, at = 0;
			std::string t = text(v);
			while (at < err.size()) {
				size_t q = err.find('\n', at);
				if (q == std::string::npos) {
					report("G01", "a message to standard error does not end its line");
					return;
				}
				std::string ln = err.substr(at, q - at);
				if (ln.find(t) == std::string::npos) {
					report("G01", "standard error gets '%.60s', which does not hold '%.60s'", ln.c_str(), t.c_str());
				}
				lines++;
				at = q + 1;
			}
			if (lines != ne) {
				report("G01", "a message of level %d gives %zu lines instead of %zu on standard error at level %d", a, lines, ne, level);
			}
			return;
		}
		if (!got.empty() || !err.empty()) {
			report("G01", "%s logs something", op_name(op).c_str());
		}
	}
	u64 key() override {
		int x[4] = {level, handler, inited, p->st == PS_EXITED};
		// and what the code has in store
		u64 h = hash_bytes(x, sizeof x, 3);
		for (auto &s : mod->segs) {
			h = hash_bytes(s.p, s.n, h);
		}
		return h;
	}
	std::string op_name(int op) override {
		int k = op >> 16, a = op >> 8 & 255, v = op & 255;
		return k == O_LEVEL ? "setting log level " + std::to_string(a) : k == O_HANDLER ? "installing handler " + std::to_string(a) :
		       k == O_INIT ? "log_init" : "logging '" + text(v).substr(0, 30) + "' at level " + std::to_string(a);
	}
};
LogScn *LogScn::self;
SCENARIO("log", LogScn)
}

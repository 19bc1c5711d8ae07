// P03: the intrusive list against sequences.
#include "explore.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>

struct ListScn : Scenario {
	Module *mod;
	Proc *p;
	int nh, ne;
	std::vector<std::vector<int>> seq; // per head
	std::vector<int> fresh; // 0 in a list, 1 never used / removed, 2 initialised
	char *mem;
	size_t sz;
	void (*l_init)(void *), (*l_insert)(void *, void *), (*l_remove)(void *), (*l_take)(void *, void *);
	bool (*l_empty)(void *);
	void *(*l_next)(void *), *(*l_prev)(void *);
	void load() override {
		mod = mod_load((SUTDIR + "/parts.so").c_str());
		l_init = (void (*)(void *))mod->sym("linked_list_init");
		l_insert = (void (*)(void *, void *))mod->sym("linked_list_insert");
		l_remove = (void (*)(void *))mod->sym("linked_list_remove");
		l_take = (void (*)(void *, void *))mod->sym("linked_list_take");
		l_empty = (bool (*)(void *))mod->sym("linked_list_empty");
		l_next = (void *(*)(void *))mod->sym("parts_next");
		l_prev = (void *(*)(void *))mod->sym("parts_prev");
		sz = ((size_t(*)())mod->sym("parts_list_size"))();
		nh = (int)P.num("heads", 2);
		ne = (int)P.num("elems", 4);
	}
	// index: heads first, then elements
	void *at(int i) { return mem + sz * i; }
	int ix(void *q) {
		long d = (char *)q - mem;
		return d < 0 || d >= (long)(sz * (nh + ne)) || d % (long)sz ? -1 : (int)(d / (long)sz);
	}
	void job(std::function<void()> f) {
		proc_post(p, f);
		proc_run(p);
		if (p->st == PS_EXITED) {
			report("P03", "the list code ends the process: %s", p->crash);
		}
	}
	void setup() override {
		p = proc_new(mod, 0, 0);
		proc_start_jobs(p);
		seq.assign(nh, {});
		fresh.assign(ne, 1);
		job([&]() {
			extern void *heap_alloc(Proc *, size_t, int);
			mem = (char *)heap_alloc(p, sz * (nh + ne), 0);
			for (int i = 0; i < nh; i++) {
				l_init(at(i));
			}
		});
	}
	enum { INS, REM, TAKE, INI };
	int mk(int k, int a, int b) { return k << 8 | a << 4 | b; }
	void ops(std::vector<int> &out) override {
		if (p->st == PS_EXITED) {
			return;
		}
		for (int e = 0; e < ne; e++) {
			if (!fresh[e]) {
				out.push_back(mk(REM, e, 0));
				continue;
			}
			if (fresh[e] == 1) {
				out.push_back(mk(INI, e, 0));
			}
			for (int i = 0; i < nh + ne; i++) {
				if (i < nh || (!fresh[i - nh])) {
					out.push_back(mk(INS, i, e));
				}
			}
		}
		for (int a = 0; a < nh; a++) {
			for (int b = 0; b < nh; b++) {
				if (a != b) {
					out.push_back(mk(TAKE, a, b));
				}
			}
		}
	}
	void apply(int op) override {
		int k = op >> 8, a = op >> 4 & 15, b = op & 15;
		if (k == INS) {
			job([&]() { l_insert(at(a), at(nh + b)); });
			if (a < nh) {
				seq[a].insert(seq[a].begin(), b);
			} else {
				for (auto &s : seq) {
					auto it = std::find(s.begin(), s.end(), a - nh);
					if (it != s.end()) {
						s.insert(it + 1, b);
						break;
					}
				}
			}
			fresh[b] = 0;
		} else if (k == REM) {
			job([&]() { l_remove(at(nh + a)); });
			for (auto &s : seq) {
				s.erase(std::remove(s.begin(), s.end(), a), s.end());
			}
			fresh[a] = 1;
		} else if (k == INI) {
			job([&]() { l_init(at(nh + a)); });
			fresh[a] = 2;
		} else {
			job([&]() { l_take(at(a), at(b)); });
			seq[a].insert(seq[a].begin(), seq[b].begin(), seq[b].end());
			seq[b].clear();
		}
		if (p->st == PS_EXITED) {
			return;
		}
		for (int h = 0; h < nh; h++) {
			bool em = false;
			job([&]() { em = l_empty(at(h)); });
			if (em != seq[h].empty()) {
				report("P03", "emptiness of list %d is reported as %d", h, em);
			}
			std::vector<int> f, r;
			int x = h;
			for (int n = 0; n <= ne + 1; n++) {
				x = ix(l_next(at(x)));
				if (x < nh) {
					break;
				}
				f.push_back(x - nh);
			}
			bool ok = x == h;
			x = h;
			for (int n = 0; n <= ne + 1; n++) {
				x = ix(l_prev(at(x)));
				if (x < nh) {
					break;
				}
				r.push_back(x - nh);
			}
			ok = ok && x == h;
			std::reverse(r.begin(), r.end());
			if (!ok || f != seq[h]) {
				report("P03", "list %d read forwards is not what was built", h);
			} else if (r != seq[h]) {
				report("P03", "list %d read backwards is not what was built", h);
			}
		}
		for (int e = 0; e < ne; e++) {
			if (fresh[e] == 2 && (l_next(at(nh + e)) != at(nh + e) || l_prev(at(nh + e)) != at(nh + e))) {
				report("P03", "an element outside of the lists is changed");
			}
		}
	}
	u64 key() override {
		std::string s;
		for (auto &q : seq) {
			for (int e : q) {
				s += (char)e;
			}
			s += '\xff';
		}
		for (int f : fresh) {
			s += (char)f;
		}
		return hash_bytes(s.data(), s.size(), 5);
	}
	std::string op_name(int op) override {
		int k = op >> 8, a = op >> 4 & 15, b = op & 15;
		auto n = [&](int i) { return i < nh ? "head " + std::to_string(i) : "element " + std::to_string(i - nh); };
		if (k == INS) {
			return "insert element " + std::to_string(b) + " behind " + n(a);
		}
		if (k == REM) {
			return "remove element " + std::to_string(a);
		}
		if (k == INI) {
			return "initialise element " + std::to_string(a);
		}
		return "move list " + std::to_string(b) + " behind head " + std::to_string(a);
	}
};
SCENARIO("list", ListScn)

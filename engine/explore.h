// Exhaustive bounded exploration of a Scenario by replay (see DESIGN.md).
#pragma once
#include "sim.h"
#include <map>
#include <string>
#include <vector>

struct Params {
	std::map<std::string, std::string> m;
	long num(const char *k, long d) const {
		auto i = m.find(k);
		return i == m.end() ? d : strtol(i->second.c_str(), NULL, 0);
	}
	std::string str(const char *k, const char *d) const {
		auto i = m.find(k);
		return i == m.end() ? d : i->second;
	}
};

struct Scenario : Hooks {
	Params P;
	virtual void load() {} // once: modules
	virtual void setup() = 0; // per execution
	virtual void ops(std::vector<int> &out) = 0;
	virtual void apply(int op) = 0;
	virtual std::string op_name(int op) = 0;
	virtual u64 key() = 0;
	virtual void finish() {}
	virtual std::string describe() { return ""; } // state, for the trace
};
typedef Scenario *(*ScnFactory)();
void scn_register(const char *name, ScnFactory f);
#define SCENARIO(name, T) \
	static Scenario *mk_##T() { return new T; } \
	__attribute__((constructor)) static void reg_##T() { scn_register(name, mk_##T); }
extern std::string SUTDIR; // where the compiled code under test lives
// current step's devs are in SC; a scenario brackets "free" phases
struct Frozen {
	bool o;
	Frozen() : o(SC.frozen) { SC.frozen = true; }
	~Frozen() { SC.frozen = o; }
};

// numbers around everything a narrower or differently signed type would confuse
inline const std::vector<int> &odd_numbers() {
	static std::vector<int> v;
	if (v.empty()) {
		for (int i = -140; i <= 300; i++) {
			v.push_back(i);
		}
		for (int k = 8; k < 32; k++) {
			for (int d = -4; d <= 5; d++) {
				v.push_back((int)((1u << k) + (unsigned)d));
				v.push_back((int)(0u - (1u << k) + (unsigned)d));
			}
		}
	}
	return v;
}

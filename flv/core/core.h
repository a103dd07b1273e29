// Common vocabulary of the checks: random source, cases, properties, driver.
#ifndef FLV_CORE_H
#define FLV_CORE_H
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include "../rt/vsched.h"

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }   // inclusive
	bool chance(int num, int den) { return (int)(next() % (uint64_t)den) < num; }
	template<class V> auto pick(const V& v) -> decltype(v[0]) { return v[next() % v.size()]; }
};

struct Op {
	int id;             // stable identity (survives shrinking)
	int agent;
	int kind;
	int pair;           // operations that the shrinker removes together (0: alone)
	int a[4];
};

struct Case {
	std::map<std::string, long> cfg;
	std::vector<Op>             ops;
	std::vector<vs::Pre>        pre;
	std::vector<std::string>    strs;      // names and other strings
	long  get(const char* k, long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
	int   next_id() const { int m = 0; for(auto& o : ops){ if(o.id >= m){ m = o.id + 1; } } return m; }
	Op&   add(int agent, int kind, int a0 = 0, int a1 = 0, int a2 = 0, int a3 = 0, int pair = 0) {
		Op o; o.id = next_id(); o.agent = agent; o.kind = kind; o.pair = pair; o.a[0] = a0; o.a[1] = a1; o.a[2] = a2; o.a[3] = a3;
		ops.push_back(o); return ops.back();
	}
	std::string text(const char* prop) const;
	bool parse(const std::string& txt, std::string& prop);
	uint64_t hash() const;
};

// classification counters of one run; index by property specific enum, names
// given by the property
enum { NCLS = 24 };

struct RunResult {
	int         fail = 0;
	int         inconclusive = 0;
	std::string msg;
	std::string known;                    // id of the known finding this failure belongs to
	std::vector<int> opsteps;
	uint64_t    steps = 0, switches = 0, preempts = 0, crashes = 0;
	uint32_t    cls[NCLS] = {0};
	int         nontrivial = 0;
};

struct Prop {
	virtual ~Prop() {}
	virtual const char* id() const = 0;
	virtual const char* rule() const = 0;
	virtual std::vector<const char*> classes() const { return {}; }
	virtual int  programs(bool thorough) const = 0;
	virtual int  variants(bool thorough) const { (void)thorough; return 5; }      // besides the calibration run
	virtual void gen(Rng&, Case&, uint64_t index) = 0;
	virtual void vary(Rng&, Case&, const std::vector<int>& opsteps, int k);
	virtual void run(const Case&, RunResult&) = 0;
	virtual bool shrink_ok(const Case&) { return true; }
	// extra shrink candidates
	virtual void simplify(const Case&, std::vector<Case>&) {}
	virtual std::vector<std::string> assumptions() const { return {}; }
	virtual double min_wall() const { return 0; }
	virtual int child(int, char**) { return 3; }            // runs in a new program: <exe> child <id> ...
};

void register_prop(Prop*);
Prop* find_prop(const std::string& id);
struct PropReg { explicit PropReg(Prop* p) { register_prop(p); } };
std::string scratch_dir();                // private directory of this worker
void  rm_tree(const std::string& dir);    // removes a scratch directory
#endif

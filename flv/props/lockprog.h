// Programs over a set of lockable resources with an exclusion model; shared by
// the exclusion, liveness, crash and robbery properties.
#ifndef LOCKPROG_H
#define LOCKPROG_H
#include "exec.h"
#include <errno.h>
#include <string.h>

enum { MAXRES = 16 };
struct Res { int rw; int a0; int a1; };     // mutex: name; rwlock: file, range

struct LModel {
	struct R {
		int      wowner;                 // agent + 1, 0: none
		int      wdepth;
		int      readers[vs::MAXA + 1];
		int      act;                    // agents between the start of a lock call and the end of the release
		uint32_t seq;
		uint32_t overlap;
		int      wact;                   // the same, for callers that exclude readers
		uint32_t wseq;
		unsigned char relw[vs::MAXA + 1];
	} r[MAXRES];
	unsigned char got[vs::MAXOPS];
	int lockcrash;                      // a process was killed inside a lock / unlock call on a rwlock
	int crashop, crashkind;
};

struct LGen {
	bool mutex = true, rw = false;
	int  minag = 2, maxag = 4;
	bool multiproc = true;              // several processes possible
	bool allproc = false;               // one process per agent
	bool timed = true, tries = true, recursion = true, nest = true;
	bool deadchk = false;
	bool cond = false;                  // short condition waits while a mutex is held
	bool exits = false;                 // threads that end early, holding or not
	bool anyrobust = true;
	int  maxsec = 3;
	int  maxres = 3;
	bool smalltables = false;
	bool nofd = true;
};

struct LockProp : public SchedProp {
	std::vector<Res> res;
	LModel* M() { return (LModel*)vs::C->model; }
	size_t model_size() const override { return sizeof(LModel); }
	std::vector<Res> resources(const Case& c) {
		std::vector<Res> v;
		for(int i = 0; i < MAXRES; i++){
			char b[16]; snprintf(b, sizeof(b), "res%d", i);
			auto it = c.cfg.find(b); if(it == c.cfg.end()){ break; }
			long x = it->second; v.push_back(Res{(int)(x / 10000), (int)(x / 100 % 100), (int)(x % 100)});
		}
		return v;
	}
	void gen_locks(Rng& r, Case& c, const LGen& g);
	void init_model(const Case& c) override { res = resources(c); ranges(c); }
	void ranges(const Case& c) {
		g_ranges.clear();
		for(int i = 0; i < 32; i++){
			char b[16], d[16]; snprintf(b, sizeof(b), "ro%d", i); snprintf(d, sizeof(d), "rl%d", i);
			auto it = c.cfg.find(b); if(it == c.cfg.end()){ break; }
			g_ranges.push_back(Range{it->second, c.get(d, 1)});
		}
	}
	int  acquire(const Case& c, const Op& o, int me, int kind);   // runs the call, checks the result
	void release(const Case& c, const Op& o, int me);
	void run_op(const Case& c, const Op& o, int me) override;
	void on_crash(const Case& c, int agent, int g) override;
	void on_threadgone(const Case& c, int agent) override;
	void forget(int agent);
	void cwait(const Case& c, const Op& o, int me);
	void probe_all(const Case& c, bool blocking);
	const char* rname(int i, char* b, size_t n) { if(res[(size_t)i].rw){ snprintf(b, n, "rwlock(file %d, range %ld+%ld)", res[(size_t)i].a0, g_ranges[(size_t)res[(size_t)i].a1].off, g_ranges[(size_t)res[(size_t)i].a1].len); }else{ snprintf(b, n, "mutex \"%s\"", cs->strs[(size_t)res[(size_t)i].a0].c_str()); } return b; }
	virtual bool tolerate(int) { return false; }
	virtual bool noroom(int) { return false; }            // a refusal for lack of room is legitimate in the final probe
	std::vector<std::string> assumptions() const override {
		return {"one scheduler interleaves the instrumented accesses to the shared region, atomic operations, clock reads and yields sequentially consistently; weaker memory orders are not explored",
		        "process and thread ids are not reused while a record still names them"};
	}
	void simplify(const Case& c, std::vector<Case>& out) override;
};
#endif

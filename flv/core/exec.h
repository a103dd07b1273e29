// Executor: runs a case as agents (threads of forked processes) under vsched.
#ifndef FLV_EXEC_H
#define FLV_EXEC_H
#include "core.h"

enum Kind {
	K_NOP = 0, K_MLOCK, K_MTRY, K_MTIMED, K_MUNLOCK,                  // name[,usec]
	K_RLOCK, K_RTRY, K_RTIMED, K_WLOCK, K_WTRY, K_WTIMED, K_RWUNLOCK, // slot, range[,usec]
	K_ISLOCKED,
	K_CWAIT, K_CTIMED, K_CSIGNAL, K_CBCAST,                           // cond, mutex[,usec]
	K_CS,                                                             // stay n yields
	K_DEADCHK, K_FREEMODE, K_EXIT, K_CRASH, K_OPEN, K_CLOSE, K_DUP, K_FORK, K_ROBUST, K_SPAWN,
	K_USER = 40
};
const char* kind_name(int k);

struct SchedProp : public Prop {
	const Case* cs = nullptr;                 // case being run
	// ---- hooks
	virtual size_t model_size() const { return 0; }
	virtual void init_model(const Case&) {}
	virtual void prepare(const Case&) {}                      // controller, before processes start
	virtual bool child_init(const Case&, int group);          // group process: attach the library
	virtual void run_op(const Case&, const Op&, int agent) = 0;
	virtual void on_crash(const Case&, int agent, int group) { (void)agent; (void)group; }
	virtual void on_threadgone(const Case&, int agent) { (void)agent; }
	virtual bool has_probe(const Case&) { return false; }
	virtual void probe(const Case&) {}                        // probe agent, new process, after the program
	virtual bool kill_before_probe(const Case&) { return false; }
	virtual void finish(const Case&, RunResult&) {}           // controller, processes still alive
	// script mode: returns true if agent (blocked in op) is expected to be able to complete now
	virtual bool enabled(const Case&, int agent) { (void)agent; return false; }
	virtual void classify(const Case&, RunResult&) {}         // known findings
	void run(const Case&, RunResult&) override;
	int  blocked_op(int agent) const;
};

// helpers usable in group processes
void lib_env(const char* dir);
bool lib_attach(const Case& c, const char* dir);
std::string case_dir();
void open_files(const Case& c);               // cfg nfiles, nslots: slot s -> file s % nfiles
extern int g_fd[32];
int  slot_fd(int slot);                       // slot >= 100: descriptor-less key
struct Range { long off; long len; };
// Adds ranges that overlap those of v.  Group i (cl) is what comes from v[i]: all
// its ranges have a position in common, different groups stay disjoint.
inline void overlap_groups(Rng& r, std::vector<std::pair<long, long>>& v, std::vector<int>& cl, size_t max)
{
	size_t base = v.size(); cl.clear(); for(size_t i = 0; i < base; i++){ cl.push_back((int)i); }
	for(size_t i = 0; i < base && v.size() < max; i++){
		long lo = v[i].first, hi = lo + v[i].second, pt = lo + (r.chance(1, 3) ? 0 : r.chance(1, 2) ? v[i].second - 1 : v[i].second / 2);
		int m = r.range(0, 3); bool whole = r.chance(1, 2);
		for(int k = 0; k < m; k++){
			long a = r.chance(1, 4) ? lo : r.chance(1, 3) ? pt : pt - (long)(r.next() % (uint64_t)(pt - lo + 1)), b = r.chance(1, 4) ? hi : r.chance(1, 3) ? pt + 1 : pt + 1 + (long)(r.next() % (uint64_t)(hi - pt));
			if(!k && !whole){ v[i] = {a, b - a}; }else{ v.push_back({a, b - a}); cl.push_back((int)i); }
		}
	}
}
extern std::vector<Range> g_ranges;           // set by the property (same in all processes)
int  lib_call(const Case& c, int kind, const int* a);
int  fork_group(const Case& c, int g);        // the agents of group g (cfg late<agent>) start to live in a child of the caller's process
int  spawn_group(int g);                      // the same in a new process that attaches now
void progress();                              // inside a long operation: tell the scheduler that it advances
void cls(int i, uint32_t n = 1);              // classification counters
bool agent_blocked(int agent);
struct ShmUnit { int kind; int flag; uint64_t dev, ino, owner; int64_t off, len, val; char name[64]; };
std::vector<ShmUnit> lib_units(const Case& c);        // F(ile) O(ffset range) R(eader) W(riter) M(utex) C(ondition) w(aiter)
std::string units_text(const std::vector<ShmUnit>& v);
extern uint32_t* g_cls;
bool finding_listed(const char* prop, const char* id);
#endif

#include "lockprog.h"
#include <errno.h>

namespace {
struct C01 : LockProp {
	const char* id() const override { return "C01"; }
	const char* rule() const override { return "random programs of 2-4 agents in 1-4 processes taking 1-3 named mutexes (blocking, try, timed, recursive, nested), each run once without and several times with preemptions at random scheduling points; non-trivial: at least one forced preemption was taken and two agents used the same mutex at overlapping times"; }
	std::vector<const char*> classes() const override { return {"cases with overlapping use", "multi-process cases", "mutex creation raced"}; }
	int programs(bool t) const override { return t ? 400000 : 25000; }
	int variants(bool t) const override { return t ? 8 : 5; }
	void gen(Rng& r, Case& c, uint64_t) override { LGen g; g.rw = false; gen_locks(r, c, g); }
	void finish(const Case& c, RunResult& r) override {
		bool ov = false; for(size_t i = 0; i < res.size(); i++){ if(M()->r[i].overlap){ ov = true; } }
		if(ov){ cls(0); } if(c.get("grp1") != c.get("grp0")){ cls(1); }
		r.nontrivial = ov && vs::C->preempts ? 1 : -1;
	}
};
struct C03 : LockProp {
	const char* id() const override { return "C03"; }
	const char* rule() const override { return "random programs of 2-4 agents in 1-4 processes taking reader/writer locks on 1-2 files and equal or disjoint (also adjacent) ranges through own or second descriptors or a descriptor-less key, with preemptions at random scheduling points; non-trivial: a preemption was taken and two agents used the same range at overlapping times"; }
	std::vector<const char*> classes() const override { return {"cases with overlapping use", "multi-process cases", "descriptor-less cases"}; }
	int programs(bool t) const override { return t ? 400000 : 25000; }
	int variants(bool t) const override { return t ? 8 : 5; }
	void gen(Rng& r, Case& c, uint64_t) override { LGen g; g.mutex = false; g.rw = true; gen_locks(r, c, g); }
	void finish(const Case& c, RunResult& r) override {
		bool ov = false; for(size_t i = 0; i < res.size(); i++){ if(M()->r[i].overlap){ ov = true; } }
		if(ov){ cls(0); } if(c.get("grp1") != c.get("grp0")){ cls(1); } if(c.get("nofd")){ cls(2); }
		r.nontrivial = ov && vs::C->preempts ? 1 : -1;
	}
};
struct C06 : LockProp {
	const char* id() const override { return "C06"; }
	const char* rule() const override { return "random programs of 2-5 agents in 1-5 processes that take mutexes and reader/writer locks in one global order (blocking, try, timed, recursive, nested up to 3), release all they took and run dead checks in between, over ample or very small tables and all robust and free-unit modes, with preemptions at random points under a fair rotation; every program has to come to its end and a new process has to get every lock by a try; non-trivial: a preemption was taken and two agents used the same lock at overlapping times"; }
	std::vector<const char*> classes() const override { return {"cases with overlapping use", "multi-process cases", "cases with small tables", "refused for lack of room", "cases with dead checks"}; }
	int programs(bool t) const override { return t ? 400000 : 22000; }
	int variants(bool t) const override { return t ? 8 : 5; }
	void gen(Rng& r, Case& c, uint64_t) override {
		LGen g; g.rw = true; g.maxag = 5; g.maxres = 4; g.deadchk = r.chance(1, 3); if(r.chance(1, 4)){ g.mutex = false; }
		if(r.chance(1, 4)){ g.minag = g.maxag = 2; g.maxsec = 5; g.maxres = 2; }
		gen_locks(r, c, g);
		if(r.chance(1, 3)){ c.cfg["small"] = 1; c.cfg["fcnt"] = r.range(1, 2); c.cfg["ocnt"] = r.range(4, 6); c.cfg["lcnt"] = r.range(4, 6); c.cfg["mcnt"] = r.range(1, 3); }
	}
	bool tolerate(int rc) override { if(rc == ENOLCK && cs->get("small")){ cls(3); return true; } return false; }
	bool noroom(int i) override { return cs->get("small") && (!res[(size_t)i].rw || cs->get("free") != 1); }       // units that are kept by design
	bool has_probe(const Case& c) override { (void)c; return true; }
	void probe(const Case& c) override { probe_all(c, false); }
	void finish(const Case& c, RunResult& r) override {
		bool ov = false; for(size_t i = 0; i < res.size(); i++){ if(M()->r[i].overlap){ ov = true; } }
		if(ov){ cls(0); } if(c.get("grp1") != c.get("grp0")){ cls(1); } if(c.get("small")){ cls(2); }
		for(auto& o : c.ops){ if(o.kind == K_DEADCHK){ cls(4); break; } }
		r.nontrivial = ov && vs::C->preempts ? 1 : -1;
	}
};
PropReg r1(new C01), r3(new C03), r6(new C06);
}

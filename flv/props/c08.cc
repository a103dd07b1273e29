// C08: a process is killed at any scheduling point of a lock program; the
// others and a new process must get every lock by the blocking calls.
#include "lockprog.h"
#include <string.h>

namespace {
struct CModel { LModel l; char kf[64]; int ncrash; char dead[vs::MAXA]; int reader_seen; };

// what the shared file says right after the kill: lock words against locked records
struct Unit { long lockval; int locked, deadlocked, deadopen; };

struct C08 : LockProp {
	CModel* X() { return (CModel*)vs::C->model; }
	size_t model_size() const override { return sizeof(CModel); }
	const char* id() const override { return "C08"; }
	const char* rule() const override { return "random lock programs of 2-4 agents in 2-4 processes (mutexes, reader/writer locks, all calls, recursion, nesting) in which one or two processes are killed at random scheduling points inside or between library calls, with preemptions, the dead left as zombies in a third of the cases; survivors have to finish under exclusion and a new process has to get every lock by the blocking and then by the try calls; non-trivial: the kill happened while the victim held a lock or was inside a call on a shared resource"; }
	std::vector<const char*> classes() const override { return {"kills inside a mutex call", "kills inside a reader/writer call", "kills between calls", "victim held something", "two kills", "victims left as zombies", "kills inside a condition wait"}; }
	int programs(bool t) const override { return t ? 200000 : 9000; }
	int variants(bool t) const override { return t ? 10 : 8; }
	void gen(Rng& r, Case& c, uint64_t) override {
		LGen g; g.anyrobust = false; g.rw = r.chance(2, 3); if(g.rw && r.chance(1, 3)){ g.mutex = false; }
		g.deadchk = r.chance(1, 6); g.cond = g.mutex && r.chance(1, 2);
		gen_locks(r, c, g);
		// at least two processes
		int nag = (int)c.get("agents"); bool one = true; for(int i = 1; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); if(c.get(b) != c.get("grp0")){ one = false; } }
		if(one){ for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i; } }
		c.cfg["zombie"] = r.chance(1, 3); c.cfg["mainth"] = r.chance(1, 2); c.cfg["lcnt"] = 64; c.cfg["mcnt"] = 16; c.cfg["ocnt"] = 32;
	}
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		if(k % 2){ Prop::vary(r, c, st, k / 2); if(c.pre.size() > 4){ c.pre.resize(4); } }else{ c.pre.clear(); }
		int n = r.chance(1, 5) ? 2 : 1, last = -1;
		std::vector<const Op*> can; for(auto& o : c.ops){ if(o.id < (int)st.size() && st[(size_t)o.id] > 0){ can.push_back(&o); } }
		if(can.empty()){ return; }
		for(int i = 0; i < n; i++){
			const Op* o = can[(size_t)r.range(0, (int)can.size() - 1)]; int s = st[(size_t)o->id];
			if(o->agent == last){ continue; } last = o->agent;
			int p = r.chance(3, 4) || s < 120 ? r.range(0, std::min(s, 120) - 1) : r.range(0, s - 1);
			c.pre.push_back({o->agent, o->id, p, -1});
		}
	}
	void on_crash(const Case& c, int agent, int g) override {
		CModel* x = X(); bool held = false;
		for(size_t k = 0; k < res.size(); k++){ LModel::R& r = M()->r[k]; for(int i = 0; i < vs::C->nag; i++){ if(vs::C->a[i].group == g && (r.wowner == i + 1 || r.readers[i])){ held = true; } } }
		LockProp::on_crash(c, agent, g);
		int ck = M()->crashkind;
		bool rw = false; for(int i = 0; i < vs::C->nag; i++){ if(vs::C->a[i].group == g && vs::C->a[i].opid >= 0){ for(auto& o : c.ops){ if(o.id == vs::C->a[i].opid && ((o.kind >= K_RLOCK && o.kind <= K_RWUNLOCK) || o.kind == K_DEADCHK)){ rw = true; } } } }
		if(ck == K_CTIMED){ cls(6); }
		cls(ck >= K_MLOCK && ck <= K_MUNLOCK ? 0 : (ck >= K_RLOCK && ck <= K_RWUNLOCK ? 1 : 2)); if(held){ cls(3); } x->reader_seen |= held || ck ? 1 : 0;
		for(int i = 0; i < vs::C->nag; i++){ if(vs::C->a[i].group == g){ x->dead[i] = 1; } }
		if(++x->ncrash == 2){ cls(4); } if(c.get("zombie")){ cls(5); }
		if(rw && !x->kf[0]){ signature(c); }
	}
	bool is_dead(unsigned long id) { for(int i = 0; i < vs::C->nag; i++){ if(X()->dead[i]){ unsigned long a = ((unsigned long)(unsigned)vs::C->a[i].pid << 32) | (unsigned)vs::C->a[i].tid, b = ((unsigned long)(unsigned)vs::C->a[i].tid << 32) | (unsigned)vs::C->a[i].pid; if(id == a || id == b){ return true; } } } return false; }
	void signature(const Case& c) {
		std::vector<ShmUnit> us = lib_units(c); Unit u{}; bool inu = false;
		auto judge = [&]() {
			if(!inu){ return; }
			long v = u.lockval < 0 ? 1 : u.lockval;
			if(v > u.locked && u.deadopen){ snprintf(X()->kf, 64, "F11a"); }          // lock word taken, record not marked yet
			else if(v < u.locked && u.deadlocked){ snprintf(X()->kf, 64, "F11b"); }   // lock word given back, record still marked
			else if(v > u.locked && X()->ncrash > 1){ snprintf(X()->kf, 64, "F11c"); }// the victim was recovering another victim
		};
		for(auto& w : us){
			if(w.kind == 'O' || w.kind == 'F'){ judge(); u = Unit{}; inu = w.kind == 'O'; u.lockval = (long)w.val; }
			else if(w.kind == 'R' || w.kind == 'W'){ if(w.flag){ u.locked++; if(is_dead(w.owner)){ u.deadlocked++; } }else if(is_dead(w.owner)){ u.deadopen++; } }
		}
		judge();
		if(getenv("FLV_TRACE")){ fprintf(stderr, "after the kill: %s\n%s", X()->kf, units_text(us).c_str()); }
	}
	bool has_probe(const Case&) override { return true; }
	void probe(const Case& c) override { probe_all(c, true); }
	void finish(const Case&, RunResult& r) override { r.nontrivial = X()->reader_seen ? 1 : -1; }
	void classify(const Case&, RunResult& r) override {
		if(X()->kf[0] && finding_listed("C08", X()->kf)){ r.fail = 0; r.known = X()->kf; r.nontrivial = 0; }
	}
};
PropReg r8(new C08);
}

// C14: processes that fork, from any thread and holding anything; the children
// run lock programs of their own, processes die, newcomers attach.
#include "lockprog.h"
#include "fullock.h"
#include "flckshm.h"
#include <stdio.h>

namespace {
enum { K_STEAL = K_USER };                      // unlock of something the agent does not hold
struct M14 { LModel l; int forks, heldfork, deaths, outside, steals, spawns, childheld; unsigned char keep; };
struct C14 : LockProp {
	M14* X() { return (M14*)vs::C->model; }
	size_t model_size() const override { return sizeof(M14); }
	const char* id() const override { return "C14"; }
	const char* rule() const override { return "random lock programs of 2-6 agents of which one to three groups start to live in a child forked by another agent (first or later thread of its process, anywhere in its program, also while other threads of the process are inside library calls) and some in processes that attach in the middle; foreign unlocks, dead-owner checks, parents, children and other processes that are killed between reader/writer calls or anywhere in the other calls; exclusion is checked at every grant, a lock kept by a child must refuse a new process at the end, everything else must be obtainable; non-trivial: a fork happened while its process held a lock, or a child competed with its parent, a process died or a newcomer came afterwards"; }
	std::vector<const char*> classes() const override { return {"forks", "forks while the forking thread held something", "forks of forked children", "children with several threads", "foreign unlocks", "kills", "newcomers", "lock kept by a child to the end", "parent dead before the end", "fork from the first thread"}; }
	int programs(bool t) const override { return t ? 300000 : 15000; }
	int variants(bool t) const override { return t ? 10 : 6; }
	int grp(const Case& c, int a) { char b[16]; snprintf(b, sizeof(b), "grp%d", a); return (int)c.get(b); }
	void gen(Rng& r, Case& c, uint64_t) override {
		LGen g; g.anyrobust = false; g.deadchk = r.chance(1, 3); g.maxag = 5; g.rw = r.chance(2, 3); if(g.rw && r.chance(1, 3)){ g.mutex = false; }
		g.cond = g.mutex && r.chance(1, 3); g.exits = r.chance(1, 8); g.maxsec = 2;
		gen_locks(r, c, g);
		int nag = (int)c.get("agents"); auto rs = resources(c); int nres = (int)rs.size();
		// groups by agent: the later ones are born by a fork of an earlier agent
		int ng = r.range(2, nag); std::vector<std::vector<int>> mem((size_t)ng);
		for(int i = 0; i < nag; i++){ int q = i < ng ? i : r.range(0, ng - 1); char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = q; mem[(size_t)q].push_back(i); }
		c.cfg["mainth"] = r.chance(1, 2); c.cfg["zombie"] = r.chance(1, 3); c.cfg["lcnt"] = 64; c.cfg["mcnt"] = 16; c.cfg["ocnt"] = 32;
		if(r.chance(1, 4)){ c.cfg["sysp"] = 1; }
		if(r.chance(1, 3)){                             // kept by a child
			char b[16]; snprintf(b, sizeof(b), "res%d", nres); bool rw = g.rw && r.chance(2, 3);
			if(rw){ int k = 0; for(;; k++){ char d[16]; snprintf(d, sizeof(d), "ro%d", k); if(c.cfg.find(d) == c.cfg.end()){ break; } } char d[16], e[16]; snprintf(d, sizeof(d), "ro%d", k); snprintf(e, sizeof(e), "rl%d", k); c.cfg[d] = 100000; c.cfg[e] = 7; c.cfg[b] = 10000 + k; }
			else{ c.strs.push_back("kept"); c.cfg[b] = ((long)c.strs.size() - 1) * 100; }
			int keeper = r.range(ng > 2 ? 1 : 0, nag - 1); if(!grp(c, keeper)){ keeper = 1; }
			c.cfg["kept"] = nres + 1; c.add(keeper, rw ? (r.chance(1, 4) ? K_RTRY : K_WTRY) : K_MTRY, nres, rw ? (c.get("nofd") ? 100 : 0) : 0);
		}
		// foreign unlocks
		if(r.chance(1, 2)){
			int n = r.range(1, 3);
			for(int i = 0; i < n; i++){ int ri = r.range(0, (int)resources(c).size() - 1); const Res q = resources(c)[(size_t)ri]; Op o; o.id = c.next_id(); o.agent = r.range(0, nag - 1); o.kind = K_STEAL; o.pair = 0; o.a[0] = ri; o.a[1] = q.rw ? (c.get("nofd") && q.a0 == 0 ? 100 : q.a0) : 0; o.a[2] = o.a[3] = 0; c.ops.insert(c.ops.begin() + r.range(0, (int)c.ops.size()), o); }
		}
		for(int q = 1; q < ng; q++){
			int first = mem[(size_t)q][0]; bool spawn = r.chance(1, 6);
			if(q == 1){ spawn = false; }
			// somebody of an earlier group does it
			std::vector<int> can; for(int a = 0; a < nag; a++){ if(grp(c, a) < q){ can.push_back(a); } }
			if(q > 1 && r.chance(1, 6)){ continue; }             // there from the beginning
			int by = r.chance(2, 3) ? can[0] : can[(size_t)r.range(0, (int)can.size() - 1)];
			for(int a : mem[(size_t)q]){ char b[16]; snprintf(b, sizeof(b), "late%d", a); c.cfg[b] = 1; }
			std::vector<size_t> at; for(size_t i = 0; i < c.ops.size(); i++){ if(c.ops[i].agent == by && c.ops[i].kind != K_EXIT){ at.push_back(i); } }
			Op o; o.id = c.next_id(); o.agent = by; o.kind = spawn ? K_SPAWN : K_FORK; o.pair = 0; o.a[0] = q; o.a[1] = o.a[2] = o.a[3] = 0; (void)first;
			size_t pos = at.empty() ? 0 : at[(size_t)r.range(0, (int)at.size() - 1)] + (r.chance(1, 2) ? 1 : 0);
			c.ops.insert(c.ops.begin() + (long)pos, o);
		}
	}
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		Prop::vary(r, c, st, k / 2); if(c.pre.size() > 5){ c.pre.resize(5); }
		if(k % 2){
			std::vector<const Op*> can; for(auto& o : c.ops){ if(o.id < (int)st.size() && st[(size_t)o.id] > 0 && o.kind != K_DEADCHK && o.kind != K_SPAWN){ can.push_back(&o); } }
			if(can.empty()){ return; }
			int n = r.chance(1, 4) ? 2 : 1;
			for(int i = 0; i < n; i++){ const Op* o = can[(size_t)r.range(0, (int)can.size() - 1)]; bool rw = (o->kind >= K_RLOCK && o->kind <= K_RWUNLOCK) || o->kind == K_STEAL; int s = st[(size_t)o->id];
				c.pre.push_back({o->agent, o->id, rw ? 0 : r.range(0, std::min(s, 150) - 1), -1}); }
		}
	}
	bool holds(int a) { for(size_t k = 0; k < res.size(); k++){ LModel::R& r = M()->r[k]; if(r.wowner == a + 1 || r.readers[a]){ return true; } } return false; }
	void run_op(const Case& c, const Op& o, int me) override {
		char nm[160];
		if(o.kind == K_FORK || o.kind == K_SPAWN){
			int n = 0; for(int a = 0; a < vs::C->nag; a++){ if(grp(c, a) == o.a[0]){ n++; char b[16]; snprintf(b, sizeof(b), "late%d", a); if(!c.get(b) || vs::C->a[a].state != vs::ST_NONE){ return; } } }
			if(!n){ return; }
			bool h = false; for(int a = 0; a < vs::C->nag; a++){ if(grp(c, a) == grp(c, me) && holds(a)){ h = true; } }
			if(o.kind == K_SPAWN){ cls(6); X()->spawns++; spawn_group(o.a[0]); return; }
			cls(0); X()->forks++; if(h){ X()->heldfork++; } if(holds(me)){ cls(1); }
			{ char b[16]; snprintf(b, sizeof(b), "late%d", me); if(c.get(b)){ cls(2); } } if(n > 1){ cls(3); }
			if(vs::C->a[me].pid == vs::C->a[me].tid){ cls(9); }
			fork_group(c, o.a[0]);
			return;
		}
		if(o.kind == K_STEAL){
			LModel::R& r = M()->r[o.a[0]]; if(r.wowner == me + 1 || r.readers[me]){ return; }
			const Res& q = res[(size_t)o.a[0]]; int own = r.wowner; uint32_t seq = r.seq; int act = r.act; cls(4); X()->steals++;
			int a[4] = {0, 0, 0, 0}; if(q.rw){ a[0] = o.a[1]; a[1] = q.a1; }else{ a[0] = q.a0; }
			int rc = lib_call(c, q.rw ? K_RWUNLOCK : K_MUNLOCK, a);
			if(q.rw){ if(rc != EINVAL){ vs::fail("RESULT: agent %d does not hold %s but unlocking it returned %d", me, rname(o.a[0], nm, sizeof(nm)), rc); } return; }
			bool steady = own && r.wowner == own && r.seq == seq && r.act == act;
			if(rc != EPERM && rc != 0 && rc != EINVAL){ vs::fail("RESULT: agent %d does not hold %s but unlocking it returned %d", me, rname(o.a[0], nm, sizeof(nm)), rc); }
			if(steady && rc != EPERM){ vs::fail("RESULT: agent %d unlocked %s which agent %d holds: %d", me, rname(o.a[0], nm, sizeof(nm)), own - 1, rc); }
			return;
		}
		if(o.kind != K_FORK && o.kind != K_EXIT){ char b[16]; snprintf(b, sizeof(b), "late%d", me); if(c.get(b)){ X()->childheld = 1; } }
		LockProp::run_op(c, o, me);
	}
	void on_crash(const Case& c, int a, int g) override {
		for(int i = 0; i < vs::C->nag; i++){ if(vs::C->a[i].group == g && vs::C->a[i].opid >= 0){ for(auto& o : c.ops){ if(o.id == vs::C->a[i].opid && ((o.kind >= K_RLOCK && o.kind <= K_RWUNLOCK) || o.kind == K_DEADCHK || o.kind == K_STEAL)){ X()->outside = vs::C->a[i].opstep > 1 ? 1 : X()->outside; } } } }
		LockProp::on_crash(c, a, g); X()->deaths++; cls(5);
	}
	void classify(const Case&, RunResult& r) override { if(X()->outside){ r.fail = 0; r.nontrivial = 0; } }
	void on_threadgone(const Case& c, int a) override { LockProp::on_threadgone(c, a); X()->deaths++; }
	bool has_probe(const Case&) override { return true; }
	bool kill_before_probe(const Case& c) override { 
		// the processes that were there first go when a child keeps the lock
		(void)c; return false;
	}
	void probe(const Case& c) override {
		int kept = (int)c.get("kept") - 1; char nm[160];
		if(kept >= 0 && kept < (int)res.size()){
			LModel::R& r = M()->r[kept]; bool rd = false; for(int i = 0; i < vs::MAXA; i++){ if(r.readers[i]){ rd = true; } }
			if(r.wowner || rd){
				const Res& q = res[(size_t)kept]; int a[4] = {0, 0, 0, 0}; if(q.rw){ a[0] = c.get("nofd") ? 100 : 0; a[1] = q.a1; }else{ a[0] = q.a0; }
				int rc = lib_call(c, q.rw ? K_WTRY : K_MTRY, a); progress(); cls(7);
				if(rc != EBUSY){ vs::fail("ROBBED: %s is held by a live child but a try in a new process returned %d", rname(kept, nm, sizeof(nm)), rc); }
				FlShm::CheckProcessDead(); progress();
				rc = lib_call(c, q.rw ? K_WTRY : K_MTRY, a); progress();
				if(rc != EBUSY){ vs::fail("ROBBED: %s is held by a live child but a try in a new process after a dead-owner check returned %d", rname(kept, nm, sizeof(nm)), rc); }
				res.resize((size_t)kept);
			}
		}
		probe_all(c, true);
	}
	void finish(const Case&, RunResult& r) override {
		bool pd = vs::C->a[0].state == vs::ST_DEAD; if(pd && X()->forks){ cls(8); }
		r.nontrivial = !X()->outside && X()->forks && (X()->heldfork || X()->deaths || X()->spawns || (X()->childheld && vs::C->preempts)) ? 1 : -1;
	}
};
PropReg r14(new C14);
}

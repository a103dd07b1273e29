// C10: dead-owner checks from everywhere while the holders live, are slow, or
// can not be inspected; other owners really end at the same time.
#include "lockprog.h"
#include "fullock.h"
#include "flckshm.h"
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <signal.h>
#include <unistd.h>

namespace {
struct M10 { LModel l; int checks, deaths, outside; };
struct C10 : LockProp {
	M10* X() { return (M10*)vs::C->model; }
	size_t model_size() const override { return sizeof(M10); }
	const char* id() const override { return "C10"; }
	const char* rule() const override { return "random lock programs of 2-5 agents in 1-5 processes, some of which may not inspect the others, with dead-owner checks run explicitly and by every waiting call, condition waits, slow callers (others spin far beyond the take-over limit), threads that end and processes that are killed outside reader/writer calls, system calls as scheduling points in part of the cases; exclusion among live holders is checked at every grant and a lock kept to the end has to refuse a new process after another dead-owner check; non-trivial: a dead-owner check ran while a live thread held a lock and a preemption, a kill or a slow caller was involved"; }
	std::vector<const char*> classes() const override { return {"cases with processes that may not inspect others", "lock kept to the end", "slow callers", "kills", "threads that ended", "system calls as scheduling points", "explicit checks while a lock was held"}; }
	int programs(bool t) const override { return t ? 300000 : 14000; }
	int variants(bool t) const override { return t ? 10 : 7; }
	bool child_init(const Case& c, int g) override {
		if(!LockProp::child_init(c, g)){ return false; }
		if(c.get("unpriv") & (1L << g)){                   // effective user only: the controller may still end it
			if(syscall(SYS_setresuid, -1, 65534, -1)){ return false; }
			prctl(PR_SET_PDEATHSIG, SIGKILL);
		}
		return true;
	}
	// the owner changes and the old one ends while a check looks at it
	void gen_swap(Rng& r, Case& c) {
		c.cfg["agents"] = 3; for(int i = 0; i < 3; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i; }
		c.strs = {"m", "mutex-b", "C", "x y"}; c.cfg["res0"] = 0; c.cfg["ro0"] = 0; c.cfg["rl0"] = 1; c.cfg["nfiles"] = 1; c.cfg["nslots"] = 2; c.cfg["swap"] = 1;
		c.cfg["robust"] = 2; c.cfg["chk"] = 50; c.cfg["free"] = 1; c.cfg["rot"] = r.range(0, 5); c.cfg["quiet"] = 40; c.cfg["sysp"] = r.chance(3, 4);
		Op o = c.add(0, K_MLOCK, 0, 0, 0, 0, 1); c.add(0, K_CS, 0, 0, r.range(0, 2)); c.add(0, K_CTIMED, 0, 0, 200, o.id + 1, 1); c.add(0, K_MUNLOCK, 0, 0, 0, o.id + 1, 1);
		o = c.add(1, K_MLOCK, 0); c.add(1, K_CS, 0, 0, r.range(1, 5)); c.add(1, K_MUNLOCK, 0, 0, 0, o.id + 1);
		if(r.chance(1, 2)){ c.add(2, K_DEADCHK); }
		o = c.add(2, K_MLOCK, 0); c.add(2, K_MUNLOCK, 0, 0, 0, o.id + 1);
	}
	void vary_swap(Rng& r, Case& c, const std::vector<int>& st) {
		const Op* chk = nullptr; const Op* cw = nullptr;
		for(auto& o : c.ops){ if(o.agent == 2 && (o.kind == K_DEADCHK || o.kind == K_MLOCK) && !chk){ chk = &o; } if(o.kind == K_CTIMED){ cw = &o; } }
		if(!chk || !cw){ return; }
		int n = chk->id < (int)st.size() ? st[(size_t)chk->id] : 0, m = cw->id < (int)st.size() ? st[(size_t)cw->id] : 0; if(n < 3 || m < 3){ return; }
		int s = r.range(1, std::min(n, 120) - 2);
		int p0 = r.range(0, std::min(m, 60) - 1);
		c.pre.push_back({2, chk->id, 0, 0}); c.pre.push_back({0, cw->id, p0, 2}); c.pre.push_back({2, chk->id, s, 0}); c.pre.push_back({2, chk->id, s + r.range(1, 2), 0}); c.pre.push_back({0, cw->id, p0 + 1 + r.range(0, 40), -1});
	}
	void gen(Rng& r, Case& c, uint64_t) override {
		if(r.chance(1, 6)){ gen_swap(r, c); return; }
		LGen g; g.anyrobust = false; g.deadchk = true; g.maxag = 5; g.rw = r.chance(2, 3); if(g.rw && r.chance(1, 3)){ g.mutex = false; }
		g.cond = g.mutex && r.chance(2, 3); g.exits = r.chance(1, 4);
		gen_locks(r, c, g);
		int nag = (int)c.get("agents"); auto rs = resources(c); int nres = (int)rs.size();
		if(r.chance(1, 2)){ c.cfg["unpriv"] = r.range(1, 63); }
		if(r.chance(1, 3)){ c.cfg["sysp"] = 1; }
		if(r.chance(1, 8)){ c.cfg["quiet"] = r.range(1100, 2500); }
		c.cfg["mainth"] = r.chance(1, 2); c.cfg["zombie"] = r.chance(1, 4); c.cfg["lcnt"] = 64; c.cfg["mcnt"] = 16; c.cfg["ocnt"] = 32;
		if(r.chance(1, 2)){
			// one more resource that its first holder keeps
			char b[16]; snprintf(b, sizeof(b), "res%d", nres); bool rw = g.rw && r.chance(2, 3);
			if(rw){ int k = 0; for(;; k++){ char d[16]; snprintf(d, sizeof(d), "ro%d", k); if(c.cfg.find(d) == c.cfg.end()){ break; } } char d[16], e[16]; snprintf(d, sizeof(d), "ro%d", k); snprintf(e, sizeof(e), "rl%d", k); c.cfg[d] = 100000; c.cfg[e] = 7; c.cfg[b] = 10000 + k; }
			else{ c.strs.push_back("kept"); c.cfg[b] = ((long)c.strs.size() - 1) * 100; }
			int keeper = r.range(0, nag - 1), nf = (int)c.get("nfiles", 1), slot = rw ? (c.get("nofd") ? 100 : (r.chance(1, 2) ? 0 : nf)) : 0; c.cfg["kept"] = nres + 1;
			c.add(keeper, rw ? (r.chance(1, 4) ? K_RTRY : K_WTRY) : K_MTRY, nres, slot);
			for(int a = 0; a < nag; a++){
				if(a == keeper){ if(r.chance(1, 2)){ c.add(a, K_DEADCHK); } continue; }
				int n = r.range(0, 2);
				for(int i = 0; i < n; i++){
					if(r.chance(1, 2)){ c.add(a, K_DEADCHK); }
					bool rd = r.chance(1, 2), tm = r.chance(1, 2); static const int us[] = {5, 60, 200};
					Op o = c.add(a, rw ? (rd ? (tm ? K_RTIMED : K_RTRY) : (tm ? K_WTIMED : K_WTRY)) : (tm ? K_MTIMED : K_MTRY), nres, slot, tm ? us[r.range(0, 2)] : 0);
					c.add(a, rw ? K_RWUNLOCK : K_MUNLOCK, nres, slot, 0, o.id + 1);
				}
			}
		}
	}
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		if(c.get("swap")){ vary_swap(r, c, st); return; }
		Prop::vary(r, c, st, k / 2); if(c.pre.size() > 5){ c.pre.resize(5); }
		if(k % 3 == 2){
			std::vector<const Op*> can; for(auto& o : c.ops){ if(o.id < (int)st.size() && st[(size_t)o.id] > 0 && o.kind != K_DEADCHK){ can.push_back(&o); } }
			if(can.empty()){ return; }
			const Op* o = can[(size_t)r.range(0, (int)can.size() - 1)]; bool rw = o->kind >= K_RLOCK && o->kind <= K_RWUNLOCK; int s = st[(size_t)o->id];
			c.pre.push_back({o->agent, o->id, rw ? 0 : r.range(0, std::min(s, 150) - 1), -1});
			// bring a checker near the victim
			for(auto& q : c.ops){ if(q.agent != o->agent && q.id < (int)st.size() && st[(size_t)q.id] > 0 && (q.kind == K_DEADCHK || q.kind == K_MLOCK) && r.chance(1, 4)){ c.pre.push_back({q.agent, q.id, r.range(0, std::min(st[(size_t)q.id], 200) - 1), o->agent}); break; } }
		}
	}
	void run_op(const Case& c, const Op& o, int me) override {
		if(o.kind == K_DEADCHK){ bool h = false; for(size_t k = 0; k < res.size(); k++){ LModel::R& r = M()->r[k]; if(r.wowner){ h = true; } for(int i = 0; i < vs::MAXA; i++){ if(r.readers[i]){ h = true; } } } X()->checks++; if(h){ cls(6); } }
		LockProp::run_op(c, o, me);
	}
	void on_crash(const Case& c, int a, int g) override { 
		// a process killed inside a reader/writer call belongs to C08
		for(int i = 0; i < vs::C->nag; i++){ if(vs::C->a[i].group == g && vs::C->a[i].opid >= 0){ for(auto& o : c.ops){ if(o.id == vs::C->a[i].opid && ((o.kind >= K_RLOCK && o.kind <= K_RWUNLOCK) || o.kind == K_DEADCHK)){ X()->outside = vs::C->a[i].opstep > 1 ? 1 : X()->outside; } } } }
		LockProp::on_crash(c, a, g); X()->deaths++; cls(3);
	}
	void classify(const Case&, RunResult& r) override { if(X()->outside){ r.fail = 0; r.nontrivial = 0; } }
	void on_threadgone(const Case& c, int a) override { LockProp::on_threadgone(c, a); X()->deaths++; cls(4); }
	bool has_probe(const Case&) override { return true; }
	void probe(const Case& c) override {
		int kept = (int)c.get("kept") - 1; char nm[160];
		FlShm::CheckProcessDead();
		if(kept >= 0 && kept < (int)res.size()){
			LModel::R& r = M()->r[kept]; bool rd = false; for(int i = 0; i < vs::MAXA; i++){ if(r.readers[i]){ rd = true; } }
			if(r.wowner || rd){
				const Res& q = res[(size_t)kept]; int a[4] = {0, 0, 0, 0}; if(q.rw){ a[0] = c.get("nofd") ? 100 : 0; a[1] = q.a1; }else{ a[0] = q.a0; }
				int rc = lib_call(c, q.rw ? K_WTRY : K_MTRY, a); progress(); cls(1);
				if(rc != EBUSY){ vs::fail("ROBBED: %s is held by a live thread but a try in a new process returned %d", rname(kept, nm, sizeof(nm)), rc); }
				res.resize((size_t)kept);                      // the last one
			}
		}
		probe_all(c, true);
	}
	bool shrink_ok(const Case& c) override { (void)c; return true; }
	void finish(const Case& c, RunResult& r) override {
		if(c.get("unpriv")){ cls(0); } if(c.get("quiet") > 1000){ cls(2); } if(c.get("sysp")){ cls(5); }
		bool ov = false; for(size_t i = 0; i < res.size(); i++){ if(M()->r[i].overlap){ ov = true; } }
		r.nontrivial = !X()->outside && (X()->checks || ov) && (vs::C->preempts || X()->deaths || c.get("quiet") > 1000) ? 1 : -1;
	}
};
PropReg r10(new C10);
}

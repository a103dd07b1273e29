// C15: processes that attach at the same moment to a missing, stale, damaged or
// used shared file, every file system call and every store of the
// initialisation being a scheduling point, some killed in the middle.
#include "lockprog.h"
#include "fullock.h"
#include "flckshm.h"
#include "flckstructure.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
enum { K_ATTACH = K_USER, K_REATTACH };
enum { F_NONE, F_STALE, F_EMPTY, F_CUT, F_GARBAGE, F_USED, F_DIR };
struct M15 { LModel l; int attached[vs::MAXA], inattach, together, deaths, killattach, outside; };
struct C15 : LockProp {
	M15* X() { return (M15*)vs::C->model; }
	size_t model_size() const override { return sizeof(M15); }
	const char* id() const override { return "C15"; }
	const char* rule() const override { return "2-6 processes attach, with equal or different table sizes, to a shared file that is missing (its directories may be missing too), left over from a killed process that used locks and conditions, empty, cut off, filled with other bytes or in use by a process that holds a lock; every file system call, lock of the file and store of the initialisation is a scheduling point; some are killed at any of these points, some detach and attach again; each then runs a random lock program, and a newcomer at the end tries everything and uses as many new conditions as were configured; non-trivial: two processes were inside the attach at the same time, or one was killed inside it, or the file was in use"; }
	std::vector<const char*> classes() const override { return {"missing file", "left over file", "empty file", "cut off file", "file with other bytes", "file in use", "missing directories", "attaches while another one is under way", "kills inside an attach", "kills elsewhere", "attach again", "lock kept to the end"}; }
	int programs(bool t) const override { return t ? 300000 : 8000; }
	int variants(bool t) const override { return t ? 10 : 7; }
	int grp(const Case& c, int a) { char b[16]; snprintf(b, sizeof(b), "grp%d", a); return (int)c.get(b); }
	std::string sdir(const Case& c) { return c.get("file") == F_DIR ? case_dir() + (c.get("deep") ? "/w/x/y" : "/w") : case_dir(); }
	bool attach(const Case& c, int g) {
		std::string d = sdir(c); lib_env(d.c_str());
		int k = c.get("sizes") ? g : 0;
		if(!fullock_reinitialize_ex(d.c_str(), "flck.shm", (size_t)(8 + k), (size_t)(16 + 4 * k), (size_t)(32 + 8 * k), (size_t)(8 + 3 * k), (size_t)(8 + k), (size_t)(16 + k))){ return false; }
		fullock_set_high_robust(); fullock_set_robust_check_count(50); fullock_set_noretry_deny_nomap();
		switch(c.get("free", 1)){ case 0: fullock_set_no_freeunit(); break; case 2: fullock_set_offset_freeunit(); break; default: fullock_set_fd_freeunit(); break; }
		return true;
	}
	bool child_init(const Case& c, int g) override {
		open_files(c);
		if(g >= (int)c.get("agents") || (c.get("file") == F_USED && g == 0)){ return attach(c, g); }        // probe, resident
		lib_env(sdir(c).c_str()); fullock_set_noretry_deny_nomap();
		return true;
	}
	void prepare(const Case& c) override {
		int f = (int)c.get("file"); std::string p = case_dir() + "/flck.shm";
		if(f == F_STALE || f == F_CUT){
			pid_t pid = fork();
			if(pid == 0){
				open_files(c); lib_env(case_dir().c_str()); fullock_reinitialize_ex(case_dir().c_str(), "flck.shm", 10, 20, 24, (size_t)c.get("stalem", 5), 9, 18); ranges(c);
				for(auto& q : resources(c)){ int a[4] = {0, 0, 0, 0}; if(q.rw){ a[0] = q.a0; a[1] = q.a1; }else{ a[0] = q.a0; } lib_call(c, q.rw ? K_WLOCK : K_MLOCK, a); }
				if(c.get("stalec")){                          // conditions remain in its list
					fullock_mutex_trylock("stale");
					for(int i = 0; i < (int)c.get("stalec"); i++){ char b[16]; snprintf(b, sizeof(b), "s%d", i); fullock_cond_timedwait(b, "stale", 1); }
				}
				kill(getpid(), SIGKILL);
			}
			waitpid(pid, nullptr, 0);
			if(f == F_CUT && truncate(p.c_str(), c.get("cut"))){}
		}else if(f == F_EMPTY || f == F_GARBAGE){
			FILE* o = fopen(p.c_str(), "w");
			if(o && f == F_GARBAGE){ Rng r((uint64_t)c.get("seed")); for(long i = 0; i < c.get("cut"); i++){ fputc(r.range(0, 255), o); } }
			if(o){ fclose(o); }
		}
	}
	void gen(Rng& r, Case& c, uint64_t) override {
		LGen g; g.anyrobust = false; g.maxag = 6; g.rw = r.chance(2, 3); if(g.rw && r.chance(1, 3)){ g.mutex = false; } g.allproc = true; g.maxsec = 1; g.maxres = 2; g.nest = false; g.recursion = false; g.nofd = false;
		gen_locks(r, c, g);
		int nag = (int)c.get("agents"); auto rs = resources(c); int nres = (int)rs.size();
		c.cfg["sysp"] = 1; c.cfg["sizes"] = r.chance(1, 3); c.cfg["quiet"] = 60; c.cfg["zombie"] = r.chance(1, 3); c.cfg["mainth"] = r.chance(1, 2);
		int f = r.chance(1, 4) ? F_NONE : r.range(0, F_DIR); c.cfg["file"] = f;
		if(f == F_DIR){ c.cfg["deep"] = r.range(0, 1); }
		if(f == F_STALE || f == F_CUT){ c.cfg["stalem"] = r.range(1, 40); c.cfg["stalec"] = r.chance(1, 2) ? 0 : r.range(1, 9); }
		if(f == F_CUT || f == F_GARBAGE){ c.cfg["cut"] = r.chance(1, 3) ? r.range(1, 300) : r.range(1, 12000); c.cfg["seed"] = r.range(1, 1000000); }
		for(int a = 0; a < nag; a++){
			if(f == F_USED && a == 0){ continue; }
			Op o; o.id = c.next_id(); o.agent = a; o.kind = K_ATTACH; o.pair = 0; o.a[0] = o.a[1] = o.a[2] = o.a[3] = 0;
			c.ops.insert(c.ops.begin(), o);
			if(r.chance(1, 6)){ c.add(a, K_REATTACH); if(r.chance(1, 2)){ const Res& q = rs[(size_t)r.range(0, nres - 1)]; int ri = (int)(&q - &rs[0]); Op l = c.add(a, q.rw ? K_WLOCK : K_MLOCK, ri, q.rw ? q.a0 : 0); c.add(a, q.rw ? K_RWUNLOCK : K_MUNLOCK, ri, q.rw ? q.a0 : 0, 0, l.id + 1); } }
		}
		if(f == F_USED || r.chance(1, 4)){
			char b[16]; snprintf(b, sizeof(b), "res%d", nres); bool rw = g.rw && r.chance(2, 3);
			if(rw){ int k = 0; for(;; k++){ char d[16]; snprintf(d, sizeof(d), "ro%d", k); if(c.cfg.find(d) == c.cfg.end()){ break; } } char d[16], e[16]; snprintf(d, sizeof(d), "ro%d", k); snprintf(e, sizeof(e), "rl%d", k); c.cfg[d] = 100000; c.cfg[e] = 7; c.cfg[b] = 10000 + k; }
			else{ c.strs.push_back("kept"); c.cfg[b] = ((long)c.strs.size() - 1) * 100; }
			c.cfg["kept"] = nres + 1;
			int keeper = f == F_USED && r.chance(3, 4) ? 0 : r.range(0, nag - 1);
			Op o; o.id = c.next_id(); o.agent = keeper; o.kind = rw ? K_WLOCK : K_MLOCK; o.pair = 0; o.a[0] = nres; o.a[1] = o.a[2] = o.a[3] = 0;
			if(keeper == 0 && f == F_USED && r.chance(1, 2)){ c.ops.insert(c.ops.begin(), o); }else{ size_t p = c.ops.size(); for(size_t i = 0; i < c.ops.size(); i++){ if(c.ops[i].agent == keeper && c.ops[i].kind == K_REATTACH){ c.ops.erase(c.ops.begin() + (long)i); --p; break; } } c.ops.insert(c.ops.begin() + (long)p, o); }
		}
	}
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		c.pre.clear(); c.cfg["rot"] = r.range(0, 719);
		std::vector<const Op*> at, other; for(auto& o : c.ops){ if(o.id < (int)st.size() && st[(size_t)o.id] > 0){ (o.kind == K_ATTACH || o.kind == K_REATTACH ? at : other).push_back(&o); } }
		if(at.empty()){ return; }
		int nag = (int)c.get("agents"), n = r.range(1, 4);
		auto where = [&](const Op* o){ int s = st[(size_t)o->id]; return r.chance(1, 2) ? r.range(0, std::min(s, 30) - 1) : (r.chance(1, 2) ? std::max(0, s - 1 - r.range(0, 30)) : r.range(0, s - 1)); };
		for(int i = 0; i < n; i++){ const Op* o = r.chance(4, 5) || other.empty() ? r.pick(at) : r.pick(other); int t = r.range(0, nag - 1); c.pre.push_back({o->agent, o->id, where(o), t}); }
		if(k % 2){
			int m = r.chance(1, 3) ? 2 : 1;
			for(int i = 0; i < m; i++){ const Op* o = r.chance(5, 6) || other.empty() ? r.pick(at) : r.pick(other); bool a = o->kind == K_ATTACH || o->kind == K_REATTACH; c.pre.push_back({o->agent, o->id, a ? where(o) : 0, -1}); }
		}
	}
	bool holds(int a) { for(size_t k = 0; k < res.size(); k++){ LModel::R& r = M()->r[k]; if(r.wowner == a + 1 || r.readers[a]){ return true; } } return false; }
	void run_op(const Case& c, const Op& o, int me) override {
		if(o.kind == K_ATTACH || o.kind == K_REATTACH){
			if(o.kind == K_REATTACH && (holds(me) || !X()->attached[me])){ return; }
			if(o.kind == K_REATTACH){ cls(10); }
			if(X()->inattach){ X()->together = 1; cls(7); }
			X()->inattach++;
			bool ok = attach(c, grp(c, me));
			X()->inattach--;
			if(!ok){ vs::fail("ATTACH: process of agent %d could not attach to the shared file", me); }
			X()->attached[me] = 1;
			return;
		}
		if(!X()->attached[me] && !(me == 0 && c.get("file") == F_USED)){ return; }
		LockProp::run_op(c, o, me);
	}
	void on_crash(const Case& c, int a, int g) override {
		bool in = false;
		for(auto& o : c.ops){ if(o.id == vs::C->a[a].opid){ if(o.kind == K_ATTACH || o.kind == K_REATTACH){ if(vs::C->a[a].opstep > 1){ in = true; } }else if(vs::C->a[a].opstep > 1){ X()->outside = 1; } } }
		if(in){ X()->inattach--; X()->killattach++; cls(8); }else{ cls(9); }
		LockProp::on_crash(c, a, g); X()->deaths++;
	}
	void classify(const Case&, RunResult& r) override { if(X()->outside){ r.fail = 0; r.nontrivial = 0; } }
	bool has_probe(const Case&) override { return true; }
	void probe(const Case& c) override {
		int kept = (int)c.get("kept") - 1; char nm[160];
		if(kept >= 0 && kept < (int)res.size()){
			LModel::R& r = M()->r[kept];
			if(r.wowner){
				const Res& q = res[(size_t)kept]; int a[4] = {0, 0, 0, 0}; if(q.rw){ a[1] = q.a1; }else{ a[0] = q.a0; }
				int rc = lib_call(c, q.rw ? K_WTRY : K_MTRY, a); progress(); cls(11);
				if(rc != EBUSY){ vs::fail("NOT SHARED: %s is held by a live process but a try in a new process returned %d", rname(kept, nm, sizeof(nm)), rc); }
				res.resize((size_t)kept);
			}
		}
		probe_all(c, true);
		// every condition that was configured can be used, none is known before
		if(fullock_cond_signal("p0") != EINVAL){ vs::fail("CONDITION: a condition that nobody used is known"); }
		int rc = fullock_mutex_lock("pm"); if(rc){ vs::fail("CONDITION: the mutex of the probe: %d", rc); }
		for(int i = 0; i < 8; i++){
			snprintf(nm, sizeof(nm), "p%d", i); rc = fullock_cond_timedwait(nm, "pm", 1); progress();
			if(rc != ETIMEDOUT){ vs::fail("CONDITION: a timed wait on new condition %d of 8 returned %d", i + 1, rc); }
			rc = fullock_cond_signal(nm); if(rc){ vs::fail("CONDITION: a signal to condition %d returned %d", i + 1, rc); }
		}
		rc = fullock_cond_signal("nobody"); if(rc != EINVAL){ vs::fail("CONDITION: a signal to an unknown condition returned %d", rc); }
		rc = fullock_mutex_unlock("pm"); if(rc){ vs::fail("CONDITION: unlock of the probe's mutex: %d", rc); }
	}
	void finish(const Case& c, RunResult& r) override {
		cls((int)c.get("file"));
		r.nontrivial = !X()->outside && (X()->together || X()->killattach || c.get("file") == F_USED) ? 1 : -1;
	}
};
PropReg r15(new C15);
}

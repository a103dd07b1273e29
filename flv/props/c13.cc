// C13: the same program under different free-unit modes.  Half of the cases
// compare two sequential runs result by result, the other half interleaves
// processes in different and changing modes against the exclusion model.
#include "lockprog.h"
#include "fullock.h"
#include "flckshm.h"
#include <errno.h>
#include <string.h>

namespace {
enum { MAXR = 200, PENDING = -77 };
struct M13 { LModel l; int rc[MAXR]; int switched, reused; unsigned char used[32]; };
struct C13 : LockProp {
	M13* X() { return (M13*)vs::C->model; }
	size_t model_size() const override { return sizeof(M13); }
	const char* id() const override { return "C13"; }
	const char* rule() const override { return "either one random sequential history of 20-80 lock, try, timed, unlock and query calls, dead-owner checks and ends of processes by 2-4 agents over up to 3 files and 6 ranges, run once in the mode that frees files and once with another mode per process that changes between calls, and compared result by result; or a random concurrent lock program whose processes use different and changing modes, preempted at random points, with every result judged by the exclusion model and all locks free at the end; non-trivial: the mode differed from the reference while a range was locked again after it had been released (sequential), or a preemption was taken and two agents used a lock at overlapping times (concurrent)"; }
	std::vector<const char*> classes() const override { return {"sequential comparisons", "concurrent cases", "changes of the mode", "ranges locked again after a release", "results compared", "processes ended in sequential histories"}; }
	int programs(bool t) const override { return t ? 400000 : 20000; }
	int variants(bool t) const override { return t ? 6 : 3; }
	bool child_init(const Case& c, int g) override {
		if(!LockProp::child_init(c, g)){ return false; }
		char b[16]; snprintf(b, sizeof(b), "free%d", g); if(!c.get("ref") && c.cfg.find(b) != c.cfg.end()){ setmode((int)c.get(b)); }
		return true;
	}
	static void setmode(int m) { if(m == 0){ fullock_set_no_freeunit(); }else if(m == 2){ fullock_set_offset_freeunit(); }else{ fullock_set_fd_freeunit(); } }
	void gen(Rng& r, Case& c, uint64_t) override {
		if(r.chance(1, 2)){
			LGen g; g.rw = true; g.mutex = false; g.maxag = 5; g.maxres = 4; g.deadchk = r.chance(1, 2);
			gen_locks(r, c, g); c.cfg["ocnt"] = 64; c.cfg["lcnt"] = 64;
			int nag = (int)c.get("agents"); std::vector<Op> v = c.ops; int id = c.next_id();
			for(int i = r.range(1, 4); i > 0; i--){ size_t p = (size_t)r.range(0, (int)v.size()); Op o; memset(&o, 0, sizeof(o)); o.id = id++; o.agent = r.range(0, nag - 1); o.kind = K_FREEMODE; o.a[0] = r.range(0, 2); v.insert(v.begin() + (long)p, o); }
			c.ops = v;
			for(int gp = 0; gp < nag; gp++){ char b[16]; snprintf(b, sizeof(b), "free%d", gp); c.cfg[b] = r.range(0, 2); }
			return;
		}
		c.cfg["script"] = 1; c.cfg["quiet"] = 1000000; int nag = r.range(2, 4); c.cfg["agents"] = nag;
		int ng = r.range(1, nag); for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i < ng ? i : r.range(0, ng - 1); }
		for(int g = 0; g < ng; g++){ char b[16]; snprintf(b, sizeof(b), "free%d", g); c.cfg[b] = r.range(0, 2); }
		c.cfg["robust"] = r.range(0, 2); c.cfg["chk"] = 50; int nf = r.range(1, 3); c.cfg["nfiles"] = nf; c.cfg["nslots"] = nf * 2; c.cfg["ocnt"] = 64; c.cfg["lcnt"] = 128; c.cfg["free"] = 1; c.cfg["yieldlimit"] = 120;
		int nr = r.range(1, 6); long off = r.range(0, 20); for(int i = 0; i < nr; i++){ char d[16], e[16]; snprintf(d, sizeof(d), "ro%d", i); snprintf(e, sizeof(e), "rl%d", i); long l = r.range(1, 12); c.cfg[d] = off; c.cfg[e] = l; off += l + (r.chance(1, 2) ? 0 : r.range(1, 9)); }
		int n = r.range(20, 80); bool nofd = r.chance(1, 4); std::vector<Op> open; bool ended = false;
		for(int i = 0; i < n; i++){
			int a = r.range(0, nag - 1), slot = nofd && r.chance(1, 4) ? 100 : r.range(0, nf * 2 - 1), rg = r.range(0, nr - 1), x = r.range(0, 99);
			if(x < 40){
				int m = r.range(0, 9); m = m < 6 ? 1 : (m < 8 ? 2 : 0); bool rd = r.chance(1, 2);
				open.push_back(c.add(a, (rd ? K_RLOCK : K_WLOCK) + m, slot, rg, m == 2 ? r.range(1, 30) : 0));
			}else if(x < 72){
				if(!open.empty() && !r.chance(1, 8)){ size_t k = (size_t)r.range(0, (int)open.size() - 1); Op o = open[k]; open.erase(open.begin() + (long)k); c.add(o.agent, K_RWUNLOCK, o.a[0], o.a[1]); }
				else{ c.add(a, K_RWUNLOCK, slot, rg); }
			}else if(x < 84){ c.add(a, K_ISLOCKED, slot, rg); }
			else if(x < 92){ c.add(a, K_FREEMODE, r.range(0, 2)); }
			else if(x < 97){ c.add(a, K_DEADCHK); }
			else if(!ended && r.chance(1, 3) && nag > 2){ ended = true; c.add(a, K_CRASH); }
		}
	}
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		if(!c.get("script")){ Prop::vary(r, c, st, k); for(auto& p : c.pre){ if(p.target < 0){ p.target = 0; } } return; }
		// another assignment of modes
		for(int g = 0; g < 4; g++){ char b[16]; snprintf(b, sizeof(b), "free%d", g); if(c.cfg.find(b) != c.cfg.end()){ c.cfg[b] = r.range(0, 2); } }
		for(auto& o : c.ops){ if(o.kind == K_FREEMODE){ o.a[0] = r.range(0, 2); } }
	}
	void init_model(const Case& c) override {
		LockProp::init_model(c);
		for(int i = 0; i < MAXR; i++){ X()->rc[i] = PENDING; }
	}
	void run_op(const Case& c, const Op& o, int me) override {
		if(o.kind == K_FREEMODE){ if(!c.get("ref")){ setmode(o.a[0]); X()->switched++; cls(2); } return; }
		if(!c.get("script")){ LockProp::run_op(c, o, me); return; }
		if(o.kind == K_CRASH){ cls(5); vs::kill_me(); return; }
		if(o.kind == K_DEADCHK){ FlShm::CheckProcessDead(); return; }
		int rc = lib_call(c, o.kind, o.a);
		if(o.id < MAXR){ X()->rc[o.id] = rc; }
		int key = (o.a[0] >= 100 ? 3 : o.a[0] % (int)c.get("nfiles", 1)) * 6 + o.a[1]; if(key < 32){ if(rc == 0 && o.kind == K_RWUNLOCK){ X()->used[key] = 1; } if(rc == 0 && o.kind >= K_RLOCK && o.kind <= K_WTIMED && X()->used[key]){ X()->reused++; cls(3); } }
	}
	void on_crash(const Case& c, int a, int g) override { (void)c; (void)a; (void)g; }
	bool has_probe(const Case& c) override { return !c.get("script"); }
	void probe(const Case& c) override { probe_all(c, false); }
	void finish(const Case& c, RunResult& r) override {
		if(c.get("script")){ return; }
		cls(1); bool ov = false; for(size_t i = 0; i < res.size(); i++){ if(M()->r[i].overlap){ ov = true; } }
		r.nontrivial = ov && vs::C->preempts ? 1 : -1;
	}
	void run(const Case& c, RunResult& r) override {
		if(!c.get("script")){ SchedProp::run(c, r); return; }
		static int ref[MAXR]; Case b = c; b.cfg["ref"] = 1;
		RunResult r1; SchedProp::run(b, r1);
		if(r1.fail){ r = r1; return; }
		memcpy(ref, X()->rc, sizeof(ref));
		SchedProp::run(c, r);
		cls(0); r.cls[0] = 1;
		r.nontrivial = X()->reused && (X()->switched || modes(c)) ? 1 : 0; r.steps += r1.steps; r.switches += r1.switches;
		if(r.fail){ return; }
		for(auto& o : c.ops){
			if(o.id >= MAXR){ continue; } r.cls[4]++;
			int x = X()->rc[o.id];
			if(x != ref[o.id]){
				auto t = [](int v) { return v == PENDING ? std::string("did not return") : "returned " + std::to_string(v); };
				r.fail = 1; r.msg = "MODES: agent " + std::to_string(o.agent) + ": operation " + std::to_string(o.id) + " (" + kind_name(o.kind) + ") " + t(x) + " but " + t(ref[o.id]) + " when files are freed";
				return;
			}
		}
	}
	bool modes(const Case& c) { for(int g = 0; g < 4; g++){ char b[16]; snprintf(b, sizeof(b), "free%d", g); if(c.get(b, 1) != 1){ return true; } } return false; }
	std::vector<std::string> assumptions() const override { auto v = LockProp::assumptions(); v.push_back("tables are large enough for the program, ranges are equal or disjoint"); v.push_back("results are compared for sequential histories; under concurrency they are judged by the exclusion model"); return v; }
};
PropReg r13(new C13);
}

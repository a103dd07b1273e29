// C09: threads end while holding, descriptors of held ranges are closed or
// reused for another file; the process lives on.
#include "lockprog.h"
#include "fullock.h"
#include "flckshm.h"
#include <fcntl.h>
#include <unistd.h>

namespace {
enum { NG = 4, NSL = 8 };
struct M9 {
	unsigned char hold[vs::MAXA + 1][MAXRES];     // 0, 1 read, 2 write / mutex
	unsigned char slot[vs::MAXA + 1][MAXRES];     // slot + 1
	unsigned char inflight[vs::MAXA + 1];         // slot + 1
	signed char   sfile[NG][NSL];                 // file a slot refers to now, -1 closed
	unsigned char had[NG][NSL];                   // files it has referred to
	unsigned char gone[vs::MAXA + 1];
	unsigned char waits[vs::MAXA + 1];            // resource + 1 of a blocking call under way
	int lostres[MAXRES];                          // holds given up so far
	int taken[MAXRES];                            // got by somebody after a loss
};

struct C09 : LockProp {
	M9* X() { return (M9*)vs::C->model; }
	size_t model_size() const override { return sizeof(M9); }
	const char* id() const override { return "C09"; }
	const char* rule() const override { return "random programs of 2-5 agents in 1-4 processes (main or other threads) in which threads end while holding mutexes and ranges, and descriptors of held ranges are closed or made to refer to another file by the holder or another thread of the process, while further locks are held through other descriptors and by other threads; blocking callers have to get what was given up, nobody may get what is still held, and at the end a new process gets exactly what nobody holds; non-trivial: a lock was given up by the end of its thread or descriptor and somebody took it afterwards"; }
	std::vector<const char*> classes() const override { return {"threads ended holding", "main threads ended holding", "held descriptors closed", "held descriptors reused for another file", "held through another descriptor meanwhile", "given up and taken by a blocking caller", "kept until the end", "closed by another thread"}; }
	int programs(bool t) const override { return t ? 300000 : 20000; }
	int variants(bool t) const override { return t ? 8 : 4; }
	int grp(int a) { char b[16]; snprintf(b, sizeof(b), "grp%d", a); return (int)cs->get(b); }
	void gen(Rng& r, Case& c, uint64_t) override {
		int nag = r.range(2, 5), ng = r.range(1, std::min(nag, (int)NG)); c.cfg["agents"] = nag;
		for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i < ng ? i : r.range(0, ng - 1); }
		c.strs = {"m", "mutex-b", "C", "x y"};
		int nf = r.range(1, 3); c.cfg["nfiles"] = nf; c.cfg["nslots"] = nf * 2;
		int nrng = r.range(1, 2); for(int i = 0; i < nrng; i++){ char d[16], e[16]; snprintf(d, sizeof(d), "ro%d", i); snprintf(e, sizeof(e), "rl%d", i); c.cfg[d] = i * 50; c.cfg[e] = r.chance(1, 2) ? 50 : 1; }
		int nres = r.range(1, 4), n = 0; bool useno = r.chance(1, 5);
		for(int i = 0; i < nres; i++){
			bool rw = r.chance(3, 4); long v = rw ? 10000 + r.range(0, nf - 1) * 100 + r.range(0, nrng - 1) : r.range(0, 3) * 100; bool dup = false;
			for(int k = 0; k < n; k++){ char b[16]; snprintf(b, sizeof(b), "res%d", k); if(c.get(b) == v){ dup = true; } }
			if(!dup){ char b[16]; snprintf(b, sizeof(b), "res%d", n++); c.cfg[b] = v; }
		}
		nres = n; c.cfg["nofd"] = useno;
		c.cfg["robust"] = 2; c.cfg["chk"] = 50; c.cfg["free"] = r.range(0, 2); c.cfg["rot"] = r.range(0, 119); c.cfg["mainth"] = r.chance(1, 2); c.cfg["lcnt"] = 64; c.cfg["quiet"] = r.chance(1, 2) ? 40 : r.range(5, 60);
		auto rs = resources(c);
		int kept = r.chance(1, 3) ? r.range(0, nres - 1) : -1, keeper = r.range(0, nag - 1);
		auto slotof = [&](const Res& q) { return !q.rw ? 0 : (useno && q.a0 == 0 ? 100 : q.a0 + (r.chance(1, 2) ? nf : 0)); };
		bool ended[8] = {false};
		for(int ag = 0; ag < nag; ag++){
			if(kept >= 0 && ag == keeper){ c.add(ag, rs[(size_t)kept].rw ? (r.chance(1, 2) ? K_RLOCK : K_WLOCK) : K_MLOCK, kept, slotof(rs[(size_t)kept])); }
			int ns = r.range(1, 4);
			for(int s = 0; s < ns && !ended[ag]; s++){
				int depth = r.range(1, 2), ri = -1; std::vector<Op> open;
				for(int d = 0; d < depth; d++){
					if(ri + 1 >= nres){ break; }
					ri = r.range(ri + 1, d + 1 < depth ? std::max(ri + 1, nres - 2) : nres - 1);
					if(ri == kept && ag == keeper){ continue; }
					const Res& q = rs[(size_t)ri]; int mode = ri == kept ? r.range(1, 2) : (r.chance(3, 4) ? 0 : r.range(1, 2));
					static const int us[] = {1, 20, 60, 200};
					open.push_back(c.add(ag, (q.rw ? (r.chance(1, 3) ? K_RLOCK : K_WLOCK) : K_MLOCK) + mode, ri, slotof(q), mode == 2 ? us[r.range(0, 3)] : 0));
				}
				if(r.chance(1, 2)){ c.add(ag, K_CS, 0, 0, r.range(1, 4)); }
				if(r.chance(1, 3)){ c.add(ag, K_CLOSE, r.range(0, nf * 2 - 1)); }
				else if(r.chance(1, 4)){ c.add(ag, K_OPEN, r.range(0, nf * 2 - 1), r.range(0, nf - 1)); }
				if(r.chance(1, 6) && !(ag == keeper && r.chance(3, 4))){ c.add(ag, K_EXIT); ended[ag] = true; break; }
				if(r.chance(1, 4)){ c.add(ag, K_DEADCHK); }
				while(!open.empty()){ Op o = open.back(); open.pop_back(); c.add(ag, rs[(size_t)o.a[0]].rw ? K_RWUNLOCK : K_MUNLOCK, o.a[0], o.a[1]); }
			}
		}
	}
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override { Prop::vary(r, c, st, k); for(auto& p : c.pre){ if(p.target < 0){ p.target = 0; } } }
	void init_model(const Case& c) override {
		LockProp::init_model(c);
		int nf = (int)c.get("nfiles");
		for(int g = 0; g < NG; g++){ for(int s = 0; s < NSL; s++){ X()->sfile[g][s] = s < (int)c.get("nslots") ? (signed char)(s % nf) : (signed char)-1; X()->had[g][s] = (unsigned char)(1 << (s % nf)); } }
	}
	const char* rn(int i, char* b, size_t n) { return rname(i, b, n); }
	void drop(int a, int k) { if(X()->hold[a][k]){ X()->hold[a][k] = 0; X()->slot[a][k] = 0; X()->lostres[k]++; } }
	void on_threadgone(const Case& c, int a) override {
		X()->gone[a] = 1; bool h = false;
		for(size_t k = 0; k < res.size(); k++){ if(X()->hold[a][k]){ h = true; } drop(a, (int)k); }
		if(h){ cls(0); bool first = true; for(int i = 0; i < a; i++){ if(grp(i) == grp(a)){ first = false; } } if(c.get("mainth") && first){ cls(1); } }
	}
	void run_op(const Case& c, const Op& o, int me) override {
		M9* x = X(); int g = grp(me); char nm[160];
		switch(o.kind){
		case K_CS: for(int i = 0; i < o.a[2]; i++){ vs::point_yield(); } return;
		case K_DEADCHK: FlShm::CheckProcessDead(); return;
		case K_EXIT: return;
		case K_CLOSE: case K_OPEN: {
			int s = o.a[0], nf = (int)c.get("nfiles");
			if(o.kind == K_OPEN && (o.a[1] >= nf || (x->had[g][s] & (1 << o.a[1])))){ return; }
			if(o.kind == K_CLOSE && x->sfile[g][s] < 0){ return; }
			for(int i = 0; i < vs::C->nag; i++){ if(grp(i) == g && x->inflight[i] == s + 1){ return; } }
			bool h = false, mine = false, other = false;
			for(int i = 0; i < vs::C->nag; i++){ if(grp(i) == g){ for(size_t k = 0; k < res.size(); k++){ if(x->hold[i][k] && x->slot[i][k]){ if(x->slot[i][k] == s + 1){ h = true; if(i == me){ mine = true; } drop(i, (int)k); }else{ other = true; } } } } }
			if(o.kind == K_CLOSE){ x->sfile[g][s] = -1; close(g_fd[s]); }
			else{
				if(x->sfile[g][s] < 0 && fcntl(g_fd[s], F_GETFD) != -1){ return; }
				char b[32]; snprintf(b, sizeof(b), "/data%d", o.a[1]); int f = open((case_dir() + b).c_str(), O_RDWR | O_CREAT, 0666);
				if(f != g_fd[s]){ dup2(f, g_fd[s]); close(f); }
				x->sfile[g][s] = (signed char)o.a[1]; x->had[g][s] |= (unsigned char)(1 << o.a[1]);
			}
			if(h){ cls(o.kind == K_CLOSE ? 2 : 3); if(other){ cls(4); } if(!mine){ cls(7); } }
			return;
		}
		default: break;
		}
		int ri = o.a[0]; const Res& q = res[(size_t)ri]; bool nofd = q.rw && o.a[1] >= 100;
		int a[4] = {0, 0, 0, 0}; if(q.rw){ a[0] = o.a[1]; a[1] = q.a1; a[2] = o.a[2]; }else{ a[0] = q.a0; a[1] = o.a[2]; }
		if(o.kind == K_MUNLOCK || o.kind == K_RWUNLOCK){
			if(!x->hold[me][ri] || (q.rw && x->slot[me][ri] != (nofd ? 0 : o.a[1] + 1))){ return; }
			x->hold[me][ri] = 0; x->slot[me][ri] = 0; x->inflight[me] = (unsigned char)(q.rw && !nofd ? o.a[1] + 1 : 0);
			int rc = lib_call(c, o.kind, a); x->inflight[me] = 0;
			if(rc){ vs::fail("RESULT: agent %d: %s of the held %s returned %d", me, kind_name(o.kind), rn(ri, nm, sizeof(nm)), rc); }
			return;
		}
		if(x->hold[me][ri]){ return; }
		if(q.rw && !nofd && x->sfile[g][o.a[1]] != q.a0){ return; }
		bool rd = o.kind == K_RLOCK || o.kind == K_RTRY || o.kind == K_RTIMED, blk = o.kind == K_MLOCK || o.kind == K_RLOCK || o.kind == K_WLOCK, tr = o.kind == K_MTRY || o.kind == K_RTRY || o.kind == K_WTRY;
		x->inflight[me] = (unsigned char)(q.rw && !nofd ? o.a[1] + 1 : 0); int lost0 = x->lostres[ri];
		int rc = lib_call(c, o.kind, a); x->inflight[me] = 0;
		if(rc == 0){
			for(int i = 0; i < vs::C->nag; i++){ if(i != me && x->hold[i][ri] && (!rd || x->hold[i][ri] == 2)){ vs::fail("ROBBED: agent %d got %s of %s while agent %d holds it through a live thread and descriptor", me, kind_name(o.kind), rn(ri, nm, sizeof(nm)), i); } }
			x->hold[me][ri] = rd ? 1 : 2; x->slot[me][ri] = (unsigned char)(q.rw && !nofd ? o.a[1] + 1 : 0);
			if(lost0 && blk){ cls(5); } if(lost0){ x->taken[ri] = 1; }
		}else if(!((tr && rc == EBUSY) || (!tr && !blk && rc == ETIMEDOUT))){ vs::fail("RESULT: agent %d: %s of %s returned %d", me, kind_name(o.kind), rn(ri, nm, sizeof(nm)), rc); }
	}
	bool has_probe(const Case&) override { return true; }
	void probe(const Case& c) override {
		M9* x = X(); char nm[160];
		for(int k = (int)res.size() - 1; k >= 0; k--){
			const Res& q = res[(size_t)k]; int h = 0, who = -1; for(int i = 0; i < vs::MAXA; i++){ if(x->hold[i][k] > h){ h = x->hold[i][k]; who = i; } }
			int a[4] = {0, 0, 0, 0}; if(q.rw){ a[0] = c.get("nofd") && q.a0 == 0 ? 100 : q.a0; a[1] = q.a1; }else{ a[0] = q.a0; }
			auto call = [&](int kind, int want) { int rc = lib_call(c, kind, a); progress(); if(rc != want && !(want == EINVAL && rc == 0)){ vs::fail("PROBE: %s of %s in a new process returned %d instead of %d (held %d by agent %d)", kind_name(kind), rn(k, nm, sizeof(nm)), rc, want, h, who); } };
			int un = q.rw ? K_RWUNLOCK : K_MUNLOCK;
			FlShm::CheckProcessDead();
			if(h == 2){ call(q.rw ? K_WTRY : K_MTRY, EBUSY); if(q.rw){ call(K_RTRY, EBUSY); } cls(6); }
			else if(h == 1){ call(K_WTRY, EBUSY); call(K_RLOCK, 0); call(un, 0); cls(6); }
			else{ call(q.rw ? K_WLOCK : K_MLOCK, 0); call(un, 0); call(q.rw ? K_WTRY : K_MTRY, 0); call(un, 0); if(x->lostres[k]){ x->taken[k] = 1; } }
		}
	}
	void finish(const Case&, RunResult& r) override { bool t = false; for(size_t k = 0; k < res.size(); k++){ if(X()->taken[k]){ t = true; } } r.nontrivial = t ? 1 : -1; }
};
PropReg r9(new C09);
}

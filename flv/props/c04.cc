// C04: histories of reader/writer lock calls against a reference model (script
// mode: one call at a time, blocked calls stay pending).
#include "exec.h"
#include <errno.h>
#include <string.h>

namespace {
struct Hold { int agent, slot, file, range, write; };
struct Model { Hold h[256]; int n; uint32_t cont, rel, isl, odd; };
enum { NOFD = 100 };

struct C04 : SchedProp {
	Model* M() { return (Model*)vs::C->model; }
	size_t model_size() const override { return sizeof(Model); }
	const char* id() const override { return "C04"; }
	const char* rule() const override { return "random histories of 10-60 reader/writer lock calls and status queries by 2-4 agents in 1-4 processes over 1-3 files with two descriptors each (or descriptor-less) and 1-4 disjoint ranges or groups of ranges that overlap each other, executed one call at a time with blocked calls left pending, every result compared with a reference model and the end state probed from a new process; non-trivial: the history contains a contended call and a status query or a superfluous unlock"; }
	std::vector<const char*> classes() const override { return {"contended calls", "shared reads", "status queries true", "status queries false", "superfluous unlocks", "hand-overs to a blocked call", "time-outs", "descriptor-less cases", "query false while the file has other locks", "cases with overlapping ranges"}; }
	int programs(bool t) const override { return t ? 2000000 : 90000; }
	int variants(bool) const override { return 0; }
	int g_cl[32];
	static int file_of(const Case& c, int slot) { return slot >= NOFD ? NOFD : slot % (int)c.get("nfiles", 1); }
	void gen(Rng& r, Case& c, uint64_t) override {
		int nag = r.range(2, 4); c.cfg["agents"] = nag; c.cfg["script"] = 1;
		int ng = r.range(1, nag);
		for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i < ng ? i : r.range(0, ng - 1); }
		c.cfg["robust"] = r.range(0, 2); c.cfg["chk"] = 50; c.cfg["free"] = r.range(0, 2); c.cfg["now"] = 5000000000L + r.range(0, 999999) * 1000L;
		int nf = r.range(1, 3); c.cfg["nfiles"] = nf; c.cfg["nslots"] = nf * 2; c.cfg["nofd"] = r.chance(1, 4);
		int nr = r.range(1, 4); long off = r.chance(1, 2) ? 0 : r.range(1, 100);
		std::vector<std::pair<long, long>> v;
		for(int i = 0; i < nr; i++){ long len = r.chance(1, 2) ? 1 : r.range(2, 30); v.push_back({off, len}); off += len + (r.chance(1, 2) ? 0 : r.range(1, 50)); if(r.chance(1, 10)){ off += 5000000000L; } }
		std::vector<int> cl; for(int i = 0; i < nr; i++){ cl.push_back(i); }
		if(r.chance(1, 3)){ c.cfg["olap"] = 1; overlap_groups(r, v, cl, 12); nr = (int)v.size(); }
		for(int i = 0; i < nr; i++){ size_t j = (size_t)r.range(i, nr - 1); std::swap(v[(size_t)i], v[j]); std::swap(cl[(size_t)i], cl[j]); if(c.get("olap")){ char e[16]; snprintf(e, sizeof(e), "cl%d", i); c.cfg[e] = cl[(size_t)i]; } char b[16], d[16]; snprintf(b, sizeof(b), "ro%d", i); snprintf(d, sizeof(d), "rl%d", i); c.cfg[b] = v[(size_t)i].first; c.cfg[d] = v[(size_t)i].second; }
		{ long lo = v[0].first, hi = 0; for(auto& q : v){ lo = std::min(lo, q.first); hi = std::max(hi, q.first + q.second); } char b[16], d[16]; snprintf(b, sizeof(b), "ro%d", nr); snprintf(d, sizeof(d), "rl%d", nr); c.cfg[b] = lo; c.cfg[d] = hi - lo; }   // the whole span, for queries only
		int n = r.range(10, 60);
		std::vector<Hold> sim; std::vector<int> blk((size_t)nag, 0);
		int focus = r.range(0, 2);
		for(int i = 0; i < n; i++){
			int a = r.range(0, nag - 1);
			int slot = (c.get("nofd") && r.chance(1, 2)) ? NOFD : r.range(0, nf * 2 - 1); int rg = r.range(0, nr - 1);
			if(focus && r.chance(1, 2)){ rg = 0; if(slot < NOFD){ slot = r.chance(1, 2) ? 0 : nf; } }
			std::vector<Hold> mine; for(auto& h : sim){ if(h.agent == a){ mine.push_back(h); } }
			int x = r.range(0, 99); int k;
			if(!mine.empty() && x < 45){ const Hold& h = mine[(size_t)r.range(0, (int)mine.size() - 1)]; slot = h.slot; rg = h.range; k = K_RWUNLOCK; }
			else if(x < 52){ k = K_RWUNLOCK; }
			else if(x < 67){ k = K_ISLOCKED; if(r.chance(1, 4)){ rg = nr; } }
			else{
				k = r.range(K_RLOCK, K_WTIMED);
				if(k == K_RLOCK || k == K_WLOCK){ // never wait for oneself
					for(auto& h : mine){ if(h.file == file_of(c, slot) && cl[(size_t)h.range] == cl[(size_t)rg] && (h.write || k == K_WLOCK)){ k = k == K_RLOCK ? K_RTRY : K_WTRY; break; } }
				}
			}
			static const int us[] = {0, 1, 10, 70, 150, 1000};
			c.add(a, k, slot, rg, (k == K_RTIMED || k == K_WTIMED) ? us[r.range(0, 5)] : 0);
			int f = file_of(c, slot);
			if(k == K_RWUNLOCK){ for(size_t q = 0; q < sim.size(); q++){ if(sim[q].agent == a && sim[q].slot == slot && cl[(size_t)sim[q].range] == cl[(size_t)rg]){ sim.erase(sim.begin() + (long)q); break; } } }
			else if(k != K_ISLOCKED){
				bool wr = k >= K_WLOCK, busy = false; for(auto& h : sim){ if(h.file == f && cl[(size_t)h.range] == cl[(size_t)rg] && (wr || h.write)){ busy = true; } }
				if(!busy || k == K_RLOCK || k == K_WLOCK){ sim.push_back(Hold{a, slot, f, rg, wr}); }
			}
		}
	}
	void init_model(const Case& c) override {
		g_ranges.clear(); for(int i = 0; i < 32; i++){ char b[16]; snprintf(b, sizeof(b), "cl%d", i); g_cl[i] = (int)c.get(b, i); }
		for(int i = 0; i < 32; i++){ char b[16], d[16]; snprintf(b, sizeof(b), "ro%d", i); snprintf(d, sizeof(d), "rl%d", i); auto it = c.cfg.find(b); if(it == c.cfg.end()){ break; } g_ranges.push_back(Range{it->second, c.get(d, 1)}); }
	}
	bool shrink_ok(const Case& c) override {      // never a blocking call of an agent that waits for itself: decided at run time
		(void)c; return true;
	}
	bool busy(int f, int rg, bool wr) { Model* m = M(); rg = g_cl[rg]; for(int i = 0; i < m->n; i++){ Hold& h = m->h[i]; if(h.file == f && h.range == rg && (wr || h.write)){ return true; } } return false; }
	bool enabled(const Case& c, int a) override {
		int oi = blocked_op(a); if(oi < 0){ return false; }
		const Op& o = c.ops[(size_t)oi];
		if(o.kind == K_RLOCK || o.kind == K_WLOCK || o.kind == K_RTIMED || o.kind == K_WTIMED){ return !busy(file_of(c, o.a[0]), o.a[1], o.kind >= K_WLOCK); }
		return true;
	}
	void run_op(const Case& c, const Op& o, int me) override {
		Model* m = M(); int f = file_of(c, o.a[0]); int64_t t0 = vs::C->now;
		char nm[120]; snprintf(nm, sizeof(nm), "file %d slot %d range %ld+%ld", f, o.a[0], g_ranges[(size_t)o.a[1]].off, g_ranges[(size_t)o.a[1]].len);
		int a[4] = {o.a[0], o.a[1], o.a[2], 0};
		if(o.kind == K_ISLOCKED){
			bool other = false;
			for(int i = 0; i < m->n; i++){ if(m->h[i].file == f){ other = true; } }
			bool want = o.a[1] + 1 == (int)g_ranges.size() ? other : busy(f, o.a[1], true);
			int rc = lib_call(c, o.kind, a); m->isl++; cls(want ? 2 : 3); if(!want && other){ cls(8); }
			if((rc != 0) != want){ vs::fail("QUERY: agent %d asks whether %s is locked and gets %s, but it is %s", me, nm, rc ? "yes" : "no", want ? "held" : "free"); }
			return;
		}
		if(o.kind == K_RWUNLOCK){
			int hi = -1; for(int i = 0; i < m->n; i++){ Hold& h = m->h[i]; if(h.agent == me && h.slot == o.a[0] && h.range == g_cl[o.a[1]]){ hi = i; } }
			int rc = lib_call(c, o.kind, a);
			if(hi < 0){ m->odd++; cls(4); }
			if(rc != (hi >= 0 ? 0 : EINVAL)){ vs::fail("RESULT: agent %d unlocks %s, which it %s: got %d", me, nm, hi >= 0 ? "holds" : "does not hold", rc); }
			if(hi >= 0){ m->h[hi] = m->h[--m->n]; }
			return;
		}
		bool wr = o.kind >= K_WLOCK; bool tr = o.kind == K_RTRY || o.kind == K_WTRY, tm = o.kind == K_RTIMED || o.kind == K_WTIMED;
		if(!tr && !tm){ for(int i = 0; i < m->n; i++){ Hold& h = m->h[i]; if(h.agent == me && h.file == f && h.range == g_cl[o.a[1]] && (wr || h.write)){ return; } } }   // would wait for itself
		bool was = busy(f, o.a[1], wr); if(was){ m->cont++; cls(0); }
		if(!wr && !was && busy(f, o.a[1], true)){ cls(1); }
		int rc = lib_call(c, o.kind, a);
		if(rc == 0){
			if(busy(f, o.a[1], wr)){ vs::fail("EXCLUSION: agent %d got %s of %s although an incompatible lock is held", me, kind_name(o.kind), nm); }
			if(was){ cls(5); }
			if(m->n >= 256){ vs::fail("MODEL: table"); }
			m->h[m->n++] = Hold{me, o.a[0], f, g_cl[o.a[1]], wr};
			return;
		}
		if(was && rc == EBUSY && (tr || (tm && !o.a[2]))){ return; }
		if(was && rc == ETIMEDOUT && tm){
			cls(6);
			if(vs::C->now - t0 < (int64_t)o.a[2] * 1000){ vs::fail("TIMEOUT: agent %d: %s of %s with %d us ended after %ld ns", me, kind_name(o.kind), nm, o.a[2], (long)(vs::C->now - t0)); }
			return;
		}
		vs::fail("RESULT: agent %d: %s of %s (%s) returned %d", me, kind_name(o.kind), nm, was ? "incompatible lock held" : "no incompatible lock held", rc);
	}
	bool has_probe(const Case&) override { return true; }
	void probe(const Case& c) override {
		for(int f = 0; f <= (int)c.get("nfiles"); f++){
			bool nofd = f == (int)c.get("nfiles"); if(nofd && !c.get("nofd")){ continue; }
			for(size_t g = 0; g + 1 < g_ranges.size(); g++){
				int a[4] = {nofd ? NOFD : f, (int)g, 0, 0}; int ff = nofd ? NOFD : f;
				bool any = busy(ff, (int)g, true), wr = busy(ff, (int)g, false);
				int rc = lib_call(c, K_ISLOCKED, a);
				if((rc != 0) != any){ vs::fail("QUERY: at the end range %ld+%ld of file %d is %s but a new process is told %d", g_ranges[g].off, g_ranges[g].len, f, any ? "held" : "free", rc); }
				rc = lib_call(c, K_WTRY, a);
				if(rc != (any ? EBUSY : 0)){ vs::fail("STATE: at the end range %ld+%ld of file %d is %s but a write try of a new process returned %d", g_ranges[g].off, g_ranges[g].len, f, any ? "held" : "free", rc); }
				if(!rc){ rc = lib_call(c, K_RWUNLOCK, a); if(rc){ vs::fail("RESULT: unlock after a successful try returned %d", rc); } }
				rc = lib_call(c, K_RTRY, a);
				if(rc != (wr ? EBUSY : 0)){ vs::fail("STATE: at the end range %ld+%ld of file %d is %s but a read try of a new process returned %d", g_ranges[g].off, g_ranges[g].len, f, wr ? "write locked" : "not write locked", rc); }
				if(!rc){ rc = lib_call(c, K_RWUNLOCK, a); if(rc){ vs::fail("RESULT: unlock after a successful try returned %d", rc); } }
				rc = lib_call(c, K_RWUNLOCK, a);
				if(rc != EINVAL){ vs::fail("RESULT: unlock of a range that the new process does not hold returned %d", rc); }
			}
		}
	}
	void finish(const Case& c, RunResult& r) override { Model* m = M(); if(c.get("nofd")){ cls(7); } if(c.get("olap")){ cls(9); } r.nontrivial = m->cont && (m->isl || m->odd) ? 1 : -1; }
	std::vector<std::string> assumptions() const override { return {"calls are executed one at a time; interleavings inside calls are the subject of C03 and C06", "overlapping ranges all overlap each other (known finding F05a of C05 otherwise)"}; }
};
PropReg r4(new C04);
}

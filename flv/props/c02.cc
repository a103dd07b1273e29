// C02: histories of mutex calls against a reference model (script mode: one
// call at a time, blocked calls stay pending).
#include "exec.h"
#include <errno.h>
#include <string.h>

namespace {
struct Model { int used[16]; int owner[16]; int depth[16]; int waiting[vs::MAXA]; int pre[vs::MAXA]; int64_t t0[vs::MAXA]; int contended[vs::MAXA]; uint32_t cont, rec, foreign, handover; };

struct C02 : SchedProp {
	Model* M() { return (Model*)vs::C->model; }
	size_t model_size() const override { return sizeof(Model); }
	const char* id() const override { return "C02"; }
	const char* rule() const override { return "random histories of 10-60 mutex calls by 2-4 agents in 1-4 processes over 1-4 names, executed one call at a time with blocked calls left pending, every result compared with a reference model and the end state probed from a new process; non-trivial: the history contains a contended call and a recursive lock or a foreign unlock"; }
	std::vector<const char*> classes() const override { return {"contended calls", "recursive locks", "foreign unlocks", "hand-overs to a blocked call", "time-outs", "unlock of unknown name", "unlock of free mutex"}; }
	int programs(bool t) const override { return t ? 2000000 : 100000; }
	int variants(bool) const override { return 0; }
	void gen(Rng& r, Case& c, uint64_t) override {
		int nag = r.range(2, 4); c.cfg["agents"] = nag; c.cfg["script"] = 1;
		int ng = r.range(1, nag);
		for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i < ng ? i : r.range(0, ng - 1); }
		c.cfg["robust"] = r.range(0, 2); c.cfg["chk"] = 50; c.cfg["free"] = r.range(0, 2); c.cfg["now"] = 5000000000L + r.range(0, 999999) * 1000L;
		std::vector<std::string> pool = {"m", "M", "n2", "lock with spaces", "/path/like/name", "x"};
		int nn = r.range(1, 4); for(int i = 0; i < nn; i++){ c.strs.push_back(pool[(size_t)i]); }
		int n = r.range(10, 60);
		// a rough simulation keeps the history interesting
		std::vector<int> own((size_t)nn, -1), dep((size_t)nn, 0); std::vector<int> blk((size_t)nag, -1);
		for(int i = 0; i < n; i++){
			int a = r.range(0, nag - 1); if(blk[(size_t)a] >= 0 && r.chance(7, 8)){ a = r.range(0, nag - 1); }
			int m = r.range(0, nn - 1); int k;
			int x = r.range(0, 99);
			if(own[(size_t)m] == a){ k = x < 45 ? K_MUNLOCK : (x < 70 ? K_MLOCK : (x < 85 ? K_MTRY : K_MTIMED)); }
			else if(own[(size_t)m] < 0){ k = x < 50 ? K_MLOCK : (x < 70 ? K_MTRY : (x < 90 ? K_MTIMED : K_MUNLOCK)); }
			else{ k = x < 25 ? K_MLOCK : (x < 50 ? K_MTRY : (x < 70 ? K_MTIMED : K_MUNLOCK)); }
			static const int us[] = {0, 1, 10, 70, 150, 1000};
			c.add(a, k, m, k == K_MTIMED ? us[r.range(0, 5)] : 0);
			if(blk[(size_t)a] >= 0){ continue; }
			if(k == K_MUNLOCK){ if(own[(size_t)m] == a && --dep[(size_t)m] == 0){ own[(size_t)m] = -1; for(int q = 0; q < nag; q++){ if(blk[(size_t)q] == m){ blk[(size_t)q] = -1; own[(size_t)m] = q; dep[(size_t)m] = 1; break; } } } }
			else if(own[(size_t)m] < 0 || own[(size_t)m] == a){ own[(size_t)m] = a; dep[(size_t)m]++; }
			else if(k == K_MLOCK){ blk[(size_t)a] = m; }
		}
	}
	bool enabled(const Case& c, int a) override {
		int oi = blocked_op(a); if(oi < 0){ return false; }
		const Op& o = c.ops[(size_t)oi]; int ow = M()->owner[o.a[0]];
		if(o.kind == K_MTRY || o.kind == K_MUNLOCK){ return true; }
		return ow == 0 || ow == a + 1;
	}
	void run_op(const Case& c, const Op& o, int me) override {
		Model* m = M(); int n = o.a[0]; const char* nm = c.strs[(size_t)n].c_str();
		int own0 = m->owner[n], used0 = m->used[n]; int64_t t0 = vs::C->now;
		bool held = own0 && own0 != me + 1;
		if(o.kind != K_MUNLOCK){ m->used[n] = 1; }
		if(held){ m->cont++; cls(0); }
		int a[4] = {n, o.a[1], 0, 0};
		int rc = lib_call(c, o.kind, a);
		if(o.kind == K_MUNLOCK){
			int want = !used0 ? EINVAL : (held ? EPERM : 0);
			if(held){ m->foreign++; cls(2); } if(!used0){ cls(5); } else if(!own0){ cls(6); }
			if(rc != want){ vs::fail("RESULT: agent %d unlocks \"%s\" (%s): got %d instead of %d", me, nm, !used0 ? "never used" : held ? "held by another thread" : own0 ? "held" : "free", rc, want); }
			if(own0 == me + 1 && --m->depth[n] == 0){ m->owner[n] = 0; }
			return;
		}
		if(rc == 0){
			if(m->owner[n] && m->owner[n] != me + 1){ vs::fail("EXCLUSION: agent %d got %s of \"%s\" while agent %d holds it (depth %d)", me, kind_name(o.kind), nm, m->owner[n] - 1, m->depth[n]); }
			if(m->owner[n] == me + 1){ m->rec++; cls(1); } if(held){ m->handover++; cls(3); }
			m->owner[n] = me + 1; m->depth[n]++;
			return;
		}
		if(rc == EBUSY && held && (o.kind == K_MTRY || (o.kind == K_MTIMED && !o.a[1]))){ return; }
		if(o.kind == K_MTIMED && rc == ETIMEDOUT && held){
			cls(4);
			if(vs::C->now - t0 < (int64_t)o.a[1] * 1000){ vs::fail("TIMEOUT: agent %d: timed lock of \"%s\" with %d us ended after %ld ns", me, nm, o.a[1], (long)(vs::C->now - t0)); }
			return;
		}
		vs::fail("RESULT: agent %d: %s of \"%s\" (%s) returned %d", me, kind_name(o.kind), nm, held ? "held by another thread" : own0 ? "held by itself" : "free", rc);
	}
	bool has_probe(const Case&) override { return true; }
	void probe(const Case& c) override {
		Model* m = M();
		for(size_t n = 0; n < c.strs.size(); n++){
			int a[4] = {(int)n, 0, 0, 0}; int rc;
			if(!m->used[n]){ rc = lib_call(c, K_MUNLOCK, a); if(rc != EINVAL){ vs::fail("RESULT: unlock of the never used \"%s\" in a new process returned %d", c.strs[n].c_str(), rc); } continue; }
			bool held = m->owner[n] != 0;
			if(held){ rc = lib_call(c, K_MUNLOCK, a); if(rc != EPERM){ vs::fail("RESULT: unlock of \"%s\", held by agent %d, in a new process returned %d", c.strs[n].c_str(), m->owner[n] - 1, rc); } }
			// other agents may still be blocked in this mutex, but they do not run now
			rc = lib_call(c, K_MTRY, a);
			if(rc != (held ? EBUSY : 0)){ vs::fail("STATE: at the end \"%s\" is %s but a try in a new process returned %d", c.strs[n].c_str(), held ? "held" : "free", rc); }
			if(!held){ rc = lib_call(c, K_MUNLOCK, a); if(rc){ vs::fail("RESULT: unlock after a successful try returned %d", rc); } }
		}
	}
	void finish(const Case&, RunResult& r) override { Model* m = M(); r.nontrivial = m->cont && (m->rec || m->foreign) ? 1 : -1; }
	std::vector<std::string> assumptions() const override { return {"calls are executed one at a time; interleavings inside calls are the subject of C01 and C06"}; }
};
PropReg r2(new C02);
}

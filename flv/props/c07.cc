// C07: condition variables under generated schedules against bounds on the
// number of waiters that a signal or broadcast must and may have released.
#include "exec.h"
#include <errno.h>
#include <string.h>

namespace {
enum { NM = 4, NC = 4, K_JANITOR = K_USER };
struct Model {
	struct { int owner; } m[NM];
	struct Cnd { int T, rlo, rhi, started, known, prog, progb; uint32_t sig, rel0, tmo; } c[NC];
	struct W { int in, cond, mutex, sure, timed; int64_t t0, lim; uint64_t seq; } w[vs::MAXA];
	uint64_t seq, act; uint32_t multi;
};

struct C07 : SchedProp {
	Model* M() { return (Model*)vs::C->model; }
	size_t model_size() const override { return sizeof(Model); }
	const char* id() const override { return "C07"; }
	const char* rule() const override { return "random programs of 2-5 agents in 1-5 processes that wait (with and without limit), signal and broadcast on 1-2 conditions with 1-2 mutexes, holding the mutex while signalling or not, with preemptions at random points; the number of released waiters is bounded from below and above by a model and a last agent checks that every released waiter comes back, and only those; non-trivial: at least two threads waited on one condition at the same time, and a signal or a time-out happened meanwhile"; }
	std::vector<const char*> classes() const override { return {"waits that returned 0", "waits that timed out", "signals with waiters", "broadcasts with waiters", "signals that surely released one", "signals without the mutex", "time-outs with a signal in flight", "multi-process cases", "waiters left for the last broadcast"}; }
	int programs(bool t) const override { return t ? 300000 : 12000; }
	int variants(bool t) const override { return t ? 8 : 5; }
	void gen(Rng& r, Case& c, uint64_t) override {
		int nag = r.range(3, 5); c.cfg["agents"] = nag;
		int ng = r.range(1, nag);
		for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i < ng ? i : r.range(0, ng - 1); }
		c.cfg["robust"] = r.range(0, 2); c.cfg["chk"] = 50; c.cfg["rot"] = r.range(0, 119); c.cfg["quiet"] = r.chance(1, 2) ? 40 : r.range(5, 60);
		c.cfg["now"] = 5000000000L + r.range(0, 20000); c.cfg["ccnt"] = r.range(2, 8); c.cfg["wcnt"] = r.range(8, 16);
		int nc = r.chance(2, 3) ? 1 : 2, nm = r.chance(2, 3) ? 1 : 2;
		c.strs = {"m", "m2", "x", "y", "c", "m", "c3", "c4"};       // 4..7: conditions (one has the name of a mutex)
		int pair = 1; bool locked = r.chance(1, 2);
		for(int a = 0; a < nag; a++){
			int ns = r.range(1, 3); bool waiter = a > 0 && r.chance(2, 3);
			for(int s = 0; s < ns; s++){
				int cn = r.range(0, nc - 1), mu = r.chance(3, 4) ? cn % nm : r.range(0, nm - 1);
				static const int us[] = {1, 5, 20, 60, 200, 0};
				if(waiter ? r.chance(3, 4) : (a > 0 && r.chance(1, 6))){
					c.add(a, K_MLOCK, mu, 0, 0, 0, pair);
					int n = r.range(1, 2); while(n-- > 0){ if(r.chance(1, 2)){ c.add(a, K_CWAIT, cn, mu, 0, 0); }else{ c.add(a, K_CTIMED, cn, mu, us[r.range(0, 5)]); } if(r.chance(1, 3)){ c.add(a, K_CS, r.range(0, 2)); } }
					c.add(a, K_MUNLOCK, mu, 0, 0, 0, pair++);
				}else if(r.chance(5, 6)){
					bool lk = locked || r.chance(1, 2); if(lk){ c.add(a, K_MLOCK, mu, 0, 0, 0, pair); }
					if(r.chance(1, 3)){ c.add(a, K_CS, r.range(0, 4)); }
					int n = r.range(1, 3); while(n-- > 0){ c.add(a, r.chance(3, 4) ? K_CSIGNAL : K_CBCAST, cn); if(r.chance(1, 3)){ c.add(a, K_CS, r.range(0, 2)); } }
					if(lk){ c.add(a, K_MUNLOCK, mu, 0, 0, 0, pair++); }
				}else{
					c.add(a, K_MLOCK, mu, 0, 0, 0, pair); c.add(a, K_CS, r.range(0, 4)); c.add(a, K_MUNLOCK, mu, 0, 0, 0, pair++);
				}
			}
		}
		c.add(0, K_JANITOR, 0, 0, 0, 0, 100000);
	}
	bool shrink_ok(const Case& c) override { return !c.ops.empty() && c.ops.back().kind == K_JANITOR && c.ops.back().agent == 0; }
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		if(r.chance(1, 3)){ Prop::vary(r, c, st, k); return; }
		c.pre.clear(); long nag = c.get("agents", 2); int n = 1 + k % 4 + (r.chance(1, 4) ? r.range(1, 4) : 0);
		for(int i = 0; i < n; i++){
			const Op& o = c.ops[(size_t)r.range(0, (int)c.ops.size() - 1)]; int s = o.id < (int)st.size() ? st[(size_t)o.id] : 0; if(s <= 0){ continue; }
			int p = r.chance(2, 3) || s < 100 ? r.range(0, std::min(s, 150) - 1) : s - r.range(1, 80);
			int t = r.range(0, (int)nag - 2); if(t >= o.agent){ t++; }
			c.pre.push_back({o.agent, o.id, p, t});
		}
	}
	static void cap(Model::Cnd& q) { if(!q.progb && q.rhi > q.T + q.prog){ q.rhi = q.T + q.prog; } }
	void granted(int mu, int me) {
		Model* m = M();
		if(m->m[mu].owner && m->m[mu].owner != me + 1){ vs::fail("EXCLUSION: agent %d got mutex \"%s\" while agent %d holds it", me, cs->strs[(size_t)mu].c_str(), m->m[mu].owner - 1); }
		m->m[mu].owner = me + 1; m->act++;
		for(int i = 0; i < vs::MAXA; i++){ if(i != me && m->w[i].in && m->w[i].mutex == mu && !m->w[i].sure){ m->w[i].sure = 1; m->c[m->w[i].cond].known = 1; } }
	}
	void run_op(const Case& c, const Op& o, int me) override {
		Model* m = M(); int a[4] = {o.a[0], o.a[1], o.a[2], 0}; int rc;
		switch(o.kind){
		case K_CS: for(int i = 0; i < o.a[0]; i++){ vs::point_yield(); } break;
		case K_MLOCK:
			if(m->m[a[0]].owner == me + 1){ break; }
			rc = lib_call(c, K_MLOCK, a); if(rc){ vs::fail("RESULT: mutex lock returned %d", rc); }
			granted(a[0], me); break;
		case K_MUNLOCK:
			if(m->m[a[0]].owner != me + 1){ break; }
			m->m[a[0]].owner = 0; m->act++;
			rc = lib_call(c, K_MUNLOCK, a); if(rc){ vs::fail("RESULT: agent %d: mutex unlock returned %d although the mutex was held", me, rc); } break;
		case K_CWAIT: case K_CTIMED: {
			if(m->m[a[1]].owner != me + 1){ break; }
			Model::Cnd& q = m->c[a[0]]; auto& w = m->w[me];
			q.started = 1; q.T++; w.in = 1; w.cond = a[0]; w.mutex = a[1]; w.sure = 0; w.timed = o.kind == K_CTIMED; w.t0 = vs::C->now; w.lim = (int64_t)a[2] * 1000; w.seq = ++m->seq; m->act++;
			if(q.T > 1){ m->multi |= 1; } if(q.progb){ q.rhi++; }
			m->m[a[1]].owner = 0;
			int b[4] = {a[0] + 4, a[1], a[2], 0};
			rc = lib_call(c, o.kind, b);
			m->act++; w.in = 0; q.T--; q.known = 1;
			if(rc == 0){
				cls(0); q.rel0++;
				if(q.rhi <= 0){ vs::fail("SPURIOUS: agent %d: wait on condition %d returned 0 although no signal was meant for it", me, a[0]); }
				q.rhi--; if(q.rlo > 0){ q.rlo--; }
			}else if(rc == ETIMEDOUT && o.kind == K_CTIMED){
				cls(1); q.tmo++;
				if(vs::C->now - w.t0 < w.lim){ vs::fail("TIMEOUT: agent %d: wait of %d us ended after %ld ns", me, a[2], (long)(vs::C->now - w.t0)); }
				if(q.rhi > 0){ cls(6); m->multi |= 2; }
				if(q.rlo > q.T){ vs::fail("CONSUMED: agent %d: wait on condition %d returned ETIMEDOUT but took a signal with it", me, a[0]); }
			}else{ vs::fail("RESULT: agent %d: %s returned %d", me, kind_name(o.kind), rc); }
			cap(q);
			granted(a[1], me);
			break; }
		case K_CSIGNAL: case K_CBCAST: {
			Model::Cnd& q = m->c[a[0]]; bool bc = o.kind == K_CBCAST;
			bool known = q.known, started = q.started;
			if(q.T){ cls(bc ? 3 : 2); m->multi |= 2; }
			bool held = false; for(auto& x : m->m){ if(x.owner == me + 1){ held = true; } } if(!held){ cls(5); }
			int rhi0 = q.rhi;
			// waiters that surely wait before this call
			int ids[vs::MAXA], ni = 0; uint64_t sq[vs::MAXA];
			for(int i = 0; i < vs::MAXA; i++){ auto& w = m->w[i]; if(w.in && w.cond == a[0] && w.sure){ ids[ni] = i; sq[ni++] = w.seq; } }
			q.sig++; uint32_t sig0 = q.sig, rel0 = q.rel0;
			// upper bound: one more, or everybody including those who come during the call
			q.prog++; if(bc){ q.progb++; q.rhi += q.T; }else{ q.rhi++; }
			int b[4] = {a[0] + 4, 0, 0, 0};
			rc = lib_call(c, o.kind, b);
			q.prog--; if(bc){ q.progb--; } m->act++;
			cap(q);
			if(rc != 0 && !(rc == EINVAL && !known)){ vs::fail("RESULT: agent %d: %s returned %d", me, kind_name(o.kind), rc); }
			if(rc == 0 && !started && !q.started){ vs::fail("RESULT: agent %d: %s of a condition nobody ever waited on returned 0", me, kind_name(o.kind)); }
			// lower bound: those that surely waited all the time and cannot have timed out
			int still = 0;
			for(int i = 0; i < ni; i++){ auto& w = m->w[ids[i]]; if(w.in && w.seq == sq[i] && (!w.timed || vs::C->now < w.t0 + w.lim)){ still++; } }
			bool quiet = sig0 == q.sig && q.rel0 == rel0 && !q.prog;        // no other signal and no return in between
			if(bc){ if(still > q.rlo){ q.rlo = still; } if(still){ cls(4); } }
			else if(quiet && still - rhi0 > 0){ q.rlo++; cls(4); }
			if(q.rhi < q.rlo){ q.rhi = q.rlo; }
			break; }
		case K_JANITOR: janitor(c, me); break;
		default: break;
		}
	}
	void janitor(const Case& c, int me) {
		Model* m = M();
		for(int round = 0; round < 60; round++){
			// wait until nothing moves any more
			uint64_t act = m->act; int still = 0;
			for(int n = 0; n < 20000 && still < 120; n++){
				vs::point_yield();
				bool idle = true; for(int i = 0; i < vs::C->nag; i++){ if(i != me && vs::C->a[i].state == vs::ST_READY && !(m->w[i].in && !m->w[i].timed)){ idle = false; } }
				if(m->act != act || !idle){ act = m->act; still = 0; }else{ still++; }
			}
			if(still < 120){ vs::fail("STUCK: the program does not come to rest"); }
			bool left = false;
			for(int k = 0; k < NC; k++){
				Model::Cnd& q = m->c[k];
				if(q.rlo > 0){ vs::fail("LOST: %d waiter(s) of condition %d were released by a signal or broadcast but do not come back", q.rlo, k); }
				q.rhi = 0;                                 // whoever was released would have come back by now
				if(q.T){ left = true; }
			}
			if(!left){ return; }
			progress();
			for(int k = 0; k < NC; k++){
				Model::Cnd& q = m->c[k]; if(!q.T){ continue; } cls(8, (uint32_t)q.T);
				bool bc = (round + k) % 2 == 0;
				q.rhi = q.rlo = bc ? q.T : 1; int b[4] = {k + 4, 0, 0, 0};
				int rc = lib_call(c, bc ? K_CBCAST : K_CSIGNAL, b); if(rc){ vs::fail("RESULT: %s with waiters returned %d", bc ? "broadcast" : "signal", rc); }
			}
		}
		vs::fail("LOST: waiters remain after all signals");
	}
	bool has_probe(const Case&) override { return true; }
	void probe(const Case& c) override { for(int i = 0; i < 2; i++){ int a[4] = {i, 0, 0, 0}; int rc = lib_call(c, K_MTRY, a); if(rc){ vs::fail("LEFTOVER: nobody holds mutex \"%s\" but a try in a new process returned %d", c.strs[(size_t)i].c_str(), rc); } } }
	void finish(const Case& c, RunResult& r) override { if(c.get("grp1") != c.get("grp0")){ cls(7); } r.nontrivial = (M()->multi & 3) == 3 ? 1 : -1; }
	std::vector<std::string> assumptions() const override { return {"waiters hold the mutex exactly once and all waiters of one call sequence end before the program ends", "sequentially consistent interleavings"}; }
};
PropReg r7(new C07);
}

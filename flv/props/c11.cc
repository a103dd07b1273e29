// C11: timed calls against a virtual clock that only moves when it is read.
#include "exec.h"
#include "fullock.h"
#include <errno.h>
#include <string.h>

namespace {
enum { K_HOLD = K_USER, K_WAKE, K_TIMED };
struct M11 { int held, granted, waiting, left; int64_t freed; int holders; uint32_t timeouts, grants, raced; };
const int LATE = 6;                        // readings a call may need to notice that its time is over

struct C11 : SchedProp {
	M11* M() { return (M11*)vs::C->model; }
	size_t model_size() const override { return sizeof(M11); }
	const char* id() const override { return "C11"; }
	const char* rule() const override { return "1-3 agents call a timed mutex, read, write or condition call with a limit of 1 us to 1000 s at a random position of the clock within its second (often just before its end) while another agent holds the lock or signals at a random moment before, around or after the limit; the clock is virtual, moves by a random step at each reading (a fraction of the limit) and the agents are preempted at random points; every call is judged by its own readings: an ETIMEDOUT needs a last reading at least the limit after the first and at most 6 readings beyond it, and a call whose lock became free well before the limit has to return 0; non-trivial: a timed call had to wait, that is it read the clock at least three times"; }
	std::vector<const char*> classes() const override { return {"timed calls that timed out", "timed calls that were granted after a wait", "mutex", "read lock", "write lock", "condition", "start in the last 5 % of a second", "limit of a second or more", "released within the last tenth of the limit", "clock passed a full second during the wait"}; }
	int programs(bool t) const override { return t ? 700000 : 36000; }
	int variants(bool t) const override { return t ? 5 : 3; }
	void gen(Rng& r, Case& c, uint64_t) override {
		int nw = r.chance(2, 3) ? 1 : r.range(2, 3), nag = nw + 1; c.cfg["agents"] = nag;
		for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = r.chance(1, 3) ? 0 : i; }
		c.cfg["robust"] = r.range(0, 2); c.cfg["chk"] = 50; c.cfg["rot"] = r.range(0, 23); c.cfg["free"] = r.range(0, 2); c.cfg["quiet"] = r.chance(1, 2) ? 40 : r.range(5, 60);
		c.cfg["ro0"] = r.range(0, 50); c.cfg["rl0"] = r.range(1, 50); c.cfg["nfiles"] = 1; c.cfg["nslots"] = 2; c.strs = {"m", "c"};
		int what = r.range(0, 3);                  // mutex, read, write, condition
		c.cfg["what"] = what;
		static const int base[] = {1, 10, 1000, 50000, 500000, 999999, 1000000, 1000001, 1500000, 2000000, 5999999, 100000000, 999999999};
		int lim = base[r.range(0, 12)]; if(r.chance(2, 3)){ int k = 1; for(int i = r.range(0, 8); i > 0; i--){ k *= 10; } lim = r.range(1, 10 * k > 1000000000 || k >= 100000000 ? 1000000000 : 10 * k); }
		if(r.chance(1, 4)){ lim = r.range(1000000, 3000000); }
		long ns = (long)lim * 1000, tick = std::max(1L, ns / r.range(3, 150)); if(r.chance(1, 5)){ tick = ns + r.range(0, 1000); } c.cfg["tick"] = tick;
		long sub = r.range(0, 999999999); if(r.chance(1, 2)){ sub = 999999999 - std::min((long)r.range(0, 49999999), tick * r.range(0, 20) % 1000000000); } if(r.chance(1, 10)){ sub = r.range(0, 1) ? 0 : 999999999; }
		if(sub < 0){ sub = 0; }
		c.cfg["now"] = (r.chance(1, 4) ? r.range(1, 3) : (long)r.range(3, 2000000)) * 1000000000L + sub - (r.chance(1, 2) ? tick : 0);
		// when the lock is released / the signal comes, in permille of the limit; -1: only after all calls have returned
		long rel = r.chance(1, 2) ? -1 : r.chance(1, 3) ? r.range(850, 1150) : r.range(0, 1300);
		int a0 = what == 0 ? K_MTIMED : what == 1 ? K_RTIMED : what == 2 ? K_WTIMED : K_CTIMED;
		if(what == 3){ c.add(0, K_WAKE, lim, (int)rel, r.chance(1, 2), r.chance(1, 2) || nw == 1 ? 1 : 0); }
		else{ int hk = what == 0 ? K_MLOCK : what == 1 ? K_WLOCK : (r.chance(1, 2) ? K_WLOCK : K_RLOCK); c.add(0, K_HOLD, lim, (int)rel, hk); }
		for(int a = 1; a < nag; a++){
			int l = a == 1 || r.chance(1, 2) ? lim : std::max(1, (int)((long)lim * r.range(300, 1000) / 1000));
			c.add(a, K_TIMED, l, a0);
		}
	}
	bool shrink_ok(const Case& c) override { return !c.ops.empty() && (c.ops[0].kind == K_HOLD || c.ops[0].kind == K_WAKE); }
	void init_model(const Case& c) override { M()->waiting = 0; for(auto& o : c.ops){ if(o.kind == K_TIMED){ M()->left++; } } g_ranges.clear(); g_ranges.push_back(Range{c.get("ro0"), c.get("rl0", 1)}); }
	// until the moment of the release, or until nobody is left that waits
	void until(const Case&, const Op& o) {
		M11* m = M(); int64_t t0 = vs::C->now; 
		while(m->left > 0 && (o.a[1] < 0 || !m->waiting || vs::C->now < t0 + (int64_t)o.a[0] * o.a[1])){
			if(!m->waiting){ t0 = vs::C->now; }
			vs::point_yield();
		}
	}
	void run_op(const Case& c, const Op& o, int me) override {
		M11* m = M(); int rc; vs::Agent& A = vs::C->a[me]; int slot = me % 2;
		if(o.kind == K_HOLD){
			int a[4] = {0, 0, 0, 0};
			if(o.a[2] == K_MLOCK){ rc = lib_call(c, K_MLOCK, a); }else{ rc = lib_call(c, o.a[2], a); }
			if(rc){ vs::fail("RESULT: %s returned %d", kind_name(o.a[2]), rc); }
			m->held = 1; until(c, o);
			m->held = 0;
			rc = lib_call(c, o.a[2] == K_MLOCK ? K_MUNLOCK : K_RWUNLOCK, a); if(rc){ vs::fail("RESULT: unlock returned %d", rc); }
			m->freed = vs::C->now;
		}else if(o.kind == K_WAKE){
			int mu[4] = {0, 0, 0, 0}, co[4] = {1, 0, 0, 0};
			for(;;){                                  // somebody waits for sure: the mutex was free after a waiter had it
				until(c, o); if(m->left <= 0){ break; }
				rc = lib_call(c, K_MLOCK, mu); if(rc){ vs::fail("RESULT: mutex lock returned %d", rc); }
				bool all = m->waiting >= m->left;
				if(!o.a[2] || !all){ lib_call(c, K_MUNLOCK, mu); }
				if(all){
					rc = lib_call(c, o.a[3] ? K_CBCAST : K_CSIGNAL, co); if(rc){ vs::fail("RESULT: signal returned %d", rc); }
					int64_t t = vs::C->now;
					if(o.a[2]){ lib_call(c, K_MUNLOCK, mu); }
					if(o.a[3]){ m->freed = t; }
					break;
				}
				vs::point_yield();
			}
			while(m->left > 0){ vs::point_yield(); }
		}else if(o.kind == K_TIMED){
			bool cond = o.a[1] == K_CTIMED; int64_t lim = (int64_t)o.a[0] * 1000; int mu[4] = {0, 0, 0, 0};
			int a[4] = {cond ? 1 : slot, 0, o.a[0], 0}; if(o.a[1] == K_MTIMED){ a[0] = 0; a[1] = o.a[0]; }
			// the lock has to be held by the other first
			if(!cond){ while(!m->held && !m->freed){ vs::point_yield(); } }
			else{ rc = lib_call(c, K_MLOCK, mu); if(rc){ vs::fail("RESULT: mutex lock returned %d", rc); } }
			// only readings of the call count
			A.nread = 0; A.late = 0; A.limit = lim; int64_t b4 = vs::C->now; m->waiting++;
			rc = lib_call(c, o.a[1], a);
			int64_t first = A.first, last = A.last; uint32_t late = A.late, n = A.nread; A.limit = 0;
			m->waiting--; bool alone = vs::C->nag == 2 || cond || o.a[1] == K_RTIMED;
			if(n >= 3){ cls(cond ? 5 : o.a[1] == K_MTIMED ? 2 : o.a[1] == K_RTIMED ? 3 : 4); if(first % 1000000000LL > 950000000LL){ cls(6); } if(lim >= 1000000000LL){ cls(7); } if(m->freed && m->freed > first + lim - lim / 10){ cls(8); } if(last / 1000000000LL != first / 1000000000LL){ cls(9); } }
			if(late > (uint32_t)LATE){ vs::fail("LATE: agent %d: %s with a limit of %d us ended (%d) only after %u more clock readings beyond its limit, %ld ns after its start", me, kind_name(o.a[1]), o.a[0], rc, late, (long)(vs::C->now - b4)); }
			if(rc == ETIMEDOUT){
				m->timeouts++; cls(0);
				if(n < 2 || last - first < lim){ vs::fail("EARLY: agent %d: %s with a limit of %d us returned ETIMEDOUT %ld ns after its start (at %ld.%09ld)", me, kind_name(o.a[1]), o.a[0], n < 2 ? 0L : (long)(last - first), (long)(first / 1000000000LL), (long)(first % 1000000000LL)); }
				// free since well before the limit: several own readings in between
				if(alone && m->freed && m->freed + LATE * vs::C->tick * vs::C->nag < first + lim && m->freed + LATE * vs::C->tick * vs::C->nag < last){ vs::fail("MISSED: agent %d: %s with a limit of %d us returned ETIMEDOUT although what it waited for was given %ld ns after its start", me, kind_name(o.a[1]), o.a[0], (long)(m->freed - first)); }
			}else if(rc == 0){
				m->grants++; if(n >= 3){ cls(1); }
				if(!cond && m->held && !m->freed){ vs::fail("GRANTED: agent %d: %s returned 0 while the lock is held", me, kind_name(o.a[1])); }
			}else{ vs::fail("RESULT: agent %d: %s returned %d", me, kind_name(o.a[1]), rc); }
			if(rc == 0 || cond){
				int u[4] = {cond || o.a[1] == K_MTIMED ? 0 : slot, 0, 0, 0};
				int ru = lib_call(c, cond || o.a[1] == K_MTIMED ? K_MUNLOCK : K_RWUNLOCK, u); if(ru){ vs::fail("RESULT: agent %d: unlock after %s (%d) returned %d", me, kind_name(o.a[1]), rc, ru); }
			}
			m->left--; if(n >= 3){ m->raced++; }
		}
	}
	void finish(const Case&, RunResult& r) override { r.nontrivial = M()->raced ? 1 : -1; }
	std::vector<std::string> assumptions() const override { return {"the clock the library reads moves by a constant step per reading; time that passes while a thread is not scheduled shows as readings of the others"}; }
};
PropReg r11(new C11);
}

// C12: small tables, refusals, mode switches, dead holders; afterwards exactly
// the configured number of entries of every kind has to be available.
#include "exec.h"
#include "fullock.h"
#include "flckshm.h"
#include <errno.h>
#include <string.h>

namespace {
enum { K_REL = K_USER, K_PHASE, MAXK = 24, MAXN = 10, MAXH = 16 };
struct Hold { unsigned char kind, key, slot; };                      // 1 range, 2 mutex
struct M12 {
	struct A { Hold h[MAXH]; int nh; int call; int pL, pO, pF, pW; int wait; } a[vs::MAXA + 1];
	int users[MAXK];                        // holds and calls under way per key
	unsigned char tried[MAXK], acc[MAXK];   // key was used / accepted at least once
	unsigned char mname[MAXN], maybem[MAXN];// accepted names, attempted names
	unsigned char cname[MAXN], maybec[MAXN];
	unsigned char dead[vs::MAXA + 1];
	int outside, deaths;
	int phase, arrived, in, refused, victim, phasedone; unsigned char inside[vs::MAXA + 1];
	uint32_t refusals, illegal;
};

struct C12 : SchedProp {
	struct Key { int file; int range; };                               // file 9: descriptor-less
	std::vector<Key> keys;
	M12* M() { return (M12*)vs::C->model; }
	size_t model_size() const override { return sizeof(M12); }
	const char* id() const override { return "C12"; }
	const char* rule() const override { return "random histories of 2-6 agents in 1-6 processes on shared files with the smallest tables (1-4 files, 4-8 ranges, 4-10 lockers, 1-5 names, 4 waiters): try, timed and blocking locks that are granted, refused or time out, condition waits, switches of the free-unit mode, dead-owner checks, processes killed between calls; a refusal for lack of room is judged against the number of entries that could have been in use at any moment of the call; then everything is released (or recovered) and a new process counts how many lockers, ranges, files and names can be taken at once and that exactly the next is refused, and as many threads as there are waiter entries wait at once; non-trivial: a request was refused for lack of room or an agent was preempted inside a call"; }
	std::vector<const char*> classes() const override { return {"requests refused for lack of room", "switches of the free-unit mode", "processes killed holding", "cases that never keep units", "cases that keep units", "kept units given back by a later mode", "waiter phases", "waiters killed while waiting", "lockers counted", "ranges counted", "files counted", "mutex names counted", "condition names counted", "waits without the mutex"}; }
	int programs(bool t) const override { return t ? 400000 : 15000; }
	int variants(bool t) const override { return t ? 7 : 5; }
	int grp(int a) { char b[16]; snprintf(b, sizeof(b), "grp%d", a); return (int)cs->get(b); }
	bool has_mode(int m) { return (cs->get("modes") >> m) & 1; }
	int cap(const char* k) { return (int)cs->get(k); }
	void gen(Rng& r, Case& c, uint64_t) override {
		bool ph = r.chance(1, 3); int nag = ph ? r.range(5, 6) : r.range(2, 5); c.cfg["agents"] = nag;
		int ng = ph && nag == 6 ? 6 : r.range(1, nag);
		for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i < ng ? i : r.range(0, ng - 1); }
		bool kills = ng > 1 && r.chance(1, 3); c.cfg["kills"] = kills;
		c.cfg["robust"] = kills ? 2 : r.range(0, 2); c.cfg["chk"] = 50; c.cfg["rot"] = r.range(0, 719); c.cfg["quiet"] = r.chance(1, 2) ? 40 : r.range(5, 60); c.cfg["phase"] = ph; c.cfg["zombie"] = r.chance(1, 4);
		int f = r.range(1, 4), o = r.range(4, 8), l = r.range(4, 10), m = r.range(1, 5); c.cfg["fcnt"] = f; c.cfg["ocnt"] = o; c.cfg["lcnt"] = l; c.cfg["mcnt"] = m; c.cfg["ccnt"] = r.range(1, 4); c.cfg["wcnt"] = 4;
		int nf = std::min(6, f + r.range(0, 1)); c.cfg["nfiles"] = 6; c.cfg["nslots"] = 12;
		// modes used: mostly one, sometimes changing
		int fm = r.range(0, 2); c.cfg["free"] = fm; bool sw = r.chance(1, 3); c.cfg["modes"] = sw ? 7 : 1 << fm;
		int nk = r.range(2, (fm == 1 && !sw) ? 12 : std::min(o, 7)); bool no = r.chance(1, 4);
		for(int i = 0; i < nk; i++){
			char b[16], d[16], e[16]; snprintf(b, sizeof(b), "key%d", i); snprintf(d, sizeof(d), "ro%d", i); snprintf(e, sizeof(e), "rl%d", i);
			c.cfg[b] = no && r.chance(1, 3) ? 9 : r.range(0, nf - 1); c.cfg[d] = i * 10; c.cfg[e] = r.chance(1, 2) ? 10 : r.range(1, 9);
		}
		int nn = r.range(1, m + 1);                      // names used; at most one too many
		int ncn = r.range(1, (int)c.cfg["ccnt"] + 1);
		int pair = 1;
		for(int a = 0; a < nag; a++){
			int n = r.range(2, ph ? 6 : 10); std::vector<int> st;
			for(int i = 0; i < n; i++){
				int x = r.range(0, 99); static const int us[] = {1, 10, 40};
				if(x < 55){
					int k = r.range(0, nk - 1), mode = r.range(0, 3) ? (r.chance(3, 4) ? 1 : 2) : 0; bool rd = r.chance(1, 2); if(mode == 0 && !st.empty()){ mode = 1; }
					int s = c.get(("key" + std::to_string(k)).c_str()) == 9 ? 100 : (int)c.get(("key" + std::to_string(k)).c_str()) + (r.chance(1, 2) ? 6 : 0);
					Op q = c.add(a, (rd ? K_RLOCK : K_WLOCK) + mode, k, s, mode == 2 ? us[r.range(0, 2)] : 0); st.push_back(q.id);
				}else if(x < 68){ int mode = st.empty() ? r.range(0, 2) : r.range(1, 2); Op q = c.add(a, K_MLOCK + mode, r.range(0, nn - 1), 0, mode == 2 ? us[r.range(0, 2)] : 0); st.push_back(q.id); }
				else if(x < 85){ c.add(a, K_REL, r.range(0, 9)); if(!st.empty()){ st.pop_back(); } }
				else if(x < 89){ c.add(a, K_DEADCHK); }
				else if(x < 92){ c.add(a, K_CSIGNAL, r.range(0, ncn - 1)); }
				else if(x < 95){ c.add(a, K_CTIMED, r.range(0, ncn - 1), r.range(0, nn - 1), us[r.range(0, 2)], r.chance(2, 5)); }
				else if(x < 98 && sw){ c.add(a, K_FREEMODE, r.range(0, 2)); }
				else{ c.add(a, K_CS, r.range(1, 3)); }
			}
			c.add(a, K_REL, 1000);
			if(ph){ c.add(a, K_PHASE, nag == 6 ? r.range(0, 2) : 0, 0, 0, 0, 5000); }
		}
		(void)pair;
	}
	bool shrink_ok(const Case& c) override { 
		// every agent ends with its release (and phase)
		for(int a = 0; a < (int)c.get("agents"); a++){
			const Op* l = nullptr; const Op* p = nullptr; bool any = false; for(auto& o : c.ops){ if(o.agent == a){ any = true; p = l; l = &o; } }
			if(!any){ if(c.get("phase")){ return false; } continue; }
			if(c.get("phase")){ if(l->kind != K_PHASE || !p || p->kind != K_REL || p->a[0] < 1000){ return false; } } else if(l->kind != K_REL || l->a[0] < 1000){ return false; }
		}
		return true;
	}
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		Prop::vary(r, c, st, k); for(auto& p : c.pre){ if(p.target < 0){ p.target = 0; } }
		if(c.get("kills") && !r.chance(1, 4)){ const Op& o = c.ops[(size_t)r.range(0, (int)c.ops.size() - 1)]; if(o.kind != K_PHASE){ c.pre.push_back({o.agent, o.id, 0, -1}); } }
	}
	void init_model(const Case& c) override {
		keys.clear(); g_ranges.clear();
		for(int i = 0; i < MAXK; i++){ char b[16], d[16], e[16]; snprintf(b, sizeof(b), "key%d", i); snprintf(d, sizeof(d), "ro%d", i); snprintf(e, sizeof(e), "rl%d", i); if(c.cfg.find(b) == c.cfg.end()){ break; } keys.push_back(Key{(int)c.get(b), i}); g_ranges.push_back(Range{c.get(d), c.get(e)}); }
		M()->victim = -1;
	}
	// entries that may be in use at this moment
	void usage(int& L, int& O, int& F, int& W) {
		M12* m = M(); L = O = F = W = 0; bool keepO = has_mode(0), keepF = has_mode(0) || has_mode(2);
		for(int i = 0; i < vs::C->nag; i++){ auto& a = m->a[i]; for(int k = 0; k < a.nh; k++){ if(a.h[k].kind == 1){ L++; } } if(a.call == 1){ L++; } if(a.wait){ W++; } }
		bool fu[10] = {false}, any;
		for(size_t k = 0; k < keys.size(); k++){ any = m->users[k] > 0; if(any || (keepO && m->tried[k])){ O++; } if(any || (keepF && m->tried[k])){ fu[keys[k].file] = true; } }
		for(int i = 0; i < 10; i++){ if(fu[i]){ F++; } }
	}
	void peaks() {
		M12* m = M(); int L, O, F, W; usage(L, O, F, W);
		for(int i = 0; i < vs::C->nag; i++){ auto& a = m->a[i]; if(a.call){ a.pL = std::max(a.pL, L); a.pO = std::max(a.pO, O); a.pF = std::max(a.pF, F); a.pW = std::max(a.pW, W); } }
	}
	void call_begin(int me, int kind) { auto& a = M()->a[me]; a.call = kind; a.pL = a.pO = a.pF = a.pW = 0; peaks(); }
	void call_end(int me) { M()->a[me].call = 0; }
	int names(const unsigned char* v) { int n = 0; for(int i = 0; i < MAXN; i++){ n += v[i] != 0; } return n; }
	std::string mn(int i) { return "name" + std::to_string(i); }
	std::string cn(int i) { return "cond" + std::to_string(i); }
	int m_call(int kind, const std::string& s, int us) { return kind == K_MLOCK ? fullock_mutex_lock(s.c_str()) : kind == K_MTRY ? fullock_mutex_trylock(s.c_str()) : fullock_mutex_timedlock(s.c_str(), us); }
	void release(const Case& c, int me, int idx) {
		M12* m = M(); auto& A = m->a[me]; Hold h = A.h[idx]; int rc;
		if(h.kind == 1){
			int a[4] = {h.slot, h.key, 0, 0}; rc = lib_call(c, K_RWUNLOCK, a);
			m->users[h.key]--;
		}else{ rc = fullock_mutex_unlock(mn(h.key).c_str()); }
		for(int i = idx; i + 1 < A.nh; i++){ A.h[i] = A.h[i + 1]; } A.nh--;
		if(rc){ vs::fail("DISTURBED: agent %d: unlock of %s %d that it holds returned %d", me, h.kind == 1 ? "range" : "mutex", h.key, rc); }
	}
	void run_op(const Case& c, const Op& o, int me) override {
		M12* m = M(); auto& A = m->a[me]; int rc;
		switch(o.kind){
		case K_CS: for(int i = 0; i < o.a[0]; i++){ vs::point_yield(); } return;
		case K_DEADCHK: FlShm::CheckProcessDead(); return;
		case K_FREEMODE: if(o.a[0] == 0){ fullock_set_no_freeunit(); }else if(o.a[0] == 1){ fullock_set_fd_freeunit(); }else{ fullock_set_offset_freeunit(); } cls(1); return;
		case K_REL: if(o.a[0] >= 1000){ while(A.nh){ release(c, me, A.nh - 1); } }else if(A.nh){ release(c, me, o.a[0] % A.nh); } return;
		case K_RLOCK: case K_RTRY: case K_RTIMED: case K_WLOCK: case K_WTRY: case K_WTIMED: {
			if(A.nh >= MAXH || o.a[0] >= (int)keys.size()){ return; }
			bool blk = o.kind == K_RLOCK || o.kind == K_WLOCK; int kind = blk && A.nh ? o.kind + 1 : o.kind;
			int a[4] = {o.a[1], o.a[0], o.a[2], 0};
			m->users[o.a[0]]++; m->tried[o.a[0]] = 1; call_begin(me, 1);
			rc = lib_call(c, kind, a);
			if(rc == ENOLCK){
				m->refusals++; cls(0);
				if(A.pL <= cap("lcnt") && A.pO <= cap("ocnt") && A.pF <= cap("fcnt")){ vs::fail("REFUSED: agent %d: %s of range %d was refused although at most %d of %d lockers, %d of %d ranges and %d of %d files were needed at any time of the call", me, kind_name(kind), o.a[0], A.pL, cap("lcnt"), A.pO, cap("ocnt"), A.pF, cap("fcnt")); }
			}else if(rc != 0 && !(rc == EBUSY && (kind == K_RTRY || kind == K_WTRY)) && !(rc == ETIMEDOUT && (kind == K_RTIMED || kind == K_WTIMED))){ vs::fail("RESULT: agent %d: %s returned %d", me, kind_name(kind), rc); }
			call_end(me);
			if(rc != ENOLCK){ m->acc[o.a[0]] = 1; }
			if(rc == 0){ A.h[A.nh++] = Hold{1, (unsigned char)o.a[0], (unsigned char)o.a[1]}; }else{ m->users[o.a[0]]--; }
			return; }
		case K_MLOCK: case K_MTRY: case K_MTIMED: {
			if(A.nh >= MAXH){ return; }
			int kind = o.kind == K_MLOCK && A.nh ? (int)K_MTRY : o.kind;
			m->maybem[o.a[0]] = 1; rc = m_call(kind, mn(o.a[0]), o.a[2]);
			if(rc == ENOLCK){ m->refusals++; cls(0); if(m->mname[o.a[0]] || names(m->maybem) <= cap("mcnt")){ vs::fail("REFUSED: agent %d: %s of %s was refused although only %d of %d names are known", me, kind_name(kind), mn(o.a[0]).c_str(), names(m->maybem), cap("mcnt")); } return; }
			m->mname[o.a[0]] = 1;
			if(rc == 0){ A.h[A.nh++] = Hold{2, (unsigned char)o.a[0], 0}; }
			else if(!(rc == EBUSY && kind == K_MTRY) && !(rc == ETIMEDOUT && kind == K_MTIMED)){ vs::fail("RESULT: agent %d: %s returned %d", me, kind_name(kind), rc); }
			return; }
		case K_CSIGNAL: rc = fullock_cond_signal(cn(o.a[0]).c_str()); if(rc && rc != EINVAL){ vs::fail("RESULT: signal returned %d", rc); } return;
		case K_CTIMED: {
			for(int i = 0; i < A.nh; i++){ if(A.h[i].kind == 2 && A.h[i].key == o.a[1]){ return; } }
			if(o.a[3]){                                    // a wait by somebody who does not hold the mutex
				m->maybec[o.a[0]] = 1; A.wait = 1; call_begin(me, 2);
				rc = fullock_cond_timedwait(cn(o.a[0]).c_str(), mn(o.a[1]).c_str(), o.a[2]);
				if(rc == ENOLCK){
					m->refusals++; cls(0);
					if(A.pW <= cap("wcnt") && (m->cname[o.a[0]] || names(m->maybec) <= cap("ccnt"))){ vs::fail("REFUSED: agent %d: wait on %s was refused although at most %d of %d waiters and %d of %d conditions were needed", me, cn(o.a[0]).c_str(), A.pW, cap("wcnt"), names(m->maybec), cap("ccnt")); }
				}else if(rc == 0 || rc == ETIMEDOUT || rc == EPERM){ m->cname[o.a[0]] = 1; }
				A.wait = 0; call_end(me); cls(13);
				if(rc == 0 || rc == ETIMEDOUT){ m->mname[o.a[1]] = 1; int u = fullock_mutex_unlock(mn(o.a[1]).c_str()); if(u){ vs::fail("RESULT: agent %d: a wait on a free mutex returned %d, and the unlock after it %d", me, rc, u); } }
				return;
			}
			m->maybem[o.a[1]] = 1; rc = fullock_mutex_trylock(mn(o.a[1]).c_str()); if(rc){ if(rc == EBUSY){ m->mname[o.a[1]] = 1; } return; }
			m->mname[o.a[1]] = 1; m->maybec[o.a[0]] = 1; A.wait = 1; call_begin(me, 2);
			// another holder of the mutex may wait for nothing that this agent keeps: it only tries
			rc = fullock_cond_timedwait(cn(o.a[0]).c_str(), mn(o.a[1]).c_str(), o.a[2]);
			if(rc == ENOLCK){
				m->refusals++; cls(0);
				if(A.pW <= cap("wcnt") && (m->cname[o.a[0]] || names(m->maybec) <= cap("ccnt"))){ vs::fail("REFUSED: agent %d: wait on %s was refused although at most %d of %d waiters and %d of %d conditions were needed", me, cn(o.a[0]).c_str(), A.pW, cap("wcnt"), names(m->maybec), cap("ccnt")); }
			}else{ m->cname[o.a[0]] = 1; }
			A.wait = 0; call_end(me);
			if(rc && rc != ETIMEDOUT && rc != ENOLCK){ vs::fail("RESULT: agent %d: wait returned %d", me, rc); }
			rc = fullock_mutex_unlock(mn(o.a[1]).c_str()); if(rc){ vs::fail("RESULT: agent %d: mutex unlock after a wait returned %d", me, rc); }
			return; }
		case K_PHASE: phase(c, o, me); return;
		default: return;
		}
	}
	int alive() { int n = 0; for(int i = 0; i < (int)cs->get("agents"); i++){ if(!M()->dead[i]){ n++; } } return n; }
	// as many threads as there are entries wait at once
	void phase(const Case& c, const Op& o, int me) {
		(void)c; M12* m = M(); const char* MU = "name0"; std::string cv = cn(0);
		m->arrived++; while(m->arrived < alive()){ vs::point_yield(); }
		if(m->outside || m->dead[0] || alive() < 2 || !m->mname[0] || (!m->cname[0] && names(m->maybec) >= cap("ccnt"))){ return; }
		// first round: everybody but agent 0
		if(me){
			int rc = fullock_mutex_lock(MU); if(rc){ vs::fail("RESULT: mutex lock returned %d", rc); }
			m->in++; m->inside[me] = 1; rc = fullock_cond_wait(cv.c_str(), MU); m->inside[me] = 0;
			if(rc == ENOLCK){ m->in--; m->refused++; }else if(rc){ vs::fail("RESULT: agent %d: wait returned %d", me, rc); }
			rc = fullock_mutex_unlock(MU); if(rc){ vs::fail("RESULT: unlock after a wait returned %d", rc); }
			while(m->phase < 1){ vs::point_yield(); }
			m->arrived--;
			while(m->phase < 2){ vs::point_yield(); }
			if(m->phasedone){ return; }
			rc = fullock_mutex_lock(MU); if(rc){ vs::fail("RESULT: mutex lock returned %d", rc); }
			m->in++; m->inside[me] = 1; rc = fullock_cond_wait(cv.c_str(), MU); m->inside[me] = 0;
			if(rc == ENOLCK){ m->in--; m->refused++; }else if(rc){ vs::fail("RESULT: agent %d: wait returned %d", me, rc); }
			rc = fullock_mutex_unlock(MU); if(rc){ vs::fail("RESULT: unlock after a wait returned %d", rc); }
			return;
		}
		if(m->deaths){ FlShm::CheckProcessDead(); }
		cls(6);
		auto gather = [&](int n) {                       // returns with the mutex held and everybody inside
			for(;;){
				int rc = fullock_mutex_lock(MU); if(rc){ vs::fail("RESULT: mutex lock returned %d", rc); }
				if(m->in + m->refused >= n){ return; }
				fullock_mutex_unlock(MU); vs::point_yield();
			}
		};
		int n = alive() - 1; gather(n);
		int want = std::min(n, cap("wcnt"));
		if(m->in != want){ vs::fail("WAITERS: of %d threads %d could wait at once; %d waiter entries are configured", n, m->in, cap("wcnt")); }
		if(o.a[0] && n > 1){
			// one of the waiters dies
			int v = -1; for(int i = 1; i < vs::C->nag; i++){ if(!m->dead[i] && m->inside[i] && alone_in_group(i) && (v < 0 || o.a[0] == 1)){ v = i; } }
			if(v > 0){
				cls(7); m->victim = v; m->in--;
				vs::C->req = vs::REQ_KILL; vs::C->reqagent = v; vs::park();
				FlShm::CheckProcessDead();
			}
		}
		int rc = fullock_cond_broadcast(cv.c_str()); if(rc){ vs::fail("RESULT: broadcast returned %d", rc); }
		fullock_mutex_unlock(MU);
		m->in = m->refused = 0; m->arrived = alive(); m->phase = 1;
		while(m->arrived > 1){ vs::point_yield(); }
		m->phasedone = 0; m->phase = 2;
		n = alive() - 1; gather(n); want = std::min(n, cap("wcnt"));
		if(m->in != want){ vs::fail("WAITERS: of %d threads %d could wait at once in the second round; %d waiter entries are configured", n, m->in, cap("wcnt")); }
		rc = fullock_cond_broadcast(cv.c_str()); if(rc){ vs::fail("RESULT: broadcast returned %d", rc); }
		fullock_mutex_unlock(MU);
	}
	bool alone_in_group(int a) { for(int i = 0; i < (int)cs->get("agents"); i++){ if(i != a && grp(i) == grp(a)){ return false; } } return true; }
	void on_crash(const Case&, int a, int g) override {
		M12* m = M(); (void)a; bool hold = false;
		for(int i = 0; i < vs::C->nag; i++){
			if(vs::C->a[i].group != g){ continue; }
			if(m->victim < 0 && vs::C->a[i].opid >= 0 && vs::C->a[i].opstep > 1){ m->outside = 1; }
			m->dead[i] = 1; if(m->a[i].nh){ hold = true; }
		}
		m->deaths++; if(hold){ cls(2); }
	}
	bool has_probe(const Case&) override { return !M()->outside; }
	void probe(const Case& c) override {
		M12* m = M(); int me = vs::self; (void)me; std::vector<std::pair<int, int>> got;
		if(m->deaths){ FlShm::CheckProcessDead(); }
		int L = cap("lcnt"), O = cap("ocnt"), F = cap("fcnt"), a[4] = {0, 0, 0, 0}; bool keepO = has_mode(0), keepF = has_mode(0) || has_mode(2);
		cls(keepF ? 4 : 3);
		auto slot = [&](int file) { return file == 9 ? 100 : file; };
		auto lock = [&](int file, int range) { a[0] = slot(file); a[1] = range; int rc = lib_call(c, K_WTRY, a); if(!rc){ got.push_back({file, range}); } progress(); return rc; };
		auto unlock = [&]() { while(!got.empty()){ a[0] = slot(got.back().first); a[1] = got.back().second; int rc = lib_call(c, K_RWUNLOCK, a); if(rc){ vs::fail("DISTURBED: unlock by the last process returned %d", rc); } got.pop_back(); } };
		std::vector<int> known; std::set<int> kfiles; for(size_t k = 0; k < keys.size(); k++){ if(m->tried[k]){ known.push_back((int)k); kfiles.insert(keys[k].file); } }
		// which units were given to whom is only certain when nothing was refused
		bool sure = !keepF || (m->refusals == 0);
		std::set<int> nofiles;
		if(keepF){
			if((int)known.size() > O || (int)kfiles.size() > F){ sure = false; }
			// everything ever locked can be locked again, all at once
			if(sure && (int)known.size() <= L){
				for(int k : known){ int rc = lock(keys[(size_t)k].file, keys[(size_t)k].range); if(rc){ vs::fail("LEAK: range %d of file %d was locked before and is free, but a try returned %d", k, keys[(size_t)k].file, rc); } }
				unlock();
			}
			if(!keepO){
				// the mode that gives ranges back but keeps files
				int f0 = kfiles.empty() ? 0 : *kfiles.begin(), R1 = (int)g_ranges.size(), w = std::min(O, L), n = 0, rc = 0; for(int i = 0; i < 12; i++){ g_ranges.push_back(Range{200000 + i * 10, 7}); }
				if(!kfiles.empty() || m->refusals == 0){
					while(n <= w && 0 == (rc = lock(f0, R1 + n))){ n++; }
					if((sure && n != w) || (n > 0 && n < w) || rc != ENOLCK){ vs::fail("LEAK: %d ranges and %d lockers are configured, but after everything was released %d could be taken in the mode that keeps files (then %d)", O, L, n, rc); }
					unlock();
				}
			}
			// and in the mode that keeps nothing it comes back
			fullock_set_fd_freeunit(); cls(5);
			if(sure){ for(int k : known){ int rc = lock(keys[(size_t)k].file, keys[(size_t)k].range); if(rc){ vs::fail("LEAK: range %d of file %d was locked before and is free, but a try returned %d", k, keys[(size_t)k].file, rc); } unlock(); } }
			else{ for(int k : known){ lock(keys[(size_t)k].file, keys[(size_t)k].range); unlock(); } }
		}
		(void)keepO; (void)nofiles;
		int R0 = (int)g_ranges.size(); for(int i = 0; i < 40; i++){ g_ranges.push_back(Range{100000 + i * 10, 7}); }
		// lockers: readers of one range
		cls(8); a[0] = 0; a[1] = R0; int n = 0, rc = 0;
		while(n <= L && 0 == (rc = lib_call(c, K_RTRY, a))){ n++; progress(); }
		if(n != L || rc != ENOLCK){ vs::fail("LEAK: %d lockers are configured, but after everything was released %d could be taken (then %d)", L, n, rc); }
		while(n-- > 0){ rc = lib_call(c, K_RWUNLOCK, a); if(rc){ vs::fail("DISTURBED: unlock by the last process returned %d", rc); } progress(); }
		// ranges
		cls(9); int want = std::min(O, L); n = 0; while(n <= want && 0 == (rc = lock(0, R0 + n))){ n++; }
		if(n != want || rc != ENOLCK){ vs::fail("LEAK: %d ranges and %d lockers are configured, but after everything was released %d could be taken (then %d)", O, L, n, rc); }
		unlock();
		// files
		cls(10); want = F; n = 0; while(n < 6 && n <= F && 0 == (rc = lock(n, R0))){ n++; }
		if(want > std::min(O, L)){ want = std::min(O, L); }
		if(n != std::min(want, 6) || (n < 6 && rc != ENOLCK)){ vs::fail("LEAK: %d files are configured, but after everything was released %d could be taken (then %d)", F, n, rc); }
		unlock();
		// names
		bool surem = names(m->maybem) <= cap("mcnt"); int nm = names(m->mname), acc = 0; cls(11);
		for(int i = 0; i < MAXN; i++){ if(m->mname[i]){ rc = fullock_mutex_trylock(mn(i).c_str()); if(rc){ vs::fail("LEAK: mutex %s is free but a try returned %d", mn(i).c_str(), rc); } fullock_mutex_unlock(mn(i).c_str()); progress(); } }
		for(int i = 0; i < 12; i++){ rc = fullock_mutex_trylock(("fresh" + std::to_string(i)).c_str()); progress(); if(rc == 0){ acc++; }else if(rc == ENOLCK){ break; }else{ vs::fail("RESULT: try of a new mutex returned %d", rc); } }
		if(nm + acc > cap("mcnt") || (surem && (names(m->maybem) == nm || m->deaths == 0) && nm + acc != cap("mcnt")) || (m->deaths == 0 && names(m->maybem) > cap("mcnt") && nm + acc != cap("mcnt"))){ vs::fail("LEAK: %d mutex names are configured, %d were in use and only %d more could be added", cap("mcnt"), nm, acc); }
		// conditions: a wait that ends at once
		cls(12); int ncn = names(m->cname), cacc = 0; std::string mu = "fresh0"; if(acc == 0){ for(int i = 0; i < MAXN; i++){ if(m->mname[i]){ mu = mn(i); } } rc = fullock_mutex_lock(mu.c_str()); if(rc){ vs::fail("RESULT: mutex lock returned %d", rc); } }
		bool refw = m->refusals != 0;
		for(int i = 0; i < 12; i++){ rc = fullock_cond_timedwait(("freshc" + std::to_string(i)).c_str(), mu.c_str(), 1); progress(); if(rc == ETIMEDOUT){ cacc++; }else if(rc == ENOLCK){ break; }else{ vs::fail("RESULT: short wait on a new condition returned %d", rc); } }
		if(ncn + cacc > cap("ccnt") || (!refw && m->deaths == 0 && !c.get("phase") && ncn + cacc != cap("ccnt"))){ vs::fail("LEAK: %d condition names are configured, %d were in use and only %d more could be added", cap("ccnt"), ncn, cacc); }
	}
	void classify(const Case&, RunResult& r) override { if(M()->outside){ r.fail = 0; r.nontrivial = 0; } }
	void finish(const Case&, RunResult& r) override { r.nontrivial = !M()->outside && (M()->refusals || vs::C->preempts) ? 1 : -1; }
	std::vector<std::string> assumptions() const override { return {"processes are killed between library calls only (a waiter also while it waits); what a process killed inside a call leaves behind belongs to C08"}; }
};
PropReg r12(new C12);
}

#include "lockprog.h"
#include "fullock.h"
#include "flckshm.h"

static bool is_rw_kind(int k) { return k >= K_RLOCK && k <= K_ISLOCKED; }
static bool is_read(int k) { return k == K_RLOCK || k == K_RTRY || k == K_RTIMED; }
static bool is_try(int k) { return k == K_MTRY || k == K_RTRY || k == K_WTRY; }
static bool is_timed(int k) { return k == K_MTIMED || k == K_RTIMED || k == K_WTIMED; }

// op layout: a0 = resource, a1 = slot (rwlock), a2 = usec, a3 = id of the lock operation + 1 (unlock)
static void call_args(const LockProp& p, const Op& o, int* a)
{
	const Res& r = p.res[(size_t)o.a[0]];
	if(r.rw){ a[0] = o.a[1]; a[1] = r.a1; a[2] = o.a[2]; }
	else{ a[0] = r.a0; a[1] = o.a[2]; a[2] = 0; }
}

void LockProp::gen_locks(Rng& r, Case& c, const LGen& g)
{
	int nag = r.range(g.minag, g.maxag);
	c.cfg["agents"] = nag;
	int ng = g.allproc ? nag : (g.multiproc ? r.range(1, nag) : 1);
	for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = g.allproc ? i : (i < ng ? i : r.range(0, ng - 1)); }
	int nres = r.range(1, g.maxres);
	int nf = r.range(1, 2); c.cfg["nfiles"] = nf; c.cfg["nslots"] = nf * 2;
	std::vector<std::string> pool = {"m", "mutex-b", "C", "a-rather-long-name-for-a-lock-object", "x y"};
	for(auto& s : pool){ c.strs.push_back(s); }
	long off = r.chance(1, 3) ? 0 : r.range(1, 5000);
	int nrng = 0;
	for(int i = 0; i < nres; i++){
		bool rw = g.rw && (!g.mutex || r.chance(1, 2));
		char b[16]; snprintf(b, sizeof(b), "res%d", i);
		if(rw){
			int rg;
			if(nrng && r.chance(1, 4)){ rg = nrng - 1; }
			else{
				rg = nrng++;
				static const long lens[] = {1, 1, 4, 10, 100};
				long len = lens[r.range(0, 4)];
				char d[16], e[16]; snprintf(d, sizeof(d), "ro%d", rg); snprintf(e, sizeof(e), "rl%d", rg);
				c.cfg[d] = off; c.cfg[e] = len; off += len + (r.chance(1, 2) ? 0 : r.range(1, 20));      // adjacent ranges too
			}
			int f = r.range(0, nf - 1);
			bool dup = false;
			for(auto& q : resources(c)){ if(q.rw && q.a0 == f && q.a1 == rg){ dup = true; } }
			if(dup){ nres = i; break; }
			c.cfg[b] = 10000 + f * 100 + rg;
		}else{
			bool dup = false; int n = r.range(0, (int)pool.size() - 1);
			for(auto& q : resources(c)){ if(!q.rw && q.a0 == n){ dup = true; } }
			if(dup){ nres = i; break; }
			c.cfg[b] = n * 100;
		}
	}
	auto rs = resources(c); nres = (int)rs.size();
	if(c.cfg.find("ro0") == c.cfg.end()){ c.cfg["ro0"] = 0; c.cfg["rl0"] = 1; }
	if(g.rw && g.nofd && r.chance(1, 5)){ c.cfg["nofd"] = 1; }
	c.cfg["free"] = r.range(0, 2);
	c.cfg["robust"] = g.anyrobust ? (r.chance(2, 3) ? 2 : r.range(0, 1)) : 2;
	c.cfg["chk"] = r.chance(3, 4) ? 50 : 120;
	c.cfg["rot"] = r.range(0, 119);
	c.cfg["quiet"] = r.chance(1, 2) ? 40 : r.range(5, 60);
	c.cfg["now"] = 5000000000L + (r.chance(1, 2) ? 999990000L : 0) + r.range(0, 20000);
	bool nofd = c.get("nofd") != 0;
	int pair = 1;
	for(int ag = 0; ag < nag; ag++){
		int ns = r.range(1, g.maxsec);
		for(int s = 0; s < ns; s++){
			// a chain of acquisitions with increasing resource numbers
			std::vector<Op> open;
			int depth = (g.nest && r.chance(1, 4)) ? 2 : 1, ri = -1;
			for(int d = 0; d < depth; d++){
				int lo = ri + 1; if(lo >= nres){ break; }
				ri = r.range(lo, d + 1 < depth ? std::max(lo, nres - 2) : nres - 1);
				const Res& q = rs[(size_t)ri];
				int kk;
				int mode = r.range(0, 9); mode = mode < 6 ? 0 : (mode < 8 ? (g.tries ? 1 : 0) : (g.timed ? 2 : 0));
				if(q.rw){ bool rd = r.chance(1, 2); kk = (rd ? K_RLOCK : K_WLOCK) + mode; }
				else{ kk = K_MLOCK + mode; }
				static const int us[] = {1, 5, 20, 60, 200};
				int slot = q.rw ? (nofd && q.a0 == 0 ? 100 + q.a0 : q.a0 + (r.chance(1, 3) ? nf : 0)) : 0;
				Op& o = c.add(ag, kk, ri, slot, mode == 2 ? us[r.range(0, 4)] : 0, 0, pair);
				open.push_back(o); Op lo1 = o; pair++;
				if(g.recursion && r.chance(1, 5) && (!q.rw || is_read(kk))){
					int k2 = q.rw ? K_RLOCK : (r.chance(1, 2) ? K_MLOCK : K_MTRY);
					Op& o2 = c.add(ag, k2, ri, slot, 0, 0, pair); o2.a[2] = -lo1.id - 1; open.push_back(o2); pair++;   // only if the outer one succeeded
				}
			}
			if(g.cond && open.size() == 1 && !rs[(size_t)open[0].a[0]].rw && r.chance(1, 3)){
				static const int cu[] = {1, 10, 40, 200};
				c.add(ag, K_CTIMED, open[0].a[0], r.range(0, 1), cu[r.range(0, 3)], open[0].id + 1, open[0].pair);
			}
			if(g.exits && r.chance(1, 12)){ c.add(ag, K_EXIT); }
			if(r.chance(3, 4)){ c.add(ag, K_CS, 0, 0, r.range(0, 3)); }
			while(!open.empty()){
				Op o = open.back(); open.pop_back();
				c.add(ag, rs[(size_t)o.a[0]].rw ? K_RWUNLOCK : K_MUNLOCK, o.a[0], o.a[1], 0, o.id + 1, o.pair);
				if(!open.empty() && r.chance(1, 3)){ c.add(ag, K_CS, 0, 0, 1); }
			}
			if(g.cond && r.chance(1, 3)){ c.add(ag, r.chance(1, 3) ? K_CBCAST : K_CSIGNAL, r.range(0, 1)); }
			if(g.deadchk && r.chance(1, 3)){ c.add(ag, K_DEADCHK); }
		}
	}
}

int LockProp::acquire(const Case& c, const Op& o, int me, int kind)
{
	LModel::R& r = M()->r[o.a[0]];
	char nm[160];
	bool outer_needed = o.a[2] < 0;
	if(outer_needed && !M()->got[-o.a[2] - 1]){ return -1; }
	int a[4]; call_args(*this, o, a); if(outer_needed){ a[res[(size_t)o.a[0]].rw ? 2 : 1] = 0; }
	int others = r.act - (r.wowner == me + 1 || r.readers[me] ? 1 : 0);
	bool mine = r.wowner == me + 1 || r.readers[me] > 0;
	int64_t t0 = vs::C->now;
	bool wr = !is_read(kind);
	if(!mine){ r.act++; r.seq++; if(wr){ r.wact++; r.wseq++; } }
	uint32_t seq0 = r.seq, wseq0 = r.wseq; bool wothers = r.wact > 0;
	if(others > 0){ r.overlap++; }
	int rc = lib_call(c, kind, a);
	bool contended = wr ? others > 0 || r.seq != seq0 : wothers || r.wseq != wseq0;      // readers only mind writers
	if(rc == 0){
		bool rd = is_read(kind);
		if(r.wowner && r.wowner != me + 1){ vs::fail("EXCLUSION: agent %d got %s of %s while agent %d holds it exclusively", me, kind_name(kind), rname(o.a[0], nm, sizeof(nm)), r.wowner - 1); }
		if(!rd && res[(size_t)o.a[0]].rw){
			for(int i = 0; i < vs::MAXA; i++){ if(r.readers[i]){ vs::fail("EXCLUSION: agent %d got %s of %s while agent %d holds it for reading", me, kind_name(kind), rname(o.a[0], nm, sizeof(nm)), i); } }
			if(r.wowner){ vs::fail("EXCLUSION: agent %d got %s of %s twice", me, kind_name(kind), rname(o.a[0], nm, sizeof(nm))); }
		}
		if(rd){ r.readers[me]++; }else{ r.wowner = me + 1; r.wdepth++; r.relw[me] = 1; }
		M()->got[o.id] = 1;
		return 0;
	}
	if(!mine){ r.act--; if(wr){ r.wact--; } }
	if(is_try(kind) && rc == EBUSY){
		if(!contended || mine){ vs::fail("RESULT: agent %d: %s of %s says EBUSY although %s", me, kind_name(kind), rname(o.a[0], nm, sizeof(nm)), wr ? "nobody else uses it" : "no writer uses it"); }
		return rc;
	}
	if(is_timed(kind) && rc == ETIMEDOUT){
		if(!contended || mine){ vs::fail("RESULT: agent %d: %s of %s timed out although %s", me, kind_name(kind), rname(o.a[0], nm, sizeof(nm)), wr ? "nobody else uses it" : "no writer uses it"); }
		if(vs::C->now - t0 < (int64_t)o.a[2] * 1000){ vs::fail("TIMEOUT: agent %d: %s of %s with %d us timed out after %ld ns", me, kind_name(kind), rname(o.a[0], nm, sizeof(nm)), o.a[2], (long)(vs::C->now - t0)); }
		return rc;
	}
	if(tolerate(rc)){ return rc; }
	vs::fail("RESULT: agent %d: %s of %s returned %d", me, kind_name(kind), rname(o.a[0], nm, sizeof(nm)), rc);
	return rc;
}

void LockProp::release(const Case& c, const Op& o, int me)
{
	if(!M()->got[o.a[3] - 1]){ return; }
	M()->got[o.a[3] - 1] = 0;
	LModel::R& r = M()->r[o.a[0]]; char nm[160];
	int a[4]; call_args(*this, o, a);
	if(r.readers[me]){ r.readers[me]--; }
	else if(r.wowner == me + 1){ if(--r.wdepth == 0){ r.wowner = 0; } }
	else{ vs::fail("MODEL: release without hold"); }
	bool still = r.readers[me] || r.wowner == me + 1, wrel = r.wowner == 0 && !r.readers[me] && r.relw[me];
	int rc = lib_call(c, o.kind, a);
	if(!still){ r.act--; if(wrel){ r.wact--; } }
	if(wrel){ r.relw[me] = 0; }
	if(rc != 0){ vs::fail("RESULT: agent %d: %s of the held %s returned %d", me, kind_name(o.kind), rname(o.a[0], nm, sizeof(nm)), rc); }
}

void LockProp::run_op(const Case& c, const Op& o, int me)
{
	switch(o.kind){
	case K_NOP: break;
	case K_CS: for(int i = 0; i < o.a[2]; i++){ vs::point_yield(); } break;
	case K_DEADCHK: FlShm::CheckProcessDead(); break;
	case K_MUNLOCK: case K_RWUNLOCK: release(c, o, me); break;
	case K_CTIMED: cwait(c, o, me); break;
	case K_CSIGNAL: case K_CBCAST: { int a[4] = {o.a[0], 0, 0, 0}, rc = lib_call(c, o.kind, a); if(rc != 0 && rc != EINVAL){ vs::fail("RESULT: agent %d: %s returned %d", me, kind_name(o.kind), rc); } } break;
	case K_EXIT: break;
	default: acquire(c, o, me, o.kind); break;
	}
}

void LockProp::on_crash(const Case& c, int agent, int g)
{
	LModel* m = M();
	int oi = vs::C->a[agent].opid;
	m->crashop = oi; m->crashkind = 0;
	for(auto& o : c.ops){ if(o.id == oi){ m->crashkind = o.kind; if(is_rw_kind(o.kind)){ m->lockcrash = 1; } } }
	for(int i = 0; i < vs::C->nag; i++){ if(vs::C->a[i].group == g){ forget(i); } }
}

// agent is dead: what it held is up for recovery
void LockProp::forget(int i)
{
	for(size_t k = 0; k < res.size(); k++){
		LModel::R& r = M()->r[k];
		if(r.wowner == i + 1){ r.wowner = 0; r.wdepth = 0; }
		r.readers[i] = 0;
		r.act++; r.seq++; r.wact++; r.wseq++;            // from now on "busy" answers are always legitimate
	}
}

void LockProp::on_threadgone(const Case&, int agent) { forget(agent); }

// a condition wait gives the mutex up and takes it again
void LockProp::cwait(const Case& c, const Op& o, int me)
{
	if(!M()->got[o.a[3] - 1]){ return; }
	LModel::R& r = M()->r[o.a[0]]; char nm[160];
	if(r.wowner != me + 1 || r.wdepth != 1){ return; }
	r.wowner = 0; r.wdepth = 0; r.seq++;
	int a[4] = {o.a[1], res[(size_t)o.a[0]].a0, o.a[2], 0};
	int rc = lib_call(c, K_CTIMED, a);
	if(rc == 0 || rc == ETIMEDOUT){
		if(r.wowner){ vs::fail("EXCLUSION: agent %d came back from a condition wait (%d) holding %s while agent %d holds it", me, rc, rname(o.a[0], nm, sizeof(nm)), r.wowner - 1); }
		r.wowner = me + 1; r.wdepth = 1;
		return;
	}
	if(tolerate(rc)){ return; }
	vs::fail("RESULT: agent %d: condition wait with %s returned %d", me, rname(o.a[0], nm, sizeof(nm)), rc);
}

void LockProp::probe_all(const Case& c, bool blocking)
{
	int me = vs::self; char nm[160];
	for(size_t i = 0; i < res.size(); i++){
		for(int pass = 0; pass < (res[i].rw ? 2 : 1); pass++){
			int a[4] = {0, 0, 0, 0};
			if(res[i].rw){ a[0] = (c.get("nofd") && res[i].a0 == 0) ? 100 : res[i].a0; a[1] = res[i].a1; }else{ a[0] = res[i].a0; }
			int kt = res[i].rw ? (pass ? K_RTRY : K_WTRY) : K_MTRY;
			if(blocking && pass == 0){
				int kb = res[i].rw ? K_WLOCK : K_MLOCK;
				int rc = lib_call(c, kb, a); progress();
				if(rc){ vs::fail("RECOVERY: %s of %s in a new process returned %d", kind_name(kb), rname((int)i, nm, sizeof(nm)), rc); }
				rc = lib_call(c, res[i].rw ? K_RWUNLOCK : K_MUNLOCK, a); progress();
				if(rc){ vs::fail("RECOVERY: releasing %s in a new process returned %d", rname((int)i, nm, sizeof(nm)), rc); }
			}
			int rc = lib_call(c, kt, a); progress();
			if(rc == EINVAL && !res[i].rw){ continue; }
			if(rc == ENOLCK && noroom((int)i)){ continue; }
			if(rc){ vs::fail("LEFTOVER: nobody holds %s any more but %s in a new process returned %d", rname((int)i, nm, sizeof(nm)), kind_name(kt), rc); }
			rc = lib_call(c, res[i].rw ? K_RWUNLOCK : K_MUNLOCK, a); progress();
			if(rc){ vs::fail("LEFTOVER: releasing %s in a new process returned %d", rname((int)i, nm, sizeof(nm)), rc); }
		}
	}
	(void)me;
}

void LockProp::simplify(const Case& c, std::vector<Case>& out)
{
	for(const char* k : {"rot", "nofd"}){ if(c.get(k)){ Case d = c; d.cfg[k] = 0; out.push_back(d); } }
	if(c.get("quiet", 40) != 40){ Case d = c; d.cfg["quiet"] = 40; out.push_back(d); }
	// drop agents without operations at the end of the list
	int nag = (int)c.get("agents"); int mx = 0; for(auto& o : c.ops){ mx = std::max(mx, o.agent + 1); }
	if(mx < nag && mx >= 1){ Case d = c; d.cfg["agents"] = mx; out.push_back(d); }
}

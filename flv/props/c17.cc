// C17: what every call does while the library is not attached or a descriptor
// is not open, in all four modes, and how attaching again works.
//  - histories (script mode): a subject process whose attachment fails and
//    succeeds, against an observer process that is always attached
//  - programs: threads of processes that start unattached in a retry mode
#include "lockprog.h"
#include "fullock.h"
#include "flckshm.h"
#include "flckstructure.h"
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C" { int __real_open(const char*, int, ...); int __real_close(int); int __real_fcntl(int, int, ...); }

namespace {
enum { K_REINIT = K_USER, K_MODE, K_BLOCK, K_UNBLOCK, K_NULLS, K_SHUT, K_REOPEN };
enum { B_NONE, B_DIR, B_LOOP, B_VERSION, B_NOTDIR, B_FDS, B_N };
enum { M_AN, M_DN, M_AR, M_DR };
enum { NM = 2, NF = 2, NR = 2, NC = 2, BADSLOT = 20, NOFD = 100 };
struct M17 {
	LModel l;
	int attached, pathset, block, mode;
	int mowner[NM], mdepth[NM], mknown[NM], cknown[NC];
	struct { int agent, slot, file, range, write; } h[128]; int n;
	int closed[8];
	uint32_t un, bad, re, really;
};
const char* MODE[] = {"ALLOW_NORETRY", "DENY_NORETRY", "ALLOW_RETRY", "DENY_RETRY", "ALLOW", "DENY"};
const int   MODEV[] = {M_AN, M_DN, M_AR, M_DR, M_AN, M_DN};
int g_vfd = -1, g_nofile = 0;

struct C17 : LockProp {
	M17* X() { return (M17*)vs::C->model; }
	size_t model_size() const override { return sizeof(M17); }
	const char* id() const override { return "C17"; }
	const char* rule() const override { return "two kinds of cases: histories of 15-60 calls of a subject process (all lock, unlock, condition and query calls, mode switches, good and bad re-initialisations with or without FLCKNOMAPMODE, closed and never opened descriptors, missing names) while its shared file is made unusable and usable again in five ways, against an attached observer that takes and tries the same locks; and lock programs of up to 4 threads in processes that start unattached in a retry mode, some forked in the middle; non-trivial: a call met an unattached library or a bad descriptor and another one really locked, or threads of one unattached process attached at the same time"; }
	std::vector<const char*> classes() const override { return {"calls while unattached, allow", "calls while unattached, deny", "calls with a bad descriptor", "attached again by a call", "failed re-initialisation", "good re-initialisation", "refused re-initialisation", "contended with the observer", "concurrent first calls", "never initialised", "forks beside first calls"}; }
	int programs(bool t) const override { return t ? 800000 : 22000; }
	int variants(bool) const override { return 3; }
	bool retry() { return X()->mode == M_AR || X()->mode == M_DR; }
	bool allow() { return X()->mode == M_AN || X()->mode == M_AR; }
	std::string shm() { return case_dir() + "/s/flck.shm"; }
	std::string dir() { return case_dir() + "/s"; }

	void gen(Rng& r, Case& c, uint64_t) override {
		if(r.chance(1, 3)){
			LGen g; g.anyrobust = false; g.maxag = 5; g.minag = 2; g.rw = r.chance(2, 3); g.maxsec = 2; g.nofd = false; g.recursion = false; g.nest = false;
			gen_locks(r, c, g);
			int ng = 0; for(int a = 0; a < (int)c.get("agents"); a++){ char b[16]; snprintf(b, sizeof(b), "grp%d", a); ng = std::max(ng, (int)c.get(b) + 1); }
			c.cfg["un"] = r.chance(1, 2) ? (1 << ng) - 1 : r.range(1, (1 << ng) - 1); c.cfg["m"] = r.chance(1, 2) ? M_AR : M_DR; c.cfg["sysp"] = 1; c.cfg["quiet"] = 60;
			int nag = (int)c.get("agents");
			if(nag > 2 && r.chance(1, 3)){           // the last agent lives in a child that another one forks
				int by = r.range(0, nag - 2), a = nag - 1; char b[16], l[16]; snprintf(b, sizeof(b), "grp%d", a); snprintf(l, sizeof(l), "late%d", a); c.cfg[b] = ng; c.cfg[l] = 1;
				std::vector<size_t> at; for(size_t i = 0; i < c.ops.size(); i++){ if(c.ops[i].agent == by){ at.push_back(i); } }
				Op o; o.id = c.next_id(); o.agent = by; o.kind = K_FORK; o.pair = 0; o.a[0] = ng; o.a[1] = o.a[2] = o.a[3] = 0;
				c.ops.insert(c.ops.begin() + (long)(at.empty() ? 0 : r.chance(1, 2) ? at[0] : at[(size_t)r.range(0, (int)at.size() - 1)]), o);
			}
			return;
		}
		c.cfg["agents"] = 2; c.cfg["grp0"] = 0; c.cfg["grp1"] = 1; c.cfg["script"] = 1;
		c.cfg["robust"] = 2; c.cfg["chk"] = 50; c.cfg["free"] = r.range(0, 2); c.cfg["m"] = r.range(0, 3); c.cfg["nfiles"] = NF; c.cfg["nslots"] = NF * 2;
		c.strs = {"m", "mutex-b", "c", "cond-b"};
		c.cfg["ro0"] = 0; c.cfg["rl0"] = 1; c.cfg["ro1"] = r.range(1, 50); c.cfg["rl1"] = r.range(1, 20);
		int n = r.range(15, 60);
		static const int us[] = {0, 1, 30, 120};
		auto slot = [&](int a){ if(a == 0 && r.chance(1, 4)){ return BADSLOT + r.range(0, 3); } if(r.chance(1, 5)){ return (int)NOFD; } return r.range(0, NF * 2 - 1); };
		auto lock = [&](int a) -> Op {
			int k;
			if(r.chance(1, 2)){ k = K_MLOCK + r.range(0, 2); if(a == 1){ k = K_MTRY; } return c.add(a, k, r.range(0, NM - 1), us[r.range(0, 3)]); }
			k = K_RLOCK + r.range(0, 5); if(a == 1){ k = r.chance(1, 2) ? K_RTRY : K_WTRY; }
			return c.add(a, k, slot(a), r.range(0, NR - 1), us[r.range(0, 3)]);
		};
		std::vector<Op> held;
		if(r.chance(2, 3)){ if(r.chance(1, 2)){ c.add(1, K_BLOCK, r.range(1, B_N - 1)); } c.add(0, K_REINIT, 0, r.chance(1, 3) ? r.range(1, 6) : 0); }
		for(int i = 0; i < n; i++){
			int x = r.range(0, 99);
			if(r.chance(1, 12)){       // becomes unattached, is used, can attach again
				for(auto& h : held){ if(h.agent == 0){ c.add(0, h.kind <= K_MTIMED ? K_MUNLOCK : K_RWUNLOCK, h.a[0], h.kind <= K_MTIMED ? 0 : h.a[1]); } }
				std::vector<Op> h2; for(auto& h : held){ if(h.agent == 1){ h2.push_back(h); } } held = h2;
				int k = r.range(1, B_N - 1), by = k == B_FDS ? 0 : 1; c.add(0, K_UNBLOCK); c.add(1, K_UNBLOCK); c.add(by, K_BLOCK, k); int v = r.range(0, 6); c.add(0, K_REINIT, 0, v); if(!v && r.chance(1, 2)){ c.add(0, K_MODE, r.range(2, 3)); }
				for(int q = r.range(0, 3); q > 0; q--){ Op o = lock(0); if(r.chance(1, 2)){ c.add(0, o.kind <= K_MTIMED ? K_MUNLOCK : K_RWUNLOCK, o.a[0], o.kind <= K_MTIMED ? 0 : o.a[1]); } }
				if(r.chance(1, 2)){ lock(1); held.push_back(c.ops.back()); }
				c.add(by, K_UNBLOCK); if(r.chance(1, 3)){ c.add(0, K_MODE, r.range(0, 3)); }
				continue;
			}
			if(x < 38){ Op o = lock(0); held.push_back(o); if(r.chance(1, 3)){ Op p = o; p.kind = o.kind <= K_MTIMED ? K_MTRY : (r.chance(1, 2) ? K_WTRY : K_RTRY); p.a[2] = 0; if(p.a[0] < BADSLOT || p.a[0] == NOFD){ c.add(1, p.kind, p.a[0], p.a[1]); held.push_back(c.ops.back()); } } }
			else if(x < 58 && !held.empty()){ size_t k = r.next() % held.size(); Op o = held[k]; if(r.chance(4, 5)){ held.erase(held.begin() + (long)k); } c.add(o.agent, o.kind <= K_MTIMED ? K_MUNLOCK : K_RWUNLOCK, o.a[0], o.kind <= K_MTIMED ? 0 : o.a[1]); }
			else if(x < 63){ if(r.chance(1, 2)){ c.add(0, K_MUNLOCK, r.range(0, NM - 1)); }else{ c.add(0, K_RWUNLOCK, slot(0), r.range(0, NR - 1)); } }
			else if(x < 70){ c.add(0, K_ISLOCKED, slot(0), r.range(0, NR - 1)); }
			else if(x < 75){ int k = r.range(0, 3); if(k == 0){ c.add(0, K_CWAIT, 2 + r.range(0, 1), r.range(0, NM - 1)); }else if(k == 1){ c.add(0, K_CTIMED, 2 + r.range(0, 1), r.range(0, NM - 1), us[r.range(1, 3)]); }else{ c.add(0, k == 2 ? K_CSIGNAL : K_CBCAST, 2 + r.range(0, 1)); } }
			else if(x < 81){ c.add(0, K_MODE, r.range(0, 3)); }
			else if(x < 87){ c.add(r.chance(1, 8) ? 0 : 1, r.chance(1, 2) ? K_BLOCK : K_UNBLOCK, r.range(1, B_N - 1)); }
			else if(x < 94){ c.add(0, K_REINIT, r.chance(1, 3) ? r.range(1, 6) : 0, r.chance(1, 3) ? r.range(1, 6) : 0); }
			else if(x < 96){ c.add(0, K_NULLS, r.range(0, 5)); }
			else if(x < 98){ c.add(0, K_SHUT, r.range(0, NF * 2 - 1)); }
			else{ c.add(0, K_REOPEN); }
		}
	}
	void prepare(const Case&) override { mkdir(dir().c_str(), 0777); }
	void init_model(const Case& c) override {
		LockProp::init_model(c); M17* m = X(); m->mode = (int)c.get("m"); g_vfd = -1;
		if(c.get("script")){ if(!m->pathset){ cls(9); } }
	}
	bool reinit(const Case& c, size_t mc = 0) {
		return fullock_reinitialize_ex(dir().c_str(), "flck.shm", (size_t)c.get("fcnt", 8), (size_t)c.get("ocnt", 16), (size_t)c.get("lcnt", 32), mc ? mc : 8, 8, 16);
	}
	void setmode(int m) { switch(m){ case M_AN: fullock_set_noretry_allow_nomap(); break; case M_DN: fullock_set_noretry_deny_nomap(); break; case M_AR: fullock_set_retry_allow_nomap(); break; default: fullock_set_retry_deny_nomap(); } }
	void tune(const Case& c) {
		fullock_set_no_robust();                     // the other modes would start the background worker, which is the subject of C19
		switch(c.get("free", 1)){ case 0: fullock_set_no_freeunit(); break; case 2: fullock_set_offset_freeunit(); break; default: fullock_set_fd_freeunit(); break; }
	}
	bool child_init(const Case& c, int g) override {
		open_files(c); lib_env(dir().c_str());
		if(c.get("script")){ for(int s = 0; s < NF * 2; s++){ dup2(g_fd[s], 500 + s); __real_close(g_fd[s]); g_fd[s] = 500 + s; } }       // numbers that the library does not get
		bool un = c.get("script") ? g == 0 : g < 31 && (c.get("un") >> g & 1);
		if(!un){ if(!reinit(c)){ return false; } tune(c); fullock_set_noretry_deny_nomap(); return true; }
		if(!c.get("script")){
			std::string keep = dir() + "/kept"; bool had = rename(shm().c_str(), keep.c_str()) == 0;
			mkdir(shm().c_str(), 0777); setmode(M_DN);
			bool ok = reinit(c);
			rmdir(shm().c_str()); if(had && rename(keep.c_str(), shm().c_str())){ return false; }
			if(ok){ vs::fail("ATTACH: a re-initialisation with a directory in place of the shared file reports success"); }
		}
		tune(c); setmode((int)c.get("m"));
		return true;
	}
	//------------------------------------------------ histories
	void block(const Case&, int k, int me) {
		M17* m = X(); if(m->block || (k == B_FDS && me != 0) || (k == B_VERSION && me != 1)){ return; }
		std::string keep = dir() + "/kept";
		if(k == B_NOTDIR){
			if(rename(dir().c_str(), (case_dir() + "/kept").c_str())){ return; }
			int fd = __real_open(dir().c_str(), O_RDWR | O_CREAT, 0666); __real_close(fd);
		}else if(k == B_FDS){
			struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); g_nofile = (int)rl.rlim_cur; rl.rlim_cur = 1; setrlimit(RLIMIT_NOFILE, &rl);
		}else{
			if(rename(shm().c_str(), keep.c_str())){ return; }
			if(k == B_DIR){ mkdir(shm().c_str(), 0777); }
			else if(k == B_LOOP){ if(symlink("flck.shm", shm().c_str())){} }
			else{
				g_vfd = __real_open(shm().c_str(), O_RDWR | O_CREAT, 0666);
				FLHEAD h; memset((void*)&h, 0, sizeof(h)); h.version = FLCK_FILE_VERSION + 1; strcpy(h.szver, "FULLOCK FILEVER 2"); h.flength = 4096;
				if(ftruncate(g_vfd, 4096) || write(g_vfd, &h, sizeof(h)) < 0){}
				struct flock fl; memset(&fl, 0, sizeof(fl)); fl.l_type = F_RDLCK; fl.l_whence = SEEK_SET; fl.l_len = 1; __real_fcntl(g_vfd, F_SETLK, &fl);
			}
		}
		m->block = k;
	}
	void unblock(int me) {
		M17* m = X(); std::string keep = dir() + "/kept";
		if(!m->block || (m->block == B_FDS) != (me == 0)){ return; }
		if(m->block == B_NOTDIR){ unlink(dir().c_str()); if(rename((case_dir() + "/kept").c_str(), dir().c_str())){ return; } }
		else if(m->block == B_FDS){ struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = (rlim_t)g_nofile; setrlimit(RLIMIT_NOFILE, &rl); }
		else{
			if(m->block == B_DIR){ rmdir(shm().c_str()); }else{ unlink(shm().c_str()); }
			if(g_vfd >= 0){ __real_close(g_vfd); g_vfd = -1; }
			if(rename(keep.c_str(), shm().c_str())){ return; }
		}
		m->block = B_NONE;
	}
	bool holds(int a) { M17* m = X(); for(int i = 0; i < NM; i++){ if(m->mowner[i] == a + 1){ return true; } } for(int i = 0; i < m->n; i++){ if(m->h[i].agent == a){ return true; } } return false; }
	bool rwbusy(int f, int rg, bool wr) { M17* m = X(); for(int i = 0; i < m->n; i++){ if(m->h[i].file == f && m->h[i].range == rg && (wr || m->h[i].write)){ return true; } } return false; }
	int  fd_of(int slot) { return slot >= NOFD ? slot_fd(slot) : (slot >= BADSLOT ? 700 + slot : g_fd[slot]); }
	bool badfd(int slot, int me) { return slot < NOFD && (slot >= BADSLOT || (me == 0 && X()->closed[slot])); }
	int  fno(int slot) { return slot >= NOFD ? NOFD : slot % NF; }
	int  rwcall(int k, int fd, off_t off, size_t len, int us) {
		switch(k){
		case K_RLOCK: return fullock_rwlock_rdlock(fd, off, len); case K_RTRY: return fullock_rwlock_tryrdlock(fd, off, len); case K_RTIMED: return fullock_rwlock_timedrdlock(fd, off, len, us);
		case K_WLOCK: return fullock_rwlock_wrlock(fd, off, len); case K_WTRY: return fullock_rwlock_trywrlock(fd, off, len); case K_WTIMED: return fullock_rwlock_timedwrlock(fd, off, len, us);
		case K_ISLOCKED: return fullock_rwlock_islocked(fd, off, len); default: return fullock_rwlock_unlock(fd, off, len);
		}
	}
	void run_op(const Case& c, const Op& o, int me) override {
		if(!c.get("script")){
			if(o.kind == K_FORK){ for(int a = 0; a < vs::C->nag; a++){ char b[16]; snprintf(b, sizeof(b), "grp%d", a); if(c.get(b) == o.a[0] && vs::C->a[a].state == vs::ST_NONE){ cls(10); fork_group(c, o.a[0]); return; } } return; }
			LockProp::run_op(c, o, me); return;
		}
		M17* m = X(); char w[160];
		switch(o.kind){
		case K_BLOCK: block(c, o.a[0], me); return;
		case K_UNBLOCK: unblock(me); return;
		case K_MODE: setmode(o.a[0]); m->mode = o.a[0]; return;
		case K_SHUT: if(o.a[0] < NF * 2 && !m->closed[o.a[0]]){ for(int i = 0; i < m->n; i++){ if(m->h[i].agent == 0 && m->h[i].slot == o.a[0]){ return; } } __real_close(g_fd[o.a[0]]); m->closed[o.a[0]] = 1; } return;
		case K_REOPEN: if(m->block == B_FDS){ return; } for(int s = 0; s < NF * 2; s++){ if(m->closed[s]){ char b[32]; snprintf(b, sizeof(b), "/data%d", s % NF); int fd = __real_open((case_dir() + b).c_str(), O_RDWR); if(fd != g_fd[s]){ dup2(fd, g_fd[s]); __real_close(fd); } m->closed[s] = 0; } } return;
		case K_REINIT: {
			if(holds(0)){ return; }
			int v = o.a[1]; if(v){ setenv("FLCKNOMAPMODE", MODE[v - 1], 1); }else{ unsetenv("FLCKNOMAPMODE"); }
			bool ok, refused = o.a[0] != 0;
			switch(o.a[0]){
			case 0: ok = reinit(c); break;
			case 1: ok = reinit(c, 100000); break;
			case 2: ok = fullock_reinitialize_ex(dir().c_str(), "flck.shm", 5000, 0, 0, 0, 0, 0); break;
			case 3: ok = fullock_reinitialize_ex(dir().c_str(), "flck.shm", 0, 2, 0, 0, 0, 0); break;
			case 4: ok = fullock_reinitialize(dir().c_str(), "sub/flck.shm"); break;
			case 5: ok = fullock_reinitialize((case_dir() + "/data0/x").c_str(), "flck.shm"); break;
			default: ok = fullock_reinitialize_ex(dir().c_str(), "flck.shm", 0, 0, 17000, 0, 0, 0); break;
			}
			unsetenv("FLCKNOMAPMODE");
			if(m->block == B_NOTDIR && !refused){ refused = true; }
			if(refused){ cls(6); if(ok){ vs::fail("REINIT: re-initialisation with wrong parameters (kind %d) reports success", o.a[0]); } return; }
			bool want = m->block == B_NONE; m->pathset = 1; m->attached = want; cls(want ? 5 : 4);
			if(v){ m->mode = MODEV[v - 1]; }
			if(ok != want){ vs::fail("REINIT: re-initialisation %s although the shared file is %s (%d)", ok ? "reports success" : "fails", want ? "usable" : "unusable", m->block); }
			tune(c);
			return; }
		default: break;
		}
		// a call of the library
		bool att = me == 1 || m->attached;
		if(o.kind == K_NULLS){
			int rc = 0; const char* what = "";
			switch(o.a[0]){
			case 0: rc = fullock_mutex_lock(nullptr); what = "mutex_lock"; break; case 1: rc = fullock_mutex_trylock(nullptr); what = "mutex_trylock"; break; case 2: rc = fullock_mutex_unlock(nullptr); what = "mutex_unlock"; break;
			case 3: rc = fullock_cond_signal(nullptr); what = "cond_signal"; break; case 4: rc = fullock_cond_wait(nullptr, "m"); what = "cond_wait"; break;
			default: rc = fullock_cond_wait("c", nullptr); what = "cond_wait"; break;
			}
			if(FlShm::pFlHead && !m->attached && me == 0){ m->attached = 1; }
			if(att && rc != EINVAL){ vs::fail("RESULT: %s without a name returned %d", what, rc); }
			return;
		}
		if(!att && retry() && m->pathset && m->block == B_NONE){ att = true; m->attached = 1; m->re++; cls(3); }
		int64_t t0 = vs::C->now; bool un = !att; int mode = m->mode;
		bool rw = o.kind >= K_RLOCK && o.kind <= K_ISLOCKED, cond = o.kind >= K_CWAIT && o.kind <= K_CBCAST;
		bool bad = rw && badfd(o.a[0], me);
		snprintf(w, sizeof(w), "agent %d: %s (%s, mode %s%s)", me, kind_name(o.kind), un ? "not attached" : "attached", MODE[mode], bad ? ", bad descriptor" : "");
		if(un || bad){
			m->un += un; m->bad += bad; cls(un ? (allow() ? 0 : 1) : 2);
			int rc = rw ? rwcall(o.kind, fd_of(o.a[0]), g_ranges[(size_t)o.a[1]].off, (size_t)g_ranges[(size_t)o.a[1]].len, o.a[2]) : lib_call(c, o.kind, o.a);
			if(o.kind == K_ISLOCKED){
				bool want = un && !allow();
				if((rc != 0) != want){ vs::fail("QUERY: %s says %s", w, rc ? "locked" : "not locked"); }
			}else if(allow() ? rc != 0 : rc == 0){ vs::fail("RESULT: %s returned %d", w, rc); }
			if(vs::C->now - t0 > 5000000){ vs::fail("BLOCKED: %s took %ld us", w, (long)(vs::C->now - t0) / 1000); }
			if(un && !retry() && FlShm::pFlHead){ vs::fail("ATTACH: %s attached the library", w); }
			return;
		}
		if(cond){
			int mi = o.a[1];
			if(o.kind == K_CSIGNAL || o.kind == K_CBCAST){
				int rc = lib_call(c, o.kind, o.a); int want = m->cknown[o.a[0] - 2] ? 0 : EINVAL;
				if(rc != want){ vs::fail("RESULT: %s returned %d", w, rc); }
				return;
			}
			if(m->mknown[mi] && (o.kind == K_CWAIT || m->mowner[mi] != me + 1 || m->mdepth[mi] != 1)){ if(m->attached && !FlShm::pFlHead){ int a[4] = {2, 0, 0, 0}; int rc = lib_call(c, K_CSIGNAL, a); if(rc != (m->cknown[0] ? 0 : EINVAL)){ vs::fail("RESULT: %s: a signal returned %d", w, rc); } } return; }
			int rc = lib_call(c, o.kind, o.a), want = m->mknown[mi] ? ETIMEDOUT : EINVAL;
			if(m->mknown[mi]){ m->cknown[o.a[0] - 2] = 1; }
			if(rc != want){ vs::fail("RESULT: %s returned %d", w, rc); }
			return;
		}
		if(!rw){
			int i = o.a[0]; int& ow = m->mowner[i];
			if(o.kind == K_MUNLOCK){
				int want = !m->mknown[i] ? EINVAL : (ow == 0 ? 0 : (ow == me + 1 ? 0 : EPERM));
				int rc = lib_call(c, o.kind, o.a);
				if(rc != want){ vs::fail("RESULT: %s of \"%s\" returned %d, expected %d", w, c.strs[(size_t)i].c_str(), rc, want); }
				if(ow == me + 1 && --m->mdepth[i] == 0){ ow = 0; }
				return;
			}
			bool busy = ow && ow != me + 1; int k = o.kind; if(busy && k == K_MLOCK){ k = K_MTRY; }
			int rc = lib_call(c, k, o.a); m->mknown[i] = 1; int want = !busy ? 0 : (k == K_MTRY || !o.a[1] ? EBUSY : ETIMEDOUT); if(busy){ cls(7); }
			if(rc != want){ vs::fail("RESULT: %s of \"%s\" (%s) returned %d, expected %d", w, c.strs[(size_t)i].c_str(), busy ? "held by the other process" : "free", rc, want); }
			if(!rc){ ow = me + 1; m->mdepth[i]++; if(me == 0){ m->really++; } }
			return;
		}
		int f = fno(o.a[0]), fd = fd_of(o.a[0]); off_t off = g_ranges[(size_t)o.a[1]].off; size_t len = (size_t)g_ranges[(size_t)o.a[1]].len;
		if(o.kind == K_ISLOCKED){
			bool want = rwbusy(f, o.a[1], true); int rc = rwcall(o.kind, fd, off, len, 0);
			if((rc != 0) != want){ vs::fail("QUERY: %s says %s", w, rc ? "locked" : "not locked"); }
			return;
		}
		if(o.kind == K_RWUNLOCK){
			int hi = -1; for(int i = 0; i < m->n; i++){ if(m->h[i].agent == me && m->h[i].slot == o.a[0] && m->h[i].range == o.a[1]){ hi = i; } }
			int rc = rwcall(o.kind, fd, off, len, 0), want = hi >= 0 ? 0 : EINVAL;
			if(rc != want){ vs::fail("RESULT: %s of a range that it %s returned %d", w, hi >= 0 ? "holds" : "does not hold", rc); }
			if(hi >= 0){ m->h[hi] = m->h[--m->n]; }
			return;
		}
		bool wr = o.kind >= K_WLOCK, busy = rwbusy(f, o.a[1], wr); int k = o.kind; if(busy && (k == K_RLOCK || k == K_WLOCK)){ ++k; }
		int us = k == K_RTIMED || k == K_WTIMED ? o.a[2] : 0;
		int rc = rwcall(k, fd, off, len, us), want = !busy ? 0 : (us ? ETIMEDOUT : EBUSY); if(busy){ cls(7); }
		if(rc != want){ vs::fail("RESULT: %s of range %ld (%s) returned %d, expected %d", w, (long)off, busy ? "held" : "free", rc, want); }
		if(!rc){ if(m->n >= 128){ vs::fail("MODEL: table"); } m->h[m->n].agent = me; m->h[m->n].slot = o.a[0]; m->h[m->n].file = f; m->h[m->n].range = o.a[1]; m->h[m->n].write = wr; m->n++; if(me == 0){ m->really++; } }
	}
	bool enabled(const Case&, int) override { return true; }
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		if(c.get("script")){ c.pre.clear(); c.cfg["m"] = r.range(0, 3); c.cfg["free"] = r.range(0, 2); for(int q = r.range(1, 5); q > 0 && !c.ops.empty(); q--){ size_t x = r.next() % c.ops.size(); if(r.chance(1, 2)){ c.ops.erase(c.ops.begin() + (long)x); }else{ std::swap(c.ops[x], c.ops[r.next() % c.ops.size()]); } } return; }
		c.pre.clear(); c.cfg["rot"] = r.range(0, 119); (void)k;
		int nag = (int)c.get("agents"); std::vector<const Op*> first(vs::MAXA, nullptr), all;
		for(auto& o : c.ops){ if(o.id < (int)st.size() && st[(size_t)o.id] > 0){ all.push_back(&o); if(!first[(size_t)o.agent]){ first[(size_t)o.agent] = &o; } } }
		if(all.empty()){ return; }
		int n = r.range(1, 4);
		for(int i = 0; i < n; i++){
			const Op* o = first[(size_t)r.range(0, nag - 1)]; if(!o || r.chance(1, 5)){ o = r.pick(all); }
			int s = st[(size_t)o->id]; c.pre.push_back({o->agent, o->id, r.chance(1, 2) ? r.range(0, std::min(s, 40) - 1) : r.range(0, s - 1), r.range(0, nag - 1)});
		}
	}
	bool has_probe(const Case& c) override { return !c.get("script"); }
	void probe(const Case& c) override { probe_all(c, true); }
	void finish(const Case& c, RunResult& r) override {
		M17* m = X();
		if(c.get("script")){ r.nontrivial = (m->un || m->bad) && m->really ? 1 : -1; return; }
		std::map<int, int> cnt; for(int a = 0; a < (int)c.get("agents"); a++){ char b[16]; snprintf(b, sizeof(b), "grp%d", a); int g = (int)c.get(b); if(c.get("un") >> g & 1){ cnt[g]++; } }
		bool two = false; for(auto& q : cnt){ if(q.second > 1){ two = true; } }
		if(two){ cls(8); }
		r.nontrivial = two && vs::C->preempts ? 1 : -1;
	}
};
PropReg r17(new C17);
}

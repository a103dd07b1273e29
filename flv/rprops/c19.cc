// C19: real processes with the background worker.  Owners die (kill, _exit,
// exit) while they hold locks; the calls of the survivors that wait for them
// have to be granted, and attaching, re-initialising, mode switches, forking and
// exiting have to go on working.
#include "../core/core.h"
#include "fullock.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <dirent.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

namespace {
enum { K_START = 1, K_LOCK, K_UNLOCK, K_DIE, K_REINIT, K_MODE, K_FORK, K_SPAWN, K_NAP, K_CHURN, K_WAIT, K_WAKE };
enum { NP = 6, NT = 3, NR = 5 };                     // thread 0 of a process: its main thread
enum { C_ATTACH = 100, C_MODE, C_FORK, C_SPAWN, C_CHURN, C_EXIT, C_QEXIT, C_LOCK, C_UNLOCK, C_WAIT, C_WAKE };
enum { WSLOTS = 4, NCOND = 2, X_QUEUED = 1, X_RETURNED = 2, X_UNLOCK = 4 };   // entries of the waiter table, marks of the answers to a wait
struct Cmd { int cmd, op, a, b, c; };
struct Rep { int op, result, x; };

double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
void usl(long us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; nanosleep(&t, nullptr); }

//---------------------------------------------------------------- inside the processes
int   g_sock[NP][NT];                                // process side
int   g_ctl[NP][NT];                                 // controller side
char  g_dir[256];
int   g_me, g_df = -1;
pthread_t g_th[NT];

const char* mname(int r) { return r ? "another mutex" : "m0"; }
int do_lock(int res, int write, int timed)
{
	const time_t lim = 60L * 1000 * 1000;
	if(res < 2){ return timed ? fullock_mutex_timedlock(mname(res), lim) : fullock_mutex_lock(mname(res)); }
	int fd = res == 4 ? (int)FLCK_RWLOCK_NO_FD(5) : g_df; off_t off = res == 2 ? 0 : res == 3 ? 20 : 0;
	if(write){ return timed ? fullock_rwlock_timedwrlock(fd, off, 10, lim) : fullock_rwlock_wrlock(fd, off, 10); }
	return timed ? fullock_rwlock_timedrdlock(fd, off, 10, lim) : fullock_rwlock_rdlock(fd, off, 10);
}
int do_unlock(int res)
{
	if(res < 2){ return fullock_mutex_unlock(mname(res)); }
	int fd = res == 4 ? (int)FLCK_RWLOCK_NO_FD(5) : g_df; off_t off = res == 2 ? 0 : res == 3 ? 20 : 0;
	return fullock_rwlock_unlock(fd, off, 10);
}
int count_in(pid_t p, const char* what) { char b[64]; snprintf(b, sizeof(b), "/proc/%d/%s", (int)p, what); int n = -2; DIR* d = opendir(b); if(!d){ return 0; } while(readdir(d)){ n++; } closedir(d); return n; }
int fds_open() { return count_in(getpid(), "fd") - 1; }
int threads() { return count_in(getpid(), "task"); }
// the descriptors in use, once the worker has had time to open its own
int fds_stable() { int n = fds_open(); for(int i = 0, same = 0; i < 400 && same < 40; i++){ usl(500); int m = fds_open(); same = m == n ? same + 1 : 0; n = m; } return n; }
void answer(int t, int op, int result, int x = 0) { Rep r = {op, result, x}; if(send(g_sock[g_me][t], &r, sizeof(r), MSG_NOSIGNAL) < 0){ _exit(0); } }
void* lock_thread(void* p)
{
	int t = (int)(long)p; Cmd c;
	while(recv(g_sock[g_me][t], &c, sizeof(c), 0) == sizeof(c)){
		if(c.cmd == C_WAIT){
			if(c.c){ usl(20000); }                       // (the table was full before)
			char cn[20]; snprintf(cn, sizeof(cn), "cond %d", c.a);
			int r = fullock_mutex_lock("cm"); if(r){ answer(t, c.op, r, X_RETURNED); continue; }
			answer(t, c.op, 0, X_QUEUED);
			r = c.b ? fullock_cond_timedwait(cn, "cm", 300L * 1000 * 1000) : fullock_cond_wait(cn, "cm");
			answer(t, c.op, r, X_RETURNED | (fullock_mutex_unlock("cm") ? X_UNLOCK : 0));
			continue;
		}
		int r = c.cmd == C_LOCK ? do_lock(c.a, c.b, c.c) : do_unlock(c.a);
		answer(t, c.op, r);
	}
	return nullptr;
}
void threads_up() { for(long t = 1; t < NT; t++){ pthread_create(&g_th[t], nullptr, lock_thread, (void*)t); } }
bool setmode(int m) { return m == 0 ? fullock_set_no_robust() : m == 1 ? fullock_set_low_robust() : fullock_set_high_robust(); }
void main_loop(int me)
{
	g_me = me; signal(SIGPIPE, SIG_IGN);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	// every process on all processors
	cpu_set_t all; CPU_ZERO(&all); for(int i = 0; i < 64; i++){ CPU_SET(i, &all); } sched_setaffinity(0, sizeof(all), &all);
	threads_up();
	Cmd c;
	while(recv(g_sock[me][0], &c, sizeof(c), 0) == sizeof(c)){
		switch(c.cmd){
		case C_ATTACH: {
			int f0 = c.b ? fds_stable() : 0, t0 = c.b ? threads() : 0;
			static const char* mn[] = {"NO", "LOW", "HIGH"};
			setenv("FLCKROBUSTMODE", mn[c.a], 1);
			bool ok = fullock_reinitialize_ex(g_dir, "c19.shm", 8, 16, 64, 16, 4, WSLOTS);
			fullock_set_noretry_deny_nomap();
			int x = 0;
			if(c.b && c.a == c.c){                      // same mode as before: as many descriptors and threads
				for(int i = 0; i < 500; i++){ x = 0; if(fds_open() > f0){ x |= 1; } if(threads() > t0){ x |= 2; } if(!x){ break; } usl(2000); }
			}
			answer(0, c.op, ok ? 0 : 1, x);
			break; }
		case C_MODE: answer(0, c.op, setmode(c.a) ? 0 : 1); break;
		case C_FORK: {
			pid_t me0 = getpid(); if(c.b){ fds_stable(); }
			pid_t p = fork();
			if(p == 0){
				int x = 0;
				for(int i = 0; c.b && i < 500; i++){ x = 0; if(fds_open() > count_in(me0, "fd")){ x |= 1; } if(threads() > count_in(me0, "task") - (NT - 1)){ x |= 2; } if(!x){ break; } usl(2000); }
				g_me = c.a; answer(0, c.op, (int)getpid(), x);
				main_loop(c.a);
			}
			if(p < 0){ answer(0, c.op, -1); }
			break; }
		case C_SPAWN: {
			char a0[] = "sleep", a1[] = "3"; char* av[] = {a0, a1, nullptr}; char* ev[] = {nullptr}; pid_t p = -1;
			int r = posix_spawn(&p, "/bin/sleep", nullptr, nullptr, av, ev);
			answer(0, c.op, r ? -1 : (int)p);
			break; }
		case C_CHURN: {
			int bad = 0; char b[32]; snprintf(b, sizeof(b), "own %d", me);
			for(int i = 0; i < c.a && !bad; i++){
				if((bad = fullock_mutex_trylock(b))){ break; }
				if((bad = fullock_mutex_unlock(b))){ break; }
				if((bad = fullock_rwlock_trywrlock(g_df, 1000 + 10 * me, 10))){ break; }
				if((bad = fullock_rwlock_unlock(g_df, 1000 + 10 * me, 10))){ break; }
			}
			answer(0, c.op, bad);
			break; }
		case C_WAKE: {
			char cn[20]; snprintf(cn, sizeof(cn), "cond %d", c.a);
			int r = fullock_mutex_lock("cm"), s = r ? 0 : c.b ? fullock_cond_broadcast(cn) : fullock_cond_signal(cn), u = r ? 0 : fullock_mutex_unlock("cm");
			answer(0, c.op, r ? r : s ? s : u);
			break; }
		case C_EXIT: exit(0);
		case C_QEXIT: _exit(0);
		}
	}
	_exit(0);
}

//---------------------------------------------------------------- controller
struct P19 : Prop {
	const char* id() const override { return "C19"; }
	const char* rule() const override { return "random histories of 2-6 real processes with 2 lock threads each on one shared file (no, low and high robust mode, at least one process with the worker always alive): blocking and timed lock calls on mutexes, ranges and descriptor-less keys, deaths (SIGKILL, _exit, exit) of holders, re-initialisation, mode switches, forks, spawned programs, condition waits with a table of 4 waiters and waiters that are killed; non-trivial: at least one call that waited for a dead owner's lock was granted, or a wait worked after the death of a waiter"; }
	std::vector<const char*> classes() const override { return {"deaths of holders", "calls granted after a death: mutex", "calls granted after a death: range", "calls granted after a death: key without descriptor", "forks", "deaths of a forking parent", "re-initialisations", "mode switches", "spawned programs", "clean exits", "exchanges of unrelated locks", "deaths left as zombies", "processes attached after a death", "waiters that died", "waits that ended after the death of a waiter"}; }
	int programs(bool t) const override { return t ? 60000 : 6000; }
	int variants(bool) const override { return 0; }
	std::vector<std::string> assumptions() const override { return {"owners die between calls, not inside a reader/writer call (known findings of C08)", "a call that should be granted and is not within 12 s is taken as never granted", "exit() is called when no thread of the process is inside a call"}; }

	//------------------------------------------------------------ generation
	void gen(Rng& r, Case& c, uint64_t) override {
		gen_called = true;
		int nproc = r.range(2, 4); c.cfg["agents"] = NP;
		bool keyonly = r.chance(1, 5), mtxonly = r.chance(1, 4);
		c.add(0, K_START, r.range(1, 2));
		int low = r.chance(3, 4); if(low){ c.ops[0].a[0] = 1; }
		for(int i = 1; i < nproc; i++){ c.add(i, K_START, r.chance(2, 3) ? 1 : r.range(0, 2)); }
		bool wprog = r.chance(1, 3);
		int n = r.range(6, 26), next = nproc; std::vector<int> procs; for(int i = 0; i < nproc; i++){ procs.push_back(i); }
		auto res = [&]() { return mtxonly ? r.range(0, 1) : keyonly ? 4 : r.range(0, NR - 1); };
		for(int i = 0; i < n; i++){
			int p = r.pick(procs), k = r.range(0, 99);
			if(wprog && k < 28){ c.add(p, K_WAIT, r.range(1, NT - 1), r.chance(1, 4), r.chance(1, 3)); }
			else if(wprog && k < 35){ c.add(r.pick(procs), K_WAKE, r.chance(1, 4), r.chance(1, 2)); }
			else if(k < 46){ c.add(p, K_LOCK, r.range(1, NT - 1), res(), r.chance(2, 3), r.chance(1, 4)); }
			else if(k < 58){ c.add(p, K_UNLOCK, r.range(1, NT - 1), r.range(0, NR - 1)); }
			else if(k < 76){ if(p){ c.add(p, K_DIE, r.range(0, 5), r.chance(1, 2)); } }
			else if(k < 80){ c.add(p, K_REINIT, r.range(0, 2), r.chance(1, 2)); }
			else if(k < 84){ c.add(p, K_MODE, r.range(0, 2)); }
			else if(k < 89 && next < NP){ c.add(p, K_FORK, next, r.chance(1, 2)); procs.push_back(next++); }
			else if(k < 91){ c.add(p, K_SPAWN); }
			else if(k < 94){ c.add(p, K_NAP, r.chance(1, 2) ? r.range(0, 300) : r.range(0, 15000)); }
			else if(k < 95){ c.add(p, K_CHURN, r.range(1, 20)); }
			else if(next < NP){ c.add(next, K_START, r.range(0, 2)); procs.push_back(next++); }
		}
	}
	void simplify(const Case& c, std::vector<Case>& out) override {
		for(size_t i = 0; i < c.ops.size(); i++){
			const Op& o = c.ops[i];
			if(o.kind == K_LOCK && o.a[3]){ Case d = c; d.ops[i].a[3] = 0; out.push_back(d); }
			if(o.kind == K_DIE && o.a[0]){ Case d = c; d.ops[i].a[0] = 0; out.push_back(d); }
			if((o.kind == K_START || o.kind == K_REINIT) && o.a[0] == 2){ Case d = c; d.ops[i].a[0] = 1; out.push_back(d); }
		}
	}

	//------------------------------------------------------------ one history
	bool gen_called = false; bool failed_before = false;
	struct Pending { int op, res, write; bool on; double since; bool dead_wait; };
	struct Pr { bool up, dead, worker, direct, reaped, forked, gone; pid_t pid; int mode, attmode; Pending pend[NT]; int wt[NT]; bool wtimed[NT]; int hold[NT][NR]; };   // hold: 0, 1 read, 2 write
	// wt: 0, or 1 + the number of the condition the thread waits for
	bool wdead; int wbudget[NCOND], wreturned; double wretry; int wretries;
	Pr pr[NP]; RunResult* R; std::vector<pid_t> extra; bool deaths;
	double LIM = 12;

	// Closing an inotify descriptor waits for the kernel to collect the watches of
	// everybody, which takes seconds on a machine under load: a time limit counts
	// only after a close of our own, begun when the limit had passed, is through.
	bool expired(double& t0, int& n) {
		if(now() - t0 <= LIM){ return false; }
		if(n++){ return true; }
		int f = inotify_init1(IN_CLOEXEC); if(f >= 0){ inotify_add_watch(f, g_dir, IN_CLOSE); close(f); }
		t0 = now(); return false;
	}
	void fail(const char* cl, const std::string& m) { if(!R->fail){ R->fail = 1; R->msg = std::string(cl) + ": " + m; } }
	static std::string S(const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a); return b; }
	static const char* rn(int r) { static const char* n[] = {"mutex 0", "mutex 1", "range 0", "range 1", "the key without descriptor"}; return n[r]; }

	void cmd(int p, int t, Cmd c) { if(send(g_ctl[p][t], &c, sizeof(c), MSG_NOSIGNAL) < 0){ fail("died", S("process %d cannot be reached any more", p)); } }
	bool alive(int p) { return pr[p].up && !pr[p].dead; }
	// answers that have arrived; waits at most ms
	bool pump(int ms) {
		struct pollfd f[NP * NT]; int n = 0, who[NP * NT][2];
		for(int p = 0; p < NP; p++){ if(alive(p)){ for(int t = 1; t < NT; t++){ if(pr[p].pend[t].on || pr[p].wt[t]){ f[n].fd = g_ctl[p][t]; f[n].events = POLLIN; f[n].revents = 0; who[n][0] = p; who[n][1] = t; n++; } } } }
		int r = poll(f, (nfds_t)n, ms); if(r <= 0){ watch(); return false; }
		for(int i = 0; i < n; i++){ if(f[i].revents & (POLLIN | POLLHUP)){
			int p = who[i][0], t = who[i][1]; Rep a;
			if(recv(f[i].fd, &a, sizeof(a), MSG_DONTWAIT) != sizeof(a)){ continue; }
			if(pr[p].wt[t]){ waited(p, t, a); }else{ granted(p, t, a); }
		} }
		return true;
	}
	void watch() {
		for(int p = 0; p < NP; p++){ if(alive(p) && pr[p].direct){ siginfo_t si; memset(&si, 0, sizeof(si)); if(waitid(P_PID, (id_t)pr[p].pid, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == pr[p].pid){ fail("crash", S("process %d ended by itself (%s %d)", p, si.si_code == CLD_EXITED ? "exit" : "signal", si.si_status)); } } }
	}
	int waiters(int k) { int n = 0; for(int p = 0; p < NP; p++){ if(alive(p)){ for(int t = 1; t < NT; t++){ if(k < 0 ? pr[p].wt[t] != 0 : pr[p].wt[t] == k + 1){ n++; } } } } return n; }
	void waited(int p, int t, const Rep& a) {
		int k = pr[p].wt[t] - 1;
		if(a.x == X_QUEUED){ return; }
		if(a.x & X_UNLOCK){ fail("wait", S("process %d did not have the mutex when its wait returned", p)); return; }
		if(a.result == ENOLCK && wdead){             // a dead waiter is still in the table
			if(!wretry){ wretry = now(); wretries = 0; }
			if(expired(wretry, wretries)){ fail("table", S("a wait of process %d is refused for %.0f s after the death of a waiter although the table has room for it", p, LIM)); return; }
			cmd(p, t, {C_WAIT, a.op, k, pr[p].wtimed[t], 1}); return;
		}
		pr[p].wt[t] = 0; wretry = 0; wreturned++;
		if(a.result){ fail("wait", S("a wait of process %d for condition %d returned %d", p, k, a.result)); return; }
		if(--wbudget[k] < 0){ fail("wait", S("more waiters of condition %d returned than were woken", k)); }
		if(wdead){ R->cls[14]++; R->nontrivial = 1; }
	}
	// process p wakes; at least one (or all) of the waiters have to return
	void wake(int p, int k, bool all) {
		double t0 = now(); int ex = 0; Rep a;
		for(int tries = 0; !R->fail; tries++){
			int n = waiters(k); wreturned = 0;
			if(!tries || (n && wdead)){             // (a signal may have chosen a dead waiter, a dead one may have kept another from its place)
				wbudget[k] += all ? n : 1;
				if(!ask(p, {C_WAKE, -3, k, all, 0}, a, "waking waiters")){ return; }
				if(a.result && (n || a.result != EINVAL)){ fail("wake", S("waking waiters by process %d returned %d", p, a.result)); return; }
			}
			if(!n){ break; }
			for(int i = 0; i < 10 && !R->fail && waiters(k) && (all || waiters(k) == n); i++){ pump(30); }
			if(!waiters(k) || (!all && waiters(k) < n)){ break; }
			if(expired(t0, ex)){ fail("wake", S("%s waiter of condition %d returned within %.0f s after it was woken", all ? "not every" : "no", k, LIM)); }
		}
		if(!waiters(k)){ wbudget[k] = 0; }
	}
	bool holders(int res, bool write_only) { for(int p = 0; p < NP; p++){ if(alive(p)){ for(int t = 1; t < NT; t++){ if(pr[p].hold[t][res] && (!write_only || pr[p].hold[t][res] == 2)){ return true; } } } } return false; }
	void granted(int p, int t, const Rep& a) {
		Pending& q = pr[p].pend[t]; q.on = false;
		if(a.result){ fail("result", S("a waiting call of process %d for %s returned %d", p, rn(q.res), a.result)); return; }
		if(holders(q.res, !(q.write || q.res < 2))){ fail("exclusion", S("process %d got %s while another live holder had it", p, rn(q.res))); }
		pr[p].hold[t][q.res] = (q.write || q.res < 2) ? 2 : 1;
		if(q.dead_wait){ R->cls[q.res < 2 ? 1 : q.res < 4 ? 2 : 3]++; R->nontrivial = 1; }
		deadheld[q.res] = false;
	}
	// the resource that has to be granted to somebody, or -1
	int due(double* since) {
		for(int r = 0; r < NR; r++){
			bool w = false, any = false; double s = 0;
			for(int p = 0; p < NP; p++){ if(alive(p)){ for(int t = 1; t < NT; t++){ Pending& q = pr[p].pend[t]; if(q.on && q.res == r){ any = true; s = std::max(s, q.since); if(q.write || r < 2){ w = true; } } } } }
			if(!any){ continue; }
			if(!holders(r, false) || (!w && !holders(r, true))){ *since = s; return r; }
		}
		return -1;
	}
	void settle() {
		double t0 = now(), s; int r, ex = 0;
		while(!R->fail && (r = due(&s)) >= 0){
			int before = 0; for(auto& p : pr){ for(auto& q : p.pend){ before += q.on; } }
			pump(50);
			int after = 0; for(auto& p : pr){ for(auto& q : p.pend){ after += q.on; } }
			if(after != before){ t0 = now(); ex = 0; }
			else if(expired(t0, ex)){ fail("blocked", S("no waiting call got %s within %.0f s although nobody alive holds it", rn(r), LIM)); }
		}
	}
	// one command to the main thread and its answer
	bool ask(int p, Cmd c, Rep& a, const char* what, int rp = -1) {
		cmd(p, 0, c); if(R->fail){ return false; }
		struct pollfd f = {g_ctl[rp < 0 ? p : rp][0], POLLIN, 0}; double t0 = now(); int ex = 0;
		while(!expired(t0, ex)){
			if(poll(&f, 1, 100) > 0 && recv(f.fd, &a, sizeof(a), MSG_DONTWAIT) == sizeof(a)){ return true; }
			watch(); if(R->fail){ return false; }
		}
		fail("stuck", S("%s of process %d did not return within %.0f s", what, p, LIM));
		return false;
	}
	bool busy(int p, bool holds) { for(int t = 1; t < NT; t++){ if(pr[p].pend[t].on || pr[p].wt[t]){ return true; } if(holds){ for(int r = 0; r < NR; r++){ if(pr[p].hold[t][r]){ return true; } } } } return false; }
	bool worker_left(int but) { for(int p = 0; p < NP; p++){ if(p != but && alive(p) && pr[p].worker){ return true; } } return false; }

	void step(const Op& o) {
		int p = o.agent; if(p < 0 || p >= NP){ return; }
		Rep a;
		switch(o.kind){
		case K_START: {
			if(pr[p].up || o.a[0] < 0 || o.a[0] > 2){ return; }
			fflush(nullptr);
			pid_t c = fork();
			if(!c){ prctl(PR_SET_PDEATHSIG, SIGKILL); for(int i = 0; i < NP; i++){ for(int t = 0; t < NT; t++){ close(g_ctl[i][t]); } } main_loop(p); }
			Pr& q = pr[p]; q.up = true; q.direct = true; q.pid = c; q.mode = q.attmode = o.a[0]; q.worker = o.a[0] != 0;
			if(!ask(p, {C_ATTACH, o.id, o.a[0], 0, 0}, a, "attaching")){ return; }
			if(a.result){ fail("attach", S("process %d could not attach", p)); }
			if(deaths){ R->cls[12]++; }
			return; }
		case K_LOCK: {
			int t = o.a[0], r = o.a[1], w = r < 2 ? 1 : o.a[2] != 0; if(!alive(p) || t < 1 || t >= NT || r < 0 || r >= NR || pr[p].pend[t].on || pr[p].wt[t]){ return; }
			for(int k = r; k < NR; k++){ if(pr[p].hold[t][k]){ return; } }
			for(int u = 1; u < NT; u++){ if(u != t && pr[p].pend[u].on && pr[p].pend[u].res == r && false){ return; } }
			pr[p].pend[t] = {o.id, r, w, true, now(), false};
			bool dw = deadheld[r]; bool live = holders(r, false); if(dw && !live){ pr[p].pend[t].dead_wait = true; }
			cmd(p, t, {C_LOCK, o.id, r, w, o.a[3] != 0});
			if(live){ pump(1); }
			settle();
			return; }
		case K_UNLOCK: {
			int t = o.a[0], r = o.a[1]; if(!alive(p) || t < 1 || t >= NT || r < 0 || r >= NR || pr[p].pend[t].on || pr[p].wt[t] || !pr[p].hold[t][r]){ return; }
			release(p, t, r, o.id); settle();
			return; }
		case K_DIE: {
			if(!alive(p) || p == 0 || !worker_left(p)){ return; }
			for(int t = 1; t < NT; t++){ if((pr[p].pend[t].on && pr[p].pend[t].res >= 2) || ((pr[p].pend[t].on || pr[p].wt[t]) && o.a[0] >= 3)){ return; } }
			bool held = false; for(int t = 1; t < NT; t++){ for(int r = 0; r < NR; r++){ if(pr[p].hold[t][r]){ held = true; deadheld[r] = true; } } }
			if(held){ R->cls[0]++; } if(pr[p].forked){ R->cls[5]++; } deaths = true; R->crashes++;
			for(int x = 0; x < NP; x++){ if(x != p && alive(x)){ for(int t = 1; t < NT; t++){ Pending& q = pr[x].pend[t]; if(q.on){ for(int u = 1; u < NT; u++){ if(pr[p].hold[u][q.res]){ q.dead_wait = true; } } } } } }
			for(int t = 1; t < NT; t++){ if(pr[p].wt[t]){ wdead = true; R->cls[13]++; } }
			die(p, o.a[0] >= 4 ? 2 : o.a[0] >= 3 ? 1 : 0, o.a[1] != 0);
			settle();
			return; }
		case K_REINIT:
			if(!alive(p) || busy(p, true) || o.a[0] < 0 || o.a[0] > 2 || (!o.a[0] && p == 0)){ return; }
			if(!o.a[0] && !worker_left(p)){ return; }
			if(!ask(p, {C_ATTACH, o.id, o.a[0], o.a[1] != 0, pr[p].attmode}, a, "re-initialising")){ return; }
			if(a.result){ fail("attach", S("process %d could not re-initialise", p)); }
			if(a.x){ fail("leak", S("process %d has more %s than before after re-initialising with the same mode", p, a.x & 1 ? "descriptors" : "threads")); }
			pr[p].mode = pr[p].attmode = o.a[0]; pr[p].worker = o.a[0] != 0; R->cls[6]++;
			return;
		case K_MODE:
			if(!alive(p) || o.a[0] < 0 || o.a[0] > 2){ return; }
			if(ask(p, {C_MODE, o.id, o.a[0], 0, 0}, a, "a mode switch")){ pr[p].mode = o.a[0]; R->cls[7]++; if(a.result){ fail("mode", S("process %d could not switch its mode", p)); } }
			return;
		case K_FORK: {
			int n = o.a[0]; if(!alive(p) || n < 0 || n >= NP || pr[n].up){ return; }
			if(!ask(p, {C_FORK, o.id, n, o.a[1] != 0, 0}, a, "forking", n)){ return; }
			Pr& q = pr[n]; q.up = true; q.direct = false; q.pid = (pid_t)a.result; q.mode = pr[p].mode; q.attmode = pr[p].attmode; q.worker = pr[p].worker; pr[p].forked = true; R->cls[4]++;
			extra.push_back(q.pid);
			if(a.x){ fail("leak", S("process %d, a forked child, has more %s than its parent had", n, a.x & 1 ? "descriptors" : "threads")); }
			return; }
		case K_SPAWN:
			if(!alive(p) || p == 0){ return; }
			if(ask(p, {C_SPAWN, o.id, 0, 0, 0}, a, "spawning a program")){ if(a.result > 0){ extra.push_back((pid_t)a.result); } R->cls[8]++; }
			return;
		case K_WAIT: {
			int t = o.a[0], k = o.a[1]; if(!alive(p) || t < 1 || t >= NT || k < 0 || k >= NCOND || pr[p].pend[t].on || pr[p].wt[t] || waiters(-1) >= WSLOTS){ return; }
			pr[p].wt[t] = k + 1; pr[p].wtimed[t] = o.a[2] != 0;
			cmd(p, t, {C_WAIT, o.id, k, pr[p].wtimed[t], 0}); queued(p, t);
			return; }
		case K_WAKE:
			if(!alive(p) || o.a[0] < 0 || o.a[0] >= NCOND){ return; }
			wake(p, o.a[0], o.a[1] != 0);
			return;
		case K_NAP: usl(o.a[0]); pump(0); return;
		case K_CHURN:
			if(!alive(p)){ return; }
			if(ask(p, {C_CHURN, o.id, o.a[0], 0, 0}, a, "locking an unrelated name")){ R->cls[10] += (uint32_t)o.a[0]; if(a.result){ fail("unrelated", S("a try call of process %d on a lock that nobody else uses returned %d", p, a.result)); } }
			return;
		}
	}
	bool deadheld[NR];
	// the waiting call of the thread holds its mutex, so who takes it later finds the waiter in the queue
	void queued(int p, int t) {
		double t0 = now(); int ex = 0; Rep a; struct pollfd f = {g_ctl[p][t], POLLIN, 0};
		while(!R->fail){
			if(poll(&f, 1, 20) > 0 && recv(f.fd, &a, sizeof(a), MSG_DONTWAIT) == sizeof(a)){ waited(p, t, a); return; }
			if(expired(t0, ex)){ fail("stuck", S("process %d did not get the mutex of the conditions within %.0f s", p, LIM)); }
			watch();
		}
	}
	void release(int p, int t, int r, int op) {
		pr[p].hold[t][r] = 0;
		cmd(p, t, {C_UNLOCK, op, r, 0, 0}); if(R->fail){ return; }
		struct pollfd f = {g_ctl[p][t], POLLIN, 0}; double t0 = now(); Rep a; int ex = 0;
		while(!expired(t0, ex) && !R->fail){
			if(poll(&f, 1, 20) > 0 && recv(f.fd, &a, sizeof(a), MSG_DONTWAIT) == sizeof(a)){ if(a.result){ fail("result", S("process %d could not unlock %s: %d", p, rn(r), a.result)); } return; }
			watch();
		}
		fail("stuck", S("unlocking %s by process %d did not return", rn(r), p));
	}
	void die(int p, int how, bool reap) {
		// how: 0 SIGKILL, 1 _exit, 2 exit
		Pr& q = pr[p]; if(how == 2){ R->cls[9]++; }
		q.dead = true; memset(q.hold, 0, sizeof(q.hold)); memset(q.wt, 0, sizeof(q.wt)); for(auto& x : q.pend){ x.on = false; }
		if(how){ Cmd c = {how == 1 ? C_QEXIT : C_EXIT, 0, 0, 0, 0}; if(send(g_ctl[p][0], &c, sizeof(c), MSG_NOSIGNAL) < 0){ fail("died", S("process %d cannot be reached", p)); } }
		else{ kill(q.pid, SIGKILL); }
		if(!q.direct){ return; }
		if(!how && !reap){ R->cls[11]++; return; }
		double t0 = now(); int ex = 0;
		for(;;){
			siginfo_t si; memset(&si, 0, sizeof(si));
			if(waitid(P_PID, (id_t)q.pid, &si, WEXITED | WNOHANG | (reap ? 0 : WNOWAIT)) == 0 && si.si_pid == q.pid){
				if(reap){ q.reaped = true; }else{ R->cls[11]++; }
				if(how && (si.si_code != CLD_EXITED || si.si_status)){ fail("crash", S("process %d ended by signal %d when it exited", p, si.si_status)); }
				return;
			}
			if(expired(t0, ex)){ if(getenv("FLV_DBG")){ char b[120]; snprintf(b, sizeof(b), "gdb -p %d -batch -ex \"thread apply all bt\" 1>&2; cat /proc/%d/status 1>&2", (int)q.pid, (int)q.pid); if(system(b)){} } fail("stuck", S("exiting of process %d did not end within %.0f s", p, LIM)); return; }
			usl(100);
		}
	}
	void once(const Case& c, RunResult& r) {
		R = &r; memset(pr, 0, sizeof(pr)); memset(deadheld, 0, sizeof(deadheld)); extra.clear(); deaths = false;
		wdead = false; memset(wbudget, 0, sizeof(wbudget)); wretry = 0; wreturned = 0;
		static int serial = 0;
		snprintf(g_dir, sizeof(g_dir), "%s/c19.%d", scratch_dir().c_str(), serial++);
		mkdir(g_dir, 0777);
		std::string df = std::string(g_dir) + "/data";
		g_df = open(df.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
		prctl(PR_SET_CHILD_SUBREAPER, 1);
		for(int p = 0; p < NP; p++){ for(int t = 0; t < NT; t++){ int s[2]; if(socketpair(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0, s)){ r.inconclusive = 1; r.msg = "socketpair"; return; } g_ctl[p][t] = s[0]; g_sock[p][t] = s[1]; } }
		for(auto& o : c.ops){ if(r.fail){ break; } step(o); r.steps++; }
		// the waiters return, and the table of waiters is good for as many as configured
		for(int i = 0; i < 2 && !r.fail && alive(0); i++){
			for(int k = 0; k < NCOND && !r.fail; k++){ if(waiters(k)){ wake(0, k, true); } }
			if(!i && wdead){ for(int p = 0; p < NP; p++){ for(int t = 1; t < NT; t++){ if(!r.fail && alive(p) && !pr[p].pend[t].on && waiters(-1) < WSLOTS){ pr[p].wt[t] = 1; pr[p].wtimed[t] = false; cmd(p, t, {C_WAIT, -4, 0, 0, 0}); queued(p, t); } } } while(!r.fail && pump(100)){ } }
		}
		// everything is given back in the end
		for(int round = 0; round < NP * NT * NR && !r.fail; round++){
			bool any = false;
			for(int p = 0; p < NP && !r.fail; p++){ if(alive(p)){ for(int t = 1; t < NT && !r.fail; t++){ if(!pr[p].pend[t].on){ for(int k = NR - 1; k >= 0 && !r.fail; k--){ if(pr[p].hold[t][k]){ release(p, t, k, -1); any = true; } } } } } }
			settle(); if(!any){ break; }
		}
		for(int p = 0; p < NP && !r.fail; p++){ if(alive(p)){ for(int t = 1; t < NT; t++){ if(pr[p].pend[t].on){ fail("blocked", S("a call of process %d for %s never returned", p, rn(pr[p].pend[t].res))); break; } } } }
		// a survivor gets every lock for writing
		if(!r.fail && alive(0)){
			for(int k = 0; k < NR && !r.fail; k++){
				pr[0].pend[1] = {-2, k, 1, true, now(), deadheld[k]}; cmd(0, 1, {C_LOCK, -2, k, 1, 0}); settle();
				if(!r.fail){ release(0, 1, k, -2); }
			}
		}
		// everybody exits, the worker must not prevent it
		for(int p = NP - 1; p >= 0 && !r.fail; p--){ if(alive(p)){ die(p, 2, true); } }
		for(auto& q : pr){ if(q.up && q.pid > 0 && q.direct && !q.reaped){ kill(q.pid, SIGKILL); } }
		for(auto x : extra){ if(x > 0){ kill(x, SIGKILL); } }
		for(int p = 0; p < NP; p++){ for(int t = 0; t < NT; t++){ close(g_ctl[p][t]); close(g_sock[p][t]); } }
		for(;;){ int st; pid_t x = waitpid(-1, &st, 0); if(x < 0 && errno == ECHILD){ break; } }
		close(g_df); g_df = -1;
		rm_tree(g_dir);
	}
	void run(const Case& c, RunResult& r) override {
		int n = !gen_called ? 6 : failed_before ? 10 : 1;
		for(int i = 0; i < n; i++){
			RunResult x; once(c, x); r.steps += x.steps; r.crashes += x.crashes; if(x.nontrivial){ r.nontrivial = 1; } for(int k = 0; k < NCLS; k++){ r.cls[k] += x.cls[k]; }
			if(x.inconclusive){ r.inconclusive = 1; r.msg = x.msg; }
			if(x.fail){ r.fail = 1; r.msg = x.msg; failed_before = true; break; }
		}
	}
};
PropReg reg(new P19);
}

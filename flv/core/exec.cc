#include "exec.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sstream>
#include "fullock.h"
#include "flckshm.h"
#include "flckstructure.h"
#include "flckutil.h"

using std::string;
using std::vector;

static bool g_trace = getenv("FLV_TRACE") != nullptr;
int g_fd[32];
vector<Range> g_ranges;
uint32_t* g_cls = nullptr;

extern "C" int __real_open(const char*, int, ...);

struct Side { uint32_t cls[NCLS]; int scriptop[vs::MAXA]; int opdone[vs::MAXA]; int blocked[vs::MAXA]; int gready[vs::MAXA]; int gfail; };
static Side* S = nullptr;

static const char* KN[] = {"nop","mutex_lock","mutex_trylock","mutex_timedlock","mutex_unlock","rdlock","tryrdlock","timedrdlock","wrlock","trywrlock","timedwrlock","rwunlock","islocked","cond_wait","cond_timedwait","cond_signal","cond_broadcast","stay","deadcheck","freemode","thread_exit","crash","open","close","dup","fork","robust","spawn"};
const char* kind_name(int k) { return k >= 0 && k < (int)(sizeof(KN) / sizeof(KN[0])) ? KN[k] : "op"; }

string case_dir() { return scratch_dir() + "/c"; }
void cls(int i, uint32_t n) { if(S){ __atomic_add_fetch(&S->cls[i], n, __ATOMIC_RELAXED); } }
bool agent_blocked(int a) { return S->blocked[a] != 0; }
int SchedProp::blocked_op(int a) const { return S->blocked[a] ? S->scriptop[a] : -1; }

void lib_env(const char* dir)
{
	setenv("FLCKDIRPATH", dir, 1); setenv("FLCKFILENAME", "flck.shm", 1); setenv("FLCKROBUSTMODE", "NO", 1); setenv("FLCKAUTOINIT", "NO", 1);
	unsetenv("FLCKNOMAPMODE"); unsetenv("FLCKFREEUNITMODE"); unsetenv("FLCKROBUSTCHKCNT"); unsetenv("FLCKUMASK");
}

bool lib_attach(const Case& c, const char* dir)
{
	lib_env(dir);
	if(!fullock_reinitialize_ex(dir, "flck.shm", (size_t)c.get("fcnt", 8), (size_t)c.get("ocnt", 16), (size_t)c.get("lcnt", 32), (size_t)c.get("mcnt", 8), (size_t)c.get("ccnt", 8), (size_t)c.get("wcnt", 16))){ return false; }
	switch(c.get("robust", 2)){
	case 0: fullock_set_no_robust(); break;
	case 1: fullock_set_low_robust(); break;
	default: fullock_set_high_robust(); fullock_set_robust_check_count((int)c.get("chk", 50)); break;
	}
	switch(c.get("free", 1)){
	case 0: fullock_set_no_freeunit(); break;
	case 2: fullock_set_offset_freeunit(); break;
	default: fullock_set_fd_freeunit(); break;
	}
	fullock_set_noretry_deny_nomap();
	return true;
}

void open_files(const Case& c)
{
	int nf = (int)c.get("nfiles", 0), ns = (int)c.get("nslots", nf);
	for(int s = 0; s < ns && s < 32; s++){
		char b[32]; snprintf(b, sizeof(b), "/data%d", s % nf);
		g_fd[s] = __real_open((case_dir() + b).c_str(), O_RDWR | O_CREAT, 0666);
	}
}

int slot_fd(int s) { return s >= 100 ? (int)FLCK_RWLOCK_NO_FD(s - 100) : g_fd[s]; }

static int lib_call2(const Case& c, int k, const int* a);
int lib_call(const Case& c, int k, const int* a)
{
	int rc = lib_call2(c, k, a);
	if(g_trace){ fprintf(stderr, "[%lu]   agent %d %s -> %d\n", (unsigned long)vs::C->step, vs::self, kind_name(k), rc); }
	return rc;
}
static int lib_call2(const Case& c, int k, const int* a)
{
	auto nm = [&](int i){ return c.strs[(size_t)i].c_str(); };
	switch(k){
	case K_MLOCK:    return fullock_mutex_lock(nm(a[0]));
	case K_MTRY:     return fullock_mutex_trylock(nm(a[0]));
	case K_MTIMED:   return fullock_mutex_timedlock(nm(a[0]), a[1]);
	case K_MUNLOCK:  return fullock_mutex_unlock(nm(a[0]));
	case K_CWAIT:    return fullock_cond_wait(nm(a[0]), nm(a[1]));
	case K_CTIMED:   return fullock_cond_timedwait(nm(a[0]), nm(a[1]), a[2]);
	case K_CSIGNAL:  return fullock_cond_signal(nm(a[0]));
	case K_CBCAST:   return fullock_cond_broadcast(nm(a[0]));
	default: break;
	}
	int fd = slot_fd(a[0]); off_t off = g_ranges[(size_t)a[1]].off; size_t len = (size_t)g_ranges[(size_t)a[1]].len;
	switch(k){
	case K_RLOCK:    return fullock_rwlock_rdlock(fd, off, len);
	case K_RTRY:     return fullock_rwlock_tryrdlock(fd, off, len);
	case K_RTIMED:   return fullock_rwlock_timedrdlock(fd, off, len, a[2]);
	case K_WLOCK:    return fullock_rwlock_wrlock(fd, off, len);
	case K_WTRY:     return fullock_rwlock_trywrlock(fd, off, len);
	case K_WTIMED:   return fullock_rwlock_timedwrlock(fd, off, len, a[2]);
	case K_RWUNLOCK: return fullock_rwlock_unlock(fd, off, len);
	case K_ISLOCKED: return fullock_rwlock_islocked(fd, off, len) ? 1 : 0;
	default: break;
	}
	return -1;
}

void progress() { vs::C->progress = vs::C->step; vs::C->progress_sw = vs::C->switches; }

bool SchedProp::child_init(const Case& c, int)
{
	if(!lib_attach(c, case_dir().c_str())){ return false; }
	open_files(c);
	return true;
}

//---------------------------------------------------------------- processes
struct Grp { pid_t pid; bool alive; bool zombie; };
static Grp G[vs::MAXA]; static int NG;
static SchedProp* PR = nullptr;
static vector<vector<int>> MEM;                // agents of each group
struct ThArg { SchedProp* p; const Case* c; int agent; bool probe; };

static void run1(SchedProp* p, const Case& c, const Op& o, int me)
{
	vs::op_begin(o.id);
	if(g_trace){ fprintf(stderr, "[%lu] agent %d: op %d %s %d %d %d %d\n", (unsigned long)vs::C->step, me, o.id, kind_name(o.kind), o.a[0], o.a[1], o.a[2], o.a[3]); }
	p->run_op(c, o, me);
	if(g_trace){ fprintf(stderr, "[%lu] agent %d: op %d done\n", (unsigned long)vs::C->step, me, o.id); }
	vs::op_end();
}

static void* agent_main(void* v)
{
	ThArg* t = (ThArg*)v; int me = t->agent;
	vs::agent_enter(me);
	if(t->probe){
		vs::op_begin(vs::MAXOPS - 1); t->p->probe(*t->c); vs::op_end();
	}else if(vs::C->script){
		for(;;){
			int i = S->scriptop[me];
			if(i < 0){ break; }
			const Op& o = t->c->ops[(size_t)i];
			run1(t->p, *t->c, o, me);
			S->opdone[me] = 1;
			vs::park();
		}
	}else{
		for(auto& o : t->c->ops){
			if(o.agent != me){ continue; }
			if(o.kind == K_EXIT){ run1(t->p, *t->c, o, me); vs::agent_exit_thread(); return nullptr; }
			run1(t->p, *t->c, o, me);
		}
	}
	vs::agent_done();
	for(;;){ pause(); }
	return nullptr;
}

static pid_t start_group(SchedProp* p, const Case& c, int g, const vector<int>& agents, bool probe)
{
	pid_t me = getpid();
	pid_t pid = fork();
	if(pid){ return pid; }
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if(getppid() != me){ _exit(0); }
	signal(SIGCHLD, c.get("zombie") ? SIG_DFL : SIG_IGN);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	for(int i = 0; i < 32; i++){ g_fd[i] = -1; }
	if(!p->child_init(c, g)){ S->gfail = 1; _exit(9); }
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
	bool mainth = c.get("mainth") && !probe && !agents.empty();
	for(int a : agents){
		if(mainth && a == agents[0]){ continue; }          // runs in the first thread of the process
		ThArg* t = new ThArg{p, &c, a, probe}; pthread_t th;
		if(pthread_create(&th, &at, agent_main, t)){ S->gfail = 2; _exit(9); }
	}
	// somebody has to stay, or the end of the first thread is the end of the process
	if(mainth && agents.size() == 1){ pthread_t th; if(pthread_create(&th, &at, [](void*) -> void* { for(;;){ pause(); } return nullptr; }, nullptr)){ S->gfail = 2; _exit(9); } }
	S->gready[g] = 1;
	if(mainth){ agent_main(new ThArg{p, &c, agents[0], probe}); syscall(SYS_exit, 0); }
	for(;;){ pause(); }
}

static bool all_ready(const vector<int>& v) { for(int a : v){ if(__atomic_load_n(&vs::C->a[a].state, __ATOMIC_SEQ_CST) != vs::ST_READY){ return false; } } return true; }

// The handlers of the library that run before a fork are scheduled like the rest of it, the fork
// itself and those after it are not: this handler is registered before all others, so it runs last.
static __thread int t_forking;
static void before_fork() { if(t_forking){ vs::self = -1; } }
__attribute__((constructor(101))) static void set_fork_handler() { pthread_atfork(before_fork, nullptr, nullptr); }

int fork_group(const Case& c, int g)
{
	int me = vs::self; const vector<int>& mem = MEM[(size_t)g];
	t_forking = 1; pid_t pid = fork(); t_forking = 0;
	if(pid == 0){
		alarm(300);
		pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
		for(size_t i = 1; i < mem.size(); i++){ pthread_t th; if(pthread_create(&th, &at, agent_main, new ThArg{PR, &c, mem[i], false})){ _exit(9); } }
		agent_main(new ThArg{PR, &c, mem[0], false});
		syscall(SYS_exit, 0);
	}
	if(pid > 0){
		for(int i = 0; i < 200000 && !all_ready(mem); i++){ usleep(50); if(i % 100 == 99 && kill(pid, 0)){ break; } }
	}
	vs::self = me;
	if(pid <= 0 || !all_ready(mem)){ vs::fail("CRASHED: the child of a fork did not start (agent %d)", me); }
	return 0;
}

int spawn_group(int g) { vs::request(vs::REQ_SPAWN, g); return 0; }

static bool proc_runs(pid_t pid)                      // any thread of it
{
	char b[64]; snprintf(b, sizeof(b), "/proc/%d/stat", (int)pid);
	FILE* f = fopen(b, "r"); if(!f){ return false; }
	char t[512]; size_t n = fread(t, 1, sizeof(t) - 1, f); fclose(f); t[n] = 0;
	const char* p = strrchr(t, ')'); char st = 0; int nth = 0;
	if(!p || sscanf(p + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %*u %*u %*d %*d %*d %*d %d", &st, &nth) != 2){ return false; }
	return (st != 'Z' && st != 'X') || nth > 1;
}
static bool late(const Case& c, int agent) { char b[16]; snprintf(b, sizeof(b), "late%d", agent); return c.get(b) != 0; }
// group whose process is not a child of the controller
static pid_t late_pid(int g) { if(g < (int)MEM.size() && !MEM[(size_t)g].empty() && G[g].pid == 0){ return vs::C->a[MEM[(size_t)g][0]].pid; } return 0; }

static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

// wait for cond to hold, watching the processes; returns false on trouble
template<class F> static bool watch(F cond)
{
	vs::Ctl* C = vs::C;
	double last = mono(); uint64_t lstep = C->step;
	for(;;){
		int v = __atomic_load_n(&C->ctlfutex, __ATOMIC_SEQ_CST);
		if(cond()){ return true; }
		struct timespec ts = {0, 30 * 1000 * 1000};
		long r = syscall(SYS_futex, &C->ctlfutex, FUTEX_WAIT, v, &ts, nullptr, 0);
		if(r == -1 && errno == ETIMEDOUT){
			for(int g = 0; g < NG; g++){
				int st;
				if(G[g].alive && !G[g].zombie && waitpid(G[g].pid, &st, WNOHANG) == G[g].pid){
					G[g].alive = false;
					if(!C->fail){
						C->fail = 1;
						if(S->gfail){ snprintf(C->msg, sizeof(C->msg), "INIT: the library could not be initialised in process %d", g); }
						else if(WIFSIGNALED(st)){ snprintf(C->msg, sizeof(C->msg), "CRASHED: a process died from signal %d (agent %d, operation %d)", WTERMSIG(st), C->cur, C->cur >= 0 ? C->a[C->cur].opid : -1); }
						else{ snprintf(C->msg, sizeof(C->msg), "CRASHED: a process exited with %d", WEXITSTATUS(st)); }
					}
					return false;
				}
			}
			for(size_t g = 0; g < MEM.size(); g++){
				pid_t lp = late_pid((int)g);
				if(lp && C->a[MEM[g][0]].state == vs::ST_READY && !proc_runs(lp)){
					if(!C->fail){ C->fail = 1; snprintf(C->msg, sizeof(C->msg), "CRASHED: a forked child died (agent %d, operation %d)", C->cur, C->cur >= 0 ? C->a[C->cur].opid : -1); }
					return false;
				}
			}
			if(C->step != lstep){ lstep = C->step; last = mono(); }
			if(mono() - last > 25.0){
				if(!C->fail){ C->fail = 1; snprintf(C->msg, sizeof(C->msg), "HANG: no scheduling point reached for 25 s (agent %d, operation %d)", C->cur, C->cur >= 0 ? C->a[C->cur].opid : -1); }
				return false;
			}
		}
	}
}

static int next_runnable(int me)
{
	vs::Ctl* C = vs::C; int pos = 0;
	for(int i = 0; i < C->nag; i++){ if(C->order[i] == me){ pos = i; } }
	for(int k = 1; k <= C->nag; k++){ int c = C->order[(pos + k) % C->nag]; if(vs::runnable(c)){ return c; } }
	return -1;
}

static void kill_group(int g, bool zombie)
{
	if(pid_t lp = late_pid(g)){
		kill(lp, SIGKILL); while(proc_runs(lp)){ sched_yield(); }
		if(!zombie){ waitpid(lp, nullptr, WNOHANG); }
		for(int i = 0; i < vs::C->nag; i++){ if(vs::C->a[i].group == g){ vs::C->a[i].state = vs::ST_DEAD; } }
		return;
	}
	if(!G[g].alive){ return; }
	kill(G[g].pid, SIGKILL);
	siginfo_t si; waitid(P_PID, (id_t)G[g].pid, &si, WEXITED | (zombie ? WNOWAIT : 0));
	if(zombie){ G[g].zombie = true; }else{ G[g].alive = false; }
	for(int i = 0; i < vs::C->nag; i++){ if(vs::C->a[i].group == g){ vs::C->a[i].state = vs::ST_DEAD; } }
}

static bool thread_runs(const char* path)
{
	FILE* f = fopen(path, "r"); if(!f){ return false; }
	char b[512]; size_t n = fread(b, 1, sizeof(b) - 1, f); fclose(f); b[n] = 0;
	const char* p = strrchr(b, ')');
	return p && p[1] == ' ' && p[2] != 'Z' && p[2] != 'X';
}

static bool start_and_wait(SchedProp* p, const Case& c, int g, const vector<int>& agents, bool probe);

// lets the agents run until control is back with nothing to handle
static bool drive(SchedProp* p, const Case& c, int first)
{
	vs::Ctl* C = vs::C;
	int cur = first;
	for(;;){
		vs::pass_to(cur);
		if(!watch([&]{ return __atomic_load_n(&C->cur, __ATOMIC_SEQ_CST) == -1; })){ return false; }
		if(C->fail){ return false; }
		int rq = C->req, ra = C->reqagent; C->req = vs::REQ_NONE;
		if(rq == vs::REQ_KILL){
			int g = C->a[ra].group;
			kill_group(g, c.get("zombie") != 0);
			p->on_crash(c, ra, g);
			if(C->fail){ return false; }
			C->progress = C->step; C->progress_sw = C->switches;
		}else if(rq == vs::REQ_THREADGONE){
			char b[64]; snprintf(b, sizeof(b), "/proc/%d/task/%d", (int)C->a[ra].pid, (int)C->a[ra].tid);
			double t0 = mono(); strcat(b, "/stat");
			while(thread_runs(b)){ sched_yield(); if(mono() - t0 > 20){ C->fail = 1; snprintf(C->msg, sizeof(C->msg), "HARNESS: thread does not end"); return false; } }
			p->on_threadgone(c, ra);
		}else if(rq == vs::REQ_SPAWN){
			if(!start_and_wait(p, c, C->reqarg, MEM[(size_t)C->reqarg], false)){ return false; }
			cur = ra; continue;
		}else if(C->script){ return true; }
		else{ ra = cur; }
		if(C->script){ return true; }
		cur = next_runnable(ra);
		if(cur < 0){ return true; }
	}
}

static bool start_and_wait(SchedProp* p, const Case& c, int g, const vector<int>& agents, bool probe)
{
	S->gready[g] = 0; S->gfail = 0;
	G[g].zombie = false; G[g].pid = start_group(p, c, g, agents, probe); G[g].alive = G[g].pid > 0;
	if(g >= NG){ NG = g + 1; }
	return watch([&]{
		if(!S->gready[g]){ // the process signals readiness through its agents
			bool all = true; for(int a : agents){ if(vs::C->a[a].state != vs::ST_READY){ all = false; } }
			return all && !agents.empty();
		}
		for(int a : agents){ if(vs::C->a[a].state != vs::ST_READY){ return false; } }
		return true;
	});
}

static bool run_script(SchedProp* p, const Case& c)
{
	vs::Ctl* C = vs::C;
	auto resume = [&](int a) -> bool {            // run agent a until it completes or blocks
		S->opdone[a] = 0;
		int b4 = S->scriptop[a];
		if(!drive(p, c, a)){ return false; }
		S->blocked[a] = (C->a[a].state == vs::ST_READY && !S->opdone[a]) ? 1 : 0;
		(void)b4;
		return true;
	};
	auto settle = [&]() -> bool {
		// every blocked agent gets the processor; those the model says can go on must complete
		for(int round = 0; round < 2 * C->nag + 2; round++){
			bool moved = false;
			for(int a = 0; a < C->nag; a++){
				if(!S->blocked[a] || C->a[a].state != vs::ST_READY){ continue; }
				bool en = p->enabled(c, a);
				if(!resume(a)){ return false; }
				if(en && S->blocked[a]){
					// give it a much longer turn before saying that it hangs
					for(int k = 0; k < 40 && S->blocked[a]; k++){ if(!resume(a)){ return false; } }
					if(S->blocked[a]){
						C->fail = 1; snprintf(C->msg, sizeof(C->msg), "STUCK: agent %d stays blocked in operation %d (%s) although nothing it needs is held", a, c.ops[(size_t)S->scriptop[a]].id, kind_name(c.ops[(size_t)S->scriptop[a]].kind));
						return false;
					}
				}
				if(!S->blocked[a]){ moved = true; }
			}
			if(!moved){ break; }
		}
		return true;
	};
	for(size_t i = 0; i < c.ops.size(); i++){
		int a = c.ops[i].agent;
		if(a >= C->nag || C->a[a].state != vs::ST_READY || S->blocked[a]){ continue; }
		S->scriptop[a] = (int)i;
		if(!resume(a)){ return false; }
		if(S->blocked[a]){
			if(p->enabled(c, a)){
				for(int k = 0; k < 40 && S->blocked[a]; k++){ if(!resume(a)){ return false; } }
				if(S->blocked[a]){
					C->fail = 1; snprintf(C->msg, sizeof(C->msg), "STUCK: agent %d blocks in operation %d (%s) although nothing it needs is held", a, c.ops[i].id, kind_name(c.ops[i].kind));
					return false;
				}
			}
		}
		if(!settle()){ return false; }
	}
	return true;
}

void SchedProp::run(const Case& c, RunResult& r)
{
	cs = &c;
	if(!vs::C){ vs::create(); }
	if(!S){
		S = (Side*)mmap(nullptr, sizeof(Side), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		g_cls = S->cls;
	}
	vs::Ctl* C = vs::C;
	memset((void*)C, 0, offsetof(vs::Ctl, model));
	memset(C->model, 0, model_size());
	memset((void*)S, 0, sizeof(*S));
	C->cur = -1; C->quietlimit = (int)c.get("quiet", 40); C->steplimit = (uint64_t)c.get("steplimit", 600000); C->swlimit = (uint64_t)c.get("swlimit", 40000);
	C->tick = c.get("tick", 1000); C->now = c.get("now", 5000000000L); C->allmem = (int)c.get("allmem"); C->sysp = (int)c.get("sysp");
	C->script = (int)c.get("script"); C->yieldlimit = (int)c.get("yieldlimit", 80);
	int nag = (int)c.get("agents", 2); C->nag = nag;
	for(int i = 0; i < vs::MAXA; i++){ C->a[i].opid = -1; S->scriptop[i] = -1; }
	// rotation: permutation number "rot"
	{ vector<int> v; for(int i = 0; i < nag; i++){ v.push_back(i); } uint64_t x = (uint64_t)c.get("rot");
	  for(int i = 0; i < nag; i++){ size_t k = (size_t)(x % v.size()); x /= v.size(); C->order[i] = v[k]; v.erase(v.begin() + (long)k); } }
	int ng = 0; vector<vector<int>>& mem = MEM; mem.clear(); PR = this;
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	for(auto& g : G){ g = Grp{0, false, false}; }
	for(int i = 0; i < nag; i++){
		char b[16]; snprintf(b, sizeof(b), "grp%d", i); int g = (int)c.get(b, 0);
		C->a[i].group = g; if(g >= ng){ ng = g + 1; mem.resize((size_t)ng); } mem[(size_t)g].push_back(i);
	}
	for(auto& q : c.pre){ if(C->npre < vs::MAXPRE){ C->pre[C->npre++] = q; } }

	mkdir(case_dir().c_str(), 0777);
	prepare(c);
	init_model(c);
	NG = 0;
	bool ok = true;
	for(int g = 0; g < ng && ok; g++){ if(!mem[(size_t)g].empty() && !late(c, mem[(size_t)g][0])){ ok = start_and_wait(this, c, g, mem[(size_t)g], false); } else { G[g].alive = false; NG = g + 1; } }
	if(ok){
		C->progress = C->step; C->progress_sw = C->switches;
		ok = C->script ? run_script(this, c) : drive(this, c, next_runnable(C->order[(size_t)nag - 1]));
	}
	if(ok && !C->fail && has_probe(c) && nag + 1 < vs::MAXA){
		if(kill_before_probe(c)){ for(int g = 0; g < NG; g++){ kill_group(g, false); } }
		for(int i = 0; i < nag; i++){ if(C->a[i].state == vs::ST_READY){ C->a[i].state = vs::ST_DONE; } }
		C->script = 0; C->npre = 0;
		C->a[nag].group = NG; C->order[nag] = nag; C->nag = nag + 1;
		ok = start_and_wait(this, c, NG, vector<int>{nag}, true);
		if(ok){ C->progress = C->step; C->progress_sw = C->switches; ok = drive(this, c, nag); }
	}
	if(ok && !C->fail){ finish(c, r); }
	for(int g = 0; g < NG; g++){ if(G[g].alive){ kill(G[g].pid, SIGKILL); } }
	for(int g = 0; g < NG; g++){ if(G[g].alive){ int st; waitpid(G[g].pid, &st, 0); G[g].alive = false; } }
	for(size_t g = 0; g < mem.size(); g++){ if(pid_t lp = late_pid((int)g)){ kill(lp, SIGKILL); while(waitpid(lp, nullptr, 0) != lp && kill(lp, 0) == 0){ sched_yield(); } } }
	while(waitpid(-1, nullptr, WNOHANG) > 0){}
	rm_tree(case_dir());
	r.fail = C->fail; if(C->fail){ C->msg[sizeof(C->msg) - 1] = 0; r.msg = C->msg; }
	r.steps = C->step; r.switches = C->switches; r.preempts = C->preempts; r.crashes = C->crashes;
	r.opsteps.assign(C->opsteps, C->opsteps + vs::MAXOPS);
	for(int i = 0; i < NCLS; i++){ r.cls[i] = S->cls[i]; }
	if(r.nontrivial == 0){ r.nontrivial = r.preempts > 0; }
	if(r.nontrivial < 0){ r.nontrivial = 0; }
	if(r.fail){ classify(c, r); }
}

// the tables of the shared file, read by a fresh process
vector<ShmUnit> lib_units(const Case& c)
{
	vector<ShmUnit> v; int pfd[2]; if(pipe(pfd)){ return v; }
	pid_t pid = fork();
	if(pid == 0){
		close(pfd[0]); string s;
		auto put = [&](const ShmUnit& u){ s.append((const char*)&u, sizeof(u)); };
		if(lib_attach(c, case_dir().c_str()) && FlShm::pFlHead){
			int guard = 0;
			for(PFLFILELOCK f = to_abs(FlShm::pFlHead->file_lock_list); f && guard < 20000; f = to_abs(f->next)){
				++guard; ShmUnit u{}; u.kind = 'F'; u.dev = (uint64_t)f->dev_id; u.ino = (uint64_t)f->ino_id; u.val = f->protect; put(u);
				for(PFLOFFLOCK o = to_abs(f->offset_lock_list); o && guard < 20000; o = to_abs(o->next)){
					++guard; ShmUnit w{}; w.kind = 'O'; w.dev = u.dev; w.ino = u.ino; w.off = o->offset; w.len = (int64_t)o->length; w.val = (int64_t)o->lockval; w.flag = o->protect; put(w);
					for(int k = 0; k < 2; k++){
						PFLLOCKER rel = k ? o->writer_list : o->reader_list;
						for(PFLLOCKER l = to_abs(rel); l && guard < 20000; l = to_abs(l->next)){ ++guard; ShmUnit x{}; x.kind = k ? 'W' : 'R'; x.owner = (uint64_t)l->flckpid; x.val = l->fd; x.flag = l->locked; put(x); }
					}
				}
			}
			for(PFLNAMEDMUTEX m = to_abs(FlShm::pFlHead->named_mutex_list); m && guard < 20000; m = to_abs(m->next)){ ++guard; ShmUnit u{}; u.kind = 'M'; u.owner = (uint64_t)m->lockval; u.val = m->lockcnt; snprintf(u.name, sizeof(u.name), "%s", m->name); put(u); }
			for(PFLNAMEDCOND m = to_abs(FlShm::pFlHead->named_cond_list); m && guard < 20000; m = to_abs(m->next)){
				++guard; ShmUnit u{}; u.kind = 'C'; snprintf(u.name, sizeof(u.name), "%s", m->name); put(u);
				for(PFLWAITER w = to_abs(m->waiter_list); w && guard < 20000; w = to_abs(w->next)){ ++guard; ShmUnit x{}; x.kind = 'w'; x.owner = (uint64_t)w->flckpid; x.val = (int64_t)w->lockstatus; put(x); }
			}
		}
		size_t w = 0;
		while(w < s.size()){ ssize_t k = write(pfd[1], s.data() + w, s.size() - w); if(k <= 0){ break; } w += (size_t)k; }
		_exit(0);
	}
	close(pfd[1]); string out; char b[4096]; ssize_t k;
	while((k = read(pfd[0], b, sizeof(b))) > 0){ out.append(b, (size_t)k); }
	close(pfd[0]); int st; waitpid(pid, &st, 0);
	if(g_trace){ fprintf(stderr, "reader process: %x, %zu bytes\n", st, out.size()); }
	v.resize(out.size() / sizeof(ShmUnit)); memcpy((void*)v.data(), out.data(), v.size() * sizeof(ShmUnit));
	return v;
}

string units_text(const vector<ShmUnit>& v)
{
	string s; char b[256];
	for(auto& u : v){
		switch(u.kind){
		case 'F': snprintf(b, sizeof(b), " file %lx:%lu protect=%ld\n", (long)u.dev, (long)u.ino, (long)u.val); break;
		case 'O': snprintf(b, sizeof(b), "  range %ld+%ld lockval=%ld protect=%d\n", (long)u.off, (long)u.len, (long)u.val, u.flag); break;
		case 'R': case 'W': snprintf(b, sizeof(b), "   %s %lx fd=%ld %s\n", u.kind == 'R' ? "reader" : "writer", (long)u.owner, (long)u.val, u.flag ? "locked" : "not locked"); break;
		case 'M': snprintf(b, sizeof(b), " mutex \"%s\" owner=%lx count=%ld\n", u.name, (long)u.owner, (long)u.val); break;
		case 'C': snprintf(b, sizeof(b), " cond \"%s\"\n", u.name); break;
		default:  snprintf(b, sizeof(b), "  waiter %lx status=%ld\n", (long)u.owner, (long)u.val); break;
		}
		s += b;
	}
	return s;
}

// C20: diagnostic messages.  Each case is a history of calls that is run twice
// in new programs (sanitized, own environment, below a private root, see c16.cc):
// once with all messages on and collected per call, once with the level and the
// file of messages as generated (environment, library functions, switches in the
// middle).  The results have to be the same, and the messages of the second run
// are exactly those of the first one that its level lets through, in the place
// where its configuration puts them.
#include "core.h"
#include "fullock.h"
#include "rwlockrcsv.h"
#include "flckdbg.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>

using std::string; using std::vector; using std::set;

namespace {
// calls: a[0] selects, operands in the others; agent: 0 main thread, 1 2 other threads
enum { O_MTX = 1, O_RW, O_COND, O_WRONG, O_REINIT, O_MODE, O_SCOPE, O_FORK, O_MANY,
       O_LEVEL = 20, O_BUMP, O_FILE, O_UNFILE, O_LOADENV };
enum { CL_RESULT, CL_FAILED, CL_ERRMSG, CL_WANMSG, CL_INFOMSG, CL_SUPPRESSED, CL_SWITCH, CL_FILE, CL_BADFILE, CL_FORK, CL_MANY, CL_WORKER, CL_APPEND, CL_FULL };
inline bool dbg(int k) { return k >= O_LEVEL; }

const char* LEVELS[] = {nullptr, "SILENT", "ERR", "WAN", "INFO", "silent", "err", "Wan", "info", "", "DUMP", "ERRO", "3"};
const int   LEVELV[] = {-1, 0, 1, 2, 3, 0, 1, 2, 3, -2, -2, -2, -2};                      // -1 not set, -2 malformed
const char* SINKS[]  = {nullptr, "/dbg1.log", "/dbg2.log", "rel.log", "/none/x.log", "/d1", "/dev/full", "/gone/x.log", ""};
const int   SINKV[]  = {0, 1, 2, 3, -1, -1, 4, -1, -1};                                   // place; 0 stderr, 4 nowhere to be seen, -1 can not be used
const char* VISIBLE[] = {nullptr, "/dbg1.log", "/dbg2.log", "/rel.log"};
const FlckDbgMode MODES[] = {FLCKDBG_SILENT, FLCKDBG_ERR, FLCKDBG_WARN, FLCKDBG_MSG};
int level_of(FlckDbgMode m) { for(int i = 0; i < 4; i++){ if(MODES[i] == m){ return i; } } return -1; }

//================================================================ the program
int  out = 3; const char* root; int fds[4];
void say(const char* f, ...) { char b[3000]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof(b) - 1, f, a); va_end(a); if(n > (int)sizeof(b) - 2){ n = (int)sizeof(b) - 2; } for(int i = 0; i < n; i++){ if(b[i] == '\n'){ b[i] = ' '; } } b[n++] = '\n'; if(write(out, b, (size_t)n) < 0){ _exit(78); } }

off_t seen[4];
void collect()
{
	fflush(nullptr);
	for(int i = 0; i < 4; i++){
		int fd = i ? open((string(VISIBLE[i])).c_str(), O_RDONLY, 0) : 2; if(fd < 0){ continue; }   // (below the root)
		string t; char b[4096]; ssize_t n; while((n = pread(fd, b, sizeof(b), seen[i] + (off_t)t.size())) > 0){ t.append(b, (size_t)n); }
		if(i){ close(fd); }
		struct stat st; if(!(i ? stat(VISIBLE[i], &st) : fstat(2, &st)) && st.st_size < seen[i]){ say("X the messages that %s had were lost", i ? VISIBLE[i] : "stderr"); seen[i] = 0; continue; }
		seen[i] += (off_t)t.size();
		if(t.empty()){ continue; }
		if(t.back() != '\n'){ say("X %s has a message without an end: %s", i ? VISIBLE[i] : "stderr", t.substr(0, 300).c_str()); }
		std::istringstream in(t); string l; while(std::getline(in, l)){ say("L %d %s", i, l.c_str()); }
	}
}

const char* name(int i) { static const string LONG(300, 'y'), L63(63, 'a'), L64(64, 'b'); static const char* N[] = {"m0", "m1", "m2", "m%s%n%s%d", "", L63.c_str(), L64.c_str(), LONG.c_str(), "two words", "m0"}; return N[i % 10]; }
int  fdof(int i) { switch(i % 7){ case 0: case 1: case 2: return fds[0]; case 3: return fds[1]; case 4: return FLCK_RWLOCK_NO_FD(3); case 5: return -1; default: return fds[2]; } }
int  call(const Op& o)
{
	const char* n = name(o.a[1]); int fd = fdof(o.a[1]); off_t off = o.a[2] % 3 * 4; size_t len = o.a[2] / 3 % 3 == 2 ? 0 : (size_t)(o.a[2] / 3 % 3 + 3); time_t t = o.a[3];
	switch(o.kind){
	case O_MTX: switch(o.a[0] % 4){ case 0: return fullock_mutex_trylock(n); case 1: return fullock_mutex_timedlock(n, t); default: return fullock_mutex_unlock(n); }
	case O_RW: switch(o.a[0] % 8){ case 0: return fullock_rwlock_tryrdlock(fd, off, len); case 1: return fullock_rwlock_timedrdlock(fd, off, len, t); case 2: return fullock_rwlock_trywrlock(fd, off, len); case 3: return fullock_rwlock_timedwrlock(fd, off, len, t); case 4: return fullock_rwlock_islocked(fd, off, len); default: return fullock_rwlock_unlock(fd, off, len); }
	case O_COND: switch(o.a[0] % 3){ case 0: return fullock_cond_timedwait(name(o.a[2]), n, t); case 1: return fullock_cond_signal(n); default: return fullock_cond_broadcast(n); }
	case O_WRONG: switch(o.a[0] % 8){
		case 0: return fullock_mutex_lock(nullptr); case 1: return fullock_mutex_trylock(nullptr); case 2: return fullock_mutex_unlock(nullptr); case 3: return fullock_mutex_timedlock(nullptr, 5);
		case 4: return fullock_cond_timedwait(nullptr, "m1", 5); case 5: return fullock_cond_signal(nullptr); case 6: return fullock_cond_broadcast(nullptr); default: return fullock_reinitialize_ex("/d1", "a/b", 0, 0, 0, 0, 0, 0); }
	case O_REINIT: {
		static const char* D[] = {"/d1", "/d1", "/d2/x/../y", "/none/d", "/f0", nullptr, "/%s%n"}; static const char* F[] = {"a.shm", "b.shm", nullptr, "x/y", "%s%n.shm"};
		static const size_t C[] = {4, 6, 9, 0, 3, 20000}; size_t k = C[o.a[2] % 6];
		return fullock_reinitialize_ex(D[o.a[0] % 7], F[o.a[1] % 5], k, k, k, k, k, k); }
	case O_MODE: switch(o.a[0] % 9){
		case 0: return fullock_set_noretry_allow_nomap(); case 1: return fullock_set_noretry_deny_nomap(); case 2: return fullock_set_retry_allow_nomap(); case 3: return fullock_set_retry_deny_nomap();
		case 4: return fullock_set_no_freeunit(); case 5: return fullock_set_fd_freeunit(); case 6: return fullock_set_offset_freeunit(); default: return fullock_set_robust_check_count(o.a[1] * 30); }
	case O_SCOPE: {                                      // (a file of its own: these calls wait)
		FLRwlRcsv x(fds[3], off, 3); int r = 0; if(o.a[0] & 2){ FLRwlRcsv y(fds[3], off, 3, true); r = x.ReadLock(); r = r * 2 + y.Unlock(); r = r * 2 + x.Unlock(); }else{ r = x.Unlock(); r = r * 2 + x.Unlock(); } return r; }
	}
	return -1;
}
void* many(void* p) { const Op* o = (const Op*)p; for(int i = 0; i < 12; i++){ Op q = *o; q.a[1] += i; if(call(q) > 1000000){ break; } } return nullptr; }

struct Th { pthread_t th; int go[2], back[2]; } ths[3];
const Op* job; int result;
void* loop(void* p) { Th* t = (Th*)p; char b; while(read(t->go[0], &b, 1) == 1){ result = call(*job); if(write(t->back[1], &b, 1) < 0){ break; } } return nullptr; }

void setv(const char* n, const char* v) { if(v){ setenv(n, v, 1); }else{ unsetenv(n); } }
bool run_child(const Case& c, bool ref)
{
	root = getenv("FLV_ROOT");
	setv("FLCKDBGMODE", ref ? "INFO" : LEVELS[c.get("level")]); setv("FLCKDBGFILE", ref ? nullptr : SINKS[c.get("file")]);
	setv("FLCKDIRPATH", "/d1"); setv("FLCKROBUSTMODE", c.get("robust") == 0 ? "NO" : c.get("robust") == 1 ? "LOW" : "HIGH");
	for(auto v : {"FLCKFILECNT", "FLCKOFFETCNT", "FLCKLOCKERCNT", "FLCKNMTXCNT", "FLCKNCONDCNT", "FLCKWAITERCNT"}){ setv(v, c.get("tab") ? std::to_string(c.get("tab")).c_str() : nullptr); }
	if(c.get("badenv")){ setv("FLCKNOMAPMODE", "WHAT"); setv("FLCKUMASK", "zz"); setv("FLCKFREEUNITMODE", "%s%n"); }
	if(c.get("noauto")){ setv("FLCKAUTOINIT", "NO"); }
	fds[0] = open("/f0", O_RDWR | O_CREAT, 0666); fds[1] = open("/f1", O_RDWR | O_CREAT, 0666); fds[2] = 61; fds[3] = open("/f2", O_RDWR | O_CREAT, 0666);
	for(int i = 0; i < 4; i++){ struct stat st; seen[i] = !(i ? stat(VISIBLE[i], &st) : fstat(2, &st)) ? st.st_size : 0; }
	for(int i = 1; i < 3; i++){ if(pipe2(ths[i].go, O_CLOEXEC) || pipe2(ths[i].back, O_CLOEXEC) || pthread_create(&ths[i].th, nullptr, loop, &ths[i])){ _exit(79); } }
	for(size_t k = 0; k < c.ops.size(); k++){
		const Op& o = c.ops[k]; if(ref && dbg(o.kind)){ continue; }
		say("S %zu", k); int r = 0;
		switch(o.kind){
		case O_LEVEL: r = level_of(SetFlckDbgMode(MODES[o.a[0] & 3])); break;
		case O_BUMP: r = level_of(BumpupFlckDbgMode()); break;
		case O_FILE: r = SetFlckDbgFile(SINKS[o.a[0]]); break;
		case O_UNFILE: r = UnsetFlckDbgFile(); break;
		case O_LOADENV: setv("FLCKDBGMODE", LEVELS[o.a[0]]); setv("FLCKDBGFILE", SINKS[o.a[1]]); r = LoadFlckDbgEnv(); break;
		case O_FORK: {
			fflush(nullptr); pid_t pid = fork(); if(pid == 0){ Op q = o; q.kind = o.a[3] & 1 ? O_RW : O_MTX; q.a[3] = 200; int v = call(q); fflush(nullptr); _exit(v & 0x7f); }
			int st = -1; while(waitpid(pid, &st, 0) < 0 && errno == EINTR){} r = st;
			} break;
		case O_MANY: {
			Op q[3]; pthread_t t[3]; for(int i = 0; i < 3; i++){ q[i] = o; q[i].kind = O_MTX; q[i].a[0] = 2; q[i].a[1] = 5; if(o.a[0] & 1){ q[i].kind = O_COND; q[i].a[0] = 1; } pthread_create(&t[i], nullptr, many, &q[i]); }
			for(auto& x : t){ pthread_join(x, nullptr); }
			} break;
		default:
			if(o.agent > 0 && o.agent < 3){ Th& t = ths[o.agent]; job = &o; char b = 1; if(write(t.go[1], &b, 1) != 1 || read(t.back[0], &b, 1) != 1){ _exit(79); } r = result; }
			else{ r = call(o); }
		}
		collect();
		if(dbg(o.kind)){ say("G %d", level_of(GetFlckDbgMode())); }
		say("R %d", r);
	}
	UnsetFlckDbgFile(); int n = 0; for(int i = 0; i < 1024; i++){ if(fcntl(i, F_GETFD) >= 0){ n++; } } say("N %d", n);
	return true;
}

//================================================================ the check
struct Step { int ret = 0, level = -2; bool done = false; vector<std::pair<int, string>> lines; };
struct Trace { vector<Step> st; string fail, lost; bool done = false; int nfd = -1; };
int  lvl(const string& l) { return !l.compare(0, 12, "[FLCK-ERR] ") || !l.compare(0, 11, "[FLCK-ERR] ") ? 1 : !l.compare(0, 11, "[FLCK-WAN] ") ? 2 : !l.compare(0, 11, "[FLCK-MSG] ") ? 3 : -1; }
string norm(const string& l) { string o; for(size_t i = 0; i < l.size();){ if(l[i] == '0' && i + 1 < l.size() && l[i + 1] == 'x'){ i += 2; while(i < l.size() && isxdigit((unsigned char)l[i])){ i++; } o += '#'; }else if(isdigit((unsigned char)l[i])){ while(i < l.size() && isdigit((unsigned char)l[i])){ i++; } o += '#'; }else if(!l.compare(i, 5, "(nil)")){ i += 5; o += '#'; }else{ o += l[i++]; } } return o; }
string show(const vector<string>& v) { string s; for(auto& x : v){ s += (s.empty() ? "'" : ", '") + x.substr(0, 120) + "'"; if(s.size() > 500){ s += " ..."; break; } } return s.empty() ? "nothing" : s; }

struct C20 : Prop {
	const char* id() const override { return "C20"; }
	const char* rule() const override { return "each case is a random history of 2-14 calls (mutexes, ranges, conditions, scoped objects, re-initialisations, mode switches, wrong parameters, calls in forked children and in several threads at once, over small or default tables) with interleaved switches of level and file of the messages, run in two new programs under AddressSanitizer and UndefinedBehaviorSanitizer: one with all messages and without the switches, one as generated with a random environment; results are compared call by call, open descriptors at the end, messages with those of the first run filtered by the level, at the place that the configuration names; non-trivial: at least one message was due and one was suppressed or went to a file"; }
	std::vector<const char*> classes() const override { return {"results compared", "failing calls", "error messages compared", "warnings compared", "notes compared", "messages suppressed", "switches of level or file", "messages in files", "unusable files", "forked children", "threads at once", "cases with a background thread", "messages appended to older text", "full device"}; }
	std::vector<std::string> assumptions() const override { return {"paths of the library are redirected below a private root at the libc interface", "numbers and addresses in messages are not compared", "with a background thread only results, levels and form of the messages are judged, not their number", "with a background thread and children that end, the results may depend on the moment of the recovery and are not compared", "the level and file of an environment that is half malformed may be applied or not"}; }
	int programs(bool t) const override { return t ? 60000 : 5000; }
	int variants(bool) const override { return 0; }

	static void lockop(Rng& r, Case& c, int agent) {
		switch(r.range(0, 9)){
		case 0: case 1: case 2: c.add(agent, O_MTX, r.range(0, 3), r.chance(2, 3) ? r.range(0, 1) : r.range(0, 9), 0, r.chance(1, 2) ? 0 : r.range(1, 900)); break;
		case 3: case 4: case 5: c.add(agent, O_RW, r.range(0, 7), r.chance(2, 3) ? 0 : r.range(0, 6), r.range(0, 8), r.chance(1, 2) ? 0 : r.range(1, 900)); break;
		case 6: c.add(agent, O_COND, r.range(0, 2), r.range(0, 4), r.range(0, 4), r.range(0, 900)); break;
		case 7: c.add(agent, O_WRONG, r.range(0, 7)); break;
		case 8: c.add(agent, O_SCOPE, r.range(0, 3), 0, r.range(0, 8)); break;
		default: c.add(0, O_FORK, r.range(0, 7), r.range(0, 3), r.range(0, 8), r.range(0, 1)); break;
		}
	}
	void gen(Rng& r, Case& c, uint64_t) override {
		c.cfg["agents"] = 1; c.cfg["level"] = r.range(0, 12); c.cfg["file"] = r.chance(1, 2) ? 0 : r.range(1, 8); if(r.chance(1, 2)){ c.cfg["level"] = r.range(1, 4); }
		c.cfg["robust"] = r.chance(3, 4) ? 0 : r.range(1, 2); c.cfg["tab"] = r.chance(1, 5) ? 0 : r.range(4, 6); c.cfg["badenv"] = r.chance(1, 5); c.cfg["noauto"] = r.chance(1, 10); c.cfg["pre"] = r.chance(1, 2);
		int n = r.range(2, 14); bool sw = r.chance(2, 3);
		for(int i = 0; i < n; i++){
			if(sw && r.chance(1, 3)){
				switch(r.range(0, 7)){
				case 0: case 1: c.add(0, O_LEVEL, r.range(0, 3)); break;
				case 2: c.add(0, O_BUMP); break;
				case 3: case 4: c.add(0, O_FILE, r.chance(2, 3) ? r.range(1, 3) : r.range(0, 8)); break;
				case 5: c.add(0, O_UNFILE); break;
				default: c.add(0, O_LOADENV, r.chance(2, 3) ? r.range(0, 4) : r.range(0, 12), r.chance(2, 3) ? r.range(0, 3) : r.range(0, 8)); break;
				}
				continue;
			}
			switch(r.range(0, 11)){
			case 0: c.add(0, O_REINIT, r.chance(1, 2) ? 0 : r.range(0, 6), r.chance(1, 2) ? 0 : r.range(0, 4), r.chance(1, 2) ? r.range(0, 3) : r.range(0, 5)); break;
			case 1: c.add(0, O_MODE, r.range(0, 8), r.range(0, 3)); break;
			case 2: c.add(0, O_MANY, r.range(0, 1)); break;
			default: lockop(r, c, r.chance(1, 2) ? 0 : r.range(1, 2)); break;
			}
		}
	}
	void vary(Rng&, Case&, const std::vector<int>&, int) override {}
	void simplify(const Case& c, std::vector<Case>& v) override { for(auto k : {"file", "robust", "badenv", "noauto", "pre", "level"}){ if(c.get(k)){ Case d = c; d.cfg[k] = 0; v.push_back(d); } } for(size_t i = 0; i < c.ops.size(); i++){ if(c.ops[i].agent){ Case d = c; d.ops[i].agent = 0; v.push_back(d); } } }

	static void put(const string& p, const string& d) { std::ofstream o(p); o << d; o.close(); chmod(p.c_str(), 0666); if(chown(p.c_str(), 65534, 65534)){} }
	static string rdline(int fd, int ms, string& buf) { for(;;){ size_t k = buf.find('\n'); if(k != string::npos){ string s = buf.substr(0, k); buf.erase(0, k + 1); return s.empty() ? " " : s; } struct pollfd q = {fd, POLLIN, 0}; int n = poll(&q, 1, ms); if(n == 0){ return "T"; } if(n < 0 && errno == EINTR){ continue; } char b[8192]; ssize_t m = read(fd, b, sizeof(b)); if(m <= 0){ return ""; } buf.append(b, (size_t)m); } }
	static string reason(const string& err) { std::ifstream in(err); string l; while(std::getline(in, l)){ if(l.find("runtime error") != string::npos || l.find("ERROR: ") != string::npos){ size_t k = l.find("==ERROR"); return (k == string::npos ? l : l.substr(k + 2)).substr(0, 300); } } return ""; }
	// inconclusive if false
	static bool go(const Case& c, const string& base, bool ref, Trace& t) {
		string rt = base + "/r"; chmod((rt + "/none").c_str(), 0777); rm_tree(rt); umask(0);
		auto mk = [&](const string& d, mode_t m){ mkdir((rt + d).c_str(), m); chmod((rt + d).c_str(), m); if(chown((rt + d).c_str(), 65534, 65534)){} };
		mk("", 0777); mk("/d1", 0777); mk("/d2", 0777); mk("/none", 0000); mk("/tmp", 0777);
		if(c.get("pre")){ for(int i = 1; i < 4; i++){ put(rt + VISIBLE[i], "older text\n"); } }
		umask(022); string err = base + "/err"; int b[2]; if(pipe2(b, O_CLOEXEC)){ return false; }
		pid_t pid = fork();
		if(pid == 0){
			int o = fcntl(b[1], F_DUPFD, 30), e = open(err.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0666), in = open("/dev/null", O_RDONLY, 0);
			e = fcntl(e, F_DUPFD, 30); in = fcntl(in, F_DUPFD, 30); dup2(in, 0); dup2(e, 1); dup2(e, 2); dup2(o, 3); for(int i = 4; i < 64; i++){ close(i); }
			cpu_set_t all; CPU_ZERO(&all); for(int i = 0; i < 256; i++){ CPU_SET(i, &all); } sched_setaffinity(0, sizeof(all), &all);
			if(chdir(rt.c_str())){ _exit(79); }
			string rv = "FLV_ROOT=" + rt; string cf = base + "/case";
			const char* ev[] = {rv.c_str(), "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", "UBSAN_OPTIONS=print_stacktrace=1:exitcode=98", "LC_ALL=C", nullptr};
			execle("/proc/self/exe", "flv", "child", "C20", ref ? "ref" : "subject", cf.c_str(), (char*)nullptr, ev); _exit(79);
		}
		close(b[1]); t.st.assign(c.ops.size(), Step()); size_t k = 0; bool hung = false; string buf;
		for(;;){
			string l = rdline(b[0], 60000, buf); if(l.empty()){ break; }
			if(l == "T"){ hung = true; break; }
			if(l[0] == 'S'){ k = (size_t)atol(l.c_str() + 2); if(k >= t.st.size()){ break; } }
			else if(l[0] == 'R'){ t.st[k].ret = atoi(l.c_str() + 2); t.st[k].done = true; }
			else if(l[0] == 'G'){ t.st[k].level = atoi(l.c_str() + 2); }
			else if(l[0] == 'L'){ t.st[k].lines.push_back({atoi(l.c_str() + 2), l.substr(4)}); }
			else if(l[0] == 'X'){ t.lost = l.substr(2); }
			else if(l[0] == 'N'){ t.nfd = atoi(l.c_str() + 2); }
			else if(l[0] == 'D'){ t.done = true; }
		}
		if(hung){ kill(pid, SIGKILL); }
		close(b[0]); int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR){}
		char w[160]; snprintf(w, sizeof(w), "%s, operation %zu", ref ? "all messages on" : "as generated", k);
		if(hung){ t.fail = string("does not return: ") + w; }
		else if(!t.done || !WIFEXITED(st) || WEXITSTATUS(st)){
			if(WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79)){ return false; }
			t.fail = string("crash: ") + (t.done ? "at the end of the program, " : "") + w + (WIFSIGNALED(st) ? ", signal " + std::to_string(WTERMSIG(st)) : ", exit code " + std::to_string(WEXITSTATUS(st))) + " " + reason(err);
		}
		if(t.fail.empty() && c.get("pre")){ for(int i = 1; i < 4; i++){ std::ifstream in(rt + VISIBLE[i]); string l; std::getline(in, l); if(l != "older text"){ t.fail = string("file: the older text of ") + VISIBLE[i] + " was lost"; } } }
		return true;
	}

	void run(const Case& c, RunResult& r) override {
		string base = scratch_dir() + "/c20"; chmod((base + "/r/none").c_str(), 0777); rm_tree(base); mkdir(base.c_str(), 0777); chmod(base.c_str(), 0777);
		{ string t = c.text("C20"); std::ofstream o(base + "/case"); o << t; }
		Trace a, b; string f; bool ok = go(c, base, true, a) && go(c, base, false, b);
		if(ok){ f = !a.fail.empty() ? a.fail : !b.fail.empty() ? b.fail : judge(c, a, b, r); }else{ r.inconclusive = 1; r.msg = "program not started"; }
		chmod((base + "/r/none").c_str(), 0777); rm_tree(base);
		if(!f.empty()){ r.fail = 1; r.msg = f; }
		r.steps = c.ops.size(); r.nontrivial = (r.cls[CL_ERRMSG] + r.cls[CL_WANMSG] + r.cls[CL_INFOMSG] + r.cls[CL_SUPPRESSED]) && (r.cls[CL_SUPPRESSED] || r.cls[CL_FILE]);
		if(c.get("robust")){ r.cls[CL_WORKER]++; }
	}

	static string judge(const Case& c, const Trace& a, const Trace& b, RunResult& r) {
		set<int> lv = {0}, sk = {0}; bool used = false, forked = false, reinit = false, loaded = false, worker = c.get("robust") != 0; int env = (int)c.get("level"), file = (int)c.get("file"); set<int> everl = {0}, evers = {0};
		if(!a.lost.empty()){ return "file: " + a.lost; } if(!b.lost.empty()){ return "file: " + b.lost; }
		if(b.nfd > a.nfd + (worker ? 2 : 0)){ return "leak: " + std::to_string(b.nfd) + " descriptors are open at the end instead of " + std::to_string(a.nfd); }
		// what an environment makes of the level and the place
		auto load = [&](bool sure){
			set<int> l0 = lv, s0 = sk;
			if(LEVELV[env] >= 0){ lv = {LEVELV[env]}; }
			if(LEVELV[env] == -2 || !sure){ if(!sure){ lv.insert(l0.begin(), l0.end()); } }
			if(SINKS[file]){
				if(SINKV[file] > 0){ sk = {SINKV[file]}; if(s0.count(4)){ sk.insert(0); } }else{ sk.insert(0); }   // (a full device may fail to close)
				if(LEVELV[env] == -2 || !sure){ sk.insert(s0.begin(), s0.end()); }
			}
		};
		bool full = SINKV[file] == 4;
		for(size_t k = 0; k < c.ops.size(); k++){
			const Op& o = c.ops[k]; const Step& y = b.st[k]; char at[80]; snprintf(at, sizeof(at), "operation %zu (kind %d)", k, o.kind);
			set<int> lb = lv, sb = sk, l1, s1; bool first = false;
			if(dbg(o.kind)){
				r.cls[CL_SWITCH]++;
				if(!loaded){ load(false); loaded = true; lb.insert(lv.begin(), lv.end()); sb.insert(sk.begin(), sk.end()); }
				set<int> was = lv;
				switch(o.kind){
				case O_LEVEL: if(!was.count(y.ret)){ return string("level: setting it returned ") + std::to_string(y.ret) + " instead of the former one in " + at; } lv = {o.a[0] & 3}; break;
				case O_BUMP: if(!was.count(y.ret)){ return string("level: bumping it returned ") + std::to_string(y.ret) + " instead of the former one in " + at; } lv = {(y.ret + 1) % 4}; break;
				case O_FILE: {
					int s = SINKV[o.a[0]]; bool fl = sk.count(4); if(s == 4){ full = true; }
					if(!SINKS[o.a[0]] || !*SINKS[o.a[0]]){ if(y.ret){ return string("file: no name was accepted in ") + at; } }
					else if(s < 0){ r.cls[CL_BADFILE]++; if(y.ret){ return string("file: an unusable file was accepted in ") + at; } sk.insert(0); }
					else if(y.ret){ sk = {s}; }
					else if(!fl){ return string("file: ") + SINKS[o.a[0]] + " was refused in " + at; }
					else{ sk.insert(0); }
					} break;
				case O_UNFILE: if(!y.ret && !sk.count(4)){ return string("file: it could not be unset in ") + at; } sk = {0}; break;
				case O_LOADENV: { env = o.a[0]; file = o.a[1]; bool fl = sk.count(4); if(SINKV[file] == 4){ full = true; } load(true);
					bool good = LEVELV[env] != -2 && SINKV[file] >= 0; if(!fl && (y.ret != 0) != good){ return string("environment: loading it returned ") + std::to_string(y.ret) + " in " + at; } } break;
				}
				if(!lv.count(y.level)){ return string("level: it is ") + std::to_string(y.level) + " after " + at; }
				lv = {y.level};
			}else{
				const Step& x = a.st[k];
				if(!x.done || !y.done){ return string("does not return: ") + at; }
				if(x.ret != y.ret && !(worker && forked)){ char m[200]; snprintf(m, sizeof(m), "result: %s returned %d with all messages on and %d with level %d", at, x.ret, y.ret, *lv.rbegin()); return m; }
				r.cls[CL_RESULT]++; if(x.ret && (o.kind == O_MTX || o.kind == O_RW || o.kind == O_COND || o.kind == O_WRONG)){ r.cls[CL_FAILED]++; }
				if(o.kind == O_REINIT || o.kind == O_WRONG){ reinit = true; }
				if(!used){
					first = true; l1 = lv; s1 = sk; load(false);
					lb.insert(lv.begin(), lv.end()); sb.insert(sk.begin(), sk.end());
					if(o.kind != O_MODE && o.kind != O_FORK && o.kind != O_REINIT && !(o.kind == O_WRONG && o.a[0] % 8 == 7)){ used = loaded = true; }   // (a refused re-initialisation need not read the environment)
				}
				if(o.kind == O_FORK){ forked = true; r.cls[CL_FORK]++; } if(o.kind == O_MANY){ r.cls[CL_MANY]++; }
				if(o.kind == O_WRONG && used){ bool e = false; for(auto& l : x.lines){ e = e || lvl(l.second) == 1; } if(!e){ return string("silent failure: no error message for wrong parameters with all messages on in ") + at; } }
				if(first && used && !reinit && x.lines.empty()){ return string("silent: no message at the first use with all messages on in ") + at; }
			}
			for(int s : lv){ everl.insert(s); } for(int s : lb){ everl.insert(s); } for(int s : sk){ evers.insert(s); } for(int s : sb){ evers.insert(s); }
			// form, level and place
			const set<int>& al = worker ? everl : lb; int top = std::max(*al.rbegin(), *lv.rbegin());
			for(auto& l : y.lines){
				int v = lvl(l.second); if(v < 0){ return "form: '" + l.second.substr(0, 200) + "' in " + at; }
				if(v > top){ return "level: '" + l.second.substr(0, 200) + "' with level " + std::to_string(top) + " in " + at; }
				bool in = worker ? evers.count(l.first) : sb.count(l.first) || sk.count(l.first); if(!in){ return "place: '" + l.second.substr(0, 200) + "' went to " + (l.first ? VISIBLE[l.first] : "stderr") + " in " + at; }
				if(l.first){ r.cls[CL_FILE]++; if(c.get("pre")){ r.cls[CL_APPEND]++; } }
			}
			if(dbg(o.kind)){ continue; }
			if(full && sk.count(4)){ r.cls[CL_FULL]++; }
			vector<string> got; for(auto& l : y.lines){ got.push_back(norm(l.second)); }
			if(first && !worker){
				// at least what the lowest possible level lets through
				vector<string> want; for(auto& l : a.st[k].lines){ if(lvl(l.second) <= *lv.begin() && l.second.find("FLCKDBG") == string::npos && l.second.find("FlckDbg") == string::npos){ want.push_back(norm(l.second)); } }
				if(o.kind == O_MANY){ std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
				size_t i = 0; for(auto& g : got){ if(i < want.size() && want[i] == g){ i++; } }
				if(i < want.size() && !sk.count(4) && !sb.count(4)){ return string("missing: ") + want[i].substr(0, 200) + " was not reported in " + at + ", got " + show(got); }
				if(o.kind == O_FORK || o.kind == O_MODE){ lv = l1; sk = s1; }      // (the library of this process has not been used)
				continue;
			}
			if(worker){ continue; }
			// exactly the messages of the level, in one place
			set<int> places; for(auto& l : y.lines){ places.insert(l.first); }
			if(places.size() > 1){ return string("place: the messages of one call went to two places in ") + at; }
			vector<int> fit; vector<string> want0;
			for(int L : lv){
				vector<string> want; for(auto& l : a.st[k].lines){ if(lvl(l.second) <= L){ want.push_back(norm(l.second)); } }
				vector<string> g = got; if(o.kind == O_MANY){ std::sort(want.begin(), want.end()); std::sort(g.begin(), g.end()); }
				bool nowhere = sk.count(4) && got.empty(); if(want == g || (nowhere && !want.empty())){ fit.push_back(L); if(want != g || want.empty()){ places.clear(); } }
				if(want0.empty()){ want0 = want; }
			}
			if(fit.empty()){ return string("messages: ") + at + " with level " + std::to_string(*lv.begin()) + " reported " + show(got) + " instead of " + show(want0); }
			for(auto& l : a.st[k].lines){ int v = lvl(l.second); if(v > *lv.rbegin()){ r.cls[CL_SUPPRESSED]++; }else{ r.cls[v == 1 ? CL_ERRMSG : v == 2 ? CL_WANMSG : CL_INFOMSG]++; } }
			lv = set<int>(fit.begin(), fit.end());
			if(places.size() == 1){ if(!sk.count(*places.begin())){ return string("place: messages went to ") + (*places.begin() ? VISIBLE[*places.begin()] : "stderr") + " in " + at; } sk = places; }
			else if(sk.size() > 1 && sk.count(4) && got.empty() && !want0.empty() && *lv.begin() > 0){ sk = {4}; }
		}
		return "";
	}
	int child(int argc, char** argv) override {
		if(argc < 2 || !getenv("FLV_ROOT")){ return 3; }
		std::ifstream in; { string p = argv[1]; in.open(p); } std::ostringstream o; o << in.rdbuf(); Case c; string pr; if(!c.parse(o.str(), pr)){ return 79; }
		run_child(c, !strcmp(argv[0], "ref")); say("D"); return 0;
	}
};
PropReg r20(new C20);
}

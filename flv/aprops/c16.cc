// C16: configuration.  Each case is a new program (sanitized) with its own
// environment that runs a history of calls; every path of the library is below
// a private root directory (see the __wrap functions) and the program runs as
// an unprivileged user.  An oracle in the program derives from the environment,
// the parameters and the directory tree what may result.
#include "core.h"
#include "fullock.h"
#include "flckshm.h"
#include "flckstructure.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/file.h>
#include <sys/inotify.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <set>

using std::string; using std::vector; using std::set;

extern char** environ;
extern "C" {
int   __real_open(const char*, int, ...); int __real_stat(const char*, struct stat*); int __real_lstat(const char*, struct stat*);
int   __real_access(const char*, int); int __real_mkdir(const char*, mode_t); int __real_unlink(const char*); int __real_rename(const char*, const char*);
FILE* __real_fopen(const char*, const char*); int __real_inotify_add_watch(int, const char*, uint32_t);
char* __real_get_current_dir_name(void); char* __real_getcwd(char*, size_t); char* __real_realpath(const char*, char*);
}

//---------------------------------------------------------------- private root
static const char* g_root;                            // NULL: paths are real

// "." and ".." are resolved by the names alone and stop at the root
static string clean(const string& p, bool* over = nullptr)
{
	vector<string> v; string cur; bool last = !p.empty() && p.back() == '/';
	std::istringstream in(p); 
	while(std::getline(in, cur, '/')){
		if(cur.empty() || cur == "."){ continue; }
		if(cur == ".."){ if(v.empty()){ if(over){ *over = true; } }else{ v.pop_back(); } continue; }
		v.push_back(cur);
	}
	string o; for(auto& s : v){ o += "/" + s; }
	if(last || o.empty()){ o += "/"; }
	return o;
}
static string below(const char* p)
{
	if(!g_root || !p || p[0] != '/' || !strncmp(p, "/proc/", 6) || !strcmp(p, "/dev/null") || !strcmp(p, "/dev/full")){ return p ? p : ""; }
	string q = p; return string(g_root) + ((q + "/").find("/../") != string::npos ? clean(q) : q);
}
extern "C" {
int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(below(p).c_str(), fl, m); }
int __wrap_stat(const char* p, struct stat* s) { return __real_stat(below(p).c_str(), s); }
int __wrap_lstat(const char* p, struct stat* s) { return __real_lstat(below(p).c_str(), s); }
int __wrap_access(const char* p, int m) { return __real_access(below(p).c_str(), m); }
int __wrap_mkdir(const char* p, mode_t m) { return __real_mkdir(below(p).c_str(), m); }
int __wrap_unlink(const char* p) { return __real_unlink(below(p).c_str()); }
int __wrap_rename(const char* p, const char* q) { return __real_rename(below(p).c_str(), below(q).c_str()); }
FILE* __wrap_fopen(const char* p, const char* m) { return __real_fopen(below(p).c_str(), m); }
int __wrap_inotify_add_watch(int fd, const char* p, uint32_t m) { return __real_inotify_add_watch(fd, below(p).c_str(), m); }
static char* unroot(char* r) { if(r && g_root && !strncmp(r, g_root, strlen(g_root))){ string s = r + strlen(g_root); if(s.empty()){ s = "/"; } strcpy(r, s.c_str()); } return r; }
char* __wrap_get_current_dir_name(void) { return unroot(__real_get_current_dir_name()); }
char* __wrap_getcwd(char* b, size_t n) { return unroot(__real_getcwd(b, n)); }
char* __wrap_realpath(const char* p, char* b) { return unroot(__real_realpath(below(p).c_str(), b)); }
}

// before any other initialisation of the new program
__attribute__((constructor(101))) static void enter()
{
	g_root = getenv("FLV_ROOT");
	if(!g_root){ return; }
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if(geteuid() == 0){ if(setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)){ _exit(77); } prctl(PR_SET_PDEATHSIG, SIGKILL); }
	signal(SIGXFSZ, SIG_IGN); umask(022);
}

namespace {
enum { O_ENV = 1, O_UNSET, O_REINIT, O_REINITX, O_MODE, O_LOCK, O_HELD, O_FSIZE, O_RMCWD, O_CHK, O_DESTRUCT };
enum { CL_LOADOK, CL_LOADFAIL, CL_RIOK, CL_RIREF, CL_RIFAIL, CL_MALF, CL_OTHER, CL_FOREIGN, CL_FSIZE, CL_RMCWD, CL_RETRY, CL_MODES, CL_WORKER };

const char* VARS[] = {"FLCKAUTOINIT", "FLCKROBUSTMODE", "FLCKNOMAPMODE", "FLCKFREEUNITMODE", "FLCKROBUSTCHKCNT", "FLCKUMASK", "FLCKDIRPATH", "FLCKFILENAME", "FLCKFILECNT", "FLCKOFFETCNT", "FLCKLOCKERCNT", "FLCKNMTXCNT", "FLCKNCONDCNT", "FLCKWAITERCNT", "FLCKDBGMODE", "FLCKDBGFILE"};
struct Cnt { const char* var; long def, mn, mx; };
const Cnt CNT[6] = {{"FLCKFILECNT", 128, 1, 2048}, {"FLCKOFFETCNT", 8192, 4, 16384}, {"FLCKLOCKERCNT", 8192, 4, 16384}, {"FLCKNMTXCNT", 256, 1, 8192}, {"FLCKNCONDCNT", 256, 1, 8192}, {"FLCKWAITERCNT", 8192, 4, 16384}};

//================================================================ the program
int  out = 3;
void say(const char* f, ...) { char b[1500]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof(b) - 1, f, a); va_end(a); if(n > (int)sizeof(b) - 2){ n = (int)sizeof(b) - 2; } b[n++] = '\n'; if(write(out, b, (size_t)n) < 0){ _exit(78); } }
void bad(const char* f, ...) __attribute__((noreturn));
void bad(const char* f, ...) { char b[1200]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a); for(char* p = b; *p; p++){ if(*p == '\n'){ *p = ' '; } } say("F %s", b); _exit(0); }
void hit(int c) { say("C %d", c); }

string trim(const string& s) { size_t a = s.find_first_not_of(" \t\r\n"); if(a == string::npos){ return ""; } return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1); }

// what may be made of a number text: exact for decimal numbers, tolerant for
// texts that only begin with a number (or write it in another base)
set<long> numbers(const char* t, long mn, long mx, long def)
{
	set<long> o; const char* p = t; bool strict = *p >= '1' && *p <= '9';
	for(const char* q = t; *q; q++){ if(*q < '0' || *q > '9'){ strict = false; } }
	auto put = [&](long v, int e){ o.insert(!e && v >= mn && v <= mx ? v : def); };
	errno = 0; long v = strtol(t, nullptr, 10); int e = errno;
	put(v, e);
	if(!strict){ errno = 0; char* end; v = strtol(t, &end, 0); put(v, errno); o.insert(def); }
	return o;
}

string cwd_virtual(bool& ok) { char b[PATH_MAX]; ok = __real_getcwd(b, sizeof(b)) != nullptr; if(!ok){ return ""; } string s = b; s = s.substr(0, strlen(g_root)) == g_root ? s.substr(strlen(g_root)) : s; return s.empty() ? "/" : s; }

// can a directory be used: the normalised name, or "" if not
string dir_use(const string& d)
{
	if(d.empty()){ return ""; }
	string p = d;
	if(p[0] != '/'){ bool ok; string w = cwd_virtual(ok); if(!ok){ return ""; } p = w + "/" + p; }
	bool over = false; p = clean(p, &over); if(over){ return ""; }
	string cur = g_root; std::istringstream in(p); string c; bool fresh = false;
	while(std::getline(in, c, '/')){
		if(c.empty()){ continue; }
		string par = cur; cur += "/" + c;
		if(fresh){ if(c.size() > 255){ return ""; } continue; }
		struct stat st;
		if(__real_stat(cur.c_str(), &st)){
			if(errno != ENOENT){ return ""; }
			struct stat ls; if(!__real_lstat(cur.c_str(), &ls)){ return ""; }             // link to nowhere
			if(__real_access(par.c_str(), W_OK | X_OK)){ return ""; }
			fresh = true; continue;
		}
		if(!S_ISDIR(st.st_mode)){ return ""; }
	}
	return p;
}
string default_dir() { struct stat st; bool a = !__real_stat((string(g_root) + "/var/lib/antpickax").c_str(), &st) && S_ISDIR(st.st_mode); return string(a ? "/var/lib/antpickax" : "/tmp") + "/.fullock"; }

struct Obs { bool at; string path; long n[6]; int nmap, nfd, nth; mode_t mode; uint64_t ino; };
string g_obspath; long g_obscnt[6]; bool g_obs;         // in use by the other program
uint64_t g_obsino;
bool g_fsmall; set<uint64_t> g_foreign;                   // inodes locked by somebody else

// may the file be attached; counts come from the other program when it uses the file
enum { NO, YES };
int file_use(const string& vdir, const string& name, bool& other)
{
	other = false;
	string p = string(g_root) + vdir + "/" + name; struct stat st, ls;
	if(name.empty() || name == "." || name == ".." || name.size() > 255){ return NO; }
	string d = string(g_root) + vdir;
	struct stat ds; bool dex = !__real_stat(d.c_str(), &ds);
	if(dex && __real_access(d.c_str(), X_OK)){ return NO; }
	bool ex = !__real_stat(p.c_str(), &st);
	if(!ex){
		if(!__real_lstat(p.c_str(), &ls)){ return NO; }                                    // link to nowhere
		if(dex && __real_access(d.c_str(), W_OK | X_OK)){ return NO; }
		return g_fsmall ? NO : YES;
	}
	if(!S_ISREG(st.st_mode) || __real_access(p.c_str(), R_OK | W_OK)){ return NO; }
	if(g_foreign.count(st.st_ino)){ return NO; }
	if(g_obs && st.st_ino == g_obsino){ other = true; return YES; }
	return g_fsmall ? NO : YES;
}

int nfds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if(!d){ return -1; } while(readdir(d)){ n++; } closedir(d); return n - 3; }
string fdlist() { string s; for(int i = 0; i < 64; i++){ char b[40], t[PATH_MAX]; snprintf(b, sizeof(b), "/proc/self/fd/%d", i); ssize_t n = readlink(b, t, sizeof(t) - 1); if(n > 0){ t[n] = 0; s += string(" ") + t; } } return s; }
int nthreads() { int n = 0; DIR* d = opendir("/proc/self/task"); if(!d){ return -1; } while(readdir(d)){ n++; } closedir(d); return n - 2; }

void look(Obs& o)
{
	o = Obs(); std::ifstream in("/proc/self/maps"); string l; uintptr_t base = 0; size_t len = 0;
	while(std::getline(in, l)){
		size_t k = l.find(g_root); if(k == string::npos){ continue; }
		unsigned long lo, hi; sscanf(l.c_str(), "%lx-%lx", &lo, &hi);
		o.nmap++; o.at = true; o.path = l.substr(k + strlen(g_root)); base = lo; len = hi - lo;
	}
	in.close(); o.nfd = nfds(); o.nth = nthreads();
	if(!o.at){ return; }
	struct stat st; if(!__real_stat((string(g_root) + o.path).c_str(), &st)){ o.mode = st.st_mode & 07777; o.ino = st.st_ino; }
	else{ o.ino = 0; }
	const FLHEAD* h = (const FLHEAD*)base;
	if(len < sizeof(FLHEAD)){ bad("damaged file: only %zu bytes are mapped", len); }
	if(h->version != FLCK_FILE_VERSION || h->flength > len || (o.ino && (off_t)h->flength > st.st_size)){ bad("damaged file: version %ld length %zu, %zu mapped, file has %ld", (long)h->version, h->flength, len, (long)st.st_size); }
	auto cnt = [&](const void* first, size_t sz)->long {
		long n = 0; uintptr_t r = (uintptr_t)first;
		while(r){ if(r % 8 || r < sizeof(FLHEAD) || r + sz > h->flength){ bad("damaged file: entry at %lx of %zu", (long)r, h->flength); } if(++n > 200000){ bad("damaged file: list without end"); } r = *(const uintptr_t*)(base + r); }
		return n;
	};
	// (a range that the mode keeps is in the list of its file, this program locks one)
	o.n[0] = cnt(h->file_lock_free, sizeof(FLFILELOCK)) + cnt(h->file_lock_list, sizeof(FLFILELOCK));
	o.n[1] = cnt(h->offset_lock_free, sizeof(FLOFFLOCK));
	o.n[2] = cnt(h->locker_free, sizeof(FLLOCKER));
	o.n[3] = cnt(h->named_mutex_free, sizeof(FLNAMEDMUTEX)) + cnt(h->named_mutex_list, sizeof(FLNAMEDMUTEX));
	o.n[4] = cnt(h->named_cond_free, sizeof(FLNAMEDCOND)) + cnt(h->named_cond_list, sizeof(FLNAMEDCOND));
	o.n[5] = cnt(h->waiter_free, sizeof(FLWAITER));
}

struct Peek : FlShm { static bool alive() { return pShmDirPath != nullptr; } };
struct Mdl {
	bool loaded = false, at = false, autoinit = true;
	int robust = 2, nomap = 0, freem = 1;             // 0 NO 1 LOW 2 HIGH; 0 allow 1 deny (+2 retry); 0 NO 1 FD 2 OFFSET
	set<long> chk = {5000}; set<long> um = {0};
	bool worker = false;
	Obs o;                                            // last observation
	// candidates of the last initialisation, for the retry modes
	vector<std::pair<string, string>> cand; set<long> cn[6]; bool owned = false; int basefd = 0;
} m;

string envof(const char* n, bool& set_) { const char* v = getenv(n); set_ = v != nullptr; return v ? v : ""; }

void env_modes()
{
	bool s; string v;
	v = envof("FLCKAUTOINIT", s); if(s){ if(!strcasecmp(v.c_str(), "YES")){ m.autoinit = true; }else if(!strcasecmp(v.c_str(), "NO")){ m.autoinit = false; }else{ hit(CL_MALF); } }
	v = envof("FLCKNOMAPMODE", s); if(s){
		static const struct { const char* t; int v; } T[] = {{"ALLOW_NORETRY", 0}, {"ALLOW", 0}, {"DENY_NORETRY", 1}, {"DENY", 1}, {"ALLOW_RETRY", 2}, {"DENY_RETRY", 3}};
		bool k = false; for(auto& t : T){ if(!strcasecmp(t.t, v.c_str())){ m.nomap = t.v; k = true; } } if(!k){ hit(CL_MALF); } }
	v = envof("FLCKROBUSTMODE", s); if(s){ if(!strcasecmp(v.c_str(), "NO")){ m.robust = 0; }else if(!strcasecmp(v.c_str(), "LOW")){ m.robust = 1; }else if(!strcasecmp(v.c_str(), "HIGH")){ m.robust = 2; }else{ hit(CL_MALF); } }
	v = envof("FLCKFREEUNITMODE", s); if(s){ if(!strcasecmp(v.c_str(), "NO")){ m.freem = 0; }else if(!strcasecmp(v.c_str(), "FD") || !strcasecmp(v.c_str(), "ALWAYS")){ m.freem = 1; }else if(!strcasecmp(v.c_str(), "OFFSET")){ m.freem = 2; }else{ hit(CL_MALF); } }
	v = envof("FLCKROBUSTCHKCNT", s); if(s){ set<long> n; for(long d : m.chk){ for(long x : numbers(v.c_str(), 50, INT_MAX, d)){ n.insert(x); } } m.chk = n; }
	v = envof("FLCKUMASK", s); if(s){
		set<long> n = m.um; const char* t = v.c_str(); bool dig = *t != 0; for(const char* q = t; *q; q++){ if(*q < '0' || *q > '9'){ dig = false; } }
		errno = 0; long x = strtol(t, nullptr, 0); bool in = !errno && x >= 0 && x < 0777;
		if(dig && in){ n.clear(); n.insert(x); }else if(!dig){ hit(CL_MALF); if(in){ n.insert(x); } }else if(!errno && x == 0777){ n.insert(x); }
		m.um = n;
	}
}
void env_counts(bool)
{
	for(int i = 0; i < 6; i++){
		bool s; string v = envof(CNT[i].var, s);
		m.cn[i].clear();
		if(!s){ m.cn[i].insert(CNT[i].def); }else{ m.cn[i] = numbers(v.c_str(), CNT[i].mn, CNT[i].mx, CNT[i].def); if(m.cn[i].count(CNT[i].def)){ hit(CL_MALF); } }
	}
}
// candidate directory and names from the environment
void env_paths(vector<string>& dirs, vector<string>& files)
{
	bool s; string v = envof("FLCKDIRPATH", s); string d = s ? dir_use(v) : "";
	if(s && d.empty()){ hit(CL_MALF); }
	dirs.push_back(d.empty() ? default_dir() : d);
	v = envof("FLCKFILENAME", s);
	if(!s){ files.push_back("fullock.shm"); }
	else{ v = trim(v); if(v.find('/') != string::npos){ hit(CL_MALF); files.push_back(""); files.push_back("fullock.shm"); }else{ files.push_back(v); if(v.empty()){ files.push_back("fullock.shm"); } } }
}

struct Pred { string dir, name; bool ok, other; };
vector<Pred> predict(const vector<string>& dirs, const vector<string>& files)
{
	vector<Pred> v;
	for(auto& d : dirs){ for(auto& f : files){ Pred p; p.dir = d; p.name = f; p.other = false; p.ok = !dir_use(d).empty() && file_use(d, f, p.other) == YES; v.push_back(p); } }
	return v;
}
string same(const string& dir, const string& name) { return clean(dir + "/" + name); }

// judges the state after an attempt to attach
void judge(const char* what, const vector<Pred>& pr, bool mustno)
{
	Obs o; look(o);
	if(o.nmap > 1){ bad("leak: %d mappings of shared files after %s", o.nmap, what); }
	bool okc = false, noc = mustno; for(auto& p : pr){ if(p.ok){ okc = true; }else{ noc = true; } }
	if(o.at && mustno){ bad("attached although it should not: %s", what); }
	if(!o.at && !noc){ bad("not attached: %s failed although %s/%s can be used", what, pr[0].dir.c_str(), pr[0].name.c_str()); }
	if(o.at && !okc){ bad("attached: %s attached %s although it can not be used", what, o.path.c_str()); }
	if(o.at){
		const Pred* hitp = nullptr;
		for(auto& p : pr){ struct stat st; if(p.ok && !__real_stat((string(g_root) + p.dir + "/" + p.name).c_str(), &st) && st.st_ino == o.ino){ hitp = &p; } }
		if(!hitp){ bad("wrong file: %s attached %s instead of %s", what, o.path.c_str(), same(pr[0].dir, pr[0].name).c_str()); }
		for(int i = 0; i < 6; i++){
			if(hitp->other){ hit(CL_OTHER); if(o.n[i] != g_obscnt[i] && !(i == 1 && o.n[i] == g_obscnt[i] - 1)){ bad("table size: %s is %ld in the file used by others, was %ld", CNT[i].var, o.n[i], g_obscnt[i]); } }
			else if(!m.cn[i].count(o.n[i])){ bad("table size: %s is %ld after %s, expected %ld", CNT[i].var, o.n[i], what, *m.cn[i].begin()); }
		}
	}
	// threads and descriptors
	int ifd = inotify_init1(IN_CLOEXEC); bool ino = ifd >= 0; if(ino){ close(ifd); }
	bool wk = o.at && m.robust != 0;
	if(wk){ hit(CL_WORKER); }
	if(ino && o.nth != 1 + (wk ? 1 : 0)){ bad("background thread: %d threads after %s, attached %d robust mode %d", o.nth, what, o.at, m.robust); }
	if(o.nfd > m.basefd + 1 + (o.at ? 1 : 0) + (wk ? 2 : 0)){ bad("leak: %d descriptors after %s, %d at the start:%s", o.nfd, what, m.basefd, fdlist().c_str()); }
	m.o = o; m.at = o.at; m.owned = false;
}
void check_modes(const char* what)
{
	int r = FlShm::IsNoRobust() ? 0 : FlShm::IsHighRobust() ? 2 : 1;
	if(r != m.robust){ bad("robust mode: %d after %s, expected %d", r, what, m.robust); }
	FlShm::NOMAPMODE n = FlShm::GetNomapMode(); int k = n == FlShm::NOMAP_ALLOW_NORETRY ? 0 : n == FlShm::NOMAP_DENY_NORETRY ? 1 : n == FlShm::NOMAP_ALLOW_RETRY ? 2 : 3;
	if(k != m.nomap){ bad("mode without map: %d after %s, expected %d", k, what, m.nomap); }
	int f = FlShm::IsFreeUnitFd() ? 1 : FlShm::IsFreeUnitOffset() ? 2 : 0;
	if(f != m.freem){ bad("free-unit mode: %d after %s, expected %d", f, what, m.freem); }
	int c = FlShm::GetRobustLoopCnt(); if(!m.chk.count(c)){ bad("check count: %d after %s, expected %ld", c, what, *m.chk.begin()); }
	m.chk = {c};
}
void check_umask(const vector<Pred>& before, bool existed)
{
	(void)before; if(!m.at || existed){ return; }
	bool ok = false; for(long u : m.um){ if(m.o.mode == (mode_t)(0666 & ~u)){ ok = true; } }
	if(!ok){ bad("file mode: %o with umask %lo", m.o.mode, *m.um.begin()); }
}
bool exists_any(const vector<Pred>& pr) { struct stat st; for(auto& p : pr){ if(!__real_stat((string(g_root) + p.dir + "/" + p.name).c_str(), &st)){ return true; } } return false; }

// the library comes to life with the first object of its class
template<class F> void first_use(F call)
{
	if(m.loaded){ call(); return; }
	m.loaded = true;
	env_modes();
	vector<string> d, f; env_paths(d, f); env_counts(true);
	// the names of directories of the environment are made even without attaching
	auto pr = predict(d, f); bool ex = exists_any(pr);
	call();
	m.cand.clear(); for(auto& p : pr){ m.cand.push_back({p.dir, p.name}); }
	judge("the first use", pr, !m.autoinit);
	check_umask(pr, ex); check_modes("the first use");
	hit(m.at ? CL_LOADOK : CL_LOADFAIL);
}

void works()
{
	int a = fullock_mutex_lock("c16"), b = fullock_mutex_trylock("c16"), c = fullock_mutex_unlock("c16"), d = fullock_mutex_unlock("c16");
	if(m.at){ if(a || b || c || d){ bad("attached library does not work: %d %d %d %d", a, b, c, d); } int e = fullock_mutex_unlock("c16never"); if(!e){ bad("attached library does not lock"); } }
	else{ int w = m.nomap & 1 ? ENOLCK : 0; if(a != w || b != w || c != w || d != w){ bad("unattached library answers %d %d %d %d in mode %d", a, b, c, d, m.nomap); } }
}
void rw_modes()                                         // free-unit mode as it shows in the tables
{
	if(!m.at || m.o.n[0] > 64){ return; }
	int fd = __real_open((string(g_root) + "/data").c_str(), O_RDWR | O_CREAT, 0666); if(fd < 0){ return; }
	Obs o; look(o); long fl = o.n[1];
	int r = fullock_rwlock_rdlock(fd, 5, 3), u = r ? 0 : fullock_rwlock_unlock(fd, 5, 3);
	close(fd); look(o);
	if(r == ENOLCK){ return; }                            // kept by earlier calls in another mode
	if(r || u){ bad("attached library does not work: range lock %d %d", r, u); }
	if(m.freem && o.n[1] < fl){ bad("free-unit mode: the range is kept in mode %d", m.freem); }
}

void run_child(const Case& c)
{
	m.basefd = nfds();
	auto str = [&](int i)->const char* { return i >= 0 && i < (int)c.strs.size() ? c.strs[(size_t)i].c_str() : nullptr; };
	size_t step = 0;
	for(auto& op : c.ops){
		char what[64]; snprintf(what, sizeof(what), "operation %zu", step++);
		say("O %s", what);
		switch(op.kind){
		case O_ENV: { string s = str(op.a[0]) ? str(op.a[0]) : ""; size_t k = s.find('='); if(k != string::npos){ setenv(s.substr(0, k).c_str(), s.substr(k + 1).c_str(), 1); } } break;
		case O_UNSET: unsetenv(VARS[op.a[0] % 14]); break;
		case O_MODE:
			hit(CL_MODES);
			switch(op.a[0]){
			case 0: fullock_set_no_robust(); m.robust = 0; break;
			case 1: fullock_set_low_robust(); m.robust = 1; break;
			case 2: fullock_set_high_robust(); m.robust = 2; { set<long> n; for(long x : m.chk){ n.insert(x < 50 ? 5000 : x); } m.chk = n; } break;
			case 3: fullock_set_noretry_allow_nomap(); m.nomap = 0; break;
			case 4: fullock_set_noretry_deny_nomap(); m.nomap = 1; break;
			case 5: fullock_set_retry_allow_nomap(); m.nomap = 2; break;
			case 6: fullock_set_retry_deny_nomap(); m.nomap = 3; break;
			case 7: fullock_set_no_freeunit(); m.freem = 0; break;
			case 8: fullock_set_fd_freeunit(); m.freem = 1; break;
			case 9: fullock_set_offset_freeunit(); m.freem = 2; break;
			}
			check_modes(what);
			break;
		case O_CHK: {
			bool r = fullock_set_robust_check_count(op.a[0]), w = m.robust == 2 && op.a[0] >= 50;
			if(r != w){ bad("check count: setting %d returned %d in robust mode %d", op.a[0], r, m.robust); }
			if(w){ m.chk = {op.a[0]}; } check_modes(what);
			} break;
		case O_FSIZE: { struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = op.a[0] < 0 ? rl.rlim_max : (rlim_t)op.a[0]; setrlimit(RLIMIT_FSIZE, &rl); g_fsmall = op.a[0] >= 0; hit(CL_FSIZE); } break;
		case O_RMCWD: { string w = string(g_root) + "/wd"; mkdir("/wd", 0777); if(!chdir(w.c_str())){ rmdir(w.c_str()); hit(CL_RMCWD); } } break;
		case O_LOCK:
			first_use([&]{ FlShm s; (void)s; });
			if(!m.at && m.nomap >= 2){
				// the first call may attach now
				set<long> keep[6]; (void)keep;
				vector<Pred> pr; for(auto& x : m.cand){ Pred p; p.dir = x.first; p.name = x.second; p.other = false; p.ok = file_use(p.dir, p.name, p.other) == YES; pr.push_back(p); }
				pr.push_back(Pred{"", "", false, false});
				fullock_mutex_trylock("c16"); fullock_mutex_unlock("c16");
				hit(CL_RETRY); judge("an attempt of the retry mode", pr, false);
			}
			works(); rw_modes();
			break;
		case O_HELD:
			first_use([&]{ FlShm s; (void)s; });
			if(g_obs && m.at && m.o.n[3] >= 2){
				bool there = m.o.ino == g_obsino; int r = fullock_mutex_trylock("held");
				if(there ? r != EBUSY : r != 0){ bad("mutex of the other program: try returned %d, %s file", r, there ? "same" : "other"); }
				if(!r){ fullock_mutex_unlock("held"); }
			}
			break;
		case O_REINIT: case O_REINITX: {
			const char *d = str(op.a[0]), *f = str(op.a[1]); long n[6] = {0, 0, 0, 0, 0, 0};
			if(op.kind == O_REINITX){ const char* t = str(op.a[2]); if(t){ sscanf(t, "%ld %ld %ld %ld %ld %ld", n, n + 1, n + 2, n + 3, n + 4, n + 5); } }
			// an unloaded library may load first, whatever comes of that
			bool first = !m.loaded; const Mdl m0 = m;
			if(!m.loaded){ m.loaded = true; env_modes(); m.chk.insert(5000); m.o = Obs(); }
			bool refuse = false; for(int i = 0; i < 6; i++){ if(n[i] && (n[i] < CNT[i].mn || n[i] > CNT[i].mx)){ refuse = true; } }
			string dd = d && *d ? dir_use(d) : ""; if(d && *d && dd.empty()){ refuse = true; }
			string ff = f ? trim(f) : ""; if(ff.find('/') != string::npos){ refuse = true; }
			Obs before; look(before);
			auto call = [&]{ return op.kind == O_REINITX ? fullock_reinitialize_ex(d, f, (size_t)n[0], (size_t)n[1], (size_t)n[2], (size_t)n[3], (size_t)n[4], (size_t)n[5]) : fullock_reinitialize(d, f); };
			if(refuse){
				bool own = false; if(m.at){ own = fullock_mutex_lock("c16") == 0; }
				bool r = call(); Obs now; look(now); hit(CL_RIREF);
				if(r){ bad("bad parameters accepted: %s, counts %ld %ld %ld %ld %ld %ld", what, n[0], n[1], n[2], n[3], n[4], n[5]); }
				if(before.at){
					if(!now.at || now.ino != before.ino){ bad("refused request: the library lost its file in %s", what); }
					if(own && fullock_mutex_unlock("c16")){ bad("refused request: a held mutex was lost in %s", what); }
				}
				m.at = now.at; m.o = now;
				if(first && !Peek::alive()){ m = m0; }     // refused before it came to life
			}else{
				// unloaded so far: it may attach by the environment and leave that again
				env_modes(); m.autoinit = true;
				vector<string> dv, fv; env_paths(dv, fv); env_counts(false);
				if(!dd.empty()){ dv.assign(1, dd); }
				if(f && *f){ fv.assign(1, ff); }
				for(int i = 0; i < 6; i++){ if(n[i]){ m.cn[i] = {n[i]}; } }
				auto pr = predict(dv, fv); bool ex = exists_any(pr);
				m.cand.clear(); for(auto& p : pr){ m.cand.push_back({p.dir, p.name}); }
				bool r = call();
				// the file that the first load made may be what a link points to
				if(first){ for(auto& q : predict(dv, fv)){ bool was = false; for(auto& p : pr){ was = was || p.ok; } if(q.ok && !was){ pr.push_back(q); } } }
				judge(what, pr, false); check_umask(pr, ex); check_modes(what);
				if(r != m.at){ bad("result: %s returned %d, attached %d", what, r, m.at); }
				hit(r ? CL_RIOK : CL_RIFAIL);
				for(auto& p : pr){ struct stat st; if(!__real_stat((string(g_root) + p.dir + "/" + p.name).c_str(), &st) && g_foreign.count(st.st_ino)){ hit(CL_FOREIGN); break; } }
			}
			} break;
		}
	}
	// and a correct one has to work
	struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl); g_fsmall = false;
	for(auto v : VARS){ unsetenv(v); }
	if(chdir(g_root)){ bad("harness: chdir"); }
	m.loaded = true; m.autoinit = true; env_counts(false); for(int i = 0; i < 6; i++){ m.cn[i] = {i == 1 || i == 2 || i == 5 ? 5 : 3}; }
	bool r = fullock_reinitialize_ex("/good/dir", "good.shm", 3, 5, 5, 3, 3, 5);
	vector<Pred> pr; pr.push_back(Pred{"/good/dir", "good.shm", true, false});
	if(!r){ bad("a correct re-initialisation at the end failed"); }
	judge("the last re-initialisation", pr, false); works();
}

int obs_main(const Case& c)
{
	setenv("FLCKAUTOINIT", "NO", 1); setenv("FLCKROBUSTMODE", "NO", 1);
	if(!fullock_reinitialize_ex("/d1", "used.shm", (size_t)c.get("o0"), (size_t)c.get("o1"), (size_t)c.get("o2"), (size_t)c.get("o3"), (size_t)c.get("o4"), (size_t)c.get("o5"))){ bad("the other program could not attach"); }
	if(fullock_mutex_lock("held")){ bad("the other program could not lock"); }
	say("R"); char b; while(read(0, &b, 1) > 0){}
	Obs o; look(o); for(int i = 0; i < 6; i++){ char k[4] = {'o', (char)('0' + i), 0}; if(o.n[i] != c.get(k) && !(i == 1 && o.n[i] == c.get(k) - 1)){ bad("damaged file in use: %s is %ld, was %ld", CNT[i].var, o.n[i], c.get(k)); } }
	if(fullock_mutex_unlock("held")){ bad("damaged file in use: the mutex held by the other program is lost"); }
	say("D"); return 0;
}

//================================================================ the check
struct C16 : Prop {
	const char* id() const override { return "C16"; }
	const char* rule() const override { return "each case is a new program under AddressSanitizer and UndefinedBehaviorSanitizer with a random environment (well formed, malformed, absent values for all 16 variables) in a private directory tree with files, links, FIFOs, unreadable entries, foreign locked files and a shared file used by another program, that runs a random history of 1-8 first uses, re-initialisations with valid and invalid directories, names and counts, mode switches, environment changes, lock calls, a limited file size and a removed working directory; an oracle derives the file, table sizes, modes and results; a correct re-initialisation ends each case; non-trivial: at least one value was malformed or one request refused or failed, and the library was attached at least once before the end"; }
	std::vector<const char*> classes() const override { return {"first uses that attached", "first uses that did not attach", "re-initialisations that worked", "refused re-initialisations", "failed re-initialisations", "malformed values", "tables of a file used by another program", "foreign locked files", "limited file sizes", "working directory removed", "retries", "mode switches", "background threads"}; }
	std::vector<std::string> assumptions() const override { return {"paths of the library are redirected below a private root at the libc interface; symbolic links are followed by the kernel, '..' is resolved by the names as the library does", "texts that only begin with a number, and file names with a slash in the environment, may be taken as the default or fail cleanly", "the sanitizers see the library, not libc"}; }
	int programs(bool t) const override { return t ? 60000 : 4000; }
	int variants(bool) const override { return 0; }

	static int S(Case& c, const string& s) { c.strs.push_back(s); return (int)c.strs.size() - 1; }
	static string dir(Rng& r) {
		static const vector<string> P = {"/d1", "/d2", "/d1", "/d1/sub", "/d1/../d2", "rel", "./rel/x/", "/", "/..", "/../x", "/d1/../../x", "..", "../..", "//d3//e", "", " ", "/plain", "/plain/sub", "/ro", "/ro/x", "/none/x", "/none", "/ln", "/ln/y", "/dang", "/dang/z", "/d 1", "/d1/.", "/d1/..//", ".", "%s%n%d", "/d1/../..", "/d1/fifo", "/tmp", "/var/lib/antpickax", "/good"};
		if(r.chance(1, 12)){ return "/" + string((size_t)(r.chance(1, 2) ? 255 : r.range(200, 300)), 'n'); }
		if(r.chance(1, 6)){ static const vector<string> C = {"a", "..", ".", "", "d1", "ln", "b", ".."}; string s = r.chance(2, 3) ? "/" : ""; for(int i = r.range(1, 7); i > 0; i--){ s += r.pick(C); if(i > 1 || r.chance(1, 3)){ s += "/"; } } return s; }
		return r.pick(P);
	}
	static string file(Rng& r) {
		static const vector<string> P = {"a.shm", "b.shm", "a.shm", "used.shm", "used.shm", " pad.shm\t", "", "  ", "..", ".", "x/y", "/abs", "sub", "fifo", "ln.shm", "dang.shm", "nolook.shm", "empty.shm", "garb.shm", "short.shm", "cut.shm", "null", "%s%n", "two words", "usedln.shm", "usedhard.shm"};
		if(r.chance(1, 15)){ return string((size_t)(r.chance(1, 2) ? 255 : r.range(200, 300)), 'f'); }
		return r.pick(P);
	}
	static string count(Rng& r, int i, bool num) {
		const Cnt& k = CNT[i];
		if(r.chance(1, 2)){ return std::to_string(r.chance(3, 4) ? r.range((int)k.mn, 40) : k.mx); }
		if(num){ long v[] = {0, k.mn - 1, k.mn, k.mx, k.mx + 1, -1, 1L << 31, 1L << 32, (1L << 32) + 4, LONG_MAX}; return std::to_string(v[r.range(0, 9)]); }
		static const vector<string> P = {"", "abc", "0", "-1", "4x", " 7", "+9", "0x10", "010", "99999999999", "4294967300", "18446744073709551620", "1e3", "9223372036854775807", "-9223372036854775808", "5 5", "\n6", "%d"};
		long v[] = {k.mn - 1, k.mn, k.mx, k.mx + 1}; return r.chance(1, 3) ? std::to_string(v[r.range(0, 3)]) : r.pick(P);
	}
	static string env(Rng& r, int v) {
		static const vector<string> B = {"", "yes", "Maybe", "HIGH ", "0", "1", "NOO", "ALLOWED", "%n%n", string(300, 'Q')};
		static const vector<string> A = {"YES", "NO", "yes", "no"}, R = {"NO", "LOW", "HIGH", "low", "High"}, N = {"ALLOW_NORETRY", "DENY_NORETRY", "ALLOW_RETRY", "DENY_RETRY", "ALLOW", "DENY", "deny"}, F = {"NO", "FD", "OFFSET", "ALWAYS", "offset"}, D = {"SILENT", "ERR", "WAN", "INFO", "INFO", "info", "DUMP"};
		bool b = r.chance(1, 6); string n = VARS[v]; n += "=";
		switch(v){
		case 0: return n + r.pick(b ? B : A);
		case 1: return n + r.pick(b ? B : R);
		case 2: return n + r.pick(b ? B : N);
		case 3: return n + r.pick(b ? B : F);
		case 4: { static const vector<string> P = {"50", "49", "51", "0", "-5", "100000", "2147483647", "2147483648", "4294967396", "abc", "", "60x"}; return n + r.pick(P); }
		case 5: { static const vector<string> P = {"0", "022", "077", "0777", "0176", "01000", "18", "0x1f", "8", "-1", "abc", "", "99999999999999999999", "02x", "0040"}; return n + r.pick(P); }
		case 6: return n + dir(r);
		case 7: return n + file(r);
		case 14: return n + r.pick(b ? B : D);
		case 15: { static const vector<string> P = {"/dbg.log", "", "/none/dbg.log", "/d1", "/d1/dbg%s.log", "rel.log"}; return n + r.pick(P); }
		default: return n + count(r, v - 8, false);
		}
	}
	void gen(Rng& r, Case& c, uint64_t) override {
		c.cfg["agents"] = 1; c.cfg["ant"] = r.range(0, 2); c.cfg["tmpok"] = r.chance(7, 8); c.cfg["foreign"] = r.chance(1, 3);
		if(r.chance(1, 3)){ c.cfg["obs"] = 1; for(int i = 0; i < 6; i++){ char k[4] = {'o', (char)('0' + i), 0}; c.cfg[k] = r.range(4, 60); } }
		int ne = r.chance(1, 6) ? 0 : r.range(1, 9);
		auto small = [&]{ for(int i = 0; i < 6; i++){ if(r.chance(4, 5)){ c.add(0, O_ENV, S(c, string(CNT[i].var) + "=" + std::to_string(r.range(4, 30)))); } } };
		if(r.chance(4, 5)){ small(); }
		if(r.chance(1, 2)){ c.add(0, O_ENV, S(c, r.chance(1, 2) ? "FLCKDIRPATH=/d1" : "FLCKDIRPATH=" + dir(r))); }
		if(r.chance(1, 3)){ c.add(0, O_ENV, S(c, "FLCKFILENAME=" + file(r))); }
		for(int i = 0; i < ne; i++){ c.add(0, O_ENV, S(c, env(r, r.range(0, 15)))); }
		int n = r.range(1, 8);
		for(int i = 0; i < n; i++){
			switch(r.range(0, 11)){
			case 0: case 1: c.add(0, O_LOCK); break;
			case 2: c.add(0, O_HELD); break;
			case 3: c.add(0, O_MODE, r.range(0, 9)); break;
			case 4: if(r.chance(2, 3)){ c.add(0, O_ENV, S(c, env(r, r.range(0, 13)))); }else{ c.add(0, O_UNSET, r.range(0, 13)); } break;
			case 5: if(r.chance(1, 3)){ c.add(0, O_FSIZE, r.chance(1, 3) ? -1 : r.range(0, 4000)); }else if(r.chance(1, 4)){ c.add(0, O_RMCWD); }else{ c.add(0, O_CHK, r.chance(1, 2) ? r.range(45, 55) : r.range(-10, 100000)); } break;
			default: {
				int d = r.chance(1, 4) ? -1 : S(c, dir(r)), f = r.chance(1, 4) ? -1 : S(c, file(r));
				if(r.chance(2, 5)){ d = S(c, "/d1"); } 
				if(r.chance(1, 3)){ c.add(0, O_REINIT, d, f); }
				else{ string t; bool good = r.chance(1, 2); for(int k = 0; k < 6; k++){ t += (k ? " " : "") + (r.chance(1, 3) ? string("0") : good ? std::to_string(r.range(4, 50)) : count(r, k, true)); } c.add(0, O_REINITX, d, f, S(c, t)); }
				} break;
			}
			if(r.chance(1, 3)){ c.add(0, O_LOCK); }
		}
	}
	void vary(Rng&, Case&, const std::vector<int>&, int) override {}
	void simplify(const Case& c, std::vector<Case>& v) override {
		for(auto k : {"obs", "foreign", "ant"}){ if(c.get(k)){ Case d = c; d.cfg[k] = 0; v.push_back(d); } }
		if(!c.get("tmpok")){ Case d = c; d.cfg["tmpok"] = 1; v.push_back(d); }
		for(size_t i = 0; i < c.ops.size(); i++){ auto& o = c.ops[i]; if(o.kind == O_REINITX){ Case d = c; d.ops[i].kind = O_REINIT; v.push_back(d); } if((o.kind == O_REINIT || o.kind == O_REINITX)){ if(o.a[0] >= 0){ Case d = c; d.ops[i].a[0] = -1; v.push_back(d); } if(o.a[1] >= 0){ Case d = c; d.ops[i].a[1] = -1; v.push_back(d); } } }
	}
	bool shrink_ok(const Case&) override { return true; }

	struct Pr { pid_t pid; int in, out; string err; };
	static Pr start(const string& root, const string& cf, const string& err, const char* role) {
		int a[2], b[2]; Pr p{-1, -1, -1, err}; if(pipe2(a, O_CLOEXEC)){ return p; } if(pipe2(b, O_CLOEXEC)){ return p; }
		pid_t pid = fork();
		if(pid == 0){
			int in = fcntl(a[0], F_DUPFD, 30), o = fcntl(b[1], F_DUPFD, 30), e = __real_open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
			e = fcntl(e, F_DUPFD, 30);
			dup2(in, 0); dup2(e, 1); dup2(e, 2); dup2(o, 3); for(int i = 4; i < 64; i++){ close(i); }
			cpu_set_t all; CPU_ZERO(&all); for(int i = 0; i < 256; i++){ CPU_SET(i, &all); } sched_setaffinity(0, sizeof(all), &all);
			if(chdir(root.c_str())){ _exit(79); }
			string r = "FLV_ROOT=" + root;
			const char* ev[] = {r.c_str(), "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", "UBSAN_OPTIONS=print_stacktrace=1:exitcode=98", "LC_ALL=C", nullptr};
			execle("/proc/self/exe", "flv", "child", "C16", role, cf.c_str(), (char*)nullptr, ev); _exit(79);
		}
		close(a[0]); close(b[1]); p.pid = pid; p.in = a[1]; p.out = b[0]; return p;
	}
	static string rdline(int fd, int ms) { string s; char ch; for(;;){ struct pollfd q = {fd, POLLIN, 0}; int k = poll(&q, 1, ms); if(k == 0){ return "T"; } if(k < 0 && errno == EINTR){ continue; } ssize_t n = read(fd, &ch, 1); if(n <= 0){ return ""; } if(ch == '\n'){ return s.empty() ? " " : s; } s += ch; } }
	static string reason(const string& err) {
		std::ifstream in(err); string l, best; int n = 0;
		while(std::getline(in, l)){ if(l.find("runtime error") != string::npos || l.find("ERROR: ") != string::npos){ best = l; break; } }
		string fr; while(std::getline(in, l) && n++ < 40){ size_t k = l.find("/lib/"); if(k != string::npos && l.find(" #") != string::npos){ fr = l.substr(k); break; } }
		size_t k = best.find("==ERROR"); if(k != string::npos){ best = best.substr(k + 2); } return best.substr(0, 300) + (fr.empty() ? "" : " at " + fr.substr(0, 80));
	}
	static void put(const string& p, const string& data, mode_t md = 0666) { int fd = __real_open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666); if(fd >= 0){ if(write(fd, data.data(), data.size()) < 0){} fchmod(fd, md); if(fchown(fd, 65534, 65534)){} close(fd); } }
	static void tree(const Case& c, const string& root) {
		umask(0); auto mk = [&](const string& d, mode_t md){ mkdir((root + d).c_str(), md); chmod((root + d).c_str(), md); if(chown((root + d).c_str(), 65534, 65534)){} };
		mkdir(root.c_str(), 0777); chmod(root.c_str(), 0777); if(chown(root.c_str(), 65534, 65534)){}
		mk("/d1", 0777); mk("/d1/sub", 0777); mk("/d2", 0755); mk("/ro", 0555); mk("/none", 0000); mk("/var", 0755); mk("/var/lib", 0755); if(c.get("tmpok")){ mk("/tmp", 0777); }else{ put(root + "/tmp", "x"); }
		if(c.get("ant") == 1){ mk("/var/lib/antpickax", 0777); }else if(c.get("ant") == 2){ put(root + "/var/lib/antpickax", "x"); }
		put(root + "/plain", "text"); if(symlink((root + "/d1").c_str(), (root + "/ln").c_str())){} if(symlink((root + "/nowhere").c_str(), (root + "/dang").c_str())){}
		string g(5000, 'Z'); for(size_t i = 0; i < g.size(); i++){ g[i] = (char)(200 + i * 7 % 50); }
		for(string d : {"/d1/", "/d2/"}){
			mkfifo((root + d + "fifo").c_str(), 0666); put(root + d + "empty.shm", ""); put(root + d + "garb.shm", g); put(root + d + "short.shm", g.substr(0, 20)); put(root + d + "nolook.shm", "", 0444);
			FLHEAD h; memset((void*)&h, 0, sizeof(h)); h.version = FLCK_FILE_VERSION; strcpy(h.szver, FLCK_FILE_VERSION_STR); h.flength = 1 << 20; put(root + d + "cut.shm", string((const char*)&h, sizeof(h)));
			if(symlink((root + d + "a.shm").c_str(), (root + d + "ln.shm").c_str())){} if(symlink((root + "/nowhere").c_str(), (root + d + "dang.shm").c_str())){} if(symlink("/dev/null", (root + d + "null").c_str())){}
		}
		umask(022);
	}
	static uint64_t content(const string& p) { std::ifstream in(p); std::ostringstream o; o << in.rdbuf(); uint64_t h = 14695981039346656037ULL; for(unsigned char ch : o.str()){ h = (h ^ ch) * 1099511628211ULL; } return h; }

	void run(const Case& c, RunResult& r) override {
		string base = scratch_dir() + "/c16"; rm_tree(base); mkdir(base.c_str(), 0777); chmod(base.c_str(), 0777); string root = base + "/r";
		tree(c, root); { string t = c.text("C16"); std::ofstream o(base + "/case"); o << t; }
		string fail; vector<int> held; vector<std::pair<string, uint64_t>> sums;
		if(c.get("foreign")){                             // (closing any descriptor of a file gives up its locks)
			for(auto n : {"empty.shm", "garb.shm", "short.shm", "cut.shm"}){
				string p = root + "/d1/" + n; sums.push_back({p, content(p)}); int fd = __real_open(p.c_str(), O_RDWR); struct flock fl; memset(&fl, 0, sizeof(fl)); fl.l_type = F_RDLCK; fl.l_whence = SEEK_SET; fl.l_len = 1; if(fd >= 0 && !fcntl(fd, F_SETLK, &fl)){ held.push_back(fd); }
			}
		}
		Pr ob{-1, -1, -1, ""};
		if(c.get("obs")){
			ob = start(root, base + "/case", base + "/obs.err", "other"); string l = rdline(ob.out, 60000);
			if(l != "R"){ fail = l.size() > 2 && l[0] == 'F' ? l.substr(2) : "the other program failed: " + reason(ob.err); }
			else{ string u = root + "/d1/used.shm"; if(symlink(u.c_str(), (root + "/d1/usedln.shm").c_str())){} if(link(u.c_str(), (root + "/d2/usedhard.shm").c_str())){} }
		}
		bool once = false, odd = false; string last;
		if(fail.empty()){
			Pr s = start(root, base + "/case", base + "/err", "subject"); bool done = false; int hung = 0;
			for(;;){
				string l = rdline(s.out, 60000); if(l.empty()){ break; }
				if(l == "T"){ hung = 1; break; }
				if(l[0] == 'O'){ last = l.substr(2); }
				else if(l[0] == 'C'){ int k = atoi(l.c_str() + 2); if(k >= 0 && k < NCLS){ r.cls[k]++; } if(k == CL_LOADOK || k == CL_RIOK){ once = true; } if(k == CL_MALF || k == CL_RIREF || k == CL_RIFAIL || k == CL_LOADFAIL){ odd = true; } }
				else if(l[0] == 'F'){ fail = l.substr(2); }
				else if(l[0] == 'D'){ done = true; }
			}
			if(hung){ kill(s.pid, SIGKILL); fail = "does not return: in " + last; }
			close(s.in); close(s.out); int st = 0; while(waitpid(s.pid, &st, 0) < 0 && errno == EINTR){}
			if(fail.empty() && (!done || !WIFEXITED(st) || WEXITSTATUS(st))){
				if(WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79)){ r.inconclusive = 1; r.msg = "program not started"; }
				else{ char b[100]; if(WIFSIGNALED(st)){ snprintf(b, sizeof(b), "signal %d", WTERMSIG(st)); }else{ snprintf(b, sizeof(b), "exit code %d", WEXITSTATUS(st)); } fail = string("crash: ") + (done ? "at the end of the program" : "in " + last) + ", " + b + " " + reason(s.err); }
			}
		}
		if(ob.pid > 0){
			close(ob.in); string l = rdline(ob.out, 60000); if(fail.empty() && l != "D"){ fail = !l.empty() && l[0] == 'F' ? l.substr(2) : "the other program failed: " + reason(ob.err); }
			close(ob.out); kill(ob.pid, SIGKILL); int st; while(waitpid(ob.pid, &st, 0) < 0 && errno == EINTR){}
		}
		if(fail.empty()){ for(auto& x : sums){ if(content(x.first) != x.second){ fail = "damaged file: a foreign file that its user has locked was changed (" + x.first.substr(root.size()) + ")"; } } }
		for(int fd : held){ close(fd); }
		chmod((root + "/none").c_str(), 0777); chmod((root + "/ro").c_str(), 0777); rm_tree(base);
		if(!fail.empty()){ r.fail = 1; r.msg = fail; }
		r.nontrivial = once && odd; r.steps = c.ops.size();
	}
	int child(int argc, char** argv) override {
		if(argc < 2 || !g_root){ return 3; }
		std::ifstream in(argv[1]); std::ostringstream o; o << in.rdbuf(); Case c; string pr; if(!c.parse(o.str(), pr)){ return 79; }
		if(!strcmp(argv[0], "other")){ return obs_main(c); }
		struct stat st;
		if(c.get("obs") && !__real_stat((string(g_root) + "/d1/used.shm").c_str(), &st)){ g_obs = true; g_obsino = st.st_ino; for(int i = 0; i < 6; i++){ char k[4] = {'o', (char)('0' + i), 0}; g_obscnt[i] = c.get(k); } }
		if(c.get("foreign")){ for(auto n : {"empty.shm", "garb.shm", "short.shm", "cut.shm"}){ if(!__real_stat((string(g_root) + "/d1/" + n).c_str(), &st)){ g_foreign.insert(st.st_ino); } } }
		run_child(c); say("D"); return 0;
	}
};
PropReg r16(new C16);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }

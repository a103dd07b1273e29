#include "core.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

using std::string;
using std::vector;

//---------------------------------------------------------------- cases
static string esc(const string& s)
{
	string o; char b[8];
	for(unsigned char c : s){
		if(c <= ' ' || c == '%' || c >= 127){ snprintf(b, sizeof(b), "%%%02x", c); o += b; }else{ o += (char)c; }
	}
	return o.empty() ? "%" : o;
}
static string unesc(const string& s)
{
	if(s == "%"){ return ""; }
	string o;
	for(size_t i = 0; i < s.size(); i++){
		if(s[i] == '%' && i + 2 < s.size() + 0 + 0 && i + 2 <= s.size() - 1){ o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
		else{ o += s[i]; }
	}
	return o;
}

string Case::text(const char* prop) const
{
	std::ostringstream o;
	o << "property " << prop << "\n";
	for(auto& c : cfg){ o << "cfg " << c.first << " " << c.second << "\n"; }
	for(auto& s : strs){ o << "str " << esc(s) << "\n"; }
	for(auto& p : ops){
		o << "op " << p.id << " " << p.agent << " " << p.kind << " " << p.pair;
		for(int i = 0; i < 4; i++){ o << " " << p.a[i]; }
		o << "\n";
	}
	for(auto& p : pre){ o << "pre " << p.agent << " " << p.opid << " " << p.step << " " << p.target << "\n"; }
	return o.str();
}

bool Case::parse(const string& txt, string& prop)
{
	std::istringstream in(txt); string line;
	while(std::getline(in, line)){
		std::istringstream l(line); string k; l >> k;
		if(k == "property"){ l >> prop; }
		else if(k == "cfg"){ string n; long v; l >> n >> v; cfg[n] = v; }
		else if(k == "str"){ string v; l >> v; strs.push_back(unesc(v)); }
		else if(k == "op"){ Op p; l >> p.id >> p.agent >> p.kind >> p.pair; for(int i = 0; i < 4; i++){ l >> p.a[i]; } ops.push_back(p); }
		else if(k == "pre"){ vs::Pre p; l >> p.agent >> p.opid >> p.step >> p.target; pre.push_back(p); }
	}
	return !prop.empty();
}

uint64_t Case::hash() const
{
	uint64_t h = 1469598103934665603ULL;
	for(char c : text("")){ h ^= (unsigned char)c; h *= 1099511628211ULL; }
	return h;
}

void Prop::vary(Rng& r, Case& c, const vector<int>& opsteps, int k)
{
	// a few preemption points, uniform over the measured operation steps
	c.pre.clear();
	uint64_t tot = 0; vector<std::pair<uint64_t, const Op*>> cum;
	for(auto& o : c.ops){ int s = o.id < (int)opsteps.size() ? opsteps[o.id] : 0; if(s > 0){ tot += (uint64_t)s; cum.push_back({tot, &o}); } }
	long nag = c.get("agents", 2);
	if(!tot || nag < 2){ return; }
	int n = 1 + k % 4; if(r.chance(1, 5)){ n += r.range(1, 6); }
	for(int i = 0; i < n; i++){
		uint64_t x = r.next() % tot;
		uint64_t prev = 0;
		for(auto& e : cum){
			if(x < e.first){
				int t = r.range(0, (int)nag - 2); if(t >= e.second->agent){ t++; }
				c.pre.push_back({e.second->agent, e.second->id, (int)(x - prev), t});
				break;
			}
			prev = e.first;
		}
	}
}

//---------------------------------------------------------------- registry
static vector<Prop*>& props() { static vector<Prop*> v; return v; }
void register_prop(Prop* p) { props().push_back(p); }
Prop* find_prop(const string& id) { for(auto p : props()){ if(id == p->id()){ return p; } } return nullptr; }

//---------------------------------------------------------------- scratch
static string g_scratch, g_wscratch;
string scratch_dir() { return g_wscratch; }

static int rmcb(const char* p, const struct stat*, int, struct FTW*) { return remove(p), 0; }
void rm_tree(const string& d)
{
	if(d.size() < 8 || d.find("/flv.") == string::npos){ return; }
	nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS);
}
static void make_scratch()
{
	const char* bases[] = {"/dev/shm", "/tmp", nullptr};
	for(int i = 0; bases[i]; i++){
		char b[64]; snprintf(b, sizeof(b), "%s/flv.XXXXXX", bases[i]);
		if(mkdtemp(b)){ g_scratch = b; chmod(b, 0755); return; }
	}
	perror("mkdtemp"); exit(3);
}
static void make_wscratch(int w)
{
	g_wscratch = g_scratch + "/w" + std::to_string(w);
	mkdir(g_wscratch.c_str(), 0777); chmod(g_wscratch.c_str(), 0777);
}

//---------------------------------------------------------------- driver
struct Shared {
	volatile uint64_t next;
	volatile uint64_t minfail;
};
enum { MAXHASH = 1 << 20, NSAMP = 2, SAMPSZ = 6000, FAILSZ = 1 << 16 };
struct WRes {
	uint64_t evals, nontriv, inconclusive, unrepro, skipped, steps, switches, preempts, crashes, knownhits;
	uint64_t cls[NCLS];
	uint64_t nhash;
	uint64_t failidx;
	int      done;
	char     failtext[FAILSZ];
	char     failmsg[1200];
	char     known[8][64];
	int      nknown;
	int      nsamp;
	char     samp[NSAMP][SAMPSZ];
	uint64_t hashes[MAXHASH];
};

static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD1342543DE82EF95ULL)); return r.next(); }
static uint64_t hstr(const char* s) { uint64_t h = 5381; for(; *s; s++){ h = h * 33 + (unsigned char)*s; } return h; }

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

static void eval(Prop* p, const Case& c, WRes* w, RunResult& r, bool sample)
{
	p->run(c, r);
	if(r.inconclusive){ w->inconclusive++; RunResult r2; p->run(c, r2); r = r2; if(r.inconclusive){ w->inconclusive++; } }
	w->evals++; w->steps += r.steps; w->switches += r.switches; w->preempts += r.preempts; w->crashes += r.crashes;
	for(int i = 0; i < NCLS; i++){ w->cls[i] += r.cls[i]; }
	if(r.nontrivial){
		w->nontriv++;
		if(w->nhash < MAXHASH){ w->hashes[w->nhash++] = c.hash(); }
		if(sample && w->nsamp < NSAMP){ snprintf(w->samp[w->nsamp++], SAMPSZ, "%s", c.text(p->id()).c_str()); }
	}
	if(!r.known.empty()){
		w->knownhits++;
		bool have = false;
		for(int i = 0; i < w->nknown; i++){ if(r.known == w->known[i]){ have = true; } }
		if(!have && w->nknown < 8){ snprintf(w->known[w->nknown++], 64, "%s", r.known.c_str()); }
	}
}

static bool confirm(Prop* p, const Case& c, WRes* w, const std::string& msg = "")
{
	for(int i = 0; i < 3; i++){
		RunResult r; p->run(c, r);
		if(!r.fail){ if(w){ w->unrepro++; if(getenv("FLV_SHOW")){ fprintf(stderr, "not reproduced (%d): %s\n%s", i, msg.c_str(), c.text(p->id()).c_str()); } } return false; }
	}
	return true;
}

static void worker(Prop* p, Shared* sh, WRes* w, int wi, uint64_t seed, bool thorough, uint64_t n, double deadline)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	make_wscratch(wi);
	for(;;){
		uint64_t i = __atomic_fetch_add(&sh->next, 1, __ATOMIC_SEQ_CST);
		if(i >= n || i > sh->minfail){ break; }
		if(deadline > 0 && now_s() > deadline){ w->skipped++; continue; }
		uint64_t ps = mix(mix(seed, hstr(p->id())), i);
		Rng rg(ps);
		Case base; p->gen(rg, base, i);
		RunResult r0; eval(p, base, w, r0, i < 40);
		Case bad; RunResult* br = nullptr; bool have = false;
		if(r0.fail){ bad = base; br = &r0; have = confirm(p, bad, w, br->msg); }
		RunResult rk;
		int nv = have ? 0 : p->variants(thorough);
		for(int k = 0; k < nv && i <= sh->minfail; k++){
			Rng rv(mix(ps, 77 + (uint64_t)k));
			Case c = base; p->vary(rv, c, r0.opsteps, k);
			rk = RunResult();
			eval(p, c, w, rk, true);
			if(rk.fail && confirm(p, c, w, rk.msg)){ bad = c; br = &rk; have = true; break; }
		}
		if(have){
			uint64_t m = sh->minfail;
			while(i < m && !__atomic_compare_exchange_n(&sh->minfail, &m, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)){}
			if(i < w->failidx){
				w->failidx = i;
				snprintf(w->failtext, FAILSZ, "%s", bad.text(p->id()).c_str());
				snprintf(w->failmsg, sizeof(w->failmsg), "%s", br->msg.c_str());
			}
		}
	}
	w->done = 1;
	_exit(0);
}

static string msgclass(const string& m) { size_t k = m.find(':'); return k == string::npos ? m : m.substr(0, k); }

static bool still(Prop* p, const Case& c, const string& cls, int& budget, double deadline)
{
	if(budget <= 0 || now_s() > deadline || !p->shrink_ok(c)){ return false; }
	budget--;
	RunResult r; p->run(c, r);
	return r.fail && msgclass(r.msg) == cls;
}

static Case shrink(Prop* p, Case c, const string& msg)
{
	string cls = msgclass(msg);
	int budget = 1500; double deadline = now_s() + 60;
	bool progress = true;
	while(progress && budget > 0 && now_s() < deadline){
		progress = false;
		// preemption points
		for(size_t chunk = std::max<size_t>(1, c.pre.size() / 2); chunk >= 1; chunk /= 2){
			for(size_t i = 0; i < c.pre.size();){
				Case d = c; d.pre.erase(d.pre.begin() + (long)i, d.pre.begin() + (long)std::min(i + chunk, d.pre.size()));
				if(still(p, d, cls, budget, deadline)){ c = d; progress = true; }else{ i += chunk; }
			}
			if(chunk == 1){ break; }
		}
		// groups of operations (a lock with its unlock), in halves
		vector<int> groups;
		for(auto& o : c.ops){ int g = o.pair ? o.pair : -1 - o.id; if(std::find(groups.begin(), groups.end(), g) == groups.end()){ groups.push_back(g); } }
		for(size_t chunk = std::max<size_t>(1, groups.size() / 2); chunk >= 1; chunk /= 2){
			for(size_t i = 0; i < groups.size();){
				std::set<int> rm(groups.begin() + (long)i, groups.begin() + (long)std::min(i + chunk, groups.size()));
				Case d = c; vector<Op> keep;
				for(auto& o : c.ops){ int g = o.pair ? o.pair : -1 - o.id; if(!rm.count(g)){ keep.push_back(o); } }
				d.ops = keep;
				if(still(p, d, cls, budget, deadline)){
					c = d; progress = true;
					groups.erase(groups.begin() + (long)i, groups.begin() + (long)std::min(i + chunk, groups.size()));
				}else{ i += chunk; }
			}
			if(chunk == 1){ break; }
		}
		vector<Case> cand; p->simplify(c, cand);
		for(auto& d : cand){ if(still(p, d, cls, budget, deadline)){ c = d; progress = true; break; } }
	}
	return c;
}

static string jstr(const string& s)
{
	string o = "\"";
	for(unsigned char c : s){
		char b[8];
		if(c == '"' || c == '\\'){ o += '\\'; o += (char)c; }
		else if(c == '\n'){ o += "\\n"; }
		else if(c < 32 || c > 126){ snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else{ o += (char)c; }
	}
	return o + "\"";
}

static string slurp(const string& f) { std::ifstream in(f); std::ostringstream o; o << in.rdbuf(); return o.str(); }

// known-findings.txt: "finding: property=<id> id=<fid> <description>"
struct Finding { string prop, id, text; };
static vector<Finding> findings(const string& home)
{
	vector<Finding> v; std::ifstream in(home + "/known-findings.txt"); string line;
	while(std::getline(in, line)){
		if(line.compare(0, 9, "finding: ") != 0){ continue; }
		Finding f; std::istringstream l(line.substr(9)); string a, b; l >> a >> b;
		if(a.compare(0, 9, "property=") || b.compare(0, 3, "id=")){ continue; }
		f.prop = a.substr(9); f.id = b.substr(3); std::getline(l, f.text);
		v.push_back(f);
	}
	return v;
}

static bool g_known_listed(const vector<Finding>& fs, const string& prop, const string& id)
{
	for(auto& f : fs){ if(f.prop == prop && f.id == id){ return true; } }
	return false;
}
static vector<Finding> g_findings;
bool finding_listed(const char* prop, const char* id) { return g_known_listed(g_findings, prop, id); }

static int do_check(const string& id, const string& home)
{
	Prop* p = find_prop(id);
	if(!p){ fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
	const char* es = getenv("VERIF_SEED"); uint64_t seed = es ? strtoull(es, nullptr, 10) : 1;
	const char* et = getenv("VERIF_TIER"); bool thorough = et && !strcmp(et, "thorough");
	const char* en = getenv("FLV_PROGRAMS");
	uint64_t n = en ? strtoull(en, nullptr, 10) : (uint64_t)p->programs(thorough);
	if(const char* ed = getenv("FLV_DIV")){ n = n / std::max(1, atoi(ed)) + 1; }
	double t0 = now_s();
	// a cap far above the normal duration: what is left out is reported as skipped
	const char* ec = getenv("FLV_CAP"); double cap = ec ? atof(ec) : (thorough ? 720 : 420);
	double deadline = t0 + cap;
	g_findings = findings(home);

	cpu_set_t all; CPU_ZERO(&all); sched_getaffinity(0, sizeof(all), &all);
	vector<int> cpus; for(int i = 0; i < CPU_SETSIZE; i++){ if(CPU_ISSET(i, &all)){ cpus.push_back(i); } }
	const char* ew = getenv("FLV_WORKERS");
	int nw = ew ? atoi(ew) : (int)std::min<size_t>(cpus.size(), 8); if(nw < 1){ nw = 1; }

	Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	WRes*   wr = (WRes*)mmap(nullptr, sizeof(WRes) * (size_t)nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	sh->next = 0; sh->minfail = ~0ULL;
	vector<pid_t> pids;
	fflush(stdout);
	for(int w = 0; w < nw; w++){
		wr[w].failidx = ~0ULL;
		pid_t c = fork();
		if(c == 0){
			cpu_set_t one; CPU_ZERO(&one); CPU_SET(cpus[(size_t)w % cpus.size()], &one);
			sched_setaffinity(0, sizeof(one), &one);
			worker(p, sh, &wr[w], w, seed, thorough, n, deadline);
		}
		pids.push_back(c);
	}
	bool err = false;
	for(auto c : pids){ int st; waitpid(c, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)){ err = true; fprintf(stderr, "worker ended abnormally: %x\n", st); } }

	static WRes tot;
	std::unordered_set<uint64_t> dist;
	int fw = -1; std::set<string> known;
	for(int w = 0; w < nw; w++){
		WRes& a = wr[w];
		tot.evals += a.evals; tot.nontriv += a.nontriv; tot.inconclusive += a.inconclusive; tot.unrepro += a.unrepro; tot.skipped += a.skipped;
		tot.steps += a.steps; tot.switches += a.switches; tot.preempts += a.preempts; tot.crashes += a.crashes; tot.knownhits += a.knownhits;
		for(int i = 0; i < NCLS; i++){ tot.cls[i] += a.cls[i]; }
		for(uint64_t i = 0; i < a.nhash; i++){ dist.insert(a.hashes[i]); }
		for(int i = 0; i < a.nknown; i++){ known.insert(a.known[i]); }
		if(a.failidx != ~0ULL && (fw < 0 || a.failidx < wr[fw].failidx)){ fw = w; }
	}
	make_wscratch(99);
	// canonical demonstrations of the recorded findings of this property
	vector<string> klines;
	for(auto& f : g_findings){
		if(f.prop != id){ continue; }
		bool shown = known.count(f.id) > 0;
		string txt = slurp(home + "/known/" + f.id + ".case");
		if(!txt.empty()){
			Case c; string pr;
			if(c.parse(txt, pr)){ RunResult r; p->run(c, r); if(r.known == f.id){ shown = true; } }
		}
		if(shown){ klines.push_back("KNOWN-FINDING: property=" + id + " " + f.id + f.text); }
		else{ fprintf(stderr, "note: recorded finding %s did not show up in this run\n", f.id.c_str()); }
	}
	string replay; string vmsg;
	if(fw >= 0){
		Case c; string pr; c.parse(wr[fw].failtext, pr);
		vmsg = wr[fw].failmsg;
		Case s = shrink(p, c, vmsg);
		if(!confirm(p, s, nullptr)){ s = c; }
		RunResult r; p->run(s, r); if(r.fail){ vmsg = r.msg; }
		mkdir((home + "/replays").c_str(), 0777);
		replay = home + "/replays/" + id + "-" + std::to_string(seed) + "-" + std::to_string(wr[fw].failidx) + ".case";
		std::ofstream o(replay); o << "# " << vmsg << "\n# replay with: /verif/check.sh replay " << replay << "\n" << s.text(p->id());
	}
	double wall = now_s() - t0;

	// evidence
	mkdir((home + "/evidence").c_str(), 0777);
	std::ofstream o(home + "/evidence/" + id + ".json");
	o << "{\n \"property\": " << jstr(id) << ",\n \"tier\": " << (thorough ? "\"thorough\"" : "\"quick\"") << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
	o << "  \"evaluations\": " << tot.evals << ",\n  \"distinct_nontrivial\": " << dist.size() << ",\n  \"nontrivial\": " << tot.nontriv << ",\n";
	o << "  \"rule\": " << jstr(p->rule()) << ",\n";
	o << "  \"programs\": " << n << ",\n  \"programs_skipped_by_time_cap\": " << tot.skipped << ",\n  \"scheduling_points\": " << tot.steps << ",\n  \"context_switches\": " << tot.switches << ",\n";
	o << "  \"preemptions_taken\": " << tot.preempts << ",\n  \"crashes_injected\": " << tot.crashes << ",\n  \"inconclusive\": " << tot.inconclusive << ",\n  \"unreproduced\": " << tot.unrepro << ",\n  \"known_finding_hits\": " << tot.knownhits << ",\n";
	o << "  \"classes\": {";
	auto names = p->classes();
	for(size_t i = 0; i < names.size(); i++){ o << (i ? ", " : "") << jstr(names[i]) << ": " << tot.cls[i]; }
	o << "},\n  \"samples\": [";
	bool first = true; int ns = 0;
	for(int w = 0; w < nw && ns < 4; w++){ for(int i = 0; i < wr[w].nsamp && ns < 4; i++){ o << (first ? "" : ", ") << jstr(wr[w].samp[i]); first = false; ns++; } }
	o << "]\n },\n \"assumptions\": [";
	first = true; for(auto& a : p->assumptions()){ o << (first ? "" : ", ") << jstr(a); first = false; }
	o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (fw >= 0 ? 1 : 0) << "\n}\n";
	o.close();

	for(auto& k : klines){ printf("%s\n", k.c_str()); }
	printf("%s: %lu cases, %zu distinct non-trivial, %lu points, %lu switches, %lu preemptions, %lu crashes, %lu inconclusive, %lu unreproduced, %.1f s\n", id.c_str(), (unsigned long)tot.evals, dist.size(),
		(unsigned long)tot.steps, (unsigned long)tot.switches, (unsigned long)tot.preempts, (unsigned long)tot.crashes, (unsigned long)tot.inconclusive, (unsigned long)tot.unrepro, wall);
	for(size_t i = 0; i < names.size(); i++){ printf("  %-40s %lu\n", names[i], (unsigned long)tot.cls[i]); }
	if(fw >= 0){
		printf("%s\n", vmsg.c_str());
		printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
		return 1;
	}
	if(err){ return 3; }
	return 0;
}

static int do_replay(const string& file, const string& home)
{
	g_findings = findings(home);
	Case c; string pr; if(!c.parse(slurp(file), pr)){ fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
	Prop* p = find_prop(pr); if(!p){ return 3; }
	make_wscratch(0);
	RunResult r; p->run(c, r);
	if(!r.known.empty()){ printf("KNOWN-FINDING: property=%s %s\n", pr.c_str(), r.known.c_str()); }
	printf("steps %lu switches %lu preempts %lu crashes %lu\n", (unsigned long)r.steps, (unsigned long)r.switches, (unsigned long)r.preempts, (unsigned long)r.crashes);
	if(r.inconclusive){ printf("inconclusive: %s\n", r.msg.c_str()); }
	if(r.fail){ printf("%s\nVIOLATION property=%s replay=%s\n", r.msg.c_str(), pr.c_str(), file.c_str()); return 1; }
	printf("holds\n");
	return 0;
}

static string g_home;
static pid_t  g_main;
static void cleanup() { if(getpid() == g_main){ rm_tree(g_scratch); } }
static void onsig(int) { if(getpid() == g_main){ rm_tree(g_scratch); } _exit(3); }

int main(int argc, char** argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	const char* h = getenv("FLV_HOME"); g_home = h ? h : "/verif";
	if(argc < 3){ for(auto p : props()){ printf("%s\n", p->id()); } return 3; }
	if(!strcmp(argv[1], "child")){ Prop* p = find_prop(argv[2]); return p ? p->child(argc - 3, argv + 3) : 3; }
	g_main = getpid();
	make_scratch(); atexit(cleanup);
	signal(SIGTERM, onsig); signal(SIGINT, onsig);
	string cmd = argv[1];
	if(cmd == "check"){ return do_check(argv[2], g_home); }
	if(cmd == "replay"){ return do_replay(argv[2], g_home); }
	if(cmd == "gen"){                  // print case i of a property
		Prop* p = find_prop(argv[2]); const char* es = getenv("VERIF_SEED"); uint64_t seed = es ? strtoull(es, nullptr, 10) : 1;
		uint64_t i = argc > 3 ? strtoull(argv[3], nullptr, 10) : 0;
		Rng rg(mix(mix(seed, hstr(p->id())), i)); Case c; p->gen(rg, c, i); printf("%s", c.text(p->id()).c_str());
		return 0;
	}
	return 3;
}

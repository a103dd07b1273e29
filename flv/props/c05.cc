// C05: identity of locks.  Histories of try/unlock/query calls over colliding
// and near-equal names, files with near-equal identities reached in many ways
// and close ranges; any mix-up shows as a wrong answer of a try call.
#include "exec.h"
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int __real_open(const char*, int, ...);
extern "C" int __real_fstat(int, struct stat*);

namespace {
enum { NOFD = 100, NSLOT = 10, MAXID = 32, K_REPLACE = K_USER };
struct Hold { int agent, mutex, id, slot, range, write, rr; };
struct Model { Hold h[300]; int n; int slotid[vs::MAXA][32]; uint64_t dev[MAXID], ino[MAXID]; int nid; int used[16]; uint32_t alias, near_; };

// pairs with equal 64 bit FNV-1a hashes
const char* COLL[][2] = {
	{"8*T~%gM5.,p-SG", "9!?$ceA<Xd1;\\G"}, {"bncgMI,z%N4?m>EXyI", "bncgLF)03^.0[&B0zI"}, {"nhd_T`G3P:zI0Q", "cW_N!d\\n(h5K:Q"},
	{"tjxq$h8*7|4%&2cAz.", "tjxq9c{#\"P3*\"l.Cd."}, {"\"Bst.odxdU?b[;", ",G4(7u0zzP@.=>"}, {"3YdnG?3_4;i,V6", "1*)>L%eC>$4lJ3"},
};

struct C05 : SchedProp {
	Model* M() { return (Model*)vs::C->model; }
	size_t model_size() const override { return sizeof(Model); }
	const char* id() const override { return "C05"; }
	const char* rule() const override { return "random histories of 20-90 try, unlock and query calls by 2-4 agents in 2-4 processes over 2-8 names (equal hashes, common prefixes around the significant length, empty name, case variants), 2-4 files (own opens, hard and symbolic links, duplicates, reopened through /proc, renamed and replaced paths, descriptor numbers that mean different files in different processes, device/inode pairs differing in single bits) and up to 20 ranges (adjacent, beyond 4 GiB, groups of ranges that overlap each other), against a model keyed by identity; non-trivial: the history asks for an object that is held under another name, descriptor or link, and for one whose neighbour (same hash or prefix, other file, other range) is held"; }
	std::vector<const char*> classes() const override { return {"asked for a held object through an alias", "asked for a free object next to a held one", "cases with equal hashes", "cases with names beyond the significant length", "cases with forged device/inode pairs", "paths replaced", "cases with overlapping ranges"}; }
	int programs(bool t) const override { return t ? 1500000 : 120000; }
	int variants(bool) const override { return 0; }
	int g_cl[32];
	static std::string canon(const std::string& s) { return s.substr(0, 63); }
	void gen(Rng& r, Case& c, uint64_t) override {
		int nag = r.range(2, 4); c.cfg["agents"] = nag; c.cfg["script"] = 1;
		for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i < 2 ? i : r.range(0, i); }
		{ int mx = 0; for(int i = 0; i < nag; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); if(c.cfg[b] > mx + 1){ c.cfg[b] = mx + 1; } mx = std::max(mx, (int)c.cfg[b]); } }
		c.cfg["fcnt"] = 16; c.cfg["ocnt"] = 64; c.cfg["lcnt"] = 128; c.cfg["mcnt"] = 32; c.cfg["robust"] = r.range(0, 2); c.cfg["chk"] = 50; c.cfg["free"] = r.range(0, 2);
		// names
		int what = r.range(0, 5);
		if(what == 0 || what == 1){ int n = r.range(1, 3); for(int i = 0; i < n; i++){ auto& p = COLL[r.range(0, 5)]; std::string suf = r.chance(1, 2) ? "" : std::string((size_t)r.range(1, 30), 's'); c.strs.push_back(p[0] + suf); c.strs.push_back(p[1] + suf); } c.cfg["coll"] = 1; }
		if(what == 1 || what == 2){
			std::string base; int bl = r.range(58, 66); for(int i = 0; i < bl; i++){ base += (char)('a' + r.range(0, 25)); }
			int n = r.range(2, 5); for(int i = 0; i < n; i++){ std::string s = base.substr(0, (size_t)r.range(bl - 3, bl)); int x = r.range(0, 5); while(x-- > 0){ s += (char)('A' + r.range(0, 1)); } if(r.chance(1, 4)){ s += std::string(200, 'z'); } c.strs.push_back(s); }
			c.cfg["longn"] = 1;
		}
		if(what == 3 || what == 4 || c.strs.empty()){
			std::string b = "n"; int n = r.range(2, 6); for(int i = 0; i < n; i++){ std::string s; int l = r.range(0, 3); for(int k = 0; k < l; k++){ s += "abAB/ ."[r.range(0, 6)]; } c.strs.push_back(s); }
			if(r.chance(1, 3)){ c.strs.push_back(""); }
		}
		// files
		int nf = r.range(2, 4); c.cfg["nfiles"] = nf; c.cfg["slotseed"] = r.range(0, 1 << 20);
		c.cfg["spoof"] = r.chance(1, 2) ? r.range(1, 6) : 0;
		// ranges
		int nr = r.range(2, 6); std::vector<std::pair<long, long>> v; long off = r.chance(1, 2) ? 0 : r.range(1, 50);
		for(int i = 0; i < nr; i++){ long len = r.chance(1, 2) ? 1 : (r.chance(1, 8) ? 5000000000L : r.range(2, 40)); v.push_back({off, len}); off += len + (r.chance(2, 3) ? 0 : r.range(1, 9)); }
		if(r.chance(1, 3)){ v.push_back({(1L << 32) + v[0].first + (off > (1L << 32) ? (1L << 40) : 0), v[0].second == 5000000000L ? 3 : v[0].second}); if(v[0].first + v[0].second > (1L << 32) || off > (1L << 32)){ v.back().first = off + 1; } }
		// overlapping ranges: within a group all of them have one position in common, groups are disjoint
		std::vector<int> cl; for(size_t i = 0; i < v.size(); i++){ cl.push_back((int)i); }
		if(r.chance(2, 5)){
			c.cfg["olap"] = 1; overlap_groups(r, v, cl, 20);
		}
		nr = (int)v.size();
		for(int i = 0; i < nr; i++){ size_t j = (size_t)r.range(i, nr - 1); std::swap(v[(size_t)i], v[j]); std::swap(cl[(size_t)i], cl[j]); char e[16]; snprintf(e, sizeof(e), "cl%d", i); if(c.cfg.count("olap")){ c.cfg[e] = cl[(size_t)i]; } j = (size_t)i; std::swap(v[(size_t)i], v[j]); char b[16], d[16]; snprintf(b, sizeof(b), "ro%d", i); snprintf(d, sizeof(d), "rl%d", i); c.cfg[b] = v[(size_t)i].first; c.cfg[d] = v[(size_t)i].second; }
		bool names = r.chance(2, 3), rws = !names || r.chance(1, 2); bool nofd = r.chance(1, 4);
		int n = r.range(20, 90); int focus = r.range(0, 2);
		for(int i = 0; i < n; i++){
			int a = r.range(0, nag - 1);
			bool mu = names && (!rws || r.chance(1, 2));
			if(mu){ int nm = r.range(0, (int)c.strs.size() - 1); c.add(a, r.chance(3, 5) ? K_MTRY : K_MUNLOCK, nm); continue; }
			int slot = nofd && r.chance(1, 4) ? NOFD : r.range(0, NSLOT - 1), rg = focus ? r.range(0, std::min(nr, c.cfg.count("olap") ? 6 : 3) - 1) : r.range(0, nr - 1);
			int x = r.range(0, 99);
			if(x < 3){ c.add(a, K_REPLACE, r.range(0, nf - 1)); }
			else if(x < 10){ c.add(a, K_OPEN, NSLOT + r.range(0, 5), r.range(0, nf - 1), r.range(0, 5)); }
			else{ if(r.chance(1, 8) && slot < NOFD){ slot = NSLOT + r.range(0, 5); } c.add(a, x < 35 ? K_WTRY : (x < 55 ? K_RTRY : (x < 85 ? K_RWUNLOCK : K_ISLOCKED)), slot, rg); }
		}
	}
	static std::string path(int f, int how) { char b[64]; static const char* k[] = {"data", "hard", "sym", "data", "data", "sub/../data"}; snprintf(b, sizeof(b), "/%s%d", k[how], f); return case_dir() + b; }
	void prepare(const Case& c) override {
		int nf = (int)c.get("nfiles"); mkdir((case_dir() + "/sub").c_str(), 0777);
		int sp = (int)c.get("spoof"); struct stat st0;
		for(int f = 0; f < nf; f++){
			int fd = __real_open(path(f, 0).c_str(), O_RDWR | O_CREAT, 0666); struct stat st; __real_fstat(fd, &st); close(fd);
			if(f == 0){ st0 = st; }
			if(link(path(f, 0).c_str(), path(f, 1).c_str()) || symlink(path(f, 0).c_str(), path(f, 2).c_str())){ vs::C->fail = 1; snprintf(vs::C->msg, sizeof(vs::C->msg), "HARNESS: links"); }
			if(!sp){ continue; }
			uint64_t d = st0.st_dev, n = st0.st_ino; uint64_t q = (uint64_t)f;
			vs::C->spoofdev = st0.st_dev; auto& s = vs::C->spoof[vs::C->nspoof++]; s.real = st.st_ino;
			switch(sp){
			case 1: s.dev = d + q; s.ino = n; break;                      // same inode number on several devices
			case 2: s.dev = d; s.ino = n + (q << 32); break;              // inode numbers equal in the low half
			case 3: s.dev = d + (q << 32); s.ino = n; break;
			case 4: s.dev = d + q; s.ino = n + (3 - q); break;            // equal sums
			case 5: s.dev = d + (q & 1); s.ino = n + (q >> 1); break;
			default: s.dev = (uint64_t)(f & 1 ? n : d); s.ino = (f & 1 ? d : n) + (f >> 1 ? 1ULL << 40 : 0); break;     // exchanged
			}
		}
	}
	static bool meets(int a, int b) { const Range &x = g_ranges[(size_t)a], &y = g_ranges[(size_t)b]; return x.off < y.off + y.len && y.off < x.off + x.len; }
	// only the recorded case has ranges that overlap without all overlapping each other (cfg chain)
	void classify(const Case& c, RunResult& r) override { if(r.fail && c.get("chain") && finding_listed("C05", "F05a")){ r.fail = 0; r.known = "F05a"; r.nontrivial = 0; } }
	static uint32_t mixs(uint32_t x) { x ^= x >> 16; x *= 0x7feb352dU; x ^= x >> 15; x *= 0x846ca68bU; x ^= x >> 16; return x; }
	int do_open(int g, int f, int how, int same) {          // same: an open slot of the same file, or -1
		(void)g;
		if(how == 3 && same >= 0){ return dup(g_fd[same]); }
		if(how == 4 && same >= 0){ char b[64]; snprintf(b, sizeof(b), "/proc/self/fd/%d", g_fd[same]); return __real_open(b, O_RDWR, 0); }
		return __real_open(path(f, how).c_str(), how == 2 ? O_RDONLY : (O_RDWR | O_CREAT), 0666);
	}
	int ident(int fd) {
		struct stat st; if(__real_fstat(fd, &st)){ return -1; }
		Model* m = M();
		for(int i = 0; i < m->nid; i++){ if(m->dev[i] == (uint64_t)st.st_dev && m->ino[i] == (uint64_t)st.st_ino){ return i; } }
		if(m->nid >= MAXID){ vs::fail("MODEL: ids"); }
		m->dev[m->nid] = st.st_dev; m->ino[m->nid] = st.st_ino; return m->nid++;
	}
	bool child_init(const Case& c, int g) override {
		if(!lib_attach(c, case_dir().c_str())){ return false; }
		int nf = (int)c.get("nfiles"); uint32_t sd = (uint32_t)c.get("slotseed");
		for(int s = 0; s < NSLOT; s++){
			int f = (s + g) % nf, same = -1; for(int q = 0; q < s; q++){ if((q + g) % nf == f){ same = q; } }
			g_fd[s] = do_open(g, f, (int)(mixs(sd + (uint32_t)(g * 64 + s)) % 6), same);
			if(g_fd[s] < 0){ return false; }
			M()->slotid[g][s] = ident(g_fd[s]);
		}
		for(int s = NSLOT; s < 32; s++){ M()->slotid[g][s] = -1; }
		return true;
	}
	void init_model(const Case& c) override {
		g_ranges.clear(); for(int i = 0; i < 32; i++){ char b[16]; snprintf(b, sizeof(b), "cl%d", i); g_cl[i] = (int)c.get(b, i); }
		for(int i = 0; i < 32; i++){ char b[16], d[16]; snprintf(b, sizeof(b), "ro%d", i); snprintf(d, sizeof(d), "rl%d", i); auto it = c.cfg.find(b); if(it == c.cfg.end()){ break; } g_ranges.push_back(Range{it->second, c.get(d, 1)}); }
	}
	int canon_idx(const Case& c, int n) { for(int i = 0; i < n; i++){ if(canon(c.strs[(size_t)i]) == canon(c.strs[(size_t)n])){ return i; } } return n; }
	bool enabled(const Case&, int) override { return true; }          // no call here may block
	void run_op(const Case& c, const Op& o, int me) override {
		Model* m = M(); int g = vs::C->a[me].group; int a[4] = {o.a[0], o.a[1], 0, 0};
		if(o.kind == K_REPLACE){
			int f = o.a[0]; std::string p = path(f, 0), q = p + ".old" + std::to_string(o.id);
			if(rename(p.c_str(), q.c_str())){ vs::fail("HARNESS: rename"); } close(__real_open(p.c_str(), O_RDWR | O_CREAT, 0666)); cls(5); return;
		}
		if(o.kind == K_OPEN){
			if(g_fd[o.a[0]] >= 0){ return; }
			int same = -1; if(o.a[2] == 3 || o.a[2] == 4){ same = o.a[1]; }
			g_fd[o.a[0]] = do_open(g, o.a[1], o.a[2], same); if(g_fd[o.a[0]] < 0){ return; }
			m->slotid[g][o.a[0]] = ident(g_fd[o.a[0]]); return;
		}
		if(o.kind == K_MTRY || o.kind == K_MUNLOCK){
			int n = canon_idx(c, o.a[0]), own = 0, other = -1, near_ = 0, last = -1;
			for(int i = 0; i < m->n; i++){ Hold& h = m->h[i]; if(!h.mutex){ continue; } if(h.id != n){ near_ = 1; continue; } if(h.agent == me){ own++; last = i; }else{ other = h.agent; } }
			int rc = lib_call(c, o.kind, a);
			int want = o.kind == K_MTRY ? (other >= 0 ? EBUSY : 0) : (!m->used[n] ? EINVAL : (other >= 0 ? EPERM : 0));
			if((other >= 0 || own) && n != o.a[0]){ cls(0); m->alias++; } if(other >= 0){ m->alias++; } if(other < 0 && near_){ cls(1); m->near_++; }
			if(rc != want){ vs::fail("NAME: agent %d: %s of \"%.80s\" (%s) returned %d instead of %d", me, kind_name(o.kind), c.strs[(size_t)o.a[0]].c_str(), other >= 0 ? "held by another agent under a name with the same first 63 characters" : own ? "held by itself" : m->used[n] ? "free" : "never used", rc, want); }
			if(o.kind == K_MTRY){ m->used[n] = 1; if(!rc){ if(m->n >= 300){ vs::fail("MODEL: holds"); } m->h[m->n++] = Hold{me, 1, n, 0, 0, 0, 0}; } }
			else if(own){ m->h[last] = m->h[--m->n]; }
			return;
		}
		int id = -1;
		if(o.a[0] < NOFD){ id = m->slotid[g][o.a[0]]; if(id < 0){ return; } }
		bool any = false, wr = false, alias = false, near_ = false; int mine = -1;
		for(int i = 0; i < m->n; i++){
			Hold& h = m->h[i]; if(h.mutex){ continue; }
			if(h.id != id || (c.get("chain") ? !meets(h.rr, o.a[1]) : h.range != g_cl[o.a[1]])){ near_ = true; continue; }
			any = true; if(h.write){ wr = true; } if(h.agent != me || h.slot != o.a[0]){ alias = true; }
			if(h.agent == me && h.slot == o.a[0]){ mine = i; }
		}
		int rc = lib_call(c, o.kind, a), want;
		if(alias){ cls(0); m->alias++; } if(!any && near_){ cls(1); m->near_++; }
		switch(o.kind){
		case K_WTRY: want = any ? EBUSY : 0; break;
		case K_RTRY: want = wr ? EBUSY : 0; break;
		case K_RWUNLOCK: want = mine >= 0 ? 0 : EINVAL; break;
		default: want = any ? 1 : 0; break;
		}
		if(rc != want){ vs::fail("FILE: agent %d: %s of file %d range %ld+%ld through slot %d (%s) returned %d instead of %d", me, kind_name(o.kind), id, g_ranges[(size_t)o.a[1]].off, g_ranges[(size_t)o.a[1]].len, o.a[0], any ? (wr ? "write locked" : "read locked") : "free", rc, want); }
		if(rc == 0 && (o.kind == K_WTRY || o.kind == K_RTRY)){ if(m->n >= 300){ vs::fail("MODEL: holds"); } m->h[m->n++] = Hold{me, 0, id, o.a[0], g_cl[o.a[1]], o.kind == K_WTRY, o.a[1]}; }
		if(rc == 0 && o.kind == K_RWUNLOCK){ m->h[mine] = m->h[--m->n]; }
	}
	void finish(const Case& c, RunResult& r) override { Model* m = M(); if(c.get("coll")){ cls(2); } if(c.get("longn")){ cls(3); } if(c.get("spoof")){ cls(4); } if(c.get("olap")){ cls(6); } r.nontrivial = m->alias && m->near_ ? 1 : -1; }
	std::vector<std::string> assumptions() const override { return {"calls are executed one at a time", "overlapping ranges all overlap each other (known finding F05a otherwise)", "different descriptor-less keys are one lock space by design (a locked range without a file); only one key is used"}; }
};
PropReg r5(new C05);
}

// C18: objects of the scoped reader/writer lock class FLRwlRcsv.
//  - histories (script mode): one call at a time, exact model of the nesting,
//    a plain observer process looks at what is really locked
//  - programs: threads of one or two processes use the class at the same time,
//    every memory access of the class being a scheduling point
#include "exec.h"
#include "fullock.h"
#include "rwlockrcsv.h"
#include <errno.h>
#include <new>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" int __real_close(int);

namespace {
enum { K_NEW = K_USER, K_NEWLOCK, K_LOCK5, K_LOCKT, K_LOCK0, K_READ, K_WRITE, K_UNLOCK, K_DEL, K_LOOK, K_SHUT };
enum { NOBJ = 4, NOFD = 100, PAGES = 96 };
struct Obj { int exists, slot, range, type, in, master, pend[NOBJ], np; };
struct M18 {
	Obj o[vs::MAXA][NOBJ];
	int real[vs::MAXA][4][4];              // agent, slot (own: 0, 1; 3: without descriptor), range -> 0, 1 read, 2 write
	int dead[vs::MAXA][2], taint[3];
	int pendw[vs::MAXA][3];                // the lock a blocked agent waits for: slot, range, kind
	int news[vs::MAXA];
	uint32_t nest, up, down, blocked, wild, hand;
};
char g_arena[vs::MAXA * PAGES * 4096] __attribute__((aligned(4096)));
FLRwlRcsv* g_obj[vs::MAXA][NOBJ]; void* g_mem[vs::MAXA][NOBJ];

struct C18 : SchedProp {
	M18* M() { return (M18*)vs::C->model; }
	size_t model_size() const override { return sizeof(M18); }
	const char* id() const override { return "C18"; }
	const char* rule() const override { return "histories of 10-60 operations on up to 4 lock objects per thread (construction with and without lock, all lock members, unlock, change of descriptor and range, destruction in any order, closed descriptors) by 1-3 threads in 1-3 processes, with an observer that tries every range after most of them and an exact model of the nesting; and programs of 2-4 threads that do the same at the same time under preemption at every memory access, some with a fork in the middle; destroyed objects become inaccessible memory; non-trivial: objects were nested and (a reader upgraded, a lock was handed to an inner object, a call blocked, or threads were preempted)"; }
	std::vector<const char*> classes() const override { return {"nested requests", "upgrades", "downgrades", "hand-overs to an inner object", "blocked calls", "observer tries: free", "observer tries: refused", "closed descriptors with objects", "requests on a closed descriptor", "concurrent programs", "forks"}; }
	int programs(bool t) const override { return t ? 900000 : 18000; }
	int variants(bool) const override { return 4; }
	static int sx(int slot) { return slot >= NOFD ? 3 : slot; }
	int fileno_(int slot) { return slot >= NOFD ? 2 : slot; }
	int fd_of(int me, int slot) { return slot >= NOFD ? slot_fd(slot) : g_fd[me * 2 + slot]; }
	bool wild(int me, int slot) { return slot < NOFD && M()->dead[me][slot]; }

	void gen(Rng& r, Case& c, uint64_t) override {
		bool conc = r.chance(2, 5);
		int n = conc ? r.range(2, 4) : r.range(1, 3);
		int nag = conc ? n : n + 1; c.cfg["agents"] = nag; c.cfg["conc"] = conc;
		int ng = conc ? r.range(1, 2) : r.range(1, n);
		for(int i = 0; i < n; i++){ char b[16]; snprintf(b, sizeof(b), "grp%d", i); c.cfg[b] = i < ng ? i : r.range(0, ng - 1); }
		if(!conc){ char b[16]; snprintf(b, sizeof(b), "grp%d", n); c.cfg[b] = ng; c.cfg["script"] = 1; }
		c.cfg["nfiles"] = 2; c.cfg["nslots"] = 2 * nag; c.cfg["robust"] = r.range(0, 2); c.cfg["chk"] = 50; c.cfg["free"] = r.range(0, 2);
		c.cfg["deny"] = r.chance(2, 3); c.cfg["lcnt"] = 32; c.cfg["quiet"] = 60;
		if(conc){ c.cfg["allmem"] = 1; c.cfg["quiet"] = 200; c.cfg["rot"] = r.range(0, 119); }
		int nr = r.range(1, 2); c.cfg["nr"] = nr; c.cfg["ro0"] = r.chance(1, 2) ? 0 : r.range(1, 99); c.cfg["rl0"] = r.range(1, 20); c.cfg["rl1"] = r.range(1, 20);
		long o0 = (long)c.get("ro0"), l0 = (long)c.get("rl0"), l1 = (long)c.get("rl1"); int adj = r.range(0, 2);      // apart, or directly above, or directly below the other range
		c.cfg["ro1"] = adj == 1 ? o0 + l0 : adj == 2 && o0 >= l1 ? o0 - l1 : 200;
		int files = r.range(1, 2); bool nofd = r.chance(1, 5);
		auto slot = [&]{ return nofd && r.chance(1, 3) ? (int)NOFD : r.range(0, files - 1); };
		int focus = r.range(0, 3); bool two = nr == 2 && r.chance(1, 2);
		auto one = [&](int a){
			int k = r.range(0, 99), ob = r.range(0, NOBJ - 1), s = slot(), g = r.range(0, nr - 1), rd = r.range(0, 1);
			if(focus){ s = 0; g = 0; if(two){ g = r.range(0, 1); } if(r.chance(1, 8)){ s = slot(); g = r.range(0, nr - 1); } }
			if(k < 22){ c.add(a, K_NEWLOCK, ob, s, g, rd); }
			else if(k < 28){ c.add(a, K_NEW, ob, s, g); }
			else if(k < 36){ c.add(a, K_LOCK5, ob, s, g, rd); }
			else if(k < 42){ c.add(a, K_LOCKT, ob, rd); }
			else if(k < 46){ c.add(a, K_LOCK0, ob); }
			else if(k < 54){ c.add(a, K_READ, ob); }
			else if(k < 62){ c.add(a, K_WRITE, ob); }
			else if(k < 80){ c.add(a, K_UNLOCK, ob); }
			else{ c.add(a, K_DEL, ob); }
		};
		if(conc){
			for(int a = 0; a < n; a++){
				int m = r.range(2, 9);
				for(int i = 0; i < m; i++){ one(a); if(r.chance(1, 8)){ c.add(a, K_CS, 0, 0, r.range(0, 2)); } }
				for(int ob = 0; ob < NOBJ; ob++){ c.add(a, K_DEL, ob); }
			}
			if(n > 2 && r.chance(1, 3)){             // the last thread lives in a child that another one forks
				int by = r.range(0, n - 2); char b[16], l[16]; snprintf(b, sizeof(b), "grp%d", n - 1); snprintf(l, sizeof(l), "late%d", n - 1); c.cfg[b] = ng; c.cfg[l] = 1;
				std::vector<size_t> at; for(size_t i = 0; i < c.ops.size(); i++){ if(c.ops[i].agent == by){ at.push_back(i); } }
				Op o; o.id = c.next_id(); o.agent = by; o.kind = K_FORK; o.pair = 0; o.a[0] = ng; o.a[1] = o.a[2] = o.a[3] = 0;
				c.ops.insert(c.ops.begin() + (long)at[(size_t)r.range(0, (int)at.size() - 1)], o);
			}
			return;
		}
		int m = r.range(10, 60); bool shut = r.chance(1, 4);
		for(int i = 0; i < m; i++){
			one(r.range(0, n - 1));
			if(r.chance(2, 3)){ c.add(nag - 1, K_LOOK, slot(), r.range(0, nr - 1)); if(focus && r.chance(2, 3)){ c.ops.back().a[0] = 0; if(!two){ c.ops.back().a[1] = 0; } } }
			if(shut && r.chance(1, 25)){ c.add(r.range(0, n - 1), K_SHUT, r.range(0, files - 1)); }
		}
	}
	void init_model(const Case& c) override {
		g_ranges.clear();
		for(int i = 0; i < 2; i++){ char b[16], d[16]; snprintf(b, sizeof(b), "ro%d", i); snprintf(d, sizeof(d), "rl%d", i); g_ranges.push_back(Range{(long)c.get(b), c.get(d, 1)}); }
		for(auto& p : M()->pendw){ p[0] = -1; }
	}
	bool child_init(const Case& c, int g) override {
		if(!SchedProp::child_init(c, g)){ return false; }
		{ FLRwlRcsv once(slot_fd(NOFD), 3900, 1, true); }      // the static objects of the class exist before the scheduling starts
		if(c.get("deny")){ fullock_set_noretry_deny_nomap(); }else{ fullock_set_noretry_allow_nomap(); }
		return true;
	}
	bool conflict(int me, int s, int g, bool wr) {
		M18* m = M();
		for(int a = 0; a < vs::MAXA; a++){ if(!(a == me) && m->real[a][sx(s)][g] >= (wr ? 1 : 2)){ return true; } }
		return false;
	}
	bool enabled(const Case&, int a) override {
		int* p = M()->pendw[a]; if(p[0] < 0){ return true; }
		return !conflict(a, p[0], p[1], p[2] == 2);
	}
	// the real lock operations that the model predicts
	void real_lock(int me, int s, int g, int type) {
		M18* m = M(); if(wild(me, s)){ return; }
		if(conflict(me, s, g, type == 2)){ vs::fail("EXCLUSION: agent %d got a %s lock of file %d range %d although an incompatible lock is held", me, type == 2 ? "write" : "read", fileno_(s), g); }
		m->real[me][sx(s)][g] = type;
	}
	void detach(Obj* O, int me, int i) {           // unlock in the model
		Obj& o = O[i]; if(!o.in){ return; }
		if(o.master >= 0){ Obj& q = O[o.master]; for(int k = 0; k < q.np; k++){ if(q.pend[k] == i){ for(int x = k; x + 1 < q.np; x++){ q.pend[x] = q.pend[x + 1]; } --q.np; break; } } o.master = -1; }
		else if(o.np){
			int k = 0; while(k < o.np && O[o.pend[k]].type != 2){ ++k; } if(k == o.np){ k = o.np - 1; }
			int nm = o.pend[k]; Obj& q = O[nm]; for(int x = 0; x < o.np; x++){ if(x != k){ q.pend[q.np++] = o.pend[x]; O[o.pend[x]].master = nm; } }
			o.np = 0; q.type = o.type; q.master = -1; M()->hand++; cls(3);
		}else{ M()->real[me][sx(o.slot)][o.range] = 0; }
		o.in = 0;
	}
	int master_of(Obj* O, int i) { for(int k = 0; k < NOBJ; k++){ if(k != i && O[k].exists && O[k].in && O[k].master < 0 && O[k].slot == O[i].slot && O[k].range == O[i].range){ return k; } } return -1; }
	// model part that precedes a request; returns the kind of real lock that is taken (0: none)
	int before(Obj* O, int me, int i, bool rd) {
		Obj& o = O[i];
		if(rd){
			if(o.in && (o.type == 1 || (o.type == 2 && o.np))){ return 0; }
			if(o.in){ M()->down++; cls(2); detach(O, me, i); }
			o.type = 1; int k = master_of(O, i);
			if(k >= 0){ o.in = 1; o.master = k; O[k].pend[O[k].np++] = i; M()->nest++; cls(0); return 0; }
			return 1;
		}
		if(o.in && o.type == 2){ return 0; }
		if(o.in && o.type == 1 && o.master >= 0 && O[o.master].type == 2){ o.type = 2; return 0; }
		if(o.in){ detach(O, me, i); M()->up++; cls(1); }
		o.type = 2; int k = master_of(O, i);
		if(k < 0){ return 2; }
		M()->nest++; cls(0);
		if(O[k].type == 2){ o.in = 1; o.master = k; O[k].pend[O[k].np++] = i; return 0; }
		M()->up++; cls(1); M()->real[me][sx(o.slot)][o.range] = 0;
		O[k].master = i; o.pend[o.np++] = k; for(int x = 0; x < O[k].np; x++){ o.pend[o.np++] = O[k].pend[x]; O[O[k].pend[x]].master = i; } O[k].np = 0;
		return 2;
	}
	// does the model say that the real locking of this request can block for ever? (another lock of the same thread)
	void request(const Case& c, int me, int i, bool rd, const char* what, bool (*call)(FLRwlRcsv*, int, int, int, int, bool), int s, int g) {
		M18* m = M(); Obj* O = m->o[me]; Obj& o = O[i];
		if(wild(me, o.slot)){
			cls(8); m->wild++;
			call(g_obj[me][i], me, i, s, g, rd); return;
		}
		if(m->taint[fileno_(o.slot)]){ return; }
		int need = before(O, me, i, rd);
		if(need){ m->pendw[me][0] = o.slot; m->pendw[me][1] = o.range; m->pendw[me][2] = need; if(c.get("script") && conflict(me, o.slot, o.range, need == 2)){ m->blocked++; cls(4); } }
		bool ok = call(g_obj[me][i], me, i, s, g, rd);
		m->pendw[me][0] = -1;
		if(!ok){ vs::fail("RESULT: agent %d: %s of object %d returned false", me, what, i); }
		if(need){ o.in = 1; o.master = -1; real_lock(me, o.slot, o.range, need); }
	}
	static bool in_order(const Case& c, M18* m, int me, int s, int g) {    // locks of several ranges in increasing order, or when no other thread is in the way
		bool way = !c.get("script"); for(int a = 0; a < vs::MAXA && !way; a++){ way = a != me && m->real[a][sx(s)][g]; }
		if(way){ for(int x = 0; x < 4; x++){ for(int y = 0; y < 4; y++){ if(m->real[me][x][y] && (x > sx(s) || (x == sx(s) && y > g))){ return false; } } } }
		return true;
	}
	void kill_obj(int me, int i) {
		M18* m = M(); Obj& o = m->o[me][i]; if(!o.exists){ return; }
		bool w = wild(me, o.slot);
		if(!w){ pre_release(me, i); }
		g_obj[me][i]->~FLRwlRcsv(); mprotect(g_mem[me][i], 4096, PROT_NONE); g_obj[me][i] = nullptr;
		if(w){ forget(m->o[me], i); }
		o.exists = 0; o.np = 0; o.master = -1; o.in = 0;
	}
	void forget(Obj* O, int i) { for(int k = 0; k < NOBJ; k++){ if(O[k].master == i){ O[k].master = -1; } for(int x = 0; x < O[k].np; x++){ if(O[k].pend[x] == i){ O[k].pend[x] = O[k].pend[--O[k].np]; --x; } } } }
	void pre_release(int me, int i) { detach(M()->o[me], me, i); }
	void run_op(const Case& c, const Op& op, int me) override {
		M18* m = M(); int i = op.a[0];
		if(op.kind == K_FORK){ for(int a = 0; a < vs::C->nag; a++){ char b[16]; snprintf(b, sizeof(b), "grp%d", a); if(c.get(b) == op.a[0] && vs::C->a[a].state == vs::ST_NONE){ cls(10); fork_group(c, op.a[0]); return; } } return; }
		if(op.kind == K_CS){ for(int k = 0; k < op.a[2]; k++){ vs::point_yield(); } return; }
		if(op.kind == K_SHUT){
			if(m->dead[me][i]){ return; }
			bool any = false, others = false; for(int k = 0; k < 2; k++){ if(m->real[me][i][k]){ any = true; } }
			for(int a = 0; a < vs::MAXA; a++){ if(m->pendw[a][0] == i && a != me){ others = true; } }
			if(others && any){ return; }
			__real_close(g_fd[me * 2 + i]); m->dead[me][i] = 1;
			for(auto& o : m->o[me]){ if(o.exists && o.slot == i){ cls(7); break; } }
			if(any){ m->taint[i] = 1; for(int k = 0; k < 4; k++){ m->real[me][i][k] = 0; } }
			return;
		}
		if(op.kind == K_LOOK){
			int s = op.a[0], g = op.a[1]; if(m->taint[fileno_(s)]){ return; }
			int fd = fd_of(me, s); off_t off = g_ranges[(size_t)g].off; size_t len = (size_t)g_ranges[(size_t)g].len;
			for(int w = 0; w < 2; w++){
				bool busy = conflict(me, s, g, w == 1); cls(busy ? 6 : 5);
				int rc = w ? fullock_rwlock_trywrlock(fd, off, len) : fullock_rwlock_tryrdlock(fd, off, len);
				if(rc != (busy ? EBUSY : 0)){ vs::fail("STATE: file %d range %d: a %s try of the observer returned %d, but by the objects it should be %s", fileno_(s), g, w ? "write" : "read", rc, busy ? "locked" : "free"); }
				if(!rc && (rc = fullock_rwlock_unlock(fd, off, len))){ vs::fail("RESULT: unlock of the observer returned %d", rc); }
			}
			return;
		}
		Obj& o = m->o[me][i];
		switch(op.kind){
		case K_NEW: case K_NEWLOCK: {
			kill_obj(me, i);
			bool lk = op.kind == K_NEWLOCK; if(lk && (m->taint[fileno_(op.a[1])] || !in_order(c, m, me, op.a[1], op.a[2]))){ lk = false; }
			if(m->news[me] >= PAGES){ return; }
			void* p = g_arena + ((size_t)me * PAGES + (size_t)m->news[me]++) * 4096; g_mem[me][i] = p;
			o.exists = 1; o.slot = op.a[1]; o.range = op.a[2]; o.type = 0; o.in = 0; o.master = -1; o.np = 0;
			if(!lk){ g_obj[me][i] = new(p) FLRwlRcsv(fd_of(me, o.slot), g_ranges[(size_t)o.range].off, (size_t)g_ranges[(size_t)o.range].len); return; }
			request(c, me, i, op.a[3] != 0, "construction", [](FLRwlRcsv*, int a, int k, int s, int g, bool rd) { g_obj[a][k] = new(g_mem[a][k]) FLRwlRcsv(s >= NOFD ? slot_fd(s) : g_fd[a * 2 + s], g_ranges[(size_t)g].off, (size_t)g_ranges[(size_t)g].len, rd); return true; }, o.slot, o.range);
			return; }
		case K_LOCK5: {
			if(!o.exists || wild(me, o.slot) || m->taint[fileno_(op.a[1])]){ return; }
			Obj was = o; bool samekey = was.slot == op.a[1] && was.range == op.a[2];
			if(!in_order(c, m, me, op.a[1], op.a[2]) && !samekey){ return; }
			detach(m->o[me], me, i);
			if(!in_order(c, m, me, op.a[1], op.a[2])){ return restore(me, i); }
			o.slot = op.a[1]; o.range = op.a[2]; o.type = op.a[3] ? 1 : 2;
			request(c, me, i, op.a[3] != 0, "lock with descriptor and range", [](FLRwlRcsv* p, int a, int, int s, int g, bool rd) { return p->Lock(s >= NOFD ? slot_fd(s) : g_fd[a * 2 + s], g_ranges[(size_t)g].off, (size_t)g_ranges[(size_t)g].len, rd); }, o.slot, o.range);
			return; }
		case K_LOCKT: case K_READ: case K_WRITE: {
			if(!o.exists || !in_order(c, m, me, o.slot, o.range)){ return; }
			bool rd = op.kind == K_READ || (op.kind == K_LOCKT && op.a[1]);
			if(op.kind == K_LOCKT){ request(c, me, i, rd, "lock", [](FLRwlRcsv* p, int, int, int, int, bool q) { return p->Lock(q); }, 0, 0); }
			else if(rd){ request(c, me, i, true, "read lock", [](FLRwlRcsv* p, int, int, int, int, bool) { return p->ReadLock(); }, 0, 0); }
			else{ request(c, me, i, false, "write lock", [](FLRwlRcsv* p, int, int, int, int, bool) { return p->WriteLock(); }, 0, 0); }
			return; }
		case K_LOCK0:
			if(!o.exists || !in_order(c, m, me, o.slot, o.range)){ return; }
			if(!o.type){ bool ok = g_obj[me][i]->Lock(); if(ok && !wild(me, o.slot)){ vs::fail("RESULT: agent %d: lock of object %d which has no kind of lock yet returned true", me, i); } return; }
			request(c, me, i, o.type == 1, "lock again", [](FLRwlRcsv* p, int, int, int, int, bool) { return p->Lock(); }, 0, 0);
			return;
		case K_UNLOCK: {
			if(!o.exists){ return; }
			bool w = wild(me, o.slot); if(!w){ pre_release(me, i); }
			bool ok = g_obj[me][i]->Unlock();
			if(!w && !ok){ vs::fail("RESULT: agent %d: unlock of object %d returned false", me, i); }
			return; }
		case K_DEL: kill_obj(me, i); return;
		default: return;
		}
	}
	// a change of range that would be out of order becomes an unlock
	void restore(int me, int i) { Obj& o = M()->o[me][i]; if(!g_obj[me][i]->Unlock()){ vs::fail("RESULT: agent %d: unlock of object %d returned false", me, i); } o.in = 0; }
	void vary(Rng& r, Case& c, const std::vector<int>& st, int k) override {
		if(c.get("conc")){ SchedProp::vary(r, c, st, k); return; }
		c.pre.clear(); c.cfg["free"] = r.range(0, 2); c.cfg["deny"] = r.chance(2, 3);
		for(int q = r.range(1, 6); q > 0 && !c.ops.empty(); q--){ size_t x = r.next() % c.ops.size(); if(r.chance(1, 3)){ c.ops.erase(c.ops.begin() + (long)x); }else{ std::swap(c.ops[x], c.ops[r.next() % c.ops.size()]); } }
	}
	bool has_probe(const Case&) override { return true; }
	void probe(const Case& c) override {
		M18* m = M(); int me = vs::self;
		for(int f = 0; f < 3; f++){
			if(m->taint[f]){ continue; }
			int s = f == 2 ? NOFD : f; if(f < 2 && f >= (int)c.get("nfiles")){ continue; }
			for(int g = 0; g < 2; g++){
				bool busy = conflict(me, s, g, true);
				int fd = s >= NOFD ? slot_fd(s) : g_fd[s];
				int rc = fullock_rwlock_trywrlock(fd, g_ranges[(size_t)g].off, (size_t)g_ranges[(size_t)g].len);
				if(rc != (busy ? EBUSY : 0)){ vs::fail("STATE: at the end file %d range %d: a write try of a new process returned %d, but by the objects it should be %s", f, g, rc, busy ? "locked" : "free"); }
				if(!rc){ fullock_rwlock_unlock(fd, g_ranges[(size_t)g].off, (size_t)g_ranges[(size_t)g].len); }
			}
		}
	}
	void finish(const Case& c, RunResult& r) override {
		M18* m = M(); if(c.get("conc")){ cls(9); }
		bool sched = c.get("conc") && vs::C->preempts;
		r.nontrivial = m->nest && (m->up || m->hand || m->blocked || sched) ? 1 : -1;
	}
};
PropReg r18(new C18);
}

#include "vsched.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace vs {
Ctl* C = nullptr;
__thread int self = -1;
static __thread int inhook = 0;
static __thread uint32_t plain = 0;
static __thread Pre  opre[16];
static __thread int  nopre = 0;
static uintptr_t     shm_lo = 0, shm_hi = 0;
static __thread uintptr_t stk_lo = 0, stk_hi = 0;

static void fwait(int* f, int val) { syscall(SYS_futex, f, FUTEX_WAIT, val, nullptr, nullptr, 0); }
static void fwake(int* f) { syscall(SYS_futex, f, FUTEX_WAKE, 1 << 20, nullptr, nullptr, 0); }

Ctl* create()
{
	void* p = mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED){ perror("mmap ctl"); _exit(70); }
	C = static_cast<Ctl*>(p);
	C->cur = -1; C->quietlimit = 40; C->steplimit = 400000; C->swlimit = 60000; C->tick = 1000; C->now = 5000000000LL;
	for(int i = 0; i < MAXA; i++){ C->order[i] = i; C->a[i].opid = -1; }
	return C;
}

void shm_range(uintptr_t lo, uintptr_t hi) { shm_lo = lo; shm_hi = hi; }

bool runnable(int i) { return i >= 0 && i < C->nag && C->a[i].state == ST_READY && !C->a[i].parked; }

static void wait_baton(int idx)
{
	Agent& a = C->a[idx];
	for(;;){
		int v = __atomic_load_n(&a.futex, __ATOMIC_SEQ_CST);
		if(__atomic_load_n(&C->cur, __ATOMIC_SEQ_CST) == idx){ return; }
		fwait(&a.futex, v);
	}
}

void pass_to(int i)
{
	__atomic_store_n(&C->cur, i, __ATOMIC_SEQ_CST);
	int* f = i < 0 ? &C->ctlfutex : &C->a[i].futex;
	__atomic_add_fetch(f, 1, __ATOMIC_SEQ_CST);
	fwake(f);
}

void ctl_wait()
{
	for(;;){
		int v = __atomic_load_n(&C->ctlfutex, __ATOMIC_SEQ_CST);
		if(__atomic_load_n(&C->cur, __ATOMIC_SEQ_CST) == -1){ return; }
		fwait(&C->ctlfutex, v);
	}
}

static void switch_to(int i)
{
	int me = self;
	C->switches++;
	pass_to(i);
	wait_baton(me);
}

// next runnable agent after me in the rotation, or -1
static int next_after(int me)
{
	int pos = 0;
	for(int i = 0; i < C->nag; i++){ if(C->order[i] == me){ pos = i; } }
	for(int k = 1; k < C->nag; k++){
		int c = C->order[(pos + k) % C->nag];
		if(runnable(c)){ return c; }
	}
	return -1;
}

void fail(const char* fmt, ...)
{
	if(!C->fail){
		va_list ap; va_start(ap, fmt);
		vsnprintf(C->msg, sizeof(C->msg), fmt, ap);
		va_end(ap);
		C->fail = 1;
	}
	if(self >= 0){
		C->req = REQ_FAIL; C->reqagent = self;
		pass_to(-1);
		for(;;){ pause(); }
	}
}

void kill_me()
{
	C->req = REQ_KILL; C->reqagent = self;
	pass_to(-1);
	for(;;){ pause(); }
}

static void stuck()
{
	char b[600]; int n = 0;
	for(int i = 0; i < C->nag && n < 500; i++){
		n += snprintf(b + n, sizeof(b) - n, " agent%d:state=%d,op=%d", i, C->a[i].state, C->a[i].opid);
	}
	fail("STUCK: no operation completes any more (%s )", b);
}

static void forced_yield()
{
	Agent& a = C->a[self];
	a.quiet = 0;
	if(C->switches - C->progress_sw > C->swlimit || C->step - C->progress > C->steplimit){ stuck(); }
	if(C->script){
		if(++a.yields > (uint32_t)C->yieldlimit){ a.yields = 0; switch_to(-1); }
		else{ C->switches++; }
		return;
	}
	int n = next_after(self);
	if(n >= 0){ switch_to(n); }else{ C->switches++; }
}

// kind 0: read, 1: write, 2: failed rmw, 3: yield
static void point(int kind)
{
	if(self < 0 || inhook){ return; }
	inhook = 1; plain = 0;
	Agent& a = C->a[self];
	C->step++; 
	uint32_t st = a.opstep++;
	if(a.opid >= 0){
		for(int i = 0; i < nopre; i++){
			if((uint32_t)opre[i].step == st){
				if(opre[i].target < 0){
					C->crashes++;
					kill_me();
				}
				int t = opre[i].target;
				if(t != self && runnable(t)){ C->preempts++; a.quiet = 0; switch_to(t); }
			}
		}
	}
	if(C->step - C->progress > 3 * C->steplimit){ stuck(); }
	if(kind == 3){ forced_yield(); }
	else if(kind == 1){ a.quiet = 0; }
	else if(++a.quiet >= (uint32_t)C->quietlimit){ forced_yield(); }
	inhook = 0;
}

void point_yield() { point(3); }

void agent_enter(int idx)
{
	pthread_attr_t at; void* sa = nullptr; size_t sz = 0;
	if(0 == pthread_getattr_np(pthread_self(), &at)){
		pthread_attr_getstack(&at, &sa, &sz); pthread_attr_destroy(&at);
		stk_lo = (uintptr_t)sa; stk_hi = stk_lo + sz;
	}
	Agent& a = C->a[idx];
	a.pid = getpid(); a.tid = (pid_t)syscall(SYS_gettid); a.opid = -1;
	self = idx;
	__atomic_store_n(&a.state, (int)ST_READY, __ATOMIC_SEQ_CST);
	__atomic_add_fetch(&C->ctlfutex, 1, __ATOMIC_SEQ_CST);
	fwake(&C->ctlfutex);
	wait_baton(idx);
}

void op_begin(int opid)
{
	Agent& a = C->a[self];
	nopre = 0;
	for(int i = 0; i < C->npre && nopre < 16; i++){
		if(C->pre[i].agent == self && C->pre[i].opid == opid){ opre[nopre++] = C->pre[i]; }
	}
	a.opid = opid; a.opstep = 0; a.quiet = 0; a.yields = 0;
	point(0);                         // step 0: the boundary before the operation
}

void op_end()
{
	Agent& a = C->a[self];
	if(a.opid >= 0 && a.opid < MAXOPS){ C->opsteps[a.opid] = (int)a.opstep; }
	a.opid = -1; nopre = 0;
	C->progress = C->step; C->progress_sw = C->switches;
}

void agent_done()
{
	Agent& a = C->a[self];
	a.state = ST_DONE;
	int n = C->script ? -1 : next_after(self);
	self = -1;
	pass_to(n);
}

void agent_exit_thread()
{
	Agent& a = C->a[self];
	a.state = ST_DEAD;
	C->req = REQ_THREADGONE; C->reqagent = self;
	self = -1;
	pass_to(-1);
}

void park() { switch_to(-1); }
void request(int req, int arg) { C->req = req; C->reqagent = self; C->reqarg = arg; switch_to(-1); }

static inline bool interesting(const volatile void* p)
{
	uintptr_t a = (uintptr_t)p;
	if(a >= shm_lo && a < shm_hi){ return true; }
	return C && C->allmem && !(a >= stk_lo && a < stk_hi);
}
// accesses since the last point: a loop that never reaches one is stuck

static void spinning() { if(!inhook){ plain = 0; fail("HANG: 60 million memory accesses without a scheduling point (agent %d, operation %d)", self, C->a[self].opid); } }
static inline void acc(const volatile void* p, int kind)
{
	if(self < 0){ return; }
	if(interesting(p)){ point(kind); }
	else if(++plain > 60000000u){ spinning(); }
}
} // namespace vs

using vs::acc;

extern "C" {
#define RW(n) \
void __tsan_read##n(void* p){ acc(p, 0); } void __tsan_write##n(void* p){ acc(p, 1); } \
void __tsan_unaligned_read##n(void* p){ acc(p, 0); } void __tsan_unaligned_write##n(void* p){ acc(p, 1); } \
void __tsan_read##n##_pc(void* p, void*){ acc(p, 0); } void __tsan_write##n##_pc(void* p, void*){ acc(p, 1); } \
void __tsan_read_write##n(void* p){ acc(p, 1); } void __tsan_unaligned_read_write##n(void* p){ acc(p, 1); } \
void __tsan_volatile_read##n(void* p){ acc(p, 0); } void __tsan_volatile_write##n(void* p){ acc(p, 1); } \
void __tsan_unaligned_volatile_read##n(void* p){ acc(p, 0); } void __tsan_unaligned_volatile_write##n(void* p){ acc(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void){}
void __tsan_func_entry(void*){}
void __tsan_func_exit(void){}
void __tsan_vptr_update(void**, void*){}
void __tsan_vptr_read(void**){}
void __tsan_read_range(void* p, uintptr_t){ acc(p, 0); }
void __tsan_write_range(void* p, uintptr_t){ acc(p, 1); }
void __tsan_ignore_thread_begin(void){}
void __tsan_ignore_thread_end(void){}
void* __tsan_memcpy(void* d, const void* s, uintptr_t n){ acc(s, 0); acc(d, 1); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, uintptr_t n){ acc(s, 0); acc(d, 1); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, uintptr_t n){ acc(d, 1); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int){ __sync_synchronize(); }
void __tsan_atomic_signal_fence(int){}

#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int){ acc(a, 0); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int){ acc(a, 1); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int){ acc(a, 1); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int){ acc(a, 1); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int){ acc(a, 1); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int){ acc(a, 1); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int){ acc(a, 1); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int){ acc(a, 1); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int){ acc(a, 1); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int){ \
	T cur = __atomic_load_n(a, __ATOMIC_SEQ_CST); acc(a, (cur == c && c != v) ? 1 : 2); \
	T e = c; __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int){ \
	T cur = __atomic_load_n(a, __ATOMIC_SEQ_CST); acc(a, cur == *c ? 1 : 2); \
	return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int){ \
	T cur = __atomic_load_n(a, __ATOMIC_SEQ_CST); acc(a, cur == *c ? 1 : 2); \
	return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- wrapped libc calls (ld --wrap) ----
int __real_sched_yield(void);
int __wrap_sched_yield(void)
{
	if(vs::self >= 0){ vs::point(3); return 0; }
	return __real_sched_yield();
}
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if(vs::self >= 0){
		vs::point(0);
		vs::C->now += vs::C->tick; vs::C->reads++;
		{ vs::Agent& a = vs::C->a[vs::self]; if(!a.nread++){ a.first = vs::C->now; } a.last = vs::C->now; if(a.limit && a.last - a.first > a.limit){ a.late++; } }
		ts->tv_sec = vs::C->now / 1000000000LL; ts->tv_nsec = vs::C->now % 1000000000LL;
		return 0;
	}
	return __real_clock_gettime(id, ts);
}
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* r, struct timespec* m)
{
	if(vs::self >= 0){ vs::C->now += r->tv_sec * 1000000000LL + r->tv_nsec; vs::point(3); return 0; }
	return __real_nanosleep(r, m);
}
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t u)
{
	if(vs::self >= 0){ vs::C->now += u * 1000LL; vs::point(3); return 0; }
	return __real_usleep(u);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if(vs::self >= 0 && !vs::inhook){
		int r;
		while(EBUSY == (r = pthread_mutex_trylock(m))){ vs::point(3); }
		return r;
	}
	return __real_pthread_mutex_lock(m);
}
static void spoof(struct stat* st)
{
	if(vs::self < 0 || !vs::C || (uint64_t)st->st_dev != vs::C->spoofdev){ return; }
	for(int i = 0; i < vs::C->nspoof; i++){
		if((uint64_t)st->st_ino == vs::C->spoof[i].real){ st->st_dev = (dev_t)vs::C->spoof[i].dev; st->st_ino = (ino_t)vs::C->spoof[i].ino; return; }
	}
}
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* st) { int r = __real_stat(p, st); if(!r){ spoof(st); } return r; }
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* st) { int r = __real_fstat(fd, st); if(!r){ spoof(st); } return r; }
int __real_lstat(const char*, struct stat*);
int __wrap_lstat(const char* p, struct stat* st) { int r = __real_lstat(p, st); if(!r){ spoof(st); } return r; }
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off)
{
	if(vs::self >= 0 && vs::C->sysp){ vs::point(0); }
	void* p = __real_mmap(a, n, prot, fl, fd, off);
	if(p != MAP_FAILED && fd >= 0 && (fl & MAP_SHARED)){ vs::shm_range((uintptr_t)p, (uintptr_t)p + n); }
	return p;
}
int __real_munmap(void*, size_t);
int __wrap_munmap(void* a, size_t n)
{
	if((uintptr_t)a == vs::shm_lo){ vs::shm_range(0, 0); }
	return __real_munmap(a, n);
}
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
	if(vs::self >= 0 && vs::C->sysp){ vs::point((fl & O_ACCMODE) == O_RDONLY ? 0 : 1); }
	return __real_open(p, fl, mode);
}
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
	if(vs::self >= 0 && vs::C->sysp){
		vs::point(1);
		if(cmd == F_SETLKW){                    // never block outside the baton
			for(;;){
				int r = __real_fcntl(fd, F_SETLK, arg);
				if(r == 0 || (errno != EACCES && errno != EAGAIN)){ return r; }
				vs::point(3);
			}
		}
	}
	return __real_fcntl(fd, cmd, arg);
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n)
{
	if(vs::self >= 0 && vs::C->sysp){ vs::point(1); }
	return __real_ftruncate(fd, n);
}
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
{
	if(vs::self >= 0 && vs::C->sysp){ vs::point(1); }
	return __real_pwrite(fd, b, n, o);
}
int __real_mkdir(const char*, mode_t);
int __wrap_mkdir(const char* p, mode_t m)
{
	if(vs::self >= 0 && vs::C->sysp){ vs::point(1); }
	return __real_mkdir(p, m);
}
int __real_close(int);
int __wrap_close(int fd)
{
	if(vs::self >= 0 && vs::C->sysp){ vs::point(0); }
	return __real_close(fd);
}
}

// vsched: a deterministic scheduler for agents (threads of one or several
// real processes) that run the library under test.  Exactly one agent runs at
// a time (it holds the "baton"); every access of the library to the shared
// region, every atomic operation, sched_yield, clock_gettime and the wrapped
// file system calls are scheduling points.  The control block lives in shared
// anonymous memory, so agents of different processes are scheduled alike.
#ifndef VSCHED_H
#define VSCHED_H
#include <stdint.h>
#include <sys/types.h>

namespace vs {

enum { MAXA = 12, MAXPRE = 96, MAXOPS = 512, MODELSZ = 1 << 18 };
enum { ST_NONE = 0, ST_READY = 1, ST_DONE = 2, ST_DEAD = 3 };
enum { REQ_NONE = 0, REQ_KILL, REQ_THREADGONE, REQ_FAIL, REQ_SPAWN };

struct Pre  { int agent; int opid; int step; int target; };   // target>=0: preempt; -1: crash process

struct Agent {
	int       futex;
	int       state;
	int       group;
	pid_t     pid;
	pid_t     tid;
	int       opid;          // id of the operation being executed (-1: none)
	uint32_t  opstep;        // scheduling points passed in this operation
	uint32_t  quiet;         // consecutive non mutating points
	uint32_t  yields;        // yields in this operation
	int64_t   first, last;   // own clock readings in this operation (property resets them)
	int64_t   limit;         // ns; readings more than that after the first are counted
	uint32_t  nread, late;
	int       parked;        // script mode: not runnable until released
};

struct Ctl {
	int       cur;                 // agent holding the baton, -1: controller
	int       ctlfutex;
	int       req, reqagent, reqarg;
	int       nag;
	int       order[MAXA];         // rotation used for forced switches
	int       allmem;              // 1: every non stack access is a point
	int       sysp;                // 1: file system calls are points
	int       quietlimit;
	uint64_t  step;
	uint64_t  progress;            // step of the last completed operation
	uint64_t  steplimit;           // max steps without progress
	uint64_t  swlimit;
	uint64_t  progress_sw;
	uint64_t  switches;
	uint64_t  preempts;            // preemptions that really switched
	uint64_t  crashes;
	int64_t   now;                 // virtual clock, ns
	int64_t   tick;                // advance per reading
	uint64_t  reads;               // number of clock readings
	int       script;              // script mode (see exec.h)
	int       yieldlimit;          // script mode: yields after which an agent counts as blocked
	int       fail;
	char      msg[1024];
	int       npre;
	Pre       pre[MAXPRE];
	int       opsteps[MAXOPS];     // measured points per operation id
	int       nspoof;              // identities of files as the library sees them
	uint64_t  spoofdev;
	struct { uint64_t real, dev, ino; } spoof[8];
	Agent     a[MAXA];
	char      model[MODELSZ] __attribute__((aligned(16)));
};

extern Ctl* C;                         // NULL: not active
extern __thread int self;              // agent index of this thread, -1: none

Ctl*  create();
void  agent_enter(int idx);            // register, block until first scheduled
void  op_begin(int opid);
void  op_end();
void  agent_done();                    // hand over, state done; returns
void  agent_exit_thread();             // hand over to controller: thread is about to vanish
void  fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void  point_yield();                   // voluntary yield
void  request(int req, int arg);       // hand over to controller, which comes back to this agent
void  park();                          // script mode: give baton to controller, wait
void  kill_me();                       // hand over to controller asking for SIGKILL
void  shm_range(uintptr_t lo, uintptr_t hi);
bool  runnable(int i);
void  pass_to(int i);                  // i == -1: controller
void  ctl_wait();                      // controller: wait for the baton
}
#endif

#pragma once
#include "sim.h"
#include <dlfcn.h>
#include <pthread.h>
namespace sim
{
enum { T_RUN, T_BLOCKED, T_DEAD };
enum { ST_RUNNING=0, ST_OK, ST_FAIL, ST_HARNESS };
#define TAPE_MAX 400000
#define MAXCNT 48
struct Counter { char name[40]; u64 n; };
struct Shm
{
    volatile int status;
    char cls[64]; char msg[3000]; char desc[1500]; char workload[40];
    u64 hash, inter, switches, preempts, seqno; i64 simtime;
    int nontrivial;
    Counter faults[MAXCNT], probes[MAXCNT];
    u32 tape_len[NTAPES]; int tape_overflow;
    u32 tape[NTAPES][TAPE_MAX];
};
extern Shm *shm;
extern u8 *covmap;
extern int trace_fd;
extern bool recording_tapes;
extern int child_mode;
extern i64 bb_count; extern u64 bbs; extern bool sig_flag;
u64 mix(u64 x);
void tapes_random(u64 seed);
void tapes_fixed(const std::vector<u32> t[NTAPES]);
u32 choose_nz(Tape t, u32 n);
[[noreturn]] void run_ok();
bool deliverable(Thr *t);
void deliver_signals();
void thread_signal(int sig);
void thread_finished();
void preempt_fair();
void bb_slow();
void proc_switch(Proc *p);
void close_all_fds(Proc *p);
void flush_all_files(Proc *p);
[[noreturn]] void proc__exit(int code);
bool thr_exited(Thr *t);
bool thr_cancelable(Thr *t);
static inline pthread_t pthread_self_real() { pthread_t r; __asm__("mov %%fs:0x10,%0" : "=r"(r)); return r; }
void *real_sym(const char *n);
#define REAL(ret, name, args) ([]{ static ret (*f) args = (ret (*) args)sim::real_sym(#name); return f; }())
}

// Deterministic simulator: public interface for workloads and oracles.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <map>
#include <set>
#include <deque>
#include <termios.h>
#include <sys/ioctl.h>
#include <stdio.h>
#include <string.h>

typedef std::string str;
typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

namespace sim
{
// ---- choices -------------------------------------------------------------
enum Tape { W, F, S, N, NTAPES };           // workload, faults, schedule, I/O
u32 choose(Tape t, u32 n);                  // 0..n-1, 0 is the tamest
static inline u32 range(Tape t, u32 lo, u32 hi) { return lo+choose(t, hi-lo+1); }
bool chance(Tape t, u32 num, u32 den);      // false is the tamest
u32 logsize(Tape t, u32 max);               // 0..max, roughly log-uniform
template<class T> const T& pick(Tape t, const std::vector<T> &v) { return v[choose(t, v.size())]; }

// ---- results -------------------------------------------------------------
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf,2,3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf,1,2)));
void trace(const char *fmt, ...) __attribute__((format(printf,1,2)));
extern bool tracing;
void describe(const char *fmt, ...) __attribute__((format(printf,1,2))); // sample text for the evidence
void nontrivial();                          // this run exercised the property
void probe(const char *name);               // "this rare condition was hit"
void fault(const char *kind);               // a fault fired
void hash(const void *p, size_t n);         // fold into the run's event hash

// ---- time, threads, processes ---------------------------------------------
extern i64 now;                             // virtual microseconds since start
extern i64 cpu_time;                        // the part of it spent by running code (jitter) rather than by waiting
extern i64 epoch;                           // wall clock at now=0, in microseconds
struct Proc; struct Thr; struct OFD;
typedef std::shared_ptr<OFD> Ofd;
typedef std::function<bool()> Pred;

struct FileRec;
struct SigAct { void (*h)(int); int flags; u64 mask; };
struct Proc
{
    int pid; str name;
    std::vector<Ofd> fds;
    SigAct sig[65];
    u64 pending=0;
    std::vector<void(*)(void)> atexits;
    std::vector<FileRec*> files;
    FILE *in=0, *out=0, *err=0;
    bool actor=false, dead=false, exiting=false;
    bool exited=false; int code=0; int killed=0;    // exited normally / killed by signal
    bool stopped=false;
    Thr *main=0;
    std::vector<bool> fd_cloexec;
    std::vector<int> fd_owner;              // tag given when the descriptor was created
    i64 exit_time=0; u64 exit_seq=0;
};
struct Thr
{
    int id; str name; Proc *p;
    std::function<void()> fn;
    int state;                              // see core.cc
    int go;
    Pred pred; i64 deadline; const char *why;
    bool intr_ok, interrupted, timedout;
    bool cancel_pending, cancel_enabled, exited, detached, joined;
    bool nopreempt=false;
    bool finishing=false;
    void *retval;
    unsigned long os;
    u64 sigmask=0, pending=0;
    int in_handler=0;
    u64 pos_seq=0;                          // for the distinct-interleavings measure
};
extern __thread Thr *self __attribute__((tls_model("initial-exec")));
Proc *new_proc(const str &name);
Thr *start_main(Proc *p, std::function<int()> m);       // runs m, then exit(result)
Thr *spawn_actor(const str &name, std::function<void()> fn);
Thr *spawn_thread(Proc *p, const str &name, std::function<void()> fn); // extra thread of a process
bool wait_until(Pred p, i64 deadline, const char *why, bool interruptible=false); // true if p holds
static inline bool wait_for(Pred p, const char *why) { return wait_until(p, -1, why); }
void sleep_us(i64 us);
bool quiescent(Proc *p);
void touch();                               // kernel state changed: re-evaluate waiters
void yield_point(int weight=1);             // scheduling point
void after_lock();                          // maybe a preemption very soon (cfg.lock_gap)
void after_data();                          // maybe a preemption (cfg.post_gap)
extern u64 seqno;                           // global event sequence number
enum Stop { STOP_DONE, STOP_DEADLOCK, STOP_TIME, STOP_STEPS };
Stop run(Pred done, i64 time_limit);        // host: run until done()
const char *blocked_report();
void kill_proc(Proc *p, int sig);           // dies at once, as if by signal sig
void send_signal(Proc *p, int sig);         // process-directed signal
[[noreturn]] void proc_exit(int code);      // exit() of the calling simulated process
void restore_sut();                         // fresh static data for the code under test

struct Config                               // swarm configuration, drawn per run
{
    u32 sys_gap=0;                          // mean system calls between preemptions (0 = never)
    u32 bb_gap=0;                           // mean basic blocks between preemptions (0 = never)
    u32 post_gap=0;                         // 1 in so many calls that took or gave data is followed by a preemption (0 = never)
    u32 lock_gap=0;                         // 1 in so many lock operations is followed by a preemption a few basic blocks later (0 = never)
    u32 jitter=0;                           // max us a system call may take
    u32 jitter_den=0;                       // 1 in so many calls takes time
    u32 pipe_cap=65536;
    bool short_reads=false;                 // pipes/sockets/ttys return less than available
    bool short_file_reads=false;
    bool spurious=false;                    // spurious condition wakeups
    u32 stdio_buf=4096;
    u64 max_points=400000, max_bbs=30000000;
};
extern Config cfg;
void draw_sched_config(bool threads=true);
int threads_left(Proc *p);
void draw_jitter();

// ---- kernel objects --------------------------------------------------------
struct Inode { str data; int type=0; int nlink=1; u64 id=0; u64 writes=0; i64 fail_read_at=-1; int fail_errno=0; int opens=0; };
typedef std::shared_ptr<Inode> Ino;

struct Chan                                 // one direction of a byte stream
{
    str q; size_t h=0; u64 cap=65536;       // queued bytes are q[h..]
    size_t avail() const { return q.size()-h; }
    void push(const void *b, size_t n) { q.append((const char*)b, n); total+=n; }
    void pop(size_t n) { h+=n; if (h==q.size()) q.clear(), h=0; else if (h>65536 && h*2>q.size()) q.erase(0, h), h=0; }
    int readers=0, writers=0;
    bool rst=false;
    bool store=false;                       // what is written here is to be kept: a refusal is a storage failure
    bool atomic_ok=true;
    u64 total=0;
    str name;
};
typedef std::shared_ptr<Chan> Ch;

struct Tty                                  // user's terminal or a pty
{
    str name;
    Ch in, out;                             // in: towards the reader of the slave; out: slave's output
    struct termios tio; struct winsize ws;
    struct termios initial;
    bool hup=false;
    std::vector<struct termios> history;
    Proc *fg=0;                             // who gets SIGWINCH/SIGINT
    int winch_count=0;
    std::vector<std::pair<i64,struct winsize>> resizes;
    bool live=false;                        // the program has started attending to it
    str line;                               // incomplete line (canonical mode)
    bool cooked() const { return live && !(history.size()>1 && !memcmp(&tio, &initial, sizeof(tio))); } // modes matter
};
typedef std::shared_ptr<Tty> TtyP;

enum Kind { K_FILE, K_PIPE, K_SOCK, K_TTY, K_PTM, K_NULL };
struct OFD
{
    Kind kind; int flags=0; str desc;
    Ino ino; u64 off=0;
    Ch rd, wr; TtyP tty;
    bool shut_rd=false, shut_wr=false, connected=false;
    int err=0; bool isw=false, dgram=false;
    int refs=0;                             // number of descriptors
    int fam=0; i64 conn_until=-1;           // a connection attempt that a signal interrupted goes on
};

// file system
extern std::map<str,Ino> fs;
Ino fs_put(const str &path, const str &data);
bool fs_has(const str &path);
const str &fs_get(const str &path);
// hooks a workload may set
struct Faults
{
    i64 disk_cap=-1;                        // bytes the disk holds in all, then ENOSPC
    i64 write_fail_at=-1;                   // n-th write to a file fails ...
    int write_errno=28;                     // ... with this error
    bool write_fail_sticky=true;            // and so do all later ones
    i64 fail_span=-1, fail_since=-1;        // the disk recovers that long after its first failure
    bool write_short=false;                 // the failing write is short first
    bool fail_close=false;                  // close of a written file reports EIO
    int fail_open=0;                        // errno for creating/opening files for writing
    i64 n_writes=0;
    u32 fail_pipe=0, fail_thread=0, fail_malloc=0, fail_forkpty=0, fail_dup=0, fail_select=0; // 1-based index of the failing call
    u32 fail_malloc_span=1;                 // so many allocations in a row
    u32 n_pipe=0, n_thread=0, n_malloc=0, n_forkpty=0, n_dup=0, n_select=0;
    bool malloc_armed=false;
    i64 malloc_limit=1LL<<31;               // bytes in one allocation / live total
    i64 malloc_live=0, malloc_peak=0;
    bool fired=false;                       // some storage fault fired
    bool eintr_none=true;
    u32 fail_tcgetattr=0, fail_winsz=0;
    bool strict_fds=false;                  // EBADF use or foreign use is a violation
    u32 short_write_den=0;                  // 1 in n: a regular write accepts less
};
extern Faults faults;
extern std::function<void(const str&)> on_file_write;   // after every change of a file
extern std::function<void(const str&, int)> on_open;    // before opening a path for writing
extern std::function<void(bool)> on_storage_fault;       // a write was refused (true) or taken only in part (false)
extern std::function<void()> on_syscall;                 // at every system call of a simulated program

// descriptors, for workloads acting on a process' table without being "the code under test"
int  fd_install(Proc *p, Ofd o, int owner=0);
int  fd_install_at(Proc *p, int fd, Ofd o, int owner=0);
void h_close(Proc *p, int fd);
i64  h_read(Proc *p, int fd, void *buf, size_t n);
i64  h_write(Proc *p, int fd, const void *buf, size_t n);
Ofd  open_null();
Ofd  open_ino(Ino i, int flags);
void make_pipe(Ofd &r, Ofd &w, u32 cap);
TtyP make_tty(const str &name, int cols, int rows);
Ofd  open_tty(TtyP t);
void tty_type(TtyP t, const char *d, size_t n);    // the user types: the terminal's modes apply
void tty_resize(TtyP t, int cols, int rows);
i64  ch_write(const Ch &c, const void *buf, size_t n, const char *why); // blocking, actor side
i64  ch_read(const Ch &c, void *buf, size_t n, const char *why);        // blocking, 0=EOF
i64  ch_try_read(const Ch &c, void *buf, size_t n);
void ch_close_r(const Ch &c);
void ch_close_w(const Ch &c);
int  open_fds(Proc *p, bool sut_only);
bool no_memory();                           // whether this allocation is to fail
str  fd_report(Proc *p);
enum { OWN_SUT=0, OWN_HARNESS=1, OWN_STD=2 };
// a violation of descriptor discipline
extern str fd_misuse;

// child programs: called for each execve() in a forked child
struct ChildProg { std::vector<int> sigs; int pid; str path; std::vector<str> argv; TtyP tty; bool done=false; int status=0; bool waited=false; Proc *p=0; std::vector<str> env; std::vector<Ofd> kept; };
void child_release(std::shared_ptr<ChildProg> c);        // closes the descriptors the program inherited (other than its terminal)
extern std::function<void(std::shared_ptr<ChildProg>)> on_exec;
extern std::vector<std::shared_ptr<ChildProg>> children;
struct KillCall { int pid, sig; i64 t; bool stale; };      // stale: no such child, or one already waited for
extern std::vector<KillCall> kills;         // kill() calls made by the code under test

// network
struct Server { str host; int port; std::function<int()> accept_result; std::function<void(Ch c2s, Ch s2c)> serve; };
struct Addr { int fam; str ip; int behaviour; int err; i64 delay; int idx=0; };   // 0 accept, 1 refuse, 2 socket() fails
extern std::function<int(const char*, const char*, std::vector<Addr>&)> on_resolve;
extern std::function<void(const Addr&, Ch c2s, Ch s2c, int port)> on_connect;
extern std::vector<str> net_log;
extern std::function<int(const str &url, std::function<bool(const char*,size_t)> sink, str &err)> on_curl_get;
extern std::function<void()> on_reaped;       // a child has just been waited for; signals sent now arrive before the caller goes on

// ---- driver interface --------------------------------------------------------
struct Workload { const char *name; const char *prop; void (*fn)(); int weight; };
void register_workload(const char *prop, const char *name, void (*fn)(), int weight);
struct Reg { Reg(const char *prop, const char *name, void (*fn)(), int weight=1) { register_workload(prop, name, fn, weight); } };
#define WORKLOAD(prop, name, weight) static void wl_##name(); static sim::Reg reg_##name(#prop, #name, wl_##name, weight); static void wl_##name()

void kernel_reset();
}

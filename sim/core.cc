// Scheduler, choices, virtual time, simulated threads and processes.
#include "sim.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <algorithm>

namespace sim
{
__thread Thr *self __attribute__((tls_model("initial-exec")))=0;
Shm *shm;
bool tracing=false;
i64 now=0, epoch=1600000000LL*1000000, cpu_time=0;
u64 seqno=0;
Config cfg;
int child_mode=0;

// ---------------------------------------------------------------- choices
struct TapeSt { bool replay=false; std::vector<u32> fixed; size_t pos=0; u64 rng=0; std::vector<u32> rec; };
static TapeSt tapes[NTAPES];
bool recording_tapes=false;

u64 mix(u64 x) { x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
static u64 rnd(u64 &s) { s+=0x9e3779b97f4a7c15ULL; return mix(s); }

void tapes_random(u64 seed)
{
    for (int i=0;i<NTAPES;i++)
        tapes[i]=TapeSt(), tapes[i].rng=mix(seed*4+i);
}
void tapes_fixed(const std::vector<u32> t[NTAPES])
{
    for (int i=0;i<NTAPES;i++)
        tapes[i]=TapeSt(), tapes[i].replay=true, tapes[i].fixed=t[i];
}
static u32 draw(Tape t, u32 n, bool nz)
{
    TapeSt &s=tapes[t];
    u32 v;
    if (s.replay)
        v= s.pos<s.fixed.size()? s.fixed[s.pos]%n : 0;
    else if (nz)
        v= 1+rnd(s.rng)%(n-1);
    else
        v= rnd(s.rng)%n;
    s.pos++;
    if (recording_tapes && shm)
    {
        u32 k=shm->tape_len[t];
        if (k<TAPE_MAX)
            shm->tape[t][k]=v, shm->tape_len[t]=k+1;
        else
            shm->tape_overflow=1;
    }
    if (shm)
        shm->hash=mix(shm->hash^(v+((u64)t<<40)));
    return v;
}
u32 choose(Tape t, u32 n) { return n<=1? 0 : draw(t, n, false); }
u32 choose_nz(Tape t, u32 n) { return n<=1? 0 : n==2? draw(t, 2, true) : draw(t, n, true); }
bool chance(Tape t, u32 num, u32 den) { u32 v=choose(t, den); return v>=den-num && num; }
u32 logsize(Tape t, u32 max)
{
    int bits=0;
    while (bits<31 && (1u<<bits)<=max) bits++;
    u32 b=choose(t, bits+1);
    if (!b) return 0;
    u32 lo=1u<<(b-1), hi=(1u<<b)-1;
    if (hi>max) hi=max;
    return lo+choose(t, hi-lo+1);
}

// ---------------------------------------------------------------- results
static void finish_run() { shm->simtime=now; shm->seqno=seqno; }

[[noreturn]] static void vresult(int st, const char *cls, const char *fmt, va_list ap)
{
    if (shm->status==ST_RUNNING)
    {
        snprintf(shm->cls, sizeof(shm->cls), "%s", cls);
        vsnprintf(shm->msg, sizeof(shm->msg), fmt, ap);
        finish_run();
        shm->status=st;
    }
    if (tracing) dprintf(2+0, "[%lld us] RESULT %s: %s\n", (long long)now, shm->cls, shm->msg);
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
void fail(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vresult(ST_FAIL, cls, fmt, ap); }
void harness_error(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vresult(ST_HARNESS, "HARNESS", fmt, ap); }
void run_ok() { finish_run(); shm->status=ST_OK; syscall(SYS_exit_group, 0); __builtin_unreachable(); }
void trace(const char *fmt, ...)
{
    if (!tracing) return;
    int e=errno;
    char buf[4096];
    int n=snprintf(buf, sizeof(buf), "%12lld %-10s ", (long long)now, self? self->name.c_str() : "host");
    va_list ap; va_start(ap, fmt);
    n+=vsnprintf(buf+n, sizeof(buf)-n-2, fmt, ap);
    va_end(ap);
    if (n>(int)sizeof(buf)-2) n=sizeof(buf)-2;
    buf[n++]='\n';
    syscall(SYS_write, trace_fd, buf, n);
    errno=e;
}
void describe(const char *fmt, ...)
{
    size_t l=strlen(shm->desc);
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->desc+l, sizeof(shm->desc)-l, fmt, ap);
    va_end(ap);
}
void nontrivial() { shm->nontrivial=1; }
static void bump(Counter *c, const char *name)
{
    for (int i=0;i<MAXCNT;i++)
    {
        if (!c[i].name[0]) snprintf(c[i].name, sizeof(c[i].name), "%s", name);
        if (!strncmp(c[i].name, name, sizeof(c[i].name)-1)) { c[i].n++; return; }
    }
}
void probe(const char *name) { bump(shm->probes, name); }
void fault(const char *kind) { bump(shm->faults, kind); trace("FAULT %s", kind); }
void hash(const void *p, size_t n)
{
    u64 h=shm->hash;
    const u8 *b=(const u8*)p;
    for (size_t i=0;i<n;i++) h=(h^b[i])*0x100000001b3ULL;
    shm->hash=mix(h);
}

// ---------------------------------------------------------------- baton
static std::vector<Thr*> thrs;
static std::vector<Proc*> procs;
static int host_go=0;
static unsigned long zombie=0;
static Stop stop_reason;
static Pred done_pred;
static i64 time_limit=-1;
static bool dirty=true;
static u64 points, same_time_points; static i64 last_time;
static i64 sys_count=0, jit_count=0;
i64 bb_count=0; u64 bbs=0;
bool sig_flag=false;
static bool stopping=false;
static int next_id=0, next_pid=100;

static void fwait(int *a)
{
    while (!__atomic_load_n(a, __ATOMIC_ACQUIRE))
        syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
static void fwake(int *a)
{
    __atomic_store_n(a, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void reap()
{
    if (zombie)
    {
        unsigned long z=zombie; zombie=0;
        REAL(int, pthread_join, (pthread_t, void**))((pthread_t)z, 0);
    }
}
static void give(Thr *t)        // 0 = host
{
    if (t) fwake(&t->go); else fwake(&host_go);
}
static void swap_proc(Proc *p)
{
    proc_switch(p);
}
static Proc *cur_proc=0;
static void resumed(Thr *t)
{
    reap();
    if (t->p!=cur_proc && !t->p->actor)
    {
        cur_proc=t->p;
        swap_proc(t->p);
    }
}
static void handoff(Thr *t)
{
    Thr *me=self;
    if (t==me) return;
    if (t)
    {
        shm->switches++;
        shm->inter=mix(shm->inter^((u64)t->id<<32)^t->pos_seq^(bbs<<12));
        if (tracing) trace("-> %s", t->name.c_str());
    }
    give(t);
    if (me->finishing) return;
    fwait(&me->go);
    resumed(me);
}
void touch() { dirty=true; }

static bool can_cancel(Thr *t) { return t->cancel_pending && t->cancel_enabled; }
static void reeval()
{
    if (!dirty) return;
    dirty=false;
    for (Thr *t : thrs)
        if (t->state==T_BLOCKED)
        {
            if (t->pred && t->pred())
                t->state=T_RUN;
            else if (t->intr_ok && (can_cancel(t) || deliverable(t)))
                t->state=T_RUN, t->interrupted=true;
        }
}
static void timeouts()
{
    for (Thr *t : thrs)
        if (t->state==T_BLOCKED && t->deadline>=0 && t->deadline<=now)
            t->state=T_RUN, t->timedout=true;
}
static void stop_now(Stop r)
{
    stopping=true; stop_reason=r;
}
// The current thread cannot go on (or is offering to yield): choose the next one.
static Thr *choose_next(bool &to_host)
{
    to_host=false;
    while (1)
    {
        reeval();
        timeouts();
        if (stopping) { to_host=true; return 0; }
        if (done_pred && done_pred()) { stop_now(STOP_DONE); to_host=true; return 0; }
        Thr *run[64]; int n=0;
        for (Thr *t : thrs)
            if (t->state==T_RUN && n<64) run[n++]=t;
        if (n)
            return run[choose(S, n)];
        i64 next=-1;
        for (Thr *t : thrs)
            if (t->state==T_BLOCKED && t->deadline>=0 && (next<0 || t->deadline<next))
                next=t->deadline;
        if (next<0) { stop_now(STOP_DEADLOCK); to_host=true; return 0; }
        if (time_limit>=0 && next>time_limit) { now=time_limit; stop_now(STOP_TIME); to_host=true; return 0; }
        if (next>now) now=next;
    }
}
static void schedule()
{
    bool h;
    Thr *t=choose_next(h);
    if (h) { handoff(0); return; }
    handoff(t);
}
[[noreturn]] static void gone() // this OS thread never continues
{
    self->state=T_DEAD;
    schedule();
    while (1) { fwait(&self->go); }
}

// ---------------------------------------------------------------- scheduling points
static void arm_sys() { sys_count= cfg.sys_gap? choose_nz(S, 2*cfg.sys_gap+1) : 0; if (!sys_count) sys_count=1LL<<60; }
static void arm_bb()
{
    if (!cfg.bb_gap) { bb_count=1LL<<60; return; }
    // heavy-tailed gaps: mostly short bursts with long stretches in between
    u32 k=choose_nz(S, 4);
    u32 g= k==0? 0 : k==1? choose_nz(S, 8) : k==2? choose_nz(S, cfg.bb_gap+2) : choose_nz(S, cfg.bb_gap*8+2);
    bb_count= g? g : 1LL<<60;
}
static void arm_jitter() { jit_count= cfg.jitter_den? choose_nz(N, 2*cfg.jitter_den+1) : 0; if (!jit_count) jit_count=1LL<<60; }

static void preempt()
{
    Thr *me=self;
    reeval(); timeouts();
    Thr *run[64]; int n=0;
    run[n++]=me;
    for (Thr *t : thrs)
        if (t->state==T_RUN && t!=me && n<64) run[n++]=t;
    if (n==1) return;
    Thr *t=run[choose(S, n)];
    if (t!=me) { shm->preempts++; handoff(t); }
}
void after_data()
{
    if (!cfg.post_gap || !self || self->nopreempt || self->finishing || !chance(S, 1, cfg.post_gap)) return;
    int e=errno;
    preempt();
    errno=e;
}
void after_lock()
{
    if (!cfg.lock_gap || !self || self->nopreempt || self->finishing || !chance(S, 1, cfg.lock_gap)) return;
    i64 n=1+choose(S, 12);
    if (bb_count>n) bb_count=n;
}
static void check_stop()
{
    while (stopping) handoff(0);
}
static void advance(i64 d)
{
    now+=d; cpu_time+=d;
    timeouts();
    dirty=true;
    if (time_limit>=0 && now>time_limit && !stopping) { stop_now(STOP_TIME); }
}
void yield_point(int weight)
{
    Thr *me=self;
    if (!me || me->finishing) return;
    int e=errno;
    seqno++;
    me->pos_seq++;
    if (++points>cfg.max_points && !stopping) stop_now(STOP_STEPS);
    if (now!=last_time) last_time=now, same_time_points=0;
    else if (++same_time_points>20000) advance(10), same_time_points=19000;
    if (!me->nopreempt)
    {
        if (--jit_count<=0)
        {
            advance(choose(N, cfg.jitter+1));
            arm_jitter();
        }
        check_stop();
        if ((sys_count-=weight)<=0) { arm_sys(); preempt(); }
        else if (points%3000==0) preempt_fair();
    }
    check_stop();
    deliver_signals();
    errno=e;
}
void preempt_fair()
{
    Thr *me=self;
    reeval(); timeouts();
    // round robin, so that a spinning thread cannot starve the others for ever
    size_t k=0;
    for (size_t i=0;i<thrs.size();i++) if (thrs[i]==me) k=i;
    for (size_t i=1;i<thrs.size();i++)
    {
        Thr *t=thrs[(k+i)%thrs.size()];
        if (t->state==T_RUN) { handoff(t); return; }
    }
}
void bb_slow()
{
    Thr *me=self;
    int e=errno;
    if (bbs>cfg.max_bbs && !stopping) { stop_now(STOP_STEPS); check_stop(); }
    if (bb_count<=0) { arm_bb(); seqno++; if (!me->nopreempt) preempt(); check_stop(); }
    if (sig_flag) deliver_signals();
    errno=e;
}

// ---------------------------------------------------------------- waiting
bool wait_until(Pred p, i64 deadline, const char *why, bool interruptible)
{
    Thr *me=self;
    if (!me) harness_error("wait_until on the host: %s", why);
    if (p && p()) return true;
    me->pred=p; me->deadline=deadline; me->why=why;
    me->intr_ok=interruptible; me->interrupted=false; me->timedout=false;
    if (interruptible && (can_cancel(me) || deliverable(me)))
        { me->interrupted=true; me->pred=nullptr; me->deadline=-1; return false; }
    me->state=T_BLOCKED;
    dirty=true;
    do schedule(); while (me->state!=T_RUN || stopping);
    bool ok= me->pred && me->pred();
    // someone else may have taken what we waited for between our wake-up and now: the caller loops
    me->pred=nullptr; me->deadline=-1; me->intr_ok=false;
    if (ok) me->timedout=false;
    return ok;
}
// nothing will happen in p unless something comes in or time passes
bool quiescent(Proc *p)
{
    for (Thr *t : thrs)
    {
        if (t->p!=p || t->state==T_DEAD || t->exited) continue;
        if (t->state==T_RUN || (t->pred && t->pred()) || (t->deadline>=0 && t->deadline<=now)) return false;
        if (t->intr_ok && can_cancel(t)) return false;
    }
    return true;
}
void sleep_us(i64 us) { if (us>0) { i64 d=now+us; while (now<d) wait_until(nullptr, d, "sleep"); } }

// ---------------------------------------------------------------- threads
static void *os_main(void *a)
{
    Thr *t=(Thr*)a;
    fwake(&t->go); // handshake, see make_os
    // wait for the creator to acknowledge, then for the baton
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)!=2)
        syscall(SYS_sched_yield);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
    fwait(&t->go);
    self=t;
    resumed(t);
    struct Guard { ~Guard() { thread_finished(); } } g;
    t->fn();
    return 0;
}
static void make_os(Thr *t)
{
    pthread_t h;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8<<20);
    t->go=0;
    if (REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void*(*)(void*), void*))(&h, &at, os_main, t))
        harness_error("real pthread_create failed");
    pthread_attr_destroy(&at);
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)!=1) syscall(SYS_sched_yield);
    __atomic_store_n(&t->go, 2, __ATOMIC_RELEASE);
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)!=0) syscall(SYS_sched_yield);
    t->os=(unsigned long)h;
}
static Thr *new_thr(Proc *p, const str &name, std::function<void()> fn)
{
    Thr *t=new Thr();
    t->id=next_id++; t->name=name; t->p=p; t->fn=fn;
    t->state=T_RUN; t->deadline=-1; t->why="";
    t->cancel_pending=false; t->cancel_enabled=true; t->exited=false; t->detached=false; t->joined=false;
    t->intr_ok=t->interrupted=t->timedout=false; t->retval=0;
    make_os(t);
    thrs.push_back(t);
    dirty=true;
    return t;
}
void thread_finished()
{
    Thr *t=self;
    t->cancel_enabled=false;
    t->exited=true;
    t->state=T_DEAD;
    t->finishing=true;
    dirty=true;
    trace("thread ends");
    bool h;
    Thr *n=choose_next(h);
    zombie=t->os;
    self=0;
    if (h) { give(0); return; }
    shm->switches++;
    shm->inter=mix(shm->inter^((u64)n->id<<32)^n->pos_seq);
    give(n);
}
Proc *new_proc(const str &name)
{
    Proc *p=new Proc();
    p->pid=next_pid++; p->name=name;
    memset(p->sig, 0, sizeof(p->sig));
    procs.push_back(p);
    return p;
}
static Proc *actors=0;
Thr *spawn_actor(const str &name, std::function<void()> fn)
{
    if (!actors) { actors=new_proc("actors"); actors->actor=true; }
    Thr *t=new_thr(actors, name, fn);
    return t;
}
Thr *spawn_thread(Proc *p, const str &name, std::function<void()> fn) { return new_thr(p, name, fn); }
Thr *start_main(Proc *p, std::function<int()> m)
{
    Thr *t=new_thr(p, p->name, [m]{ int r=m(); proc_exit(r); });
    p->main=t;
    return t;
}
Stop run(Pred done, i64 tl)
{
    if (self) harness_error("run() on a simulated thread");
    done_pred=done; time_limit=tl; stopping=false;
    static bool armed=false;
    if (!armed) { armed=true; arm_sys(); arm_bb(); arm_jitter(); }
    dirty=true;
    bool h;
    Thr *t=choose_next(h);
    if (!h)
    {
        give(t);
        fwait(&host_go);
        reap();
    }
    cur_proc=0; proc_switch(0);
    stopping=false;
    return stop_reason;
}
const char *blocked_report()
{
    static str r;
    r="";
    for (Thr *t : thrs)
        if (t->state==T_BLOCKED)
            r+=t->name+":"+(t->why? t->why : "?")+"; ";
        else if (t->state==T_RUN)
            r+=t->name+":running; ";
    return r.c_str();
}
static void end_proc(Proc *p)
{
    p->dead=true;
    p->exit_time=now; p->exit_seq=seqno;
    for (Thr *t : thrs)
        if (t->p==p && t!=self) t->state=T_DEAD;
    close_all_fds(p);
    dirty=true;
}
void kill_proc(Proc *p, int sig)
{
    if (p->dead) return;
    trace("process %s killed by signal %d", p->name.c_str(), sig);
    p->killed=sig;
    end_proc(p);
    if (self && self->p==p) gone();
}
void proc_exit(int code)
{
    Proc *p=self->p;
    self->cancel_enabled=false;
    if (p->exiting)
    {
        if (p->main==self || true) // exit() re-entered (from a signal handler or an atexit function)
            trace("exit(%d) re-entered", code);
    }
    p->exiting=true;
    trace("exit(%d)", code);
    while (!p->atexits.empty())
    {
        void (*f)(void)=p->atexits.back();
        p->atexits.pop_back();
        f();
    }
    flush_all_files(p);
    proc__exit(code);
}
void proc__exit(int code)
{
    Proc *p=self->p;
    trace("_exit(%d)", code);
    if (!p->dead)
    {
        p->exited=true; p->code=code;
        end_proc(p);
    }
    gone();
}
bool thr_exited(Thr *t) { return t->exited || t->state==T_DEAD; }
bool thr_cancelable(Thr *t) { return can_cancel(t); }

// ---------------------------------------------------------------- signals
// what a process-directed signal may run on: the main thread, unless it has it blocked
static u64 takes(Thr *t) { Thr *m=t->p->main; return m==t || !m || m->state==T_DEAD? ~t->sigmask : m->sigmask&~t->sigmask; }
static bool default_ignored(int s) { return s==SIGWINCH || s==SIGCHLD || s==SIGCONT || s==SIGURG || s==SIGTSTP || s==SIGTTOU || s==SIGTTIN; }
bool deliverable(Thr *t)
{
    return (t->p->pending & takes(t)) || (t->pending & ~t->sigmask);
}
void send_signal(Proc *p, int sig)
{
    if (p->dead) return;
    trace("signal %d to %s", sig, p->name.c_str());
    if (sig==SIGKILL) { kill_proc(p, sig); return; }
    if (sig<1 || sig>64) return;
    if (p->sig[sig].h==SIG_IGN) return;
    if (p->sig[sig].h==SIG_DFL && default_ignored(sig)) return;
    p->pending|=1ULL<<sig;
    sig_flag=true;
    dirty=true;
}
void thread_signal(int sig)     // synchronous, e.g. SIGPIPE
{
    self->pending|=1ULL<<sig;
    sig_flag=true;
    deliver_signals();
}
void deliver_signals()
{
    Thr *t=self;
    if (!sig_flag || !t || t->p->actor || t->p->dead || child_mode) return;
    int e=errno;
    while (1)
    {
        u64 m=t->pending & ~t->sigmask;
        bool own=m;
        if (!m) m=t->p->pending & takes(t);
        if (!m) break;
        int s=__builtin_ctzll(m);
        if (own) t->pending&=~(1ULL<<s); else t->p->pending&=~(1ULL<<s);
        SigAct a=t->p->sig[s];
        if (a.h==SIG_IGN) continue;
        if (a.h==SIG_DFL)
        {
            if (default_ignored(s)) continue;
            kill_proc(t->p, s);
        }
        u64 old=t->sigmask;
        t->sigmask|=a.mask|(1ULL<<s);
        t->in_handler++;
        trace("signal handler for %d", s);
        a.h(s);
        t->in_handler--;
        t->sigmask=old;
    }
    bool any=false;
    for (Proc *p : procs) if (!p->dead && p->pending) any=true;
    for (Thr *x : thrs) if (x->state!=T_DEAD && x->pending) any=true;
    sig_flag=any;
    errno=e;
}

// ---------------------------------------------------------------- swarm configuration
void draw_jitter()
{
    switch (choose(N, 5))
    {
    case 0: case 1: cfg.jitter_den=0; break;
    case 2: cfg.jitter_den=2; cfg.jitter=50; break;
    case 3: cfg.jitter_den=10; cfg.jitter=2000; break;
    case 4: cfg.jitter_den=30; cfg.jitter=100000; break;
    }
}
void draw_sched_config(bool threads)
{
    static const u32 sg[]={0, 1, 2, 4, 8, 20, 60};
    static const u32 bg[]={0, 0, 3, 30, 300, 3000};
    cfg.sys_gap=sg[choose(S, 7)];
    cfg.bb_gap= threads? bg[choose(S, 6)] : 0;
    static const u32 lg[]={0, 0, 2, 6};
    cfg.lock_gap= threads? lg[choose(S, 4)] : 0;
    static const u32 pc[]={65536, 4096, 8192, 16384, 65536};
    cfg.pipe_cap=pc[choose(N, 5)];
    cfg.short_reads=chance(N, 1, 2);
    cfg.short_file_reads=chance(N, 1, 4);
    cfg.spurious=chance(F, 1, 4);
}
// threads of a process that are running, or that ended and were neither joined nor detached
int threads_left(Proc *p)
{
    int n=0;
    for (Thr *t : thrs) if (t->p==p && (t->state!=T_DEAD || (!t->detached && !t->joined))) n++;
    return n;
}
void reset_core() { thrs.clear(); procs.clear(); }
}

extern "C" void __sanitizer_cov_trace_pc(void)
{
    using namespace sim;
    if (!self) return;
    bbs++;
    u64 pc=(u64)__builtin_return_address(0);
    u32 h=(u32)((pc*0x9e3779b97f4a7c15ULL)>>46); // 18 bits
    u8 *b=&covmap[h>>3], m=1<<(h&7);
    if (!(*b&m)) *b|=m;
    if (--bb_count<=0 || sig_flag || (bbs&0xffff)==0)
        bb_slow();
}

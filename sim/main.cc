// Driver: batches of runs, replay, minimisation.
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <algorithm>
#include <set>
#include <string>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0:symbolize=1:use_sigaltstack=0:malloc_context_size=8:quarantine_size_mb=64"; }
extern "C" void __asan_on_error() { sim::self=0; }

namespace sim
{
u8 *covmap;
int trace_fd=2;
void capture_pristine();
static std::vector<Workload> &wls() { static std::vector<Workload> v; return v; }
void register_workload(const char *prop, const char *name, void (*fn)(), int weight) { wls().push_back({name, prop, fn, weight}); }
}
using namespace sim;

struct Outcome { int status; str cls, msg; u64 hash; };
static int errfd=-1;
static bool is_asan;

static std::vector<Workload> of_prop(const str &p)
{
    std::vector<Workload> v;
    for (auto &w : wls()) if (p==w.prop) v.push_back(w);
    std::sort(v.begin(), v.end(), [](const Workload &a, const Workload &b) { return strcmp(a.name, b.name)<0; });
    return v;
}
static u64 strhash(const str &s) { u64 h=1469598103934665603ULL; for (char c : s) h=(h^(u8)c)*0x100000001b3ULL; return h; }
static u64 run_seed(const str &prop, u64 seed, u64 idx) { return mix(mix(strhash(prop)^seed*0x9e3779b97f4a7c15ULL)+idx); }
static const Workload &select_wl(const std::vector<Workload> &v, u64 rs)
{
    int tot=0;
    for (auto &w : v) tot+=w.weight;
    int k=mix(rs^0x5151)%tot;
    for (auto &w : v) if ((k-=w.weight)<0) return w;
    return v[0];
}
static void reset_shm()
{
    memset(shm, 0, offsetof(Shm, tape));
}
// run one simulated world in a forked child
static Outcome run_child(const Workload &w, u64 rs, const std::vector<u32> *fixed, bool rec, bool tr)
{
    reset_shm();
    snprintf(shm->workload, sizeof(shm->workload), "%s", w.name);
    shm->hash=1;
    if (errfd>=0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }
    pid_t pid=fork();
    if (pid<0) { perror("fork"); exit(3); }
    if (!pid)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (errfd>=0 && !tr) dup2(errfd, 2);
        struct itimerval it={{0,0},{20,0}};
        setitimer(ITIMER_PROF, &it, 0);
        sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, 0);
        if (!is_asan) { struct rlimit rl={6ULL<<30, 6ULL<<30}; setrlimit(RLIMIT_AS, &rl); }
        struct rlimit rc={0,0}; setrlimit(RLIMIT_CORE, &rc);
        tracing=tr;
        recording_tapes=rec;
        if (fixed) tapes_fixed(fixed); else tapes_random(rs);
        w.fn();
        run_ok();
    }
    int st=0;
    // wall clock watchdog
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    while (1)
    {
        pid_t r=waitpid(pid, &st, WNOHANG);
        if (r==pid) break;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec-t0.tv_sec>150) { kill(pid, SIGKILL); waitpid(pid, &st, 0); Outcome o; o.status=ST_HARNESS; o.cls="HARNESS"; o.msg="run made no progress in real time"; o.hash=0; return o; }
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
        struct timespec ts={1,0};
        sigtimedwait(&ss, 0, &ts);
    }
    Outcome o; o.status=shm->status; o.cls=shm->cls; o.msg=shm->msg; o.hash=shm->hash;
    if (o.status==ST_RUNNING)
    {
        o.status=ST_FAIL;
        char buf[20000]; ssize_t n=0;
        if (errfd>=0) n=pread(errfd, buf, sizeof(buf)-1, 0);
        if (n<0) n=0;
        buf[n]=0;
        char *s=strstr(buf, "SUMMARY: AddressSanitizer: ");
        if (WIFSIGNALED(st) && WTERMSIG(st)==SIGPROF) { o.cls="HANG"; o.msg="endless computation (no end after 20 s of processor time)"; o.hash=0; }
        else if (strstr(buf, "AddressSanitizer"))
        {
            o.cls="MEMORY"; o.msg="memory error";
            char *e=strstr(buf, "ERROR: AddressSanitizer: ");
            if (e) { e+=25; char *x=strpbrk(e, " \n"); o.msg=str(e, x? x-e : 20); }
            if (s) { s+=27; o.msg=str(s, strcspn(s, "\n")); size_t p=o.msg.find("/repo/"); if (p!=str::npos) o.msg.erase(p, 6); }
        }
        else if (WIFSIGNALED(st)) { o.cls="CRASH"; o.msg=str("killed by signal ")+strsignal(WTERMSIG(st)); }
        else { o.cls="CRASH"; o.msg="the simulated process left the simulation, status "+std::to_string(WEXITSTATUS(st))+" "+str(buf, n<300? n : 300); }
    }
    return o;
}

struct Viol { u64 idx; int status; char cls[64]; char msg[1200]; char wl[40]; u64 hash; };
struct Agg
{
    u64 runs, nontrivial, switches, preempts, simtime, syscalls, double_checked;
    Counter faults[MAXCNT], probes[MAXCNT];
    int nviol; Viol viol[16];
    int nsample; char sample[6][1600];
    u64 known; char known_cls[8][64]; u64 known_n[8]; char known_msg[8][600];
    int nondet; char nondet_msg[300];
};
static void merge(Counter *d, const Counter *s)
{
    for (int i=0;i<MAXCNT && s[i].name[0];i++)
        for (int j=0;j<MAXCNT;j++)
        {
            if (!d[j].name[0]) memcpy(d[j].name, s[i].name, sizeof(d[j].name));
            if (!strcmp(d[j].name, s[i].name)) { d[j].n+=s[i].n; break; }
        }
}
static str jesc(const str &s)
{
    str r;
    for (unsigned char c : s)
        if (c=='"' || c=='\\') r+='\\', r+=c;
        else if (c<32 || c>126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r+=b; }
        else r+=c;
    return r;
}
static double wallt() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec+t.tv_nsec*1e-9; }

static int batch(const str &prop, u64 seed, u64 first, u64 count, int jobs, double tlimit, const std::set<str> &known, const char *out, const str &only)
{
    auto v=of_prop(prop);
    if (only!="") { std::vector<Workload> x; for (auto &w : v) if (only==w.name) x.push_back(w); v=x; }
    if (v.empty()) { fprintf(stderr, "no workloads for %s\n", prop.c_str()); return 3; }
    Agg *agg=(Agg*)mmap(0, sizeof(Agg)*jobs, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    u64 *inter=(u64*)mmap(0, 16*count+16, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    volatile int *stop=(volatile int*)mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    double t0=wallt();
    cpu_set_t have; CPU_ZERO(&have); sched_getaffinity(0, sizeof(have), &have);
    std::vector<int> cpus; for (int i=0;i<CPU_SETSIZE;i++) if (CPU_ISSET(i, &have)) cpus.push_back(i);
    for (int j=0;j<jobs;j++)
    {
        pid_t p=fork();
        if (p) continue;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpus[j%cpus.size()], &cs); sched_setaffinity(0, sizeof(cs), &cs);
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, 0);
        shm=(Shm*)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        errfd=memfd_create("err", 0);
        errfd=fcntl(errfd, F_DUPFD, 600);
        Agg &a=agg[j];
        for (u64 i=j;i<count;i+=jobs)
        {
            if (*stop || (tlimit>0 && wallt()-t0>tlimit)) break;
            u64 rs=run_seed(prop, seed, first+i);
            const Workload &w=select_wl(v, rs);
            Outcome o=run_child(w, rs, 0, false, false);
            a.runs++; a.nontrivial+=shm->nontrivial; a.switches+=shm->switches; a.preempts+=shm->preempts; a.simtime+=shm->simtime; a.syscalls+=shm->seqno;
            merge(a.faults, shm->faults); merge(a.probes, shm->probes);
            if (shm->nontrivial) inter[2*i]=shm->inter|1;
            inter[2*i+1]=o.hash|1;
            if (a.nsample<6 && shm->desc[0] && (i/jobs)%7==0) snprintf(a.sample[a.nsample++], 1600, "run %llu (%s): %s", (unsigned long long)(first+i), w.name, shm->desc);
            if (o.status!=ST_OK)
            {
                if (o.status==ST_FAIL && known.count(o.cls))
                {
                    a.known++;
                    for (int k=0;k<8;k++)
                    {
                        if (!a.known_cls[k][0]) snprintf(a.known_cls[k], 64, "%s", o.cls.c_str()), snprintf(a.known_msg[k], 600, "%s", o.msg.c_str());
                        if (o.cls==a.known_cls[k]) { a.known_n[k]++; break; }
                    }
                }
                else if (a.nviol<16)
                {
                    Viol &x=a.viol[a.nviol++];
                    x.idx=first+i; x.status=o.status; x.hash=o.hash;
                    snprintf(x.cls, sizeof(x.cls), "%s", o.cls.c_str()); snprintf(x.msg, sizeof(x.msg), "%s", o.msg.c_str()); snprintf(x.wl, sizeof(x.wl), "%s", w.name);
                    if (!getenv("SIM_KEEP_GOING") || a.nviol>=12) *stop=1;
                }
            }
            if (i%40==(u64)j && o.status==ST_OK)
            {
                u64 h=o.hash;
                Outcome p=run_child(w, rs, 0, false, false);
                a.double_checked++;
                if (p.hash!=h || p.status!=o.status) { a.nondet++; snprintf(a.nondet_msg, sizeof(a.nondet_msg), "run %llu (%s) differs when repeated: %s %s", (unsigned long long)(first+i), w.name, p.cls.c_str(), p.msg.c_str()); *stop=1; }
            }
        }
        _exit(0);
    }
    while (wait(0)>0 || errno==EINTR) {}
    Agg t; memset(&t, 0, sizeof(t));
    std::vector<Viol> viols; std::vector<str> samples; str nondet;
    std::map<str,std::pair<u64,str>> kn;
    for (int j=0;j<jobs;j++)
    {
        Agg &a=agg[j];
        t.runs+=a.runs; t.nontrivial+=a.nontrivial; t.switches+=a.switches; t.preempts+=a.preempts; t.simtime+=a.simtime; t.syscalls+=a.syscalls; t.double_checked+=a.double_checked;
        merge(t.faults, a.faults); merge(t.probes, a.probes);
        for (int i=0;i<a.nviol;i++) viols.push_back(a.viol[i]);
        for (int i=0;i<a.nsample && samples.size()<8;i++) if (i<2) samples.push_back(a.sample[i]);
        if (a.nondet) nondet=a.nondet_msg;
        for (int k=0;k<8 && a.known_cls[k][0];k++) { auto &q=kn[a.known_cls[k]]; q.first+=a.known_n[k]; if (q.second=="") q.second=a.known_msg[k]; }
    }
    std::sort(viols.begin(), viols.end(), [](const Viol &a, const Viol &b) { return a.idx<b.idx; });
    std::set<u64> di, dh;
    for (u64 i=0;i<count;i++) { if (inter[2*i]) di.insert(inter[2*i]); if (inter[2*i+1]) dh.insert(inter[2*i+1]); }
    u64 cov=0; for (int i=0;i<32768;i++) cov+=__builtin_popcount(covmap[i]);
    FILE *f=fopen(out, "w");
    fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"distinct_interleavings\":%zu,\"distinct_histories\":%zu,\"switches\":%llu,\"preemptions\":%llu,\"sim_us\":%llu,\"events\":%llu,\"double_checked\":%llu,\"blocks\":%llu,\"wall_s\":%.2f,\n",
        (unsigned long long)t.runs, (unsigned long long)t.nontrivial, di.size(), dh.size(), (unsigned long long)t.switches, (unsigned long long)t.preempts, (unsigned long long)t.simtime, (unsigned long long)t.syscalls, (unsigned long long)t.double_checked, (unsigned long long)cov, wallt()-t0);
    for (int k=0;k<2;k++)
    {
        Counter *c= k? t.probes : t.faults;
        fprintf(f, "\"%s\":{", k? "probes" : "faults");
        for (int i=0;i<MAXCNT && c[i].name[0];i++) fprintf(f, "%s\"%s\":%llu", i? "," : "", jesc(c[i].name).c_str(), (unsigned long long)c[i].n);
        fprintf(f, "},\n");
    }
    fprintf(f, "\"samples\":[");
    for (size_t i=0;i<samples.size();i++) fprintf(f, "%s\"%s\"", i? ",\n" : "", jesc(samples[i]).c_str());
    fprintf(f, "],\n\"nondet\":\"%s\",\n\"known\":{", jesc(nondet).c_str());
    int k=0;
    for (auto &x : kn) fprintf(f, "%s\"%s\":{\"n\":%llu,\"msg\":\"%s\"}", k++? "," : "", jesc(x.first).c_str(), (unsigned long long)x.second.first, jesc(x.second.second).c_str());
    fprintf(f, "},\n\"violations\":[");
    for (size_t i=0;i<viols.size();i++) fprintf(f, "%s{\"idx\":%llu,\"harness\":%d,\"cls\":\"%s\",\"wl\":\"%s\",\"msg\":\"%s\",\"hash\":\"%llx\"}", i? ",\n" : "", (unsigned long long)viols[i].idx, viols[i].status==ST_HARNESS, jesc(viols[i].cls).c_str(), jesc(viols[i].wl).c_str(), jesc(viols[i].msg).c_str(), (unsigned long long)viols[i].hash);
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}

typedef std::vector<u32> Tp;
struct Case { const Workload *w; Tp t[NTAPES]; };
static str key_of(const Outcome &o) { return o.cls; }
static Outcome try_case(const Case &c) { return run_child(*c.w, 0, c.t, false, false); }

static int minimise(const str &prop, u64 seed, u64 idx, const char *out, double budget, const str &only)
{
    auto v=of_prop(prop);
    if (only!="") { std::vector<Workload> x; for (auto &w : v) if (only==w.name) x.push_back(w); v=x; }
    u64 rs=run_seed(prop, seed, idx);
    Case c; c.w=&select_wl(v, rs);
    Outcome o=run_child(*c.w, rs, 0, true, false);
    if (o.status!=ST_FAIL) { fprintf(stderr, "run %llu does not fail when repeated (%s)\n", (unsigned long long)idx, o.msg.c_str()); return 2; }
    u64 h0=o.hash; str key=key_of(o);
    if (shm->tape_overflow)
    {
        // too many choices to list (and so to minimise): the replay file names the seed they all come from
        FILE *f=fopen(out, "w");
        if (!f) { perror(out); return 2; }
        str m=o.msg; for (char &ch : m) if (ch=='\n') ch=' ';
        fprintf(f, "property %s\nworkload %s\nvariant %s\nseed %llu\nrun %llu\nclass %s\nhash %llx\nmessage %s\nnot minimised: too many choices\nchoices-from %llu\n", prop.c_str(), c.w->name, is_asan? "asan" : "plain", (unsigned long long)seed, (unsigned long long)idx, o.cls.c_str(), (unsigned long long)o.hash, m.c_str(), (unsigned long long)rs);
        fclose(f);
        printf("%s: %s\n", o.cls.c_str(), o.msg.c_str());
        return 0;
    }
    for (int i=0;i<NTAPES;i++) c.t[i].assign(shm->tape[i], shm->tape[i]+shm->tape_len[i]);
    size_t orig=0; for (auto &t : c.t) orig+=t.size();
    o=try_case(c);
    if (o.status!=ST_FAIL || key_of(o)!=key || o.hash!=h0) { fprintf(stderr, "recorded choices do not reproduce run %llu: %s %s (hash %llx vs %llx)\n", (unsigned long long)idx, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash, (unsigned long long)h0); return 2; }
    double t0=wallt();
    int tries=0;
    auto ok=[&](const Case &n) { tries++; Outcome r=try_case(n); return r.status==ST_FAIL && key_of(r)==key; };
    auto late=[&]{ return wallt()-t0>budget; };
    // drop trailing zeros for free
    auto trim=[](Case &n) { for (auto &t : n.t) while (!t.empty() && !t.back()) t.pop_back(); };
    trim(c);
    bool progress=true;
    while (progress && !late())
    {
        progress=false;
        for (int k=0;k<NTAPES && !late();k++)
        {
            int tp= k==0? S : k==1? F : k==2? N : W;
            if (c.t[tp].empty()) continue;
            // truncate
            for (size_t cutl=0; cutl<c.t[tp].size() && !late(); cutl= cutl? cutl+(c.t[tp].size()-cutl+1)/2 : c.t[tp].size()/2+1)
            {
                Case n=c; n.t[tp].resize(cutl); trim(n);
                if (n.t[tp].size()<c.t[tp].size() && ok(n)) { c=n; progress=true; break; }
            }
            // zero or delete chunks
            for (size_t len=c.t[tp].size(); len && !late(); len/=2)
                for (size_t at=0; at<c.t[tp].size() && !late(); )
                {
                    Case n=c; size_t e=std::min(at+len, n.t[tp].size());
                    bool nz=false; for (size_t i=at;i<e;i++) if (n.t[tp][i]) nz=true;
                    if (nz)
                    {
                        for (size_t i=at;i<e;i++) n.t[tp][i]=0;
                        trim(n);
                        if (ok(n)) { c=n; progress=true; at+=len; continue; }
                    }
                    n=c; n.t[tp].erase(n.t[tp].begin()+at, n.t[tp].begin()+std::min(at+len, n.t[tp].size())); trim(n);
                    if (len<=64 && ok(n)) { c=n; progress=true; continue; }
                    at+=len;
                }
            // shrink values
            for (size_t i=0;i<c.t[tp].size() && !late();i++)
                if (c.t[tp][i]>1)
                    for (u32 nv : {1u, c.t[tp][i]/2})
                        if (nv<c.t[tp][i]) { Case n=c; n.t[tp][i]=nv; if (ok(n)) { c=n; progress=true; break; } }
        }
    }
    trim(c);
    o=try_case(c);
    FILE *f=fopen(out, "w");
    if (!f) { perror(out); return 2; }
    size_t left=0; for (auto &t : c.t) for (u32 x : t) left+=!!x;
    fprintf(f, "property %s\nworkload %s\nvariant %s\nseed %llu\nrun %llu\nclass %s\nhash %llx\n", prop.c_str(), c.w->name, is_asan? "asan" : "plain", (unsigned long long)seed, (unsigned long long)idx, o.cls.c_str(), (unsigned long long)o.hash);
    str m=o.msg; for (char &ch : m) if (ch=='\n') ch=' ';
    fprintf(f, "message %s\nminimised %zu choices to %zu non-zero ones in %d runs\n", m.c_str(), orig, left, tries);
    static const char *tn[]={"workload", "faults", "schedule", "io"};
    for (int k=0;k<NTAPES;k++) { fprintf(f, "tape %s %zu", tn[k], c.t[k].size()); for (u32 x : c.t[k]) fprintf(f, " %u", x); fprintf(f, "\n"); }
    fclose(f);
    // annotate with the event trace
    int tfd=open(out, O_WRONLY|O_APPEND);
    int tmp=memfd_create("trace", 0);
    trace_fd=fcntl(tmp, F_DUPFD, 700);
    run_child(*c.w, 0, c.t, false, true);
    off_t sz=lseek(trace_fd, 0, SEEK_END), from= sz>60000? sz-60000 : 0;
    str tx(sz-from, 0); if (pread(trace_fd, &tx[0], tx.size(), from)<0) {}
    if (write(tfd, "trace\n", 6)<0 || write(tfd, tx.data(), tx.size())<0) {}
    close(tfd);
    printf("%s: %s\n", o.cls.c_str(), o.msg.c_str());
    return 0;
}

static int replay(const char *file, bool tr)
{
    FILE *f=fopen(file, "r");
    if (!f) { perror(file); return 3; }
    char *l=0; size_t n=0;
    str prop, wl, cls, hash; Case c; c.w=0; u64 from=0; bool seeded=false;
    while (getline(&l, &n, f)>0)
    {
        str s(l); while (!s.empty() && s.back()=='\n') s.pop_back();
        if (s=="trace") break;
        size_t p=s.find(' '); if (p==str::npos) continue;
        str k=s.substr(0, p), val=s.substr(p+1);
        if (k=="property") prop=val;
        else if (k=="workload") wl=val;
        else if (k=="class") cls=val;
        else if (k=="hash") hash=val;
        else if (k=="choices-from") from=strtoull(val.c_str(), 0, 10), seeded=true;
        else if (k=="tape")
        {
            int t= val[0]=='w'? W : val[0]=='f'? F : val[0]=='s'? S : N;
            char *q=strdup(val.c_str()), *sv, *tok=strtok_r(q, " ", &sv);
            strtok_r(0, " ", &sv);
            while ((tok=strtok_r(0, " ", &sv))) c.t[t].push_back(strtoul(tok, 0, 10));
        }
    }
    fclose(f);
    auto v=of_prop(prop);
    for (auto &w : v) if (wl==w.name) c.w=&w;
    if (!c.w) { fprintf(stderr, "no such workload\n"); return 3; }
    Outcome o=run_child(*c.w, seeded? from : 0, seeded? 0 : c.t, false, tr);
    char h[32]; snprintf(h, sizeof(h), "%llx", (unsigned long long)o.hash);
    if (o.status!=ST_FAIL) { printf("no violation (%s)\n", o.msg.c_str()); return 0; }
    printf("%s %s\n%s\n", o.cls.c_str(), h, o.msg.c_str());
    return o.cls==cls && (hash==h)? 1 : 4;
}

int main(int argc, char **argv)
{
    // no address space randomisation, a fixed environment
    if (!getenv("SIM_REEXEC"))
    {
        personality(ADDR_NO_RANDOMIZE);
        str kg= getenv("SIM_KEEP_GOING")? "SIM_KEEP_GOING=1" : "SIM_NOTHING=1";
        char *env[]={(char*)"SIM_REEXEC=1", (char*)"TZ=UTC", (char*)"SHELL=/bin/testshell", (char*)"PATH=/usr/bin:/bin", (char*)kg.c_str(), 0};
        execve("/proc/self/exe", argv, env);
        perror("re-exec"); return 3;
    }
#ifdef SIM_ASAN
    is_asan=true;
#endif
    // keep our own descriptors out of the way
    capture_pristine();
    covmap=(u8*)mmap(0, 32768, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    shm=(Shm*)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    errfd=fcntl(memfd_create("err", 0), F_DUPFD, 600);
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, 0);
    str cmd= argc>1? argv[1] : "";
    auto pin=[]{ cpu_set_t cs; CPU_ZERO(&cs); int c=sched_getcpu(); CPU_SET(c<0? 0 : c, &cs); sched_setaffinity(0, sizeof(cs), &cs); };
    if (cmd=="list")
    {
        for (auto &w : wls()) printf("%s %s %d\n", w.prop, w.name, w.weight);
        return 0;
    }
    if (cmd=="batch" && argc>=9) // prop seed first count jobs tlimit out [known,..] [workload]
    {
        std::set<str> known;
        if (argc>9) { char *sv; for (char *t=strtok_r(argv[9], ",", &sv); t; t=strtok_r(0, ",", &sv)) known.insert(t); }
        return batch(argv[2], strtoull(argv[3],0,10), strtoull(argv[4],0,10), strtoull(argv[5],0,10), atoi(argv[6]), atof(argv[7]), known, argv[8], argc>10? argv[10] : "");
    }
    if (cmd=="one" && argc>=5) // prop seed idx [trace] [workload]
    {
        pin();
        auto v=of_prop(argv[2]);
        if (argc>6) { std::vector<Workload> x; for (auto &w : v) if (!strcmp(argv[6], w.name)) x.push_back(w); v=x; }
        u64 rs=run_seed(argv[2], strtoull(argv[3],0,10), strtoull(argv[4],0,10));
        const Workload &w=select_wl(v, rs);
        bool tr= argc>5 && argv[5][0]=='t';
        Outcome o=run_child(w, rs, 0, false, tr);
        printf("%s status=%d %s: %s hash=%llx\n%s\n", w.name, o.status, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash, shm->desc);
        char buf[8000]; ssize_t n=pread(errfd, buf, sizeof(buf)-1, 0);
        if (n>0) { buf[n]=0; printf("%s\n", buf); }
        return o.status!=ST_OK;
    }
    if (cmd=="min" && argc>=7) { pin(); return minimise(argv[2], strtoull(argv[3],0,10), strtoull(argv[4],0,10), argv[5], atof(argv[6]), argc>7? argv[7] : ""); }
    if (cmd=="replay" && argc>=3) { pin(); return replay(argv[2], argc>3); }
    fprintf(stderr, "usage: sim list | batch | one | min | replay\n");
    return 3;
}

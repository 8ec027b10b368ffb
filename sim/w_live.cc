// C16: live streams are timed by arrival, live output is paced
#include "rec.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <algorithm>

namespace {
struct Arr { size_t end; i64 t0, t1, cpu0; };        // bytes up to end arrived between t0 and t1
struct Del { size_t off, len; i64 t, cpu, stamp; i64 busy, busycpu; };
struct LiveIn { std::vector<Arr> arr; std::vector<Del> del; str data; i64 init=-1, sum=0; int ninit=0; i64 busy=-1, busycpu=0; bool slow=false; };
}
static void li_init(const struct timeval *tv, void *a) { LiveIn &l=*(LiveIn*)a; l.ninit++; l.init=tv->tv_sec*1000000LL+tv->tv_usec; l.sum=l.init; }
static void li_wait(const struct timeval *tv, void *a) { LiveIn &l=*(LiveIn*)a; l.sum+=tv->tv_sec*1000000LL+tv->tv_usec; if (tv->tv_sec<0) fail("stamp", "a negative delay of a live stream"); }
static void li_print(const char *b, int n, void *a)
{
    LiveIn &l=*(LiveIn*)a;
    l.del.push_back({l.data.size(), (size_t)n, now, cpu_time, l.sum, l.busy, l.busycpu});
    l.data.append(b, n);
    if (l.slow && chance(N, 1, 3)) sleep_us(logsize(N, 3000000));
    l.busy=now; l.busycpu=cpu_time;
}

WORKLOAD(C16, c16_read, 2)
{
    draw_sched_config(); draw_jitter();
    epoch+=choose(W, 3)? choose(W, 1000000) : 0;
    LiveIn l;
    bool autodet=choose(W, 3)==0;
    int how=choose(W, 3);              // pipe, tcp, telnet
    int n=1+logsize(W, 60);
    u32 maxchunk=1+logsize(W, 8000);
    struct P { i64 gap; str d; };
    std::vector<P> ps; str all;
    for (int i=0;i<n;i++)
    {
        P p; p.gap= choose(W, 4)==0? 0 : choose(W, 4)==0? 1000000LL*(1+choose(W, 20)) : logsize(W, 20000000);
        u32 k=1+logsize(W, maxchunk);
        u32 b=choose(W, 1<<20); p.d.resize(k); for (u32 j=0;j<k;j++) p.d[j]='!'+(b+j+j/91)%90;
        if (i==0 && autodet && p.d[0]=='{') p.d[0]='x';
        all+=p.d; ps.push_back(p);
    }
    l.slow=chance(N, 1, 3);
    describe("%s%s, %d pieces, %zu bytes%s", how==0? "pipe" : how==1? "tcp" : "telnet", autodet? " (auto)" : "", n, all.size(), l.slow? ", slow consumer" : "");
    auto feed=[&](Ch ch) {
        size_t at=0;
        for (auto &p : ps)
        {
            if (p.gap) sleep_us(p.gap);
            Arr a; a.t0=now; a.cpu0=cpu_time; at+=p.d.size(); a.end=at;
            if (ch_write(ch, p.d.data(), p.d.size(), "live source")<(i64)p.d.size()) return;
            a.t1=now;
            l.arr.push_back(a);
        }
        if (choose(N, 2)) sleep_us(logsize(N, 5000000));
    };
    Proc *p=mkproc("reader");
    if (how) net_host("src", [&](Ch c2s, Ch s2c, int) { feed(s2c); });
    bool ok=false;
    start_main(p, [&]() -> int {
        int fd=-1; str name="x";
        if (!how) { Ofd r, w; make_pipe(r, w, cfg.pipe_cap); Ch ch=w->wr; fd=fd_install(p, r); spawn_actor("source", [&feed,ch,w]{ feed(ch); ch_close_w(ch); }); }
        else name= how==1? "tcp://src:9" : "telnet://src";
        ok=ttyrec_r_play(fd, autodet? (choose(W, 2)? "auto" : 0) : "live", name.c_str(), li_init, li_wait, li_print, &l);
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "reading a live stream");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!ok) fail("open-failed", "the stream could not be opened");
    if (l.data!=all) fail("data", "%zu bytes came, %zu were delivered, differing from %zu on", all.size(), l.data.size(), first_diff(all, l.data));
    if (l.ninit!=1) fail("stamp", "init_wait called %d times", l.ninit);
    size_t k=0;
    i64 last=0;
    for (auto &d : l.del)
    {
        if (d.stamp<last) fail("stamp", "time goes backwards");
        last=d.stamp;
        // the last byte of the piece: not before it arrived; every byte: soon after
        size_t o=d.off, e=d.off+d.len;
        while (o<e)
        {
            size_t q=o;
            if (autodet && q<12) q=std::min<size_t>(11, all.size()-1);
            k=std::lower_bound(l.arr.begin(), l.arr.end(), q+1, [](const Arr &a, size_t v) { return a.end<v; })-l.arr.begin();
            if (k>=l.arr.size()) harness_error("arrivals");
            Arr &a=l.arr[k];
            if (d.stamp-epoch<a.t0) fail("stamp", "byte %zu is stamped %s s, it arrived at %s s", o, tvs(d.stamp-epoch).c_str(), tvs(a.t0).c_str());
            if (d.stamp-epoch>d.t) fail("stamp", "byte %zu is stamped %s s, it was delivered at %s s already", o, tvs(d.stamp-epoch).c_str(), tvs(d.t).c_str());
            if (!(autodet && all.size()<12 && o<12))
            {
                i64 lim=a.t1+(d.cpu-a.cpu0), lim2= d.busy<0? -1 : d.busy+(d.cpu-d.busycpu);
                if (d.t>std::max(lim, lim2)) fail("late", "byte %zu arrived at %s s and is delivered at %s s only", o, tvs(a.t1).c_str(), tvs(d.t).c_str());
            }
            o=std::max(o+1, a.end);
        }
    }
}

static volatile int got_sig;
static void on_usr1(int) { got_sig++; }

WORKLOAD(C16, c16_write, 2)
{
    draw_sched_config(); draw_jitter();
    static const i64 us[]={0, 500000, 999999, 1, 250000};
    epoch+=choose(W, 2)? us[choose(W, 5)] : choose(W, 1000000);
    int n=1+logsize(W, 40);
    int base=choose(W, 3);             // NULL, 0-based with a zero tm, dated
    i64 tm0= base==2? 1000000000LL*1000000+(choose(W, 2)? us[choose(W, 5)] : choose(W, 1000000)) : 0;
    struct E { i64 t; str d; i64 think; };
    std::vector<E> es; i64 t= base==1 || choose(W, 2)? 0 : logsize(W, 3000000);
    u32 style=choose(W, 4);
    str all;
    for (int i=0;i<n;i++)
    {
        E e;
        i64 gap= style==0? 1000000LL*choose(W, 4) : style==1? logsize(W, 5000000) : style==2? (choose(W, 3)? 0 : us[choose(W, 5)]) : choose(W, 3)? logsize(W, 30000) : 1000000LL*logsize(W, 5000);
        t+=gap;
        e.t=t; e.d=str(1+choose(W, 30), 'a'+i%26); e.think= choose(W, 4)? 0 : logsize(W, 4000000);
        if (chance(W, 1, 8) && gap) e.think=gap;       // ready exactly on time
        all+=e.d; es.push_back(e);
    }
    bool signals=chance(F, 1, 3);
    int dest=choose(W, 3);             // pipe, file, tcp
    describe("%d pieces over %s s%s%s", n, tvs(t).c_str(), base==2? ", dated" : "", signals? ", signals" : "");
    struct Rl { i64 t; size_t n; i64 cpu; }; std::vector<Rl> rel;             // when how many bytes were out
    size_t out=0; str received;
    Proc *p=mkproc("writer");
    bool over=false;
    p->sig[10].h=on_usr1; p->sig[10].flags=choose(F, 2)? 0x10000000 : 0;
    if (dest==2) { on_resolve=[&](const char *, const char *, std::vector<Addr> &a) { a.push_back({2, "10.0.0.1", 0, 0, 0}); return 0; }; }
    auto sink=[&](Ch ch) { char b[4096]; i64 k; while ((k=ch_read(ch, b, sizeof(b), "sink"))>0) { received.append(b, k); rel.push_back({now, received.size(), cpu_time}); } };
    on_connect=[&](const Addr &, Ch c2s, Ch s2c, int) { spawn_actor("server", [&,c2s]{ sink(c2s); }); };
    on_file_write=[&](const str &nm) { if (nm=="out.log") rel.push_back({now, fs_get(nm).size(), cpu_time}); };
    struct W0 { i64 a, b, cpu, cpub; };
    std::vector<W0> call; W0 open;
    start_main(p, [&]() -> int {
        int fd=-1; str name="out.log";
        if (!dest) { Ofd r, w; make_pipe(r, w, 65536); Ch ch=r->rd; fd=fd_install(p, w); spawn_actor("sink", [&,ch]{ sink(ch); }); }
        if (dest==2) name="tcp://h:5";
        if (dest==2) { fd=open_stream(-1, name.c_str(), SM_WRITE, 0); if (fd==-1) harness_error("connect"); }
        struct timeval tv={tm0/1000000, tm0%1000000};
        open.a=now;
        recorder r=ttyrec_w_open(fd, "live", name.c_str(), base? &tv : 0);
        open.b=now;
        if (!r) fail("open-failed", "ttyrec_w_open failed");
        if (signals) spawn_actor("signals", [&]{ for (int q=0;q<150 && !over;q++) { sleep_us(1+logsize(F, 3000000)); if (over || p->dead) break; send_signal(p, 10); fault("signal"); } });
        for (auto &e : es)
        {
            if (e.think) { i64 until=now+e.think; while (now<until) sleep_us(until-now); }
            i64 x=tm0+e.t; struct timeval tm={x/1000000, x%1000000};
            W0 c; c.a=now; c.cpu=cpu_time;
            if (!ttyrec_w_write(r, &tm, e.d.data(), e.d.size())) fail("write-failed", "ttyrec_w_write failed");
            c.b=now; c.cpub=cpu_time; c.cpu=cpu_time-c.cpu; call.push_back(c);
        }
        if (!ttyrec_w_close(r)) fail("write-failed", "ttyrec_w_close failed");
        over=true;
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000000*1000000LL);
    expect_end(p, st, "writing to a live output");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    settle(1000000);
    if (dest==1) received=fs_get("out.log");
    if (received!=all) fail("data", "%zu bytes were written, %zu came out, differing from %zu on", all.size(), received.size(), first_diff(all, received));
    // due = origin + time; the origin is known within the duration of the calls
    i64 lo=open.a-(base? 0 : 0), hi=open.b;
    size_t at=0;
    for (int i=0;i<n;i++)
    {
        i64 dl=lo+es[i].t, dh=hi+es[i].t;
        auto it=std::lower_bound(rel.begin(), rel.end(), at+1, [](const Rl &a, size_t v) { return a.n<v; });
        i64 first=it->t;
        at+=es[i].d.size();
        it=std::lower_bound(rel.begin(), rel.end(), at, [](const Rl &a, size_t v) { return a.n<v; });
        i64 lastt=it->t;
        W0 &c=call[i];
        if (first<dl) fail("early", "piece %d of %d, due at %s s, appeared at %s s", i, n, tvs(dl).c_str(), tvs(first).c_str());
        i64 lim=std::max(c.a, dh)+c.cpu;
        if (c.b>lim || lastt>c.b && lastt-c.b>it->cpu-c.cpub) fail("late", "piece %d of %d, due at %s s and given at %s s, appeared at %s s", i, n, tvs(dh).c_str(), tvs(c.a).c_str(), tvs(std::max(lastt, c.b)).c_str());
        // given too late: everything after it moves by as much
        if (c.a>dh) { lo=c.a-es[i].t; hi=c.b-es[i].t; }
        else if (c.b>dl) hi=std::max(hi, c.b-es[i].t); // it may have been considered late
    }
}

// C14, C15, C18: termplay on a simulated terminal with a user at its keyboard
#include "rec.h"
#include "internal.h"
#include "term.h"
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <algorithm>

bool same_termios(const struct termios &a, const struct termios &b);
void odd_termios(struct termios &t);

namespace {
static i64 lim(i64 d) { return d>=5000000 || d<0? 5000000 : d; }
struct At { size_t off; i64 t, cpu; };
struct Key { i64 gap; str s; };
struct Done { str s; i64 t, cpu; };
struct Fr { i64 t; str d; };
struct Play
{
    // plan
    Fmt f=F_TTYREC; Comp comp=C_NONE; bool net=false, stuck=false; str name, stored; std::vector<str> args;
    std::vector<Fr> fr;                 // what is played: times on the timeline
    std::vector<size_t> ends;           // offsets in the stored data at which each is complete (network only)
    std::vector<Key> keys; bool eof=false, utf=true;
    int cols=80, rows=25; double speed=1; int sp=1000;
    u32 slow_term=0; u32 chunk=30000; i64 netgap=0; u32 gap_den=1; bool byframe=false, bytime=false, bursts=false;
    // history
    TtyP tty; Proc *p=0; std::shared_ptr<Capture> err;
    str shown; std::vector<At> show; std::vector<Done> done;
    std::vector<std::pair<i64,i64>> avail;      // per frame: when complete (t, cpu)
    i64 t_start=0, cpu_start=0, tend=-1; i64 t_all=-1, cpu_all=0;
    u64 chunks=0;
    bool quit_sent=false; i64 t_quit=0, cpu_quit=0;
    bool all_frames_at(i64 t) const { return t_all>=0 && t>t_all; }
    std::function<void(const Key&)> before_key; std::function<void(const Done&)> after_key;
    std::function<bool()> wait_extra;
    void encode(const std::vector<Ev> &ev);
    void net_plan();
    void start();
    void finish();
};
void Play::encode(const std::vector<Ev> &ev)
{
    Encoded en=encode_as(f, ev, choose(W, 2)? 1234567890LL*1000000 : 0, cols, rows, false);
    i64 t=0, last=0;
    for (auto &x : en.want) { t+=lim(x.t-last); last=x.t; fr.push_back({t, x.d}); }
    ends=en.ends;
    if (f==F_CAST1 || f==F_CAST2) ends.insert(ends.begin(), ends.empty()? 0 : ends[0]);
    stored=compress(comp, en.raw);
}
void Play::net_plan()
{
    size_t total=0; for (auto &x : fr) total+=x.d.size();
    if (cfg.bb_gap && total>10000 && cfg.bb_gap<3000) cfg.bb_gap= total>50000? 3000 : 300;      // or it would take ages
    name=str("r")+fmt_ext[f]+comp_ext[comp];
    if (net) name="tcp://src:7/"+name; else fs_put(name, stored);
    if (net)
    {
        chunk= choose(N, 3)? 30000 : 1+choose(N, 200);
        if (stored.size()/chunk>5000) chunk=30000;
        if (choose(N, 2)) { netgap=1+logsize(N, 30000000); gap_den=1+choose(N, 4); }
        stuck=choose(N, 8)==0;
        byframe= comp==C_NONE && choose(N, 2);
        bytime= byframe && bursts; if (bytime && !netgap) netgap=10000000;
    }
}
void Play::start()
{
    setenv("LC_ALL", utf? "C.UTF-8" : "C", 1);
    err=capture("stderr");
    tty=make_tty("terminal", cols, rows);
    tty->in->cap=1<<20;
    if (net)
    {
        net_host("src", [this](Ch, Ch s2c, int) {
            size_t at=0, k=0; std::vector<std::pair<i64,i64>> av(fr.size(), {-1, 0});
            avail=av;
            size_t upto= stuck? (size_t)choose(N, stored.size()+1) : stored.size();
            while (at<upto)
            {
                size_t n=1+logsize(N, chunk);
                if (byframe) { auto e=std::upper_bound(ends.begin(), ends.end(), at); if (e!=ends.end()) { if (bytime) while (e+1!=ends.end() && fr[e+1-ends.begin()].t==fr[e-ends.begin()].t) ++e; n=*e-at; } }
                if (n>upto-at) n=upto-at;
                if (netgap && chance(N, 1, gap_den)) { wait_until([&]{ return p->dead; }, now+logsize(N, netgap), "network"); if (p->dead) return; }
                if (ch_write(s2c, stored.data()+at, n, "server sends")<(i64)n) return;
                at+=n; chunks++;
                if (comp==C_NONE) for (;k<fr.size() && k<ends.size() && ends[k]<=at;k++) avail[k]={now, cpu_time};
            }
            if (stuck) { fault("peer-stalls"); wait_for([&]{ return p->dead; }, "stuck peer"); return; }
            for (auto &x : avail) if (x.first<0) x={now, cpu_time};
            t_all=now; cpu_all=cpu_time;
        });
    }
    t_start=now; cpu_start=cpu_time;
    if (!net) { avail.assign(fr.size(), {now, cpu_time}); t_all=now; cpu_all=cpu_time; }
    p=mkproc("termplay", open_tty(tty), open_tty(tty), err->w); err->w=nullptr;
    tty->fg=p;
    odd_termios(tty->tio); tty->initial=tty->tio;
    spawn_actor("terminal", [this]
    {
        char b[8192];
        while (1)
        {
            if (slow_term) { wait_for([&]{ return tty->out->avail(); }, "terminal"); sleep_us(1+choose(N, slow_term)); }
            i64 r=ch_read(tty->out, b, slow_term? 1+choose(N, sizeof(b)) : sizeof(b), "terminal");
            if (r<=0) break;
            shown.append(b, r); show.push_back({shown.size(), now, cpu_time}); touch();
        }
    });
    spawn_actor("user", [this]
    {
        // not before there is something to talk to
        wait_for([&]{ return p->dead || tty->history.size(); }, "set up");
        for (auto &k : keys)
        {
            // with a piece of data, or some time later
            u64 had=chunks;
            if (k.gap<0) wait_until([&]{ return p->dead || chunks!=had; }, now+10000000, "user's pause");
            else wait_until([&]{ return p->dead; }, now+k.gap, "user's pause");
            if (p->dead || tty->hup) return;
            if (before_key) before_key(k);
            Done d={k.s, now, cpu_time};
            if (k.s=="EOF") { fault("end-of-input"); ch_close_w(tty->in); }
            else if (k.s=="HUP") { fault("terminal-hangup"); tty->hup=true; tty->out->readers=0; ch_close_w(tty->in); send_signal(p, SIGHUP); }
            else if (k.s.size()) tty_type(tty, k.s.data(), k.s.size());
            if (k.s=="q" || k.s=="Q" || k.s=="EOF" || k.s=="HUP") { quit_sent=true; t_quit=now; cpu_quit=cpu_time; }
            done.push_back(d);
            if (after_key) after_key(d);
            touch();
        }
    });
    args.insert(args.begin(), "termplay"); args.push_back(name);
    start_main(p, [this]() -> int { return run_args(termplay_main, args); });
}
void Play::finish()
{
    Stop st=run_proc(p, 4000LL*3600*1000000);
    if (!p->dead)
        fail("HANG", "termplay %s at %s s%s; %zu keys pressed, %zu bytes shown; threads: %s", st==STOP_DEADLOCK? "is deadlocked" : st==STOP_TIME? "is still running" : "runs without end", tvs(now).c_str(), quit_sent? sfmt(", told to end at %s s", tvs(t_quit).c_str()).c_str() : "", done.size(), shown.size(), blocked_report());
    tend=now;
    run([&]{ return !tty->out->avail() || tty->hup; }, now+3600*1000000LL);
    if (p->killed && !tty->hup) fail("KILLED", "termplay was killed by signal %d", p->killed);
    if (!quit_sent && p->code==0) fail("ended", "termplay ended on its own at %s s", tvs(tend).c_str());
}
// ends promptly, terminal as it was
static void check_end(Play &s)
{
    if (s.quit_sent && !s.tty->hup)
    {
        i64 took=s.tend-s.t_quit, lim=(cpu_time-s.cpu_quit)+ (s.slow_term? 3600000000LL : 100000);
        if (took>lim) fail("slow-quit", "termplay took %s s to end when told to", tvs(took).c_str());
        if (s.p->code) fail("status", "exit status %d", s.p->code);
    }
    if (!s.tty->hup && !same_termios(s.tty->tio, s.tty->initial)) fail("terminal", "termplay ended with status %d, the terminal's settings are not what they were", s.p->code);
}
static bool is_pause(const str &s) { return s==" "; }
static int speed_key(const str &s) { return s=="s" || s=="S" || s=="-"? -1 : s=="f" || s=="F" || s=="+"? 1 : s=="1"? 0 : 9; }
static int new_speed(int sp, int k)
{
    if (!k) return 1000;
    if (k<0) return sp/2? sp/2 : 1;
    return sp*2>1000000? 1000000 : sp*2;
}
static void draw_speed(Play &s)
{
    if (choose(W, 3)) return;
    static const char *v[]={"2", "0.5", "10", "0.1", "1000", "0.001", "3.7", "1", "100", "0.25", "64"};
    const char *x=v[choose(W, 11)];
    s.args.push_back(choose(W, 2)? "-s" : "--speed"); s.args.push_back(x);
    s.sp=strtof(x, 0)*1000;
}
static i64 user_gap(const Play &s)
{
    i64 end=s.fr.empty()? 0 : s.fr.back().t;
    if (s.net && choose(W, 2)) return -1;
    switch (choose(W, 7))
    {
    case 0: return 0;
    case 1: return logsize(W, 1000);
    case 2: case 3: return logsize(W, 3000000);
    case 4: return logsize(W, 30000000);
    case 5: { i64 t=s.fr.empty()? 0 : s.fr[choose(W, s.fr.size())].t; return std::max<i64>(0, t+(i64)choose(W, 2001)-1000); }
    default: return (i64)choose(W, 1000)*end/3000;
    }
}

// ---------------------------------------------------------------- C14
struct Rate { i64 t; double v; };       // recording microseconds per microsecond, from t on
static double played(const std::vector<Rate> &r, i64 a, i64 b)
{
    double e=0;
    for (size_t i=0;i<r.size();i++)
    {
        i64 x=std::max(a, r[i].t), y= i+1<r.size()? std::min(b, r[i+1].t) : b;
        if (y>x) e+=(y-x)*r[i].v;
    }
    return e;
}
}
WORKLOAD(C14, c14_pace, 1)
{
    draw_sched_config(); draw_jitter();
    cfg.max_bbs=3000000000ULL;
    Play s; s.cols=20+choose(W, 100); s.rows=1+choose(W, 40);
    s.f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_TTYREC, F_CAST2, F_CAST1});
    s.comp= choose(W, 4)==0? (Comp)choose(W, 5) : C_NONE;
    s.net=choose(W, 5)<2;
    GenOpt o=opt_for(s.f); o.big=false; o.empty=false; o.utf8=true; o.maxev=choose(W, 3)? 40 : 300; o.maxgap= choose(W, 3)? 8000000 : 300000000;
    auto ev=gen_events(o);
    i64 scale= choose(W, 4)==0? 1+choose(W, 50) : 1;
    // bursts: several frames at once, each burst sent as a whole
    s.bursts= s.net && choose(W, 3);
    if (s.bursts)
    {
        cfg.lock_gap=2; if (cfg.sys_gap>2 && choose(S, 2)) cfg.sys_gap=1;
        i64 t=0, off=0; for (size_t i=0;i<ev.size();i++) { i64 g=ev[i].t-t; t=ev[i].t; if (i && choose(W, 4)) off+=g; ev[i].t-=off; }
    }
    int m=0; bool cast= s.f!=F_TTYREC;
    for (auto &x : ev)
    {
        x.t/=scale;
        str body; u32 k=choose(W, 3)? 0 : logsize(W, 2000);
        static const char *j[]={"word ", "\e[31m", "\e[0m", "\e[1m", "\e[2J", "\e[H", "\e[K", "more\r\n", "\a", "\t", "abc"};
        while (body.size()<k) body+=j[choose(W, 11)];
        static const char *lead[]={"\r\n", "\r", "\e[H", "\e[2J\e[H", "\r\n\e[7m"};
        x.d=body+lead[choose(W, 5)]+sfmt("{%d}", ++m+cast);
    }
    s.encode(ev);
    draw_speed(s);
    // keys
    int nk= choose(W, 3)==0? 0 : logsize(W, 14), pauses=0;
    static const char *K[]={" ", "s", "S", "-", "f", "F", "+", "1", "x", "\e[15~", "\eOP"};
    for (int i=0;i<nk;i++) { str k= choose(W, 3)==0? " " : K[choose(W, 11)]; pauses+= k==" "; s.keys.push_back({user_gap(s), k}); }
    if (pauses%2 && choose(W, 4)) s.keys.push_back({user_gap(s), " "});
    s.net_plan();
    bool full=choose(W, 4);
    { int sp=s.sp; double slowest=sp; for (auto &k : s.keys) if (speed_key(k.s)!=9) sp=new_speed(sp, speed_key(k.s)), slowest=sp;
      i64 end=s.fr.back().t/ (slowest/1000)+5000000;
      s.keys.push_back({full? end+(s.net? s.netgap*20 : 0) : user_gap(s), choose(W, 8)? "q" : "EOF"}); }
    describe("%zu frames, %s s%s%s, speed %d/1000, %zu keys", s.fr.size(), tvs(s.fr.back().t).c_str(), s.net? ", network" : "", comp_ext[s.comp], s.sp, s.keys.size());
    s.start();
    s.finish();
    check_end(s);
    if (s.fr.size()>1) nontrivial();
    // what came out, when
    struct Sh { int k; i64 t, cpu; };
    std::vector<Sh> sh; size_t ci=0;
    for (size_t i=0;i<s.shown.size();i++)
        if (s.shown[i]=='{')
        {
            size_t e=s.shown.find('}', i); if (e==str::npos) fail("garbled", "incomplete marker");
            while (s.show[ci].off<=e) ci++;
            sh.push_back({atoi(s.shown.c_str()+i+1), s.show[ci].t, s.show[ci].cpu});
        }
    int first=1+cast;
    for (size_t i=0;i<sh.size();i++) if (sh[i].k!=(int)i+first)
        fail("order", "frame %d of %zu came as number %zu", sh[i].k, s.fr.size(), i+first);
    // how fast it was to go
    std::vector<Rate> r; int sp=s.sp; bool on=true; int nkeys=0;
    r.push_back({s.t_start, sp/1000.0});
    struct Sp { i64 t, cpu; double v; };
    std::vector<Sp> speeds={{s.t_start, s.cpu_start, sp/1000.0}};
    for (auto &d : s.done)
    {
        if (is_pause(d.s)) on=!on; else if (speed_key(d.s)!=9) sp=new_speed(sp, speed_key(d.s)); else continue;
        nkeys++;
        r.push_back({d.t, on? sp/1000.0 : 0}); speeds.push_back({d.t, d.cpu, sp/1000.0});
    }
    // the fastest it may have been going: a key may take effect late
    auto vm=[&](i64 a, i64 ac, i64 b) { double m=0; for (size_t i=0;i<speeds.size();i++) if ((i+1>=speeds.size() || a-speeds[i+1].t<=ac-speeds[i+1].cpu+1000) && speeds[i].t<=b) m=std::max(m, speeds[i].v); return m; };
    auto sl=[&](i64 c0, i64 c1) { return (double)(c1-c0)+1000; };
    double rounding=4.0*(nkeys+2);
    for (size_t i=0;i<sh.size();i++)
    {
        auto &b=sh[i]; i64 rt=s.fr[b.k-1].t;
        // never early, counting from the start ...
        if (b.k>1)
        {
            double e=played(r, s.t_start, b.t), v=vm(s.t_start, s.cpu_start, b.t);
            if (e+v*sl(s.cpu_start, b.cpu)+rounding<rt && !(cast && b.k==2 && 0)) fail("early", "frame %d, recorded at %s s, came after %s s of playback", b.k, tvs(rt).c_str(), tvs((i64)e).c_str());
        }
        // ... or from the frames before, but for catching up a second at most
        for (size_t j= i>40? i-40 : 0;j<i;j++)
        {
            auto &a=sh[j];
            if (a.k==1) continue;       // may have been shown at once, whatever its time
            double d=rt-s.fr[a.k-1].t, e=played(r, a.t, b.t), v=vm(a.t, a.cpu, b.t);
            if (e+v*(1000000+sl(s.cpu_start, b.cpu))+rounding<d) fail("early", "frame %d came %s s of playback after frame %d instead of %s s", b.k, tvs((i64)e).c_str(), a.k, tvs((i64)d).c_str());
        }
    }
    // nor late
    for (size_t i=0;(int)i<(int)s.fr.size()-(first-1);i++)
    {
        int k=i+first; bool got=i<sh.size();
        if (!got && (!s.quit_sent)) break;
        i64 t= got? sh[i].t : s.t_quit, c= got? sh[i].cpu : s.cpu_quit; i64 rt=s.fr[k-1].t;
        if (s.avail.size()<(size_t)k || s.avail[k-1].first<0) break;         // never got that far, or nobody knows when
        auto late=[&](i64 t0, i64 c0, i64 rec) { return played(r, t0, t)-vm(t0, c0, t)*sl(c0, c)-rounding-(rt-rec); };
        double best=late(s.t_start, s.cpu_start, 0);
        for (int j=k;j>=1 && best>0;j--) if (s.avail[j-1].first>=0) best= s.avail[j-1].first>t? 0 : std::min(best, late(s.avail[j-1].first, s.avail[j-1].second, s.fr[j-1].t));
        if (best>0)
            fail(got? "late" : "missing", got? "frame %d of %zu, recorded at %s s, came %s s of playback too late" : "frame %d of %zu, recorded at %s s, has not been shown %s s of playback after its time", k, s.fr.size(), tvs(rt).c_str(), tvs((i64)best).c_str());
    }
    if (full && sh.size()+first-1==s.fr.size()) probe("played to the end");
    if (pauses) probe("paused and resumed");
}

// ---------------------------------------------------------------- C15
namespace {
// Where playback may be, given when keys came and data arrived.
struct Pos
{
    Play &s; bool play=true; double a=0, b=0; int klo=0, khi=1; i64 t; double v, vmax; int keys=0; int n; i64 now=0, cpu=0, done=0; // done: cpu time by which all of it has taken effect
    Pos(Play &p) : s(p) { t=s.t_start; done=cpu=s.cpu_start; v=vmax=s.sp/1000.0; n=s.fr.size(); if (n<1) khi=0; }
    double E() const { return vmax*(done-s.cpu_start)+(keys+2)*(4+4*vmax); }
    int upto(double x) const { int k=0; while (k<n && s.fr[k].t<=x) k++; return k; }
    int loaded() const { int k=0; while (k<n && (size_t)k<s.avail.size() && s.avail[k].first>=0 && s.avail[k].first<now && now-s.avail[k].first>cpu-s.avail[k].second) k++; return k; }
    void advance()
    {
        if (play)
        {
            double dt=now-t, na=a+v*dt;
            b+=v*dt;
            // playback waits for what comes late
            for (int k=klo;k<n && s.fr[k].t<na;k++)
            {
                i64 A= (size_t)k<s.avail.size()? s.avail[k].first : -1;
                if (A<0 || A>now) A=now;
                na=std::min(na, s.fr[k].t+v*(now-std::max(A, t)));
            }
            if (s.slow_term) na=std::min(a, klo<n? (double)s.fr[klo].t : a);
            a=na;
            klo=std::max(klo, std::min(loaded(), upto(a-E())));
            khi=std::max(khi, upto(b+E()));
        }
        t=now;
    }
    void stop()
    {
        advance();
        if (!play) return;
        play=false;
        double end=n? s.fr[n-1].t : 0;
        if (s.all_frames_at(now-(cpu-s.cpu_all))) { a=std::min(a, end); if (klo==n) b=std::min(b, end); }
        else if (khi==n) a=std::min(a, end);
    }
    void seek(double d)
    {
        bool was=play; stop();
        a=std::max(0.0, a+d); b=std::max(0.0, b+d);
        klo=std::min(loaded(), upto(a-E())); khi=upto(b+E());
        play=was;
    }
    void key(const str &k)
    {
        keys++;
        int sp=speed_key(k);
        static const std::map<str,int> seeks={{"\e[D",-10},{"\eOD",-10},{"\eOt",-10},{"\e[C",10},{"\eOC",10},{"\eOv",10},{"\e[B",-60},{"\eOB",-60},{"\eOr",-60},{"\e[A",60},{"\eOA",60},{"\eOx",60},{"\e[6~",-600},{"\eOs",-600},{"\e[5~",600},{"\eOy",600}};
        if (k==" ") { if (play) stop(); else advance(), play=true; }
        else if (sp!=9) { bool was=play; stop(); play=was; s.sp=new_speed(s.sp, sp); v=s.sp/1000.0; vmax=std::max(vmax, v); }
        else if (seeks.count(k)) seek(seeks.at(k)*1e6);
        else if (k=="r" || k=="R") { stop(); a=b=0; klo=std::min(loaded(), upto(0)); khi=upto(0); }
        else if (k=="\n" || k=="\r" || k=="\eOM")
        {
            stop();
            int l=loaded(), lo=n, hi=0; double A=1e18, B=-1;
            for (int i=klo;i<=khi;i++)
            {
                if (i<n) { lo=std::min(lo, i+1); hi=std::max(hi, i+1); A=std::min(A, (double)s.fr[i].t); B=std::max(B, (double)s.fr[i].t); }
                if (i>=l) { lo=std::min(lo, i); hi=std::max(hi, i); A=std::min(A, a); B=std::max(B, b); }
            }
            klo=lo; khi=hi; a=A; b=B;
        }
        else advance();
    }
};
}
WORKLOAD(C15, c15_keys, 1)
{
    draw_sched_config();
    if (choose(N, 2)) draw_jitter();
    cfg.max_bbs=3000000000ULL;
    Play s; s.cols= choose(W, 2)? 80 : 2+choose(W, 130); s.rows= choose(W, 2)? 25 : 2+choose(W, 50);
    s.utf=choose(W, 8);
    s.f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_TTYREC, F_CAST2, F_CAST1});
    s.comp= choose(W, 4)==0? (Comp)choose(W, 5) : C_NONE;
    s.net=choose(W, 3)==0;
    if (chance(N, 1, 10)) s.slow_term=1+logsize(N, 300000);
    // the recording: its screen is at most as large as the terminal
    bool smaller=choose(W, 3)==0, resize=choose(W, 6)==0;
    str all; u32 want=1+logsize(W, choose(W, 6)? 4000 : 150000);
    if (s.utf)
        while (all.size()<want)
        {
            static const char *e[]={"x日\by", "日本\b\bz", "\e[1J", "\e[1K", "\e[2K", "\e[J", "\e[X", "\e[5X", "\f", "\e[D", "\v", "\e[A", "\e[3@", "\e[2P", "\r\n\r\n\r\n", "\e[99;1H\n", "\e[44m", "\e[4m \e[0m", "日\xcc\x81", "\e[9;1H\e[L\xcc\x81", "\e[c", "\e[41;1m\e[K", "語語語\r\e[4@", "ab日\e[2D\e[P", "\eD", "\e[91;104m", "\e[2;4r", "\e[38;2;1;200;3m"};
            if (choose(W, 3)) all+=show(1+logsize(W, 300), resize, s.cols, s.rows); else all+=e[choose(W, 28)];
        }
    else
        while (all.size()<want)
        {
            static const char *e[]={"hello ", "\r\n", "\e[1;31m", "\e[0m", "\e[H", "\e[2J", "\e[5;10H", "\e[K", "\e[3;20r", "\e[r", "\eM", "\n", "\t", "\b", "\e[2L", "\e[M", "\e[3P", "\e[2@", "\e[7m", "\e[10;70Hlong text that wraps around the margin"};
            all+=e[choose(W, 20)];
        }
    std::vector<Ev> ev; int n=1+logsize(W, 60); i64 t=0; size_t at=0;
    i64 maxgap= choose(W, 3)? 3000000 : 60000000;
    for (int i=0;i<n && at<all.size();i++)
    {
        size_t k= i==n-1? all.size()-at : 1+logsize(W, 2*all.size()/n+1);
        if (k>all.size()-at) k=all.size()-at;
        if (k>20000) k=20000;           // readers may split larger ones
        if (s.f!=F_TTYREC) while (at+k<all.size() && ((u8)all[at+k]&0xc0)==0x80) k++;
        if (i) t+= choose(W, 4)==0? 0 : choose(W, 3)==0? 1000000LL*choose(W, 8) : logsize(W, maxgap);
        else if (choose(W, 3)==0) t+=logsize(W, 4000000);
        ev.push_back({t, all.substr(at, k)}); at+=k;
    }
    int rc=s.cols, rr=s.rows;
    if (smaller && s.f!=F_TTYREC) s.cols=std::max(2, rc-(int)choose(W, rc)), s.rows=std::max(1, rr-(int)choose(W, rr));
    s.encode(ev);
    s.cols=rc; s.rows=rr;
    draw_speed(s);
    int nk=1+logsize(W, 40);
    static const char *K[]={" ", "\e[C", "\e[D", "\n", "\e[A", "\e[B", "r", "f", "s", "\r", "1", "\e[5~", "\e[6~", "\eOC", "\eOD", "\eOA", "\eOB", "\eOM", "\eOt", "\eOv", "\eOr", "\eOx", "\eOs", "\eOy", "R", "F", "S", "+", "-", "x", "\e[15~", "\eOP", "\e[[A", "\e[O1", "\e[1~", "\e[22222222222222222222222222222222222222222222222~", "\e[2222~"};
    u32 burst=choose(W, 4);
    for (int i=0;i<nk;i++)
    {
        str k= choose(W, 3)? K[choose(W, 8)] : K[choose(W, 37)];
        i64 g= burst==0 || !chance(W, 1, 3)? user_gap(s) : 0;
        s.keys.push_back({g, k});
    }
    s.net_plan();
    s.keys.push_back({choose(W, 3)? user_gap(s) : s.fr.back().t*2, "q"});
    if (choose(W, 6)==0) s.keys.back().s="EOF";
    if (choose(W, 12)==0) s.keys.back().s="Q";
    int sp0=s.sp;
    describe("%zu frames, %s s%s%s, %zu bytes, speed %d/1000, %zu keys%s", s.fr.size(), tvs(s.fr.back().t).c_str(), s.net? ", network" : "", comp_ext[s.comp], all.size(), sp0, s.keys.size(), s.slow_term? ", slow terminal" : "");
    struct Check { size_t off; int lo, hi; i64 t, cpu; size_t keys; };
    std::vector<Check> checks;
    auto settled=[&] { return s.p->dead || (!s.tty->out->avail() && !s.tty->in->avail() && quiescent(s.p)); };
    s.before_key=[&](const Key &k) {
        if (checks.size()>=25) return;
        if (!settled() && chance(N, k.gap>0? 15 : 6, 16)) wait_until(settled, now+(s.slow_term? 1000000 : 1), "display to settle");
        if (!s.p->dead && settled()) checks.push_back({s.shown.size(), 0, (int)s.fr.size(), now, cpu_time, s.done.size()});
    };
    s.start();
    s.finish();
    check_end(s);
    nontrivial();
    if (checks.empty()) return;
    // where it must have been
    Pos pos(s); size_t ck=0;
    for (size_t i=0;i<=s.done.size() && ck<checks.size();i++)
    {
        for (;ck<checks.size() && checks[ck].keys==i;ck++)
        {
            Check &c=checks[ck];
            pos.now=c.t; pos.cpu=pos.done=c.cpu;
            pos.advance();
            if (s.slow_term) continue;
            c.lo=pos.klo; c.hi=pos.khi;
            if (c.hi-c.lo>40) { probe("position too uncertain to check"); c.hi=-1; }
        }
        if (ck==checks.size() || i==s.done.size()) break;
        pos.now=s.done[i].t; pos.cpu=s.done[i].cpu; pos.done=checks[ck].cpu;
        pos.key(s.done[i].s);
    }
    // what a linear replay shows
    int need=0; for (auto &c : checks) need=std::max(need, tracing? (int)s.fr.size() : c.hi);
    std::vector<bool> use(need+1); for (auto &c : checks) for (int k=tracing? 0 : c.lo;k<=(tracing? need : c.hi);k++) use[k]=true;
    std::vector<Screen> want_scr(need+1);
    Proc *lp=mkproc("linear replay");
    start_main(lp, [&]() -> int {
        tty vt=tty_init(rc, rr, 1);
        for (int k=0;k<=need;k++)
        {
            if (k) tty_write(vt, s.fr[k-1].d.data(), s.fr[k-1].d.size());
            if (use[k]) want_scr[k]=vt_screen(vt, rc);
        }
        tty_free(vt);
        return 0;
    });
    Stop st=run_proc(lp, 3600*1000000LL);
    expect_end(lp, st, "linear replay");
    Term term(rc, rr); size_t fed=0;
    for (auto &c : checks)
    {
        for (;fed<c.off;fed++) term.feed(s.shown[fed]);
        if (c.hi<0) continue;
        if (!term.odd.empty()) fail("garbage", "the terminal was sent %s", term.odd.c_str());
        str first; bool ok=false;
        for (int k=c.lo;k<=c.hi && !ok;k++)
        {
            const Screen &w=want_scr[k];
            str d=differ(w, term.screen(w.w, w.h));
            if (d.empty()) ok=true; else first=sfmt("frame %d: %s", k, d.c_str());
        }
        if (!ok && tracing)
        {
            for (int k=0;k<c.hi;k++) trace("recording %d: %s", k+1, escd(s.fr[k].d).c_str());
            for (size_t k=0;k<want_scr.size();k++) if (differ(want_scr[k], term.screen(want_scr[k].w, want_scr[k].h)).empty()) trace("recording: the terminal matches frame %zu", k);
            for (auto &d : s.done) trace("recording: key %s at %s", escd(d.s).c_str(), tvs(d.t).c_str());
            for (size_t k=0;k<s.fr.size();k++) trace("recording: frame %zu is for %s, arrived %lld", k+1, tvs(s.fr[k].t).c_str(), s.avail.size()>k? (long long)s.avail[k].first : -2);
            trace("shown: %s", escd(s.shown.substr(0, c.off)).c_str());
        }
        if (!ok) fail("screen", "at %s s, after %zu keys, playback is between frames %d and %d of %zu but the terminal shows something else; %s", tvs(c.t).c_str(), c.keys, c.lo, c.hi, s.fr.size(), first.c_str());
        if (c.lo==c.hi) probe("screens with the exact frame known");
        if (c.lo==(int)s.fr.size()) probe("checked at the end of the recording");
    }
}

// ---------------------------------------------------------------- C18
WORKLOAD(C18, c18_termplay, 2)
{
    draw_sched_config(); draw_jitter();
    cfg.max_bbs=20000000000ULL;
    Play s; s.cols=20+choose(W, 100); s.rows=1+choose(W, 40);
    s.f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_CAST2, F_CAST1});
    s.comp= choose(W, 2)? (Comp)choose(W, 5) : C_NONE;
    s.net=choose(W, 2);
    GenOpt o=opt_for(s.f); o.big=false; o.empty=false; o.utf8=true; o.maxev=30; o.maxdata=400;
    auto ev=gen_events(o);
    s.encode(ev);
    draw_speed(s);
    if (chance(N, 1, 6)) s.slow_term=1+logsize(N, 300000);
    int nk=logsize(W, 12);
    static const char *K[]={" ", "\e[C", "\e[D", "\n", "\e[A", "r", "f", "s", "x"};
    for (int i=0;i<nk;i++) s.keys.push_back({user_gap(s), K[choose(W, 9)]});
    s.net_plan();
    static const char *E[]={"q", "Q", "EOF", "q", "HUP"};
    s.keys.push_back({user_gap(s), E[choose(W, 5)]});
    str fd;
    switch (choose(F, 7))
    {
    case 1: case 2: faults.fail_thread=1+choose(F, 4); fd=sfmt(", thread %u fails", faults.fail_thread); break;
    case 3: faults.fail_pipe=1+choose(F, 2); fd=", no pipe"; break;
    case 4: if (s.net) s.name="tcp://nowhere:7/r.ttyrec"; else s.name="missing.ttyrec"; fd=", no such recording"; break;
    case 5: s.args.push_back(choose(F, 2)? "--frobnicate" : "-s0"); fd=", bad parameters"; break;
    }
    describe("%s s%s%s, %zu keys, %s%s", tvs(s.fr.back().t).c_str(), s.net? ", network" : "", comp_ext[s.comp], s.keys.size(), s.keys.back().s.c_str(), fd.c_str());
    s.start();
    Stop st=run_proc(s.p, 4000LL*3600*1000000);
    if (!s.p->dead)
        fail("HANG", "termplay %s at %s s%s; %zu keys pressed, %zu bytes shown; threads: %s", st==STOP_DEADLOCK? "is deadlocked" : st==STOP_TIME? "is still running" : "runs without end", tvs(now).c_str(), fd.c_str(), s.done.size(), s.shown.size(), blocked_report());
    s.tend=now;
    if (s.tty->hup) return;
    if (s.p->killed) fail("KILLED", "termplay was killed by signal %d", s.p->killed);
    nontrivial();
    bool failed=s.p->code!=0;
    if (failed && fd.empty()) fail("status", "exit status %d", s.p->code);
    if (!s.quit_sent && !failed) fail("ended", "termplay ended on its own");
    if (failed) probe("playback that failed to start or went wrong");
    settle();
    if (failed && s.err->data.empty()) fail("silent", "termplay failed with status %d without a word", s.p->code);
    if (!same_termios(s.tty->tio, s.tty->initial)) fail("terminal", "termplay ended with status %d, the terminal's settings are not what they were", s.p->code);
}
WORKLOAD(C27, c27_termplay, 2)
{
    draw_sched_config(); draw_jitter();
    cfg.max_bbs=20000000000ULL;
    Play s; s.cols=20+choose(W, 100); s.rows=1+choose(W, 40);
    s.f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_CAST2, F_CAST1});
    s.comp= choose(W, 2)? (Comp)choose(W, 5) : C_NONE;
    s.net=choose(W, 3)==0;
    GenOpt o=opt_for(s.f); o.big=false; o.empty=false; o.utf8=true; o.maxev=30; o.maxdata=400;
    auto ev=gen_events(o);
    s.encode(ev);
    draw_speed(s);
    int nk=logsize(W, 12);
    static const char *K[]={" ", "\e[C", "\e[D", "\n", "\e[A", "r", "f", "s", "x"};
    for (int i=0;i<nk;i++) s.keys.push_back({user_gap(s), K[choose(W, 9)]});
    s.net_plan();
    s.keys.push_back({user_gap(s), choose(W, 4)? "q" : "EOF"});
    faults.fail_malloc=1+logsize(F, 60); faults.fail_malloc_span= choose(F, 3)? 1 : 1+logsize(F, 30);
    faults.malloc_armed=true;
    describe("%s s%s%s, %zu keys; memory runs out at allocation %u, %u times", tvs(s.fr.back().t).c_str(), s.net? ", network" : "", comp_ext[s.comp], s.keys.size(), faults.fail_malloc, faults.fail_malloc_span);
    s.start();
    Stop st=run_proc(s.p, 4000LL*3600*1000000);
    bool hit=faults.n_malloc>=faults.fail_malloc; faults.malloc_armed=false;
    if (!s.p->dead)
        fail("HANG", "termplay %s at %s s; %zu keys pressed, %zu bytes shown; threads: %s", st==STOP_DEADLOCK? "is deadlocked" : st==STOP_TIME? "is still running" : "runs without end", tvs(now).c_str(), s.done.size(), s.shown.size(), blocked_report());
    s.tend=now;
    if (s.p->killed) fail("KILLED", "termplay was killed by signal %d", s.p->killed);
    nontrivial();
    bool failed=s.p->code!=0;
    if (failed && !hit) fail("status", "exit status %d", s.p->code);
    if (!s.quit_sent && !failed) fail("ended", "termplay ended on its own");
    probe(failed? "the lack of memory reported" : hit? "playback despite a lack of memory" : "memory sufficed");
    settle();
    if (failed && s.err->data.empty()) fail("silent", "termplay failed with status %d without a word", s.p->code);
    if (!same_termios(s.tty->tio, s.tty->initial)) fail("terminal", "termplay ended with status %d, the terminal's settings are not what they were", s.p->code);
}

// C13: seeking shows what linear replay would show
#include "rec.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <algorithm>

namespace {
struct Fr { i64 t; str d; };
struct Seek { bool null; i64 t; int lo, hi; int k; str screen; const char *data; std::vector<std::pair<int,str>> cont; };
}
static str screen(tty vt) { size_t n; char *s=glue_screen(vt, &n); str r(s, n); free(s); return r; }
static i64 lim(i64 d) { return d>=5000000 || d<0? 5000000 : d; }
// something worth replaying: moves, colours, wide and combining characters, scrolling, titles, resizes
str show(u32 n, bool resize, int maxcols, int maxrows)
{
    static const char *e[]={"hello ", "\r\n", "\e[1;31m", "\e[0m", "日本", "e\xcc\x81", "a\xcc\x81\xcc\x82", "\e[H", "\e[2J", "\e[5;10H", "\e[K", "\e[3;20r", "\e[r", "\eM", "\n", "\e]0;title\a", "\e(0", "\e(B", "\x0e", "\x0f", "\e7", "\e8", "\e[2L", "\e[M", "\e[3P", "\e[2@", "\e[38;5;120m", "\e[48;2;1;2;3m", "\t", "\b", "\e[?7l", "\e[?7h", "ż", "\e[10;70Hlong text that wraps around the margin", "\ec", "\e[7m", "\e[S", "\e[T", "\xe2\x80\x8b", "\e[?25l", "\e[?25h"};
    str s;
    while (s.size()<n)
        if (resize && chance(W, 1, 60)) s+=sfmt("\e[8;%d;%dt", 2+choose(W, maxrows-1), 2+choose(W, maxcols-1));
        else if (chance(W, 1, 25)) { str b; u32 k=logsize(W, 20000); u64 v=choose(W, 1<<30); while (b.size()<k && s.size()+b.size()<n) { v=sim::mix(v+1); b+=(char)(32+v%95); if (v%700==0) b+="\r\n\e[3"+std::to_string(v/700%8)+"m"; if (v%997==1) b+="o\xcc\x88"; } s+=b; }
        else s+=e[choose(W, sizeof(e)/sizeof(*e))];
    return s;
}
static void check_seeks(std::vector<Seek> &sk, const std::vector<Fr> &fr, int cols, int rows, const str &pre)
{
    std::map<int,std::vector<std::pair<const str*,const Seek*>>> want;
    for (auto &x : sk)
    {
        if (x.k<x.lo || x.k>x.hi) fail("frame", "seeking to %s gave frame %d, not one of %d..%d", x.null? "the first frame" : (tvs(x.t)+" s").c_str(), x.k, x.lo, x.hi);
        want[x.k].push_back({&x.screen, &x});
        for (auto &c : x.cont) want[c.first].push_back({&c.second, &x});
    }
    Proc *p=mkproc("linear replay");
    str bad;
    start_main(p, [&]() -> int {
        tty vt=tty_init(cols, rows, 1);
        tty_write(vt, pre.data(), pre.size());
        for (int k=0;k<=(int)fr.size();k++)
        {
            if (k) tty_write(vt, fr[k-1].d.data(), fr[k-1].d.size());
            if (!want.count(k)) continue;
            str s=screen(vt);
            for (auto &x : want[k]) if (*x.first!=s && bad.empty())
            {
                size_t d=first_diff(s, *x.first); size_t row=0; for (size_t i=0;i<d && i<s.size();i++) row+= s[i]=='\n';
                bad=sfmt("frame %d of %zu%s: row %zu differs from a linear replay; \"%s\" instead of \"%s\"", k, fr.size(), k==x.second->k? "" : sfmt(", stepping from %d,", x.second->k).c_str(), row, x.first->substr(d>20? d-20 : 0, 60).c_str(), s.substr(d>20? d-20 : 0, 60).c_str());
            }
        }
        tty_free(vt);
        return 0;
    });
    Stop st=run_proc(p, 3600*1000000LL);
    expect_end(p, st, "linear replay");
    if (!bad.empty()) fail("screen", "%s", bad.c_str());
}
static std::vector<Fr> gen_frames(std::vector<i64> &delays, bool resize)
{
    std::vector<Fr> fr;
    int n=1+logsize(W, 60);
    bool heavy=choose(W, 5)==0;
    str all=show(heavy? 70000+choose(W, 200000) : 1+logsize(W, 6000), resize);
    size_t at=0; i64 t=0;
    for (int i=0;i<n;i++)
    {
        i64 d= choose(W, 4)==0? 0 : choose(W, 5)==0? 1000000LL*choose(W, 8) : choose(W, 20)==0? -(i64)logsize(W, 100000000) : logsize(W, choose(W, 3)? 3000000 : 20000000);
        delays.push_back(d);
        t+=lim(d);
        size_t k= i==n-1? all.size()-at : heavy && chance(W, 1, 4)? 65536+(i64)choose(W, 3)-1 : logsize(W, 2*all.size()/n+1);
        if (k>all.size()-at) k=all.size()-at;
        fr.push_back({t, all.substr(at, k)}); at+=k;
    }
    return fr;
}
static i64 seek_time(const std::vector<Fr> &fr)
{
    i64 end=fr.back().t;
    switch (choose(W, 5))
    {
    case 0: return fr[choose(W, fr.size())].t;
    case 1: return fr[choose(W, fr.size())].t+(i64)choose(W, 3)-1;
    case 2: return choose(W, 2)? 0 : end+(i64)choose(W, 3)-1;
    case 3: return end+logsize(W, 100000000);
    default: return end? (i64)(sim::mix(choose(W, 1<<30)+1)%(u64)(end+1)) : 0;
    }
}
static int model(const std::vector<Fr> &fr, int n, i64 t, bool null)
{
    if (null) return n? 1 : 0;
    int k=0; while (k<n && fr[k].t<=t) k++;
    return k;
}
static struct timeval TV(i64 t) { struct timeval tv; tv.tv_sec=t/1000000; tv.tv_usec=t%1000000; if (tv.tv_usec<0) tv.tv_usec+=1000000, tv.tv_sec--; return tv; }

WORKLOAD(C13, c13_history, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(false);
    bool resize=choose(W, 3)==0;
    std::vector<i64> delays; auto fr=gen_frames(delays, resize);
    int cols= choose(W, 2)? 80 : 2+choose(W, 150), rows= choose(W, 2)? 25 : 1+choose(W, 60);
    bool dflt=choose(W, 4)==0; if (dflt) cols=80, rows=25;
    str pre= !dflt && choose(W, 4)==0? show(100, false) : str();
    std::vector<Seek> sk;
    size_t total=0; for (auto &x : fr) total+=x.d.size();
    describe("%zu frames, %zu bytes, %s s, %dx%d", fr.size(), total, tvs(fr.back().t).c_str(), cols, rows);
    if (total>65536) probe("snapshots in use");
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        i64 mem=faults.malloc_live;
        tty iv=dflt? 0 : tty_init(cols, rows, 1);
        if (iv) tty_write(iv, pre.data(), pre.size());
        ttyrec tr=ttyrec_init(iv);
        tty vt= choose(W, 3)? tty_init(80, 25, 1) : 0;
        std::vector<ttyrec_frame> ptr(1, ttyrec_seek(tr, 0, 0));
        int n=0;
        auto seek=[&] {
            Seek s; s.null=chance(W, 1, 12); s.t=seek_time(fr);
            struct timeval tv=TV(s.t);
            bool see=choose(W, 8);
            ttyrec_frame f=ttyrec_seek(tr, s.null? 0 : &tv, see? &vt : 0);
            if (!f) fail("frame", "seeking failed");
            s.k=-1; for (int i=0;i<=n;i++) if (ptr[i]==f) s.k=i;
            if (s.k<0) fail("frame", "seeking gave an unknown frame");
            s.lo=s.hi=model(fr, n, s.t, s.null);
            if (see)
            {
                s.screen=screen(vt);
                for (int k=choose(W, 5), at=s.k;k-- && (f=ttyrec_next_frame(tr, f));) { tty_write(vt, f->data, f->len); s.cont.push_back({++at, screen(vt)}); if (at>n || f!=ptr[at]) fail("frame", "the frame after %d is another one", at-1); }
                sk.push_back(s);
            }
            else if (s.k!=s.lo) fail("frame", "seeking to %s s gave frame %d, not %d", tvs(s.t).c_str(), s.k, s.lo);
        };
        for (size_t i=0;i<fr.size();i++)
        {
            while (chance(W, 1, 8) && sk.size()<40) seek();
            struct timeval tv=TV(delays[i]);
            str copy=fr[i].d;
            ttyrec_add_frame(tr, delays[i] || choose(W, 2)? &tv : 0, copy.data(), copy.size());
            ttyrec_frame f=ttyrec_next_frame(tr, ptr[n]);
            if (!f) fail("frame", "the frame just added is not there");
            n++; ptr.push_back(f);
        }
        for (int i=2+choose(W, 8);i--;) seek();
        // the list as it is
        ttyrec_frame f=ptr[0];
        for (int i=1;i<=n;i++)
        {
            f=ttyrec_next_frame(tr, f);
            if (f!=ptr[i] || f->len!=(int)fr[i-1].d.size() || memcmp(f->data, fr[i-1].d.data(), f->len)) fail("frame", "frame %d is not the one added", i);
            if (f->t.tv_sec*1000000LL+f->t.tv_usec!=fr[i-1].t || f->t.tv_usec<0 || f->t.tv_usec>=1000000) fail("timing", "frame %d is at %lld.%06lld s instead of %s s", i, (long long)f->t.tv_sec, (long long)f->t.tv_usec, tvs(fr[i-1].t).c_str());
        }
        if (ttyrec_next_frame(tr, f)) fail("frame", "there is a frame after the last one");
        if (choose(W, 3)==0)
        {
            // saving a part
            bool s0=choose(W, 2), e0=choose(W, 2); i64 a=seek_time(fr), b=seek_time(fr);
            if (b<a && choose(W, 3)) std::swap(a, b);
            struct timeval ta=TV(a), tb=TV(b);
            if (!ttyrec_save(tr, -1, "ttyrec", "part", s0? &ta : 0, e0? &tb : 0)) fail("save", "saving a part failed");
            Rec r; str out; for (char ch : fs_get("part")) out+=ch;
            if (!dec_ttyrec(out, r)) fail("save", "the saved part cannot be decoded: %s", r.why.c_str());
            std::vector<Ev> want, got=r.ev;
            for (auto &x : got) x.t+=r.start;
            for (int k=model(fr, n, a, !s0);k<=n;k++) if (k && !(e0 && fr[k-1].t>b)) want.push_back({fr[k-1].t, fr[k-1].d});
            str e=cmp_timed_rec(want, got, 0);
            if (!e.empty()) fail("save", "saving %s..%s: %s", s0? tvs(a).c_str() : "", e0? tvs(b).c_str() : "", e.c_str());
            // the same in formats whose times count from the beginning
            if (!want.empty() && model(fr, n, a, !s0) && choose(W, 2))
            {
                bool nul=false, ascii=true; for (auto &x : want) for (char ch : x.d) { if (!ch) nul=true; if ((u8)ch>=128) ascii=false; }
                Fmt f2= ascii && choose(W, 2)? (choose(W, 2)? F_CAST2 : F_CAST1) : F_NH;
                if (f2==F_NH? !nul : ascii)
                {
                    static const char *nm[]={"ansi", "ttyrec", "nh_recorder", "asciicast-v1", "asciicast"};
                    if (!ttyrec_save(tr, -1, nm[f2], "part2", s0? &ta : 0, e0? &tb : 0)) fail("save", "saving a part failed");
                    Rec q; str o2=fs_get("part2");
                    if (f2==F_NH? !dec_nh(o2, q) : !dec_cast(o2, q)) fail("save", "the saved part cannot be decoded: %s", q.why.c_str());
                    i64 prec= f2==F_NH? 10000 : f2==F_CAST1? (i64)want.size()+2 : 2;
                    std::vector<Ev> w2; for (auto &x : want) w2.push_back({x.t-want[0].t, x.d});
                    if (f2==F_CAST2 && want[0].t>=0)
                    {
                        if (q.start/1000000!=want[0].t/1000000) fail("save", "the saved part is dated %s s, it begins at %s s", tvs(q.start).c_str(), tvs(want[0].t).c_str());
                        // the header holds whole seconds
                        for (auto &x : w2) x.t+=want[0].t%1000000;
                    }
                    str e2=cmp_timed_rec(w2, q.ev, prec);
                    if (!e2.empty()) fail("save", "saving %s..%s as %s: %s", s0? tvs(a).c_str() : "", e0? tvs(b).c_str() : "", nm[f2], e2.c_str());
                }
            }
        }
        tty_free(vt);
        ttyrec_free(tr);
        if (faults.malloc_live>mem+5000) fail("memory", "%lld bytes are still allocated after freeing everything", (long long)(faults.malloc_live-mem));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 3600*1000000LL);
    expect_end(p, st, "building and seeking");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    check_seeks(sk, fr, cols, rows, pre);
}
WORKLOAD(C13, c13_concurrent, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config();
    bool resize=choose(W, 4)==0;
    std::vector<i64> delays; auto fr=gen_frames(delays, resize);
    std::vector<Seek> sk;
    size_t total=0; for (auto &x : fr) total+=x.d.size();
    describe("%zu frames, %zu bytes, seeking while loading", fr.size(), total);
    if (total>65536) probe("snapshots in use");
    static const u32 bg[]={3000, 300, 30, 3, 1000};
    cfg.bb_gap=bg[choose(S, 5)]; if (total>10000 && cfg.bb_gap<3000) cfg.bb_gap= total>50000? 3000 : 300;
    int begun=0, done=0; bool over=false;
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        ttyrec tr=ttyrec_init(tty_init(80, 25, 1));
        ttyrec_frame head=0; { struct timeval z={-1,0}; head=ttyrec_seek(tr, &z, 0); }
        spawn_thread(p, "loader", [&] {
            for (size_t i=0;i<fr.size();i++)
            {
                if (chance(N, 1, 12)) sleep_us(choose(N, 1000));
                struct timeval tv=TV(delays[i]);
                begun=i+1;
                ttyrec_add_frame(tr, &tv, fr[i].d.data(), fr[i].d.size());
                done=i+1;
            }
            over=true; touch();
        });
        tty vt=0; int after=1+choose(W, 3), last=-1;
        auto index=[&](ttyrec_frame f) { int k=0; for (ttyrec_frame g=head;g;g=ttyrec_next_frame(tr, g), k++) if (g==f) return k; return -1; };
        while (after)
        {
            if (over) after--;
            else { probe("seeks while loading"); if (last==begun && chance(N, 7, 8)) sleep_us(1+choose(N, 300)); last=begun; }
            Seek s; s.null=chance(W, 1, 8); s.t=choose(W, 3)? seek_time(fr) : fr[done? done-1 : 0].t+(i64)choose(W, 3)-1;
            struct timeval tv=TV(s.t);
            s.lo=model(fr, done, s.t, s.null);
            ttyrec_frame f=ttyrec_seek(tr, s.null? 0 : &tv, &vt);
            s.hi=model(fr, begun, s.t, s.null);
            if (s.lo!=s.hi) probe("frames were added during a seek");
            if (!f) fail("frame", "seeking failed");
            s.k=index(f);
            s.screen=screen(vt);
            int at=s.k;
            for (int k=choose(W, 3);k-- && (f=ttyrec_next_frame(tr, f));)
            {
                at++;
                if (at<=begun && (f->len!=(int)fr[at-1].d.size() || memcmp(f->data, fr[at-1].d.data(), f->len))) fail("frame", "frame %d is not the one added", at);
                tty_write(vt, f->data, f->len); s.cont.push_back({at, screen(vt)});
            }
            if (at>begun) fail("frame", "more frames than were added");
            if (sk.size()<60) sk.push_back(s);
            else if (!over) wait_for([&]{ return over; }, "loader");
        }
        int i=0;
        for (ttyrec_frame f=ttyrec_next_frame(tr, head);f;f=ttyrec_next_frame(tr, f), i++)
        {
            if (f->len!=(int)fr[i].d.size() || memcmp(f->data, fr[i].d.data(), f->len)) fail("frame", "frame %d is not the one added", i+1);
            if (f->t.tv_sec*1000000LL+f->t.tv_usec!=fr[i].t) fail("timing", "frame %d is at %lld.%06lld s instead of %s s", i+1, (long long)f->t.tv_sec, (long long)f->t.tv_usec, tvs(fr[i].t).c_str());
        }
        if (i!=(int)fr.size()) fail("frame", "%d frames instead of %zu", i, fr.size());
        tty_free(vt);
        ttyrec_free(tr);
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 3600*1000000LL);
    expect_end(p, st, "seeking while loading");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    check_seeks(sk, fr, 80, 25, "");
}
WORKLOAD(C13, c13_load, 2)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    if (chance(N, 1, 2)) cfg.short_file_reads=true;
    Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI});
    GenOpt o=opt_for(f); o.empty=false; o.nul=false; o.big=choose(W, 4)==0; o.maxgap=choose(W, 2)? 12000000 : 4000000000LL;
    auto ev=gen_events(o);
    Encoded en=encode_as(f, ev, choose(W, 2)? 1234567890LL*1000000 : 0, 2+choose(W, 200), 1+choose(W, 60), false);
    // what the timeline should hold: gaps limited one by one
    std::vector<Fr> want; i64 t=0, last=0; 
    for (auto &x : en.want) { t+=lim(x.t-last); last=x.t; want.push_back({t, x.d}); }
    i64 init= en.ninit? en.init : 0;
    Comp c=choose(W, 3)==0? (Comp)choose(W, 5) : C_NONE;
    int how=choose(W, 4); if (c && how>1) how-=2;
    static const char *sf[]={"ttyrec", "ttyrec", "asciicast", "asciicast-v1", "nh_recorder"};
    int si=choose(W, 5); if (si>1 && (!o.utf8)) si=0;
    describe("%s%s %zu events, loaded and saved as %s", fmt_name[f], comp_ext[c], ev.size(), sf[si]);
    std::vector<Fr> fr; std::vector<Seek> sk; bool saved=false;
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        Delivery d=deliver(p, str("r")+fmt_ext[f], compress(c, en.raw), c, how, "src");
        ttyrec tr=ttyrec_load(d.fd, choose(W, 2)? 0 : f==F_ANSI? "baudrate" : f==F_CAST1? "asciicast" : fmt_name[f], d.name.c_str(), 0);
        if (!tr) fail("open-failed", "the recording could not be loaded");
        struct timeval z={-1,0};
        ttyrec_frame head=ttyrec_seek(tr, &z, 0);
        std::vector<ttyrec_frame> ptr(1, head);
        for (ttyrec_frame g=ttyrec_next_frame(tr, head);g;g=ttyrec_next_frame(tr, g)) ptr.push_back(g), fr.push_back({g->t.tv_sec*1000000LL+g->t.tv_usec, str(g->data, g->len)});
        tty vt=0;
        if (fr.size()) for (int i=1+choose(W, 6);i--;)
        {
            Seek s; s.null=chance(W, 1, 8); s.t=seek_time(fr);
            struct timeval tv=TV(s.t);
            ttyrec_frame g=ttyrec_seek(tr, s.null? 0 : &tv, &vt);
            s.k=-1; for (size_t i=0;i<ptr.size();i++) if (ptr[i]==g) s.k=i;
            s.lo=s.hi=model(fr, fr.size(), s.t, s.null);
            s.screen=screen(vt);
            sk.push_back(s);
        }
        saved=ttyrec_save(tr, -1, sf[si], "out", 0, 0);
        tty_free(vt);
        ttyrec_free(tr);
        wait_no_fds(p, "after loading and saving");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "loading a recording");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    std::vector<Ev> a, b;
    for (auto &x : want) a.push_back({x.t, x.d});
    for (auto &x : fr) b.push_back({x.t-init, x.d});
    str e=cmp_timed_rec(a, b, 0);
    if (!e.empty()) fail(e.find("byte ")==0? "timing" : "frame", "%s: %s", fmt_name[f], e.c_str());
    check_seeks(sk, fr, 80, 25, "");
    if (!saved) fail("save", "saving failed");
    Rec r; const str &out=fs_get("out");
    if (si<2) dec_ttyrec(out, r); else if (si<4) dec_cast(out, r); else dec_nh(out, r);
    if (r.bad) fail("save", "what was saved as %s cannot be decoded: %s", sf[si], r.why.c_str());
    if (si==4) return;      // times of its own kind
    b=r.ev;
    if (si>1)
    {
        // relative to the first frame, header in whole seconds; the size is in the header
        int rows, cols, k=0;
        if (!a.empty() && sscanf(a[0].d.c_str(), "\e%%G\e[8;%d;%dt%n", &rows, &cols, &k)==2 && k) a[0].d.erase(0, k);
        str x=cat_data(a), y=cat_data(b);
        if (x!=y) fail("save", "%s: %zu bytes saved instead of %zu, differing from %zu on", sf[si], y.size(), x.size(), first_diff(x, y));
        return;
    }
    i64 f0=a.empty()? 0 : a[0].t;
    for (auto &x : a) x.t-=f0;
    e=cmp_timed_rec(a, b, 0);
    if (!e.empty()) fail("save", "saved again: %s", e.c_str());
    if (!fr.empty() && r.start!=fr[0].t) fail("save", "saved with start %s instead of %s", tvs(r.start).c_str(), tvs(fr[0].t).c_str());
}

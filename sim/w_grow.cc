// C29: nothing accumulates, however long it goes on
#include "sess.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <algorithm>

static i64 screen_cost(int cols, int rows) { i64 m=faults.malloc_live; tty vt=tty_init(cols, rows, 1); m=faults.malloc_live-m; tty_free(vt); return m; }
// what a terminal that has never been bigger than that may hold: the screen, four marks for each cell (in a table
// that grows by doubling), a title and a string command
static i64 terminal_limit(int cols, int rows) { return 2*screen_cost(cols, rows)+(i64)cols*rows*4*16+16384; }
// marks wherever there may be any, and everything that removes them
static str marked(u32 n, int cols, int rows, bool resize)
{
    static const char *m[]={"a\xcc\x81", "e\xcc\x81\xcc\x82", "日\xcc\x81", "\xcc\x83", "x\xcc\x81\xcc\x82\xcc\x83\xcc\x84\xcc\x85"}, *o[]={"\r", "\n", "\r\n", "\b", "\t", "\e[2J", "\e[J", "\e[1J", "\e[K", "\e[1K", "\e[2K", "\e[X", "\e[3P", "\e[2@", "\e[L", "\e[M", "\eM", "\eD", "\e[S", "\e[2T", "\e[H", "\ec", "\e#8", "plain", "本", "\e[2;3r", "\e[r", "\e7", "\e8", "\e]0;some title\a", "\e]2;unended"};
    str s;
    while (s.size()<n)
        switch (choose(W, resize? 8 : 6))
        {
        case 0: case 1: case 2: { const char *x=m[choose(W, 5)]; for (int k=1+(choose(W, 3)? 0 : logsize(W, 30));k--;) s+=x; break; }
        case 3: s+=o[choose(W, 31)]; break;
        case 4: s+=sfmt("\e[%d;%dH", 1+(int)choose(W, rows), 1+(int)choose(W, cols)); break;
        case 5: if (resize && choose(W, 4)==0) s+=sfmt("\e[8;%d;%dt", 1+(int)choose(W, rows), 2+(int)choose(W, cols-1)); break;
        // marks everywhere, or in some corner, just before the size changes
        case 6: case 7:
            if (s.size()*2>n) break;
            s+=sfmt("\e[8;%d;%dt", rows, cols);
            for (int y=choose(W, rows), x0=choose(W, cols); y<rows; y++) { s+=sfmt("\e[%d;%dH", y+1, x0+1); for (int x=x0; x<cols-1; x++) s+=m[0]; }
            s+=sfmt("\e[8;%d;%dt", 1+(int)choose(W, rows), 2+(int)choose(W, cols-1)); break;
        }
    return s;
}
// the same single operation on marked cells, for ever
static str one_way(int cols, int rows)
{
    static const char fin[]="@PXKJLMSTABCDEFGHd";
    int y=choose(W, rows), x0=choose(W, cols), y2= choose(W, 2)? y : choose(W, rows), x2=choose(W, cols);
    str s, ch= choose(W, 4)? "a\xcc\x81" : choose(W, 2)? "\xe6\x97\xa5\xcc\x81" : "x\xcc\x81\xcc\x82\xcc\x83";
    if (choose(W, 3)==0 && rows>1) { int a=1+choose(W, rows-1); s+=sfmt("\e[%d;%dr", a, a+1+(int)choose(W, rows-a)); }
    s+=sfmt("\e[%d;%dH", y+1, x0+1);
    for (int k= choose(W, 3)? cols-x0 : 1+choose(W, cols*rows); k-->0;) s+=ch;
    s+=sfmt("\e[%d;%dH", y2+1, x2+1);
    switch (choose(W, 2))
    {
    case 0: { static const char *o[]={"\n", "\eM", "\eD", "\eE", "\f", "\t", "\e[c", "b", "\xe6\x9c\xac", "\e[?7lxyz\xe6\x9c\xac", "\e]0;t\a", "\e]0;\a", "\e]0\a", "\e]0;un\x18", "\e]2;u\a"}; s+=o[choose(W, 15)]; break; }
    default: { char f=fin[choose(W, sizeof(fin)-1)]; s+="\e["; if (choose(W, 4)) s+=std::to_string(choose(W, f=='J' || f=='K'? 4 : 2+std::max(cols, rows))); s+=f; }
    }
    return s;
}
WORKLOAD(C29, c29_terminal, 7)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(false);
    int cols=2+logsize(W, choose(W, 3)? 10 : 130), rows=1+logsize(W, choose(W, 3)? 6 : 50);
    bool resize=choose(W, 3)==0;
    str d= choose(W, 3)? marked(20+logsize(W, 1500), cols, rows, resize) : show(20+logsize(W, 1500), false);
    if (choose(W, 4)==0) { d+= show(200, false); }
    if (choose(W, 2)) d=one_way(cols, rows);
    u32 often=pick(W, std::vector<u32>{100, 2, 15});
    str all="\ec\e[H"; // a mark in every cell
    for (int k=cols*rows;k--;) all+="a\xcc\x81";
    for (size_t k;(k=d.find("\e[8;80"))!=str::npos;) d[k]='?';
    u32 total=20000+logsize(W, choose(W, 6)? 100000 : 400000), times=1+total/d.size();
    describe("%zu bytes %u times on %dx%d", d.size(), times, cols, rows);
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        i64 mem=faults.malloc_live, most=terminal_limit(cols, rows);
        tty vt=tty_init(cols, rows, 1);
        for (u32 k=0;k<times;k++)
        {
            u32 cut= choose(N, 4)? 0 : choose(N, d.size()+1);
            tty_write(vt, d.data(), cut); tty_write(vt, d.data()+cut, d.size()-cut);
            if (chance(N, 1, 10)) { tty c=tty_copy(vt); if (!c) fail("copy", "copying failed"); std::swap(c, vt); tty_free(c); }
            if (chance(N, 1, 200)) tty_reset(vt);
            if (chance(N, 1, often)) { tty_resize(vt, cols, rows); if (choose(N, 2)) tty_write(vt, all.data(), all.size()); tty_resize(vt, 2+choose(N, cols-1), 1+choose(N, rows)); }
            if (faults.malloc_live-mem>most)
                fail("memory", "after %u bytes a terminal of at most %dx%d takes %lld bytes of memory", (k+1)*(u32)d.size(), cols, rows, (long long)(faults.malloc_live-mem));
        }
        tty_free(vt);
        if (faults.malloc_live>mem) fail("leak", "%lld bytes are still allocated after freeing the terminal", (long long)(faults.malloc_live-mem));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 3600*1000000LL);
    expect_end(p, st, "writing to a terminal");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
}
static std::vector<Ev> long_events(const GenOpt &o, u32 total, size_t &biggest)
{
    std::vector<Ev> ev; i64 t=0; u32 maxd=200+logsize(W, choose(W, 3)? 3000 : 60000), n=0; biggest=0;
    str pool= o.utf8? utf8_payload(2000) : choose(W, 2)? textish(2000) : payload(4000)+"x";
    for (auto &c : pool) if (!c) c='0';
    while (n<total)
    {
        u32 k=1+maxd/8+choose(W, maxd); str d;
        while (d.size()<k) d+=pool;
        if (!o.utf8) d.resize(k);
        for (const char *bad : {"\e[8;", "\e%G"}) for (size_t q;(q=d.find(bad))!=str::npos;) d[q]='?';
        ev.push_back({t, d}); n+=d.size(); biggest=std::max(biggest, d.size());
        t+=logsize(W, 2000000)/10000*10000;
    }
    return ev;
}
// reading and writing recordings: only the event at hand is kept
WORKLOAD(C29, c29_records, 2)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    if (cfg.bb_gap && cfg.bb_gap<3000) cfg.bb_gap=3000;
    Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI});
    static const char *wext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"}, *wname[]={"ansi", "ttyrec", "nh_recorder", "asciicast-v1", "asciicast"};
    size_t biggest; auto ev=long_events(opt_for(f), 500000+choose(W, choose(W, 4)? 1500000 : 4000000), biggest);
    Comp c= choose(W, 2)? (Comp)choose(W, 5) : C_NONE;
    str name=str("rec")+wext[f]+comp_ext[c], data=cat_data(ev);
    // codecs' own memory is not counted, except zstd's buffers
    i64 most=256*1024+4*(i64)biggest+(c==C_ZST? 1<<20 : 0);
    describe("%s, %zu events, %zu bytes, the biggest %zu", name.c_str(), ev.size(), data.size(), biggest);
    bool back=choose(W, 2); Played pl;
    if (back) fs_put(name, compress(c, encode_as(f, ev, 0, 80, 25, false).raw));
    Proc *p=mkproc("program");
    i64 peak=0;
    start_main(p, [&]() -> int {
        faults.malloc_peak=faults.malloc_live; i64 m=faults.malloc_live;
        if (back)
        {
            if (!play_rec(pl, -1, 0, name.c_str())) fail("open-failed", "%s could not be played", name.c_str());
            if (pl.data.size()<data.size()) fail("lost", "%zu of %zu bytes were played", pl.data.size(), data.size());
        }
        else
        {
            struct timeval tv={1234567890, 0};
            recorder r=ttyrec_w_open(-1, wname[f], name.c_str(), &tv); if (!r) fail("open-failed", "ttyrec_w_open");
            for (auto &e : ev) { struct timeval t={1234567890+e.t/1000000, e.t%1000000}; if (!ttyrec_w_write(r, &t, e.d.data(), e.d.size())) fail("write-failed", "ttyrec_w_write"); }
            if (!ttyrec_w_close(r)) fail("write-failed", "ttyrec_w_close");
        }
        peak=faults.malloc_peak-m;
        Holds none; none.mem=m; none.threads=1; none.fds=1000;
        Holds h=quiet(p, &none);
        if (h.mem>m) fail("memory", "%lld bytes are still allocated afterwards", (long long)(h.mem-m));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, back? "playing a long recording" : "writing a long recording");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (peak>most) fail("memory", "%s a recording of %zu bytes took %lld bytes of memory", back? "playing" : "writing", data.size(), (long long)peak);
}
// a loaded recording takes memory for its data and the screens it keeps to seek with, in proportion
WORKLOAD(C29, c29_timeline, 2)
{
    cfg.max_bbs=8000000000ULL;
    draw_sched_config(false);
    int cols=2+logsize(W, 60), rows=1+logsize(W, 20);
    size_t biggest; GenOpt o; auto ev=long_events(o, choose(W, 3)? 30000+choose(W, 200000) : 5000, biggest);
    u32 reps=0;
    if (choose(W, 3)) { str mk=marked(2000, cols, rows, false); for (auto &e : ev) if (e.d.size()<=mk.size()) e.d=mk.substr(choose(W, mk.size()-e.d.size()+1), e.d.size()); }
    size_t total=cat_data(ev).size();
    describe("%zu frames, %zu bytes on %dx%d", ev.size(), total, cols, rows);
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        i64 m=faults.malloc_live, screen=terminal_limit(std::max(cols, 80), std::max(rows, 25));
        i64 most=(i64)total*2+ev.size()*160+(total/30000+3)*screen;
        faults.malloc_peak=m;
        ttyrec tr=ttyrec_init(tty_init(cols, rows, 1));
        i64 last=0; tty vt=0;
        for (auto &e : ev)
        {
            struct timeval d={(e.t-last)/1000000, (e.t-last)%1000000}; last=e.t;
            ttyrec_add_frame(tr, &d, e.d.data(), e.d.size());
            if (chance(N, 1, 100)) { struct timeval t={(i64)choose(N, last/1000000+2), 0}; ttyrec_seek(tr, &t, &vt); reps++; }
        }
        i64 full=faults.malloc_live;
        if (full-m>most) fail("memory", "a recording of %zu frames, %zu bytes, takes %lld bytes of memory", ev.size(), total, (long long)(full-m));
        // looking around in it costs nothing more
        int seeks=5+choose(N, 30);
        for (int k=0;k<seeks;k++) { struct timeval t={(i64)choose(N, last/1000000+2), (i64)choose(N, 1000000)}; ttyrec_frame f=ttyrec_seek(tr, &t, &vt); for (int q=choose(N, 5);q-- && f;) f=ttyrec_next_frame(tr, f); }
        if (faults.malloc_live>full+screen) fail("memory", "%d seeks took %lld bytes of memory", seeks, (long long)(faults.malloc_live-full));
        if (faults.malloc_peak-m>most+2*screen) fail("memory", "up to %lld bytes of memory were taken by a recording of %zu frames, %zu bytes", (long long)(faults.malloc_peak-m), ev.size(), total);
        if (vt) tty_free(vt);
        ttyrec_free(tr);
        if (faults.malloc_live>m) fail("leak", "%lld bytes are still allocated after freeing everything", (long long)(faults.malloc_live-m));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 3600*1000000LL);
    expect_end(p, st, "building a recording and looking around");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    (void)reps;
}
// the programs
WORKLOAD(C29, c29_tools, 2)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    if (cfg.bb_gap && cfg.bb_gap<3000) cfg.bb_gap=3000;
    Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_CAST2, F_CAST1, F_NH});
    static const char *wext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"};
    size_t biggest; auto ev=long_events(opt_for(F_CAST2), 300000+choose(W, 1000000), biggest);
    Comp c= choose(W, 2)? (Comp)choose(W, 5) : C_NONE, c2= choose(W, 2)? (Comp)choose(W, 5) : C_NONE;
    int n=1+choose(W, 4); bool time=choose(W, 3)==0;
    std::vector<str> av={time? "termtime" : "termcat"};
    for (int i=0;i<n;i++)
    {
        str nm=sfmt("in%d%s%s", i, wext[f], comp_ext[c]); if (!i || choose(W, 4)) { if (!fs_has(nm)) fs_put(nm, compress(c, encode_as(f, ev, 0, 80, 25, false).raw)); }
        else nm="missing.ttyrec";
        av.push_back(nm);
    }
    str out=str("out")+wext[pick(W, std::vector<int>{F_TTYREC, F_CAST2, F_CAST1, F_NH})]+comp_ext[c2];
    if (!time) av.push_back(out);
    i64 most=256*1024+4*(i64)biggest+(c==C_ZST? 1<<20 : 0)+(c2==C_ZST? 1<<20 : 0);
    describe("%s of %d recordings of %zu bytes", av[0].c_str(), n, cat_data(ev).size());
    auto co=capture("stdout"), ce=capture("stderr");
    Proc *p=mkproc(av[0], open_null(), co->w, ce->w); co->w=nullptr; ce->w=nullptr;
    i64 m=faults.malloc_live; faults.malloc_peak=m;
    start_main(p, [&]() -> int { return run_args(time? termtime_main : termcat_main, av); });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, av[0].c_str());
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (faults.malloc_peak-m>most) fail("memory", "%s took %lld bytes of memory for %d recordings of %zu bytes", av[0].c_str(), (long long)(faults.malloc_peak-m), n, cat_data(ev).size());
}
WORKLOAD(C29, c29_session, 2)
{
    draw_sched_config(choose(W, 3)==0); draw_jitter();
    cfg.max_bbs=3000000000ULL; cfg.max_points=4000000;
    if (cfg.bb_gap && cfg.bb_gap<3000) cfg.bb_gap=3000;
    Sess s; SessOpt o; o.append=false; o.minburst= choose(W, 2)? 40000 : choose(W, 2)? 10000 : 0; o.maxburst=100000; o.minbursts=10; o.maxbursts=50; o.gaps=choose(W, 2);
    s.plan(o);
    size_t total=0, biggest=0; for (auto &x : s.out) total+=x.d.size(), biggest=std::max(biggest, x.d.size());
    s.start();
    i64 m=faults.malloc_live; faults.malloc_peak=m;
    s.finish(400LL*3600*1000000);
    if (s.p->killed) fail("KILLED", "killed by signal %d", s.p->killed);
    nontrivial();
    i64 most=384*1024+(s.comp==C_ZST? 1<<20 : 0);
    if (s.f==F_CAST1 || s.f==F_CAST2) most+=302*151*16*3;      // the size is taken from the data by a terminal
    if (total>500000) probe("long session");
    if (faults.malloc_peak-m>most) fail("memory", "recording %zu bytes took %lld bytes of memory", s.emitted.size(), (long long)(faults.malloc_peak-m));
}

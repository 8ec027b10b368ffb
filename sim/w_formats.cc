// C08: decoding does not depend on fragmentation; what is written reads back
#include "rec.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <unistd.h>

// ---- delivery of a recording's bytes to the reader, in some fragmentation
static str pick_name(const str &base, Fmt f, bool autodet)
{
    str n=base+(autodet? ".rec" : f==F_LIVE? ".rec" : fmt_ext[f]);
    if (!autodet && f!=F_LIVE && chance(W, 1, 6)) for (char &c : n) c=toupper(c);
    return n;
}
WORKLOAD(C08, c08_read, 4)
{
    draw_sched_config(); draw_jitter();
    static const u32 sb[]={4096, 1, 2, 16, 60, 512, 65536, 4096};
    cfg.stdio_buf=sb[choose(N, 8)];
    if (cfg.stdio_buf<16) cfg.sys_gap=0;
    if (chance(N, 1, 2)) cfg.short_file_reads=true;
    Fmt f=(Fmt)pick(W, std::vector<int>{F_ANSI, F_TTYREC, F_TTYREC, F_NH, F_NH, F_CAST1, F_CAST2, F_CAST2, F_LIVE});
    GenOpt o=opt_for(f);
    if (cfg.stdio_buf<16) o.maxdata=300, o.big=false;
    auto ev=gen_events(o);
    bool exotic=choose(W, 2);
    i64 start= choose(W, 3)==0? 0 : 1000000000LL*1000000+ (i64)choose(W, 1<<30)*1000+ (f==F_TTYREC? choose(W, 1000) : 0);
    int cols=1+logsize(W, 500), rows=1+logsize(W, 200);
    Encoded en;
    bool back=false;
    if (f==F_NH && chance(W, 1, 8)) { size_t k=choose(W, ev.size()); i64 d=(2000000000LL+choose(W, 2000000000))*10000; if (ev.back().t<1000000000000LL) for (size_t i=k;i<ev.size();i++) ev[i].t+=d; } // many months
    if (f==F_TTYREC && chance(W, 1, 8)) { back=true; for (size_t i=1;i<ev.size();i++) if (chance(W, 1, 4)) { i64 d=logsize(W, 4000000); ev[i].t= ev[i].t>d? ev[i].t-d : 0; } } // the clock was set
    if (f==F_LIVE) { en.raw=cat_data(ev); if (en.raw.empty()) en.raw="x"; }
    else en=encode_as(f, ev, start, cols, rows, exotic);
    bool autodet= f==F_LIVE? choose(W, 2) : (f==F_TTYREC || f==F_CAST1 || f==F_CAST2) && chance(W, 1, 3);
    if (autodet && f==F_TTYREC && (ev[0].d.empty() || ev[0].d.size()>=65536)) autodet=false;
    if (autodet && (f==F_CAST1 || f==F_CAST2)) { size_t at=en.raw.find(':'); if (at==str::npos || en.raw.size()<12) autodet=false; }
    if (f==F_LIVE && autodet)
    {
        // must not look like something else
        const u8 *b=(const u8*)en.raw.data();
        if (en.raw.size()>=12) { u32 us=b[4]|b[5]<<8|b[6]<<16|(u32)b[7]<<24, n=b[8]|b[9]<<8|b[10]<<16|(u32)b[11]<<24; if (us<1000000 && n && n<65536) autodet=false; }
        if (b[0]=='{') autodet=false;
    }
    int how=choose(W, 4);
    Comp c= how<2? (Comp)(choose(W, 2)? choose(W, 5) : 0) : C_NONE;
    str base=pick_name("r", f, autodet);
    bool explicitf= f==F_LIVE? !autodet : autodet? choose(W, 2) : chance(W, 1, 3);
    const char *format= explicitf? (autodet? "auto" : f==F_CAST1 || f==F_CAST2? "asciicast" : f==F_ANSI? "baudrate" : fmt_name[f]) : 0;
    if (explicitf && !autodet && choose(W, 2)) base="plainname";
    describe("%s%s %zu events %zu bytes, %s%s%s", fmt_name[f], autodet? " (auto)" : "", ev.size(), en.raw.size(), how==0? "file" : how==1? "tcp" : how==2? "pipe" : "file descriptor", comp_ext[c], exotic? " exotic" : back? " with a clock set back" : "");
    Played pl; if (chance(N, 1, 4)) pl.slow=200000;
    Proc *p=mkproc("reader");
    bool ok=false;
    start_main(p, [&]() -> int {
        Delivery d=deliver(p, base, compress(c, en.raw), c, how, "src");
        ok=play_rec(pl, d.fd, format, d.name.c_str());
        wait_no_fds(p, "after playing");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "reading a recording");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!ok) fail("open-failed", "the recording could not be played");
    if (f==F_LIVE)
    {
        if (pl.data!=en.raw) fail("data", "live: %zu bytes instead of %zu, differing from %zu on", pl.data.size(), en.raw.size(), first_diff(pl.data, en.raw));
        if (pl.ninit!=1) fail("init", "%d calls to init_wait", pl.ninit);
        return;
    }
    str d=cmp_timed(en.want, pl);
    if (!d.empty()) fail(d.find("byte ")==0? "timing" : "data", "%s (%zu events, %zu raw bytes): %s", fmt_name[f], ev.size(), en.raw.size(), d.c_str());
    if (pl.t!=en.total) fail("timing", "%s: the waits sum up to %s s instead of %s s", fmt_name[f], tvs(pl.t).c_str(), tvs(en.total).c_str());
    if (pl.negative && !back) fail("timing", "%s: a negative delay", fmt_name[f]);
    if (pl.ninit!=en.ninit || (pl.ninit && (pl.init!=en.init || pl.wait_first))) fail("init", "%s: %d calls to init_wait, time %s instead of %s%s", fmt_name[f], pl.ninit, tvs(pl.init).c_str(), tvs(en.init).c_str(), pl.wait_first? ", called late" : "");
}

// ---- what the library writes, it reads back
WORKLOAD(C08, c08_roundtrip, 2)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    static const u32 sb[]={4096, 16, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 4)];
    Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_ANSI, F_NH, F_CAST1, F_CAST2, F_CAST2});
    GenOpt o=opt_for(f); o.empty=false; o.gran=1;
    auto ev=gen_events(o);
    bool cast= f==F_CAST1 || f==F_CAST2;
    bool havetm= choose(W, 4);
    i64 start= havetm? 1000000000LL*1000000+(i64)choose(W, 1<<30)*1000+choose(W, 1000) : 0;
    if (havetm && cast && choose(W, 2)) start-=start%1000000;
    int cols=80, rows=25; bool size=false;
    if (choose(W, 3)==0) { size=true; cols=2+logsize(W, 500); rows=1+logsize(W, 200); ev.insert(ev.begin(), Ev{0, sfmt("\e%%G\e[8;%d;%dt", rows, cols)}); }
    else if (cast && ev[0].d.find("\e[8;")!=str::npos) ev[0].d="hello";
    Comp c=(Comp)(choose(W, 2)? choose(W, 5) : 0);
    static const char *wext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"};
    str name=str("out")+wext[f]+comp_ext[c];
    bool bysuffix= choose(W, 2);
    // asciicast holds whole characters: cut at arbitrary places
    std::vector<Ev> wr;
    for (auto &x : ev)
    {
        size_t at=0;
        if (cast && size && &x==&ev[0]) { wr.push_back(x); continue; }
        while (at<x.d.size()) { size_t k= choose(W, 3)? x.d.size()-at : 1+choose(W, 9); if (k>x.d.size()-at) k=x.d.size()-at; wr.push_back({x.t, x.d.substr(at, k)}); at+=k; if (wr.size()>3000) { wr.push_back({x.t, x.d.substr(at)}); break; } }
    }
    describe("%s %zu writes%s%s", name.c_str(), wr.size(), havetm? " dated" : "", size? " with size" : "");
    std::vector<Ev> want;
    bool dropped=false;
    if (f==F_ANSI) { str d=cat_data(wr); i64 t=0; for (size_t i=0;i<d.size();i+=60) want.push_back({t, d.substr(i, 60)}), t+=200000; }
    else if (!cast) { for (auto &x : wr) want.push_back({f==F_TTYREC? x.t-wr[0].t : x.t, x.d}); }
    else
    {
        // a partial character is written together with its rest
        if (!size) want.push_back({0, sfmt("\e%%G\e[8;25;80t")});
        str carry;
        for (auto &x : wr)
        {
            str d=carry+x.d; carry="";
            size_t k=d.size(), back=0;
            while (back<4 && back<k && ((u8)d[k-1-back]&0xc0)==0x80) back++;
            if (back<k) { u8 l=d[k-1-back]; u32 need= l>=0xf0? 4 : l>=0xe0? 3 : l>=0xc0? 2 : 1; if (l>=0xc0 && back+1<need) { carry=d.substr(k-1-back); d.resize(k-1-back); } }
            if (size && &x==&wr[0]) { want.push_back({0, x.d}); carry=""; continue; }
            want.push_back({x.t+(f==F_CAST2? start%1000000 : 0), d});    // the header has whole seconds only
        }
        dropped=!carry.empty();
    }
    Played pl; bool ok=false;
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        struct timeval tv={start/1000000, start%1000000};
        int fd=-1;
        const char *fname=name.c_str();
        if (choose(W, 3)==0) { fd=open_stream(-1, name.c_str(), SM_WRITE, 0); }
        recorder r=ttyrec_w_open(fd, bysuffix? 0 : fmt_name[f], fname, havetm? &tv : 0);
        if (!r) fail("open-failed", "ttyrec_w_open(%s) failed", fname);
        for (auto &x : wr)
        {
            i64 t=start+x.t; struct timeval tm={t/1000000, t%1000000};
            if (!ttyrec_w_write(r, &tm, x.d.data(), x.d.size())) fail("write-failed", "ttyrec_w_write failed");
        }
        if (!ttyrec_w_close(r)) fail("write-failed", "ttyrec_w_close failed");
        wait_no_fds(p, "after writing");
        ok=play_rec(pl, -1, cast? "asciicast" : f==F_ANSI? "baudrate" : bysuffix? 0 : fmt_name[f], fname);
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "writing and reading back a recording");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!ok) fail("open-failed", "the recording could not be played");
    if (dropped) return;
    i64 tol= f==F_NH? 10000 : cast? 1+(i64)wr.size() : 0;
    if (f==F_CAST2) tol=2;
    str d=cmp_timed(want, pl, tol);
    if (!d.empty()) fail(d.find("byte ")==0? "timing" : "data", "%s (%zu writes): %s", name.c_str(), wr.size(), d.c_str());
    if (cast && havetm && (pl.ninit!=1 || pl.init!=start/1000000*1000000)) fail("init", "%s: init time %s instead of %s", name.c_str(), tvs(pl.init).c_str(), tvs(start).c_str());
    if (f==F_TTYREC && (pl.ninit!=1 || pl.init!=start+wr[0].t)) fail("init", "%s: init time %s instead of %s", name.c_str(), tvs(pl.init).c_str(), tvs(start).c_str());
}

// ---- dosrecorder
static const unsigned short cp437hi[128]={
0xc7,0xfc,0xe9,0xe2,0xe4,0xe0,0xe5,0xe7,0xea,0xeb,0xe8,0xef,0xee,0xec,0xc4,0xc5,0xc9,0xe6,0xc6,0xf4,0xf6,0xf2,0xfb,0xf9,0xff,0xd6,0xdc,0xa2,0xa3,0xa5,0x20a7,0x192,
0xe1,0xed,0xf3,0xfa,0xf1,0xd1,0xaa,0xba,0xbf,0x2310,0xac,0xbd,0xbc,0xa1,0xab,0xbb,0x2591,0x2592,0x2593,0x2502,0x2524,0x2561,0x2562,0x2556,0x2555,0x2563,0x2551,0x2557,0x255d,0x255c,0x255b,0x2510,
0x2514,0x2534,0x252c,0x251c,0x2500,0x253c,0x255e,0x255f,0x255a,0x2554,0x2569,0x2566,0x2560,0x2550,0x256c,0x2567,0x2568,0x2564,0x2565,0x2559,0x2558,0x2552,0x2553,0x256b,0x256a,0x2518,0x250c,0x2588,0x2584,0x258c,0x2590,0x2580,
0x3b1,0xdf,0x393,0x3c0,0x3a3,0x3c3,0xb5,0x3c4,0x3a6,0x398,0x3a9,0x3b4,0x221e,0x3c6,0x3b5,0x2229,0x2261,0xb1,0x2265,0x2264,0x2320,0x2321,0xf7,0x2248,0xb0,0x2219,0xb7,0x221a,0x207f,0xb2,0x25a0,0xa0};
static u32 dos_uni(u8 c) { return c<128? c : cp437hi[c-128]; }
namespace { struct DosTerm { u32 ch[2000]; u8 at[2000]; int cx=0, cy=0; u8 a=7; str title; int sizes=0; DosTerm() { for (int i=0;i<2000;i++) ch[i]=' ', at[i]=7; } }; }
static str dos_feed(DosTerm &t, const str &s)
{
    static const u8 map[8]={0, 4, 2, 6, 1, 5, 3, 7};
    for (size_t i=0;i<s.size();)
    {
        u8 c=s[i];
        if (c==27)
        {
            if (i+1>=s.size()) return "cut escape";
            if (s[i+1]=='c') { t=DosTerm(); i+=2; continue; }
            if (s[i+1]=='%') { i+=3; continue; }
            if (s[i+1]==']') { size_t e=s.find('\a', i); if (e==str::npos) return "unterminated title"; t.title=s.substr(i+4, e-i-4); i=e+1; continue; }
            if (s[i+1]!='[') return sfmt("unknown escape at %zu", i);
            size_t j=i+2; std::vector<int> n(1, 0);
            while (j<s.size() && (isdigit(s[j]) || s[j]==';')) { if (s[j]==';') n.push_back(0); else n.back()=n.back()*10+s[j]-'0'; j++; }
            if (j>=s.size()) return "cut escape";
            switch (s[j])
            {
            case 'f': case 'H': if (n.size()!=2 || n[0]<1 || n[0]>25 || n[1]<1 || n[1]>80) return sfmt("bad position at %zu", i); t.cy=n[0]-1; t.cx=n[1]-1; break;
            case 'X': if (t.cx+n[0]>80) return sfmt("erasing %d at column %d", n[0], t.cx); for (int k=0;k<n[0];k++) t.ch[t.cy*80+t.cx+k]=' ', t.at[t.cy*80+t.cx+k]=t.a; break;
            case 't': if (n!=std::vector<int>{8, 25, 80}) return "wrong size"; t.sizes++; break;
            case 'm': for (int v : n) { if (v==0) t.a=7; else if (v==5) t.a|=0x80; else if (v==1) t.a|=8; else if (v>=30 && v<=37) t.a=(t.a&~7)|map[v-30]; else if (v>=40 && v<=47) t.a=(t.a&~0x70)|map[v-40]<<4; else return sfmt("unknown attribute %d", v); } break;
            default: return sfmt("unknown sequence at %zu", i);
            }
            i=j+1; continue;
        }
        int n= c<0x80? 0 : c<0xe0? 1 : 2; u32 v= n==0? c : n==1? c&31 : c&15;
        for (int k=1;k<=n;k++) v=v<<6|((u8)s[i+k]&63);
        i+=n+1;
        if (t.cx>=80) return sfmt("character past the right margin, row %d", t.cy);
        t.ch[t.cy*80+t.cx]=v; t.at[t.cy*80+t.cx]=t.a; t.cx++;
    }
    return "";
}
WORKLOAD(C08, c08_dosrecorder, 1)
{
    draw_sched_config(); draw_jitter();
    if (chance(N, 1, 2)) cfg.short_file_reads=true;
    std::vector<DosFrame> want; str raw; gen_dos(raw, want);
    int n=want.size();
    int how=choose(W, 4); bool gz=choose(W, 2);
    str file= gz? compress(C_GZ, raw) : raw;
    Comp c= how<2 && choose(W, 3)==0? (Comp)choose(W, 5) : C_NONE;
    describe("dosrecorder %d frames, %zu bytes%s, %s", n, raw.size(), gz? " gz" : "", how==0? "file" : how==1? "tcp" : how==2? "pipe" : "file descriptor");
    Played pl; bool ok=false;
    Proc *p=mkproc("reader");
    start_main(p, [&]() -> int {
        Delivery d=deliver(p, "r.dm2", compress(c, file), c, how, "src");
        ok=play_rec(pl, d.fd, choose(W, 2)? "dosrecorder" : 0, d.name.c_str());
        wait_no_fds(p, "after playing");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "reading a recording");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!ok) fail("open-failed", "the recording could not be played");
    if (pl.prints.size()!=want.size()) fail("data", "%zu frames instead of %zu", pl.prints.size(), want.size());
    DosTerm *dt=new DosTerm;
    for (size_t i=0;i<want.size();i++)
    {
        if (pl.prints[i].first!=want[i].t) fail("timing", "frame %zu at %s s instead of %s s", i, tvs(pl.prints[i].first).c_str(), tvs(want[i].t).c_str());
        if (want[i].note) dt->title="";
        str e=dos_feed(*dt, pl.prints[i].second);
        if (!e.empty()) fail("data", "frame %zu: %s", i, e.c_str());
        for (int k=0;k<2000;k++)
        {
            u8 ch=want[i].s[k].first, a=want[i].s[k].second;
            if (dt->ch[k]!=dos_uni(ch) || (dt->at[k]!=a))
                fail("data", "frame %zu of %zu: row %d column %d shows %x/%02x instead of %x/%02x", i, want.size(), k/80, k%80, dt->ch[k], dt->at[k], dos_uni(ch), a);
        }
        if (want[i].note && dt->title!=want[i].title) fail("data", "frame %zu: title '%s' instead of '%s'", i, dt->title.c_str(), want[i].title.c_str());
    }
    if (dt->sizes!=1) fail("data", "the size is given %d times", dt->sizes);
    if (pl.t!=want.back().t) fail("timing", "the waits sum up to %s s instead of %s s", tvs(pl.t).c_str(), tvs(want.back().t).c_str());
}

// C30: a mirrored terminal shows what the virtual one holds
#include "rec.h"
#include "internal.h"
#include "term.h"
#include "oscs.h"
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <locale.h>
#include <fcntl.h>
#include <signal.h>
#include <algorithm>
#include <map>

str stuff(u32 n);                                       // w_multi.cc
str lively(u32 n, int cols, int rows);                  // w_events.cc

namespace {
struct Mirrored
{
    str data; int cols, rows, tw, th;                   // the virtual terminal; the user's one, never smaller
    bool fixed, utf8, dump, pipe; u32 most, often; size_t ahead;
    str bad;
};
}
// the user's terminal agrees with the emulator about widths
static std::map<u32,int> widths;
static int width_of(u32 c)
{
    if (c<127) return 1;
    auto i=widths.find(c); if (i!=widths.end()) return i->second;
    char b[5]; int n=0, w, h, x, y;
    if (c<0x800) b[n++]=0xc0|c>>6; else if (c<0x10000) b[n++]=0xe0|c>>12, b[n++]=0x80|(c>>6&63); else b[n++]=0xf0|c>>18, b[n++]=0x80|(c>>12&63), b[n++]=0x80|(c>>6&63);
    b[n++]=0x80|(c&63);
    tty vt=tty_init(10, 1, 0); tty_write(vt, "a", 1); tty_write(vt, b, n); glue_size(vt, &w, &h, &x, &y); tty_free(vt);
    return widths[c]=x-1;
}
// what a terminal of this locale can show of that
static Screen shown_as(tty vt, int tw, bool utf8)
{
    Screen s; glue_size(vt, &s.w, &s.h, &s.x, &s.y); s.x=std::min(s.x, tw-1);
    for (int y=0;y<s.h;y++) for (int x=0;x<s.w;x++)
    {
        Cell c; u32 cb[64];
        glue_cell(vt, x, y, &c.ch, &c.attr, cb);
        for (u32 k : cb) if (k && (utf8 || k<128)) c.comb.push_back(k);
        if (c.ch>=128 && (!utf8 || (c.ch!=RIGHT && (c.ch>0x10ffff || (c.ch>=0xd800 && c.ch<0xe000))))) c.ch='?', c.comb.clear();
        for (int sh : {0, 32}) if ((c.attr>>sh&0x3000000)==0x2000000) c.attr&=~(0xffff00ULL<<sh);       // there are but 256 of these colours
        s.c.push_back(looks(c));
    }
    return s;
}
static void mirror(Mirrored &m, int no, Proc *p)
{
    Term term(m.tw, m.th); term.graph_ok=!m.utf8;
    str name=sfmt("screen%d", no), junk="left from before\e[44m\e[3;5Hmore\e]0;old\a";
    FILE *f; int pr=-1; bool ended=false; size_t at=0;
    auto bad=[&](const str &s) { if (m.bad.empty()) m.bad=s; };
    if (m.pipe)
    {
        int pf[2]; if (::pipe(pf)) return bad("pipe failed");
        pr=pf[0]; f=fdopen(pf[1], "wb");
        spawn_thread(p, "the user's terminal", [&]{ char b[4096]; for (int n;(n=read(pr, b, 1+choose(N, sizeof(b))))>0;) { for (int i=0;i<n;i++) term.feed(b[i]); } ended=true; touch(); });
    }
    else f=fopen(name.c_str(), "wb");
    if (!f) return bad("no output");
    if (!m.pipe) pr=open(name.c_str(), O_RDONLY);
    auto take=[&] { char b[4096]; for (int n;(n=read(pr, b, sizeof(b)))>0;) for (int i=0;i<n;i++) term.feed(b[i]); };
    tty vt=tty_init(m.cols, m.rows, !m.fixed);
    Strings want; int bells=0;
    // what a program must do for the terminal to have everything: nothing, each write ends with a flush
    auto see=[&](const char *when, bool flush) {
        if (!m.bad.empty()) return;
        if (flush) fflush(f);
        if (m.pipe) { sleep_us(300000); }
        else take();
        int w, h, x, y; glue_size(vt, &w, &h, &x, &y);
        if (w>m.tw || h>m.th) return;
        auto where=[&]() { return sfmt(" %s, %zu of %zu bytes written (last %s)", when, at, m.data.size(), hexs(m.data.substr(at>50? at-50 : 0, std::min(at, (size_t)50)), 50).c_str()); };
        if (!term.odd.empty()) return bad("the user's terminal was sent "+term.odd+where());
        str d=differ(shown_as(vt, m.tw, m.utf8), term.screen(w, h));
        if (!d.empty()) return bad(d+where());
        if (term.bells!=want.bells-bells) return bad(sfmt("%d bells of %d", term.bells, want.bells-bells)+where());
        const char *t=glue_title(vt);
        if (term.titles && term.title!=(t? t : "")) return bad(sfmt("the title is \"%s\" instead of \"%s\"", hexs(term.title, 40).c_str(), t? hexs(t, 40).c_str() : "")+where());
        size_t n=0; for (auto &o : want.osc) n+= !o.first;
        if ((size_t)term.titles!=n) return bad(sfmt("%d titles set of %zu", term.titles, n)+where());
    };
    auto alone=[&] {        // nothing but the contents
        int w, h, x, y; glue_size(vt, &w, &h, &x, &y);
        for (int Y=0;Y<m.th;Y++) for (int X=0;X<m.tw;X++) if ((X>=w || Y>=h) && w<=m.tw && h<=m.th && m.bad.empty() && looks(term.at(X, Y))!="_")
            bad(sfmt("just drawn: row %d column %d, beyond the contents, has %s", Y+1, X+1, looks(term.at(X, Y)).c_str()));
    };
    if (m.ahead) { str d=m.data.substr(0, m.ahead); tty_write(vt, d.data(), d.size()); at=m.ahead; want.feed(d); want.bells=0; want.osc.clear(); }
    if (m.dump)
    {
        for (char c : junk) term.feed(c);
        term.titles=0;
        if (m.tw==80 && m.th==25) { vtvt_attach(vt, f, 1); see("after attaching", false); alone(); }
        else { vtvt_attach(vt, f, 0); vtvt_resize(vt, m.tw, m.th); fputs("\ec", f); vtvt_dump(vt); see("after drawing it", true); alone(); }
    }
    else { if (choose(N, 2)) for (char c : str("\e[0;1;35;46m")) term.feed(c); vtvt_attach(vt, f, 0); if (m.tw!=80 || m.th!=25) vtvt_resize(vt, m.tw, m.th); }
    std::vector<tty> others;
    while (at<m.data.size() && m.bad.empty())
    {
        size_t k=1+choose(N, m.most); if (k>m.data.size()-at) k=m.data.size()-at;
        str piece=m.data.substr(at, k);
        if (choose(N, 8)==0 && piece.find('\0')==str::npos) tty_printf(vt, "%s", piece.c_str()); else tty_write(vt, piece.data(), k);
        at+=k; want.feed(piece);
        if (at==m.data.size() || choose(N, m.often)==0) see("after a write", false);
        if (choose(N, 20)) continue;
        switch (choose(N, 6))
        {
        case 0: vtvt_dump(vt); see("after a redraw", true); break;
        case 1: tty_resize(vt, 2+choose(N, m.tw-1), 1+choose(N, m.th)); vtvt_dump(vt); see("after a resize by the program", true); break;
        case 2: tty_reset(vt); want.st=Strings::N; vtvt_dump(vt); see("after a reset by the program", true); break;
        case 3: if (others.size()<3) { tty c=tty_copy(vt); if (!c) return bad("copying failed"); others.push_back(c); }
        case 5: { int a, b, x, y; glue_size(vt, &a, &b, &x, &y); if (x>=m.tw || a>m.tw || b>m.th) break; int w=std::min(std::max(m.tw, 160), m.tw+(int)choose(N, 20)), h=std::min(std::max(m.th, 70), m.th+(int)choose(N, 8)); see("before the user's terminal grew", true); term.grow(w, h); m.tw=w; m.th=h; vtvt_resize(vt, w, h); see("after the user's terminal grew", true); break; }
        case 4: if (!others.empty()) { tty c=others[choose(N, others.size())]; str s="\e[H\e[31mnot for the user\a\e]0;other\a\e[2J\n\e[8;5;10t"; tty_write(c, s.data(), s.size()); see("after writing to a copy", true); } break;
        }
    }
    for (tty c : others) tty_free(c);
    see("at the end", false);
    tty_free(vt);
    if (m.bad.empty()) { if (fputs("\e[Hthe end", f)<0) bad("writing after the terminal was freed failed"); }
    if (fclose(f)) bad("the output can't be closed");
    if (m.pipe) { wait_for([&]{ return ended; }, "the user's terminal"); }
    else take();
    close(pr);
    if (m.bad.empty() && m.th>1 && (term.s1 || term.s2!=term.h)) bad(sfmt("the user's terminal has been left scrolling just lines %d to %d of %d", term.s1+1, term.s2, term.h));
    if (m.bad.empty() && m.tw>8 && (term.at(0, 0).ch!='t' || term.at(6, 0).ch!='d')) bad("what the program wrote after freeing the terminal is missing");
}
WORKLOAD(C30, c30_mirror, 4)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config();
    Term::exact=width_of; widths.clear();
    int n= choose(W, 4)? 1 : 2+choose(W, 2);
    bool utf8=choose(W, 5); setenv("LC_ALL", utf8? "C.UTF-8" : "C", 1);
    if (n>1) { static const u32 bg[]={3000, 300, 1000, 100}; cfg.bb_gap=bg[choose(S, 4)]; }
    std::vector<Mirrored> t(n);
    for (auto &x : t)
    {
        bool small=choose(W, 3), std=choose(W, 3)==0;
        x.tw= small? 2+choose(W, 14) : 2+choose(W, 150); x.th= small? 1+choose(W, 7) : 1+choose(W, 60);
        if (std) x.tw=80, x.th=25;
        x.cols= choose(W, 2)? x.tw : 2+choose(W, x.tw-1); x.rows= choose(W, 2)? x.th : 1+choose(W, x.th);
        x.fixed=choose(W, 3)==0; x.utf8=utf8; x.dump=choose(W, 2); x.pipe=choose(W, 4)==0;
        u32 size= n>1? 600 : choose(W, 5)? 1500 : 8000;
        switch (choose(W, 4))
        {
        case 0: x.data=stuff(1+logsize(W, size)); break;
        case 1: x.data=show(1+logsize(W, size), choose(W, 4)==0, x.tw, x.th); break;
        default: x.data=lively(1+logsize(W, size), x.cols, x.rows);
        }
        if (!utf8) x.data.erase(std::remove_if(x.data.begin(), x.data.end(), [](char c) { return (u8)c>0xe0; }), x.data.end()); // without wide characters
        x.ahead= x.dump? choose(N, x.data.size()+1) : 0;
        x.most=1+logsize(N, choose(N, 2)? 8 : choose(N, 4)? 400 : 40000);
        x.often=1+x.data.size()/x.most*x.tw*x.th/20000;
        describe("%zu bytes on %dx%d shown on %dx%d in pieces of up to %u; ", x.data.size(), x.cols, x.rows, x.tw, x.th, x.most);
    }
    int left=n;
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        setlocale(LC_CTYPE, "");
        if (n==1) mirror(t[0], 0, p);
        else
        {
            for (int i=0;i<n;i++) spawn_thread(p, sfmt("terminal %d", i), [&,i]{ mirror(t[i], i, p); left--; touch(); });
            wait_for([&]{ return !left; }, "terminals");
        }
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "mirroring a terminal");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    for (auto &x : t) if (!x.bad.empty()) fail("mirror", "%s", x.bad.c_str());
}

// Whatever becomes of the mirror, the terminal itself is as if nobody had looked at it.
WORKLOAD(C30, c30_failing, 1)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(false);
    Term::exact=width_of; widths.clear();
    bool utf8=choose(W, 3); setenv("LC_ALL", utf8? "C.UTF-8" : "C", 1);
    int cols=1+choose(W, choose(W, 3)? 14 : 150), rows=1+choose(W, choose(W, 3)? 7 : 60), how=choose(F, 4), real=choose(W, 2)? 0 : 1+choose(W, 40);
    str data= choose(W, 2)? lively(1+logsize(W, 2000), cols, rows) : stuff(1+logsize(W, 3000));
    size_t ahead= choose(W, 2)? choose(N, data.size()+1) : 0; u32 most=1+logsize(N, choose(N, 2)? 8 : 4000);
    static const char *hows[]={"nothing fails", "the disk fills up", "the reader goes away", "no memory to attach"};
    describe("%zu bytes on %dx%d, %s", data.size(), cols, rows, hows[how]);
    u64 cap=logsize(F, 4000); int lost=logsize(F, 3000);
    bool dump=choose(W, 2), attached=true; str bad;
    Proc *p=mkproc("program");
    p->sig[SIGPIPE].h=(void(*)(int))1;
    start_main(p, [&]() -> int {
        setlocale(LC_CTYPE, "");
        int pf[2]={-1, -1}; FILE *f;
        if (how==2) { if (::pipe(pf)) return 1; f=fdopen(pf[1], "wb"); } else f=fopen("screen", "wb");
        if (!f) return 1;
        if (how==1) faults.disk_cap=cap;
        if (how==2) spawn_thread(p, "the reader", [&]{ char b[100]; for (int n, got=0; got<lost && (n=read(pf[0], b, std::min(100, lost-got)))>0;) got+=n; close(pf[0]); });
        i64 mem=faults.malloc_live;
        tty vt=tty_init(cols, rows, 1), twin=tty_init(cols, rows, 1);
        tty_write(vt, data.data(), ahead); tty_write(twin, data.data(), ahead);
        if (how==3) { faults.fail_malloc=1; faults.fail_malloc_span=1; faults.n_malloc=1; faults.malloc_armed=true; faults.n_malloc=0; }
        vtvt_attach(vt, f, dump);
        if (how==3) { faults.malloc_armed=false; attached=!glue_nohooks(vt); }
        if (attached && real) vtvt_resize(vt, real, 1+real%9);      // anything larger is clipped
        for (size_t at=ahead; at<data.size() && bad.empty();)
        {
            size_t k=1+choose(N, most); if (k>data.size()-at) k=data.size()-at;
            tty_write(vt, data.data()+at, k); tty_write(twin, data.data()+at, k); at+=k;
            if (attached && choose(N, 20)==0) vtvt_dump(vt);
            if (at<data.size() && choose(N, 1+data.size()/most*cols*rows/3000)) continue;
            size_t n, l; char *a=glue_screen(vt, &n), *b=glue_screen(twin, &l);
            if (n!=l || memcmp(a, b, n)) bad=sfmt("after %zu of %zu bytes the mirrored terminal differs from one nobody mirrors: \"%s\"", at, data.size(), str(a+first_diff(str(a, n), str(b, l)), std::min<size_t>(n-first_diff(str(a, n), str(b, l)), 40)).c_str());
            free(a); free(b);
        }
        tty_free(vt); tty_free(twin);
        if (faults.malloc_live>mem) { if (bad.empty()) bad=sfmt("%lld bytes are still allocated", (long long)(faults.malloc_live-mem)); }
        bool broke= ferror(f); bool closed=!fclose(f);
        if (how==0 && (broke || !closed)) bad="the mirror's output failed";
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "mirroring a terminal onto something that fails");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!bad.empty()) fail("affected", "%s", bad.c_str());
}

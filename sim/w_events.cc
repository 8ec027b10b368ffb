// C28: a terminal's events tell everything that happens to it
#include "rec.h"
#include "internal.h"
#include "oscs.h"
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <algorithm>

str stuff(u32 n);                       // w_multi.cc
static const u32 RIGHT=0xffffffff;      // the right half of a wide character
static const u64 WIDE=0x8000000000000000ULL;

namespace {
struct Cell { u32 ch=' '; u64 attr=0; std::vector<u32> marks; };
// someone who knows the terminal only by what it reports
struct Viewer
{
    tty vt=nullptr; glue_ev ev; str bad; bool oom=false;
    int sx=0, sy=0, cx=0, cy=0, fcur=1, fpad=0; std::vector<Cell> c;
    str title; bool title_known=false; int bells=0, flushes=0, freed=0, resized=0;
    std::vector<std::pair<u32,str>> osc; u64 n=0;
    Cell &at(int x, int y) { return c[(size_t)y*sx+x]; }
    void no(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void blank_half(int x, int y)       // x is about to be overwritten
    {
        if (at(x, y).ch==RIGHT && x) other(x-1, y);
        else if (x+1<sx && (at(x, y).attr&WIDE) && at(x+1, y).ch==RIGHT) other(x+1, y);
    }
    void other(int x, int y) { at(x, y).ch=' '; at(x, y).attr&=~WIDE; at(x, y).marks.clear(); }
    void marks(int x, int y) { u32 ch, m[64]; u64 a; glue_cell(vt, x, y, &ch, &a, m); at(x, y).marks.clear(); for (u32 k : m) if (k) at(x, y).marks.push_back(k); }
    void look() { int a, b; glue_size(vt, &a, &b, &cx, &cy); }
    void on_char(int x, int y, u32 ch, u64 attr, int w)
    {
        n++;
        if (w!=1 && w!=2) return no("a character %x of width %d", ch, w);
        if (x<0 || y<0 || y>=sy || x+w>sx) return no("a character of width %d at %d,%d of a %dx%d screen", w, x, y, sx, sy);
        if (ch==RIGHT) return no("the right half of a character reported as a character");
        blank_half(x, y);
        if (w==2) blank_half(x+1, y);
        Cell &a=at(x, y); a.ch=ch; a.attr= w==2? attr|WIDE : attr;
        marks(x, y);
        if (w==2) { Cell &b=at(x+1, y); b.ch=RIGHT; b.attr=attr|WIDE; b.marks.clear(); }
        cx=x+w; cy=y;
    }
    void on_comb(int x, int y, u32 ch)
    {
        n++;
        if (x<0 || y<0 || y>=sy || x>=sx) return no("a mark at %d,%d of a %dx%d screen", x, y, sx, sy);
        if (at(x, y).ch==RIGHT) return no("a mark on the right half of a character");
        at(x, y).marks.push_back(ch);
    }
    void on_cursor(int x, int y)
    {
        n++;
        int a, b, rx, ry; glue_size(vt, &a, &b, &rx, &ry);
        if (x!=rx || y!=ry) no("the cursor reported at %d,%d is at %d,%d", x, y, rx, ry);
        cx=x; cy=y;
    }
    void on_clear(int x, int y, int len)
    {
        n++;
        look();         // already in place
        i64 st=(i64)y*sx+x, e=st+len, l0=(i64)cy*sx, l1=l0+sx;
        if (x<0 || x>sx || y<0 || y>=sy || len<0 || e>(i64)sx*sy) return no("clearing %d cells from %d,%d of a %dx%d screen", len, x, y, sx, sy);
        if ((st<l0 || st>l1) && st) return no("clearing %d cells from %d,%d, neither on the line of the cursor (%d) nor at the screen's beginning", len, x, y, cy);
        if ((e<l0 || e>l1) && e!=(i64)sx*sy) return no("clearing %d cells from %d,%d, to neither the line of the cursor (%d) nor the screen's end", len, x, y, cy);
        u64 a=glue_attr(vt);
        for (;st<e;st++) c[st]=Cell(), c[st].attr=a;
    }
    void on_scroll(int nl, int s1, int s2)
    {
        n++;
        look();
        if (s1<0 || s2>sy || s1>=s2 || !nl) return no("scrolling lines %d..%d of %d by %d", s1, s2, sy, nl);
        std::vector<Cell> o=c; u64 a=glue_attr(vt);
        for (int y=s1;y<s2;y++)
        {
            i64 from=(i64)y+nl;
            for (int x=0;x<sx;x++) if (from>=s1 && from<s2) at(x, y)=o[from*sx+x]; else at(x, y)=Cell(), at(x, y).attr=a;
        }
    }
    void on_flag(int f, int v)
    {
        n++;
        if (f==glue_flag_no(0)) fcur=!!v; else if (f==glue_flag_no(1)) fpad=!!v;
    }
    void on_osc(int cmd, const char *s) { n++; osc.push_back({(u32)cmd, s? s : "(null)"}); if (!cmd) title= s? s : "", title_known=true; }
    void on_resize(int w, int h)
    {
        n++; resized++;
        int rx, ry, a, b; glue_size(vt, &rx, &ry, &a, &b);
        if (w!=rx || h!=ry) no("the size reported is %dx%d, not %dx%d", w, h, rx, ry);
        resize(rx, ry);
    }
    void resize(int w, int h)
    {
        std::vector<Cell> o=c; int ox=sx, oy=sy; u64 a=glue_attr(vt);
        sx=w; sy=h; c.assign((size_t)w*h, Cell());
        for (int y=0;y<h;y++) for (int x=0;x<w;x++)
            if (x<ox && y<oy)
            {
                at(x, y)=o[(size_t)y*ox+x];
                if (x==w-1 && x+1<ox && o[(size_t)y*ox+x+1].ch==RIGHT) at(x, y).ch=' ', at(x, y).attr&=~WIDE;
            }
            else at(x, y).attr=a;
        if (cx>w) cx=w;
        if (cy>=h) cy=h-1;
    }
    void on_freed() { freed++; str e=compare(); if (!e.empty()) no("when the terminal is destroyed, %s", e.c_str()); }
    void attach(tty t)
    {
        vt=t;
        glue_size(vt, &sx, &sy, &cx, &cy);
        c.assign((size_t)sx*sy, Cell());
        for (int y=0;y<sy;y++) for (int x=0;x<sx;x++) { u32 m[64]; glue_cell(vt, x, y, &at(x, y).ch, &at(x, y).attr, m); marks(x, y); }
        glue_flags(vt, &fcur, &fpad);
        const char *s=glue_title(vt); title= s? s : "";
        hook();
    }
    void hook();
    str compare()
    {
        int w, h, rx, ry; glue_size(vt, &w, &h, &rx, &ry);
        if (w!=sx || h!=sy) return sfmt("the terminal is %dx%d, its events say %dx%d", w, h, sx, sy);
        if (rx!=cx || ry!=cy) return sfmt("the cursor is at %d,%d, the events say %d,%d", rx, ry, cx, cy);
        for (int y=0;y<sy;y++) for (int x=0;x<sx;x++)
        {
            u32 ch, m[64]; u64 a; glue_cell(vt, x, y, &ch, &a, m); const Cell &k=at(x, y);
            if (ch!=k.ch) return sfmt("at %d,%d there's %x, the events say %x", x, y, ch, k.ch);
            if (a!=k.attr) return sfmt("at %d,%d there's %x with attributes %llx, the events say %llx", x, y, ch, (unsigned long long)a, (unsigned long long)k.attr);
            for (size_t i=0;i<64;i++) if (m[i]!=(i<k.marks.size()? k.marks[i] : 0)) return sfmt("at %d,%d mark %zu is %x, the events say %x", x, y, i, m[i], i<k.marks.size()? k.marks[i] : 0);
        }
        int f, p; glue_flags(vt, &f, &p);
        if (f!=fcur) return sfmt("the cursor is %s, the events say %s", f? "visible" : "hidden", fcur? "visible" : "hidden");
        if (p!=fpad) return sfmt("the keypad mode is %d, the events say %d", p, fpad);
        const char *s=glue_title(vt);
        if (title!=(s? s : "") && !oom) return sfmt("the title is \"%s\", the events say \"%s\"", s? hexs(s, 40).c_str() : "", hexs(title, 40).c_str());
        return "";
    }
};
void Viewer::no(const char *f, ...)
{
    if (!bad.empty()) return;
    char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap);
    bad=b;
}
#define V ((Viewer*)a)
void Viewer::hook()
{
    ev.arg=this;
    ev.ch=[](void *a, int x, int y, u32 ch, u64 attr, int w) { V->on_char(x, y, ch, attr, w); };
    ev.comb=[](void *a, int x, int y, u32 ch) { V->on_comb(x, y, ch); };
    ev.cursor=[](void *a, int x, int y) { V->on_cursor(x, y); };
    ev.clear=[](void *a, int x, int y, int len) { V->on_clear(x, y, len); };
    ev.scroll=[](void *a, int nl, int s1, int s2) { V->on_scroll(nl, s1, s2); };
    ev.flag=[](void *a, int f, int v) { V->on_flag(f, v); };
    ev.osc=[](void *a, int cmd, const char *s) { V->on_osc(cmd, s); };
    ev.resize=[](void *a, int w, int h) { V->on_resize(w, h); };
    ev.flush=[](void *a) { V->flushes++; };
    ev.bell=[](void *a) { V->bells++; };
    ev.freed=[](void *a) { V->on_freed(); };
    glue_watch(vt, &ev);
}
#undef V
}
// small moves, wide characters and marks at the edges and on top of one another
str lively(u32 n, int cols, int rows)
{
    static const char *ch[]={"a", "b", "日", "本", "が", "e\xcc\x81", "日\xcc\x81", "\xcc\x82", "\xcc\x81\xcc\x82\xcc\x83\xcc\x84\xcc\x85", "x", "\t", "\b", "\r", "\n", "\x0b", "\x0c", "\eM", "\eD", "\eE", "\e7", "\e8", "\a", "\e=", "\e>", "\e[?25l", "\e[?25h", "\e[?7l", "\e[?7h", "\e[c", "\e]0;t\a", "\e]2;u\e\\", "\e]0;unended", "\e]4;1;x\x18", "\e[m", "\e[31m", "\e[44;1m", "\e[r", "\e(0", "\e(B", "\xe2\x80\x8b", "\x0e", "\x0f"};
    static const char fin[]="@PXKJLMABCDEFGHdfrm`at";
    str s;
    while (s.size()<n)
        switch (choose(W, 25)? choose(W, 4) : 4)
        {
        case 4: { int fg=choose(W, 2)? 38 : 48; if (choose(W, 2)) s+=sfmt("\e[%d;2;%d;%d;%dm", fg, (int)choose(W, 256), (int)choose(W, 256), (int)choose(W, 256)); else if (choose(W, 2)) s+=sfmt("\e[%d;5;%dm", fg, (int)choose(W, 256)); else s+=sfmt("\e[%d;%d;%dm", (int)choose(W, 10), 30+(int)choose(W, 20), 90+(int)choose(W, 18)); break; }
        case 0: case 1: { const char *x=ch[choose(W, sizeof(ch)/sizeof(*ch))]; for (u32 k=1+(choose(W, 4)? 0 : logsize(W, 40));k--;) s+=x; break; }
        case 2:
        {
            char f=fin[choose(W, sizeof(fin)-1)];
            if (f=='t') { if (choose(W, 3)==0) s+=sfmt("\e[8;%d;%dt", (int)choose(W, rows+4), (int)choose(W, cols+4)); break; }
            s+="\e["; int np= choose(W, 3)? 1 : choose(W, 3);
            for (int i=0;i<np;i++) { if (i) s+=';'; s+=std::to_string(choose(W, 8)? choose(W, (f=='J' || f=='K'? 2 : std::max(cols, rows))+2) : logsize(W, 2000000000)); }
            s+=f;
            break;
        }
        case 3: s+=sfmt("\e[%d;%dH", 1+(int)choose(W, rows), choose(W, 3)? 1+(int)choose(W, cols) : cols-(int)choose(W, std::min(cols, 3))); break;
        }
    return s;
}
static str watched(int no, str data, int cols, int rows, bool fixed, u32 most, bool threads, bool oom)
{
    i64 mem=faults.malloc_live;
    tty vt=tty_init(cols, rows, !fixed);
    if (!vt) return "no terminal";
    std::vector<std::unique_ptr<Viewer>> old; auto v=std::make_unique<Viewer>();
    Strings want; std::vector<Strings> wants; std::vector<tty> others;
    size_t at=0, ahead= choose(N, 3)? 0 : choose(N, data.size()+1);
    if (ahead) { str d=data.substr(0, ahead); tty_write(vt, d.data(), d.size()); at=ahead; want.feed(d); want.bells=0; want.osc.clear(); }
    v->attach(vt);
    v->oom=oom;
    str bad;
    int flushes=0;
    auto check=[&](Viewer &u, Strings &w) -> str {
        if (!u.bad.empty()) return u.bad;
        str e=u.compare(); if (!e.empty()) return e;
        if (u.bells!=w.bells) return sfmt("%d bells told of %d", u.bells, w.bells);
        if (u.osc.size()!=w.osc.size()) return sfmt("%zu string commands told of %zu", u.osc.size(), w.osc.size());
        for (size_t i=0;i<w.osc.size();i++) if (u.osc[i]!=w.osc[i] && !(oom && u.osc[i].first==w.osc[i].first && u.osc[i].second.empty())) return sfmt("string command %u \"%s\" told as %u \"%s\"", w.osc[i].first, hexs(w.osc[i].second, 60).c_str(), u.osc[i].first, hexs(u.osc[i].second, 60).c_str());
        return "";
    };
    while (at<data.size() && bad.empty())
    {
        size_t k=1+choose(N, most); if (k>data.size()-at) k=data.size()-at;
        str piece=data.substr(at, k);
        flushes++;
        if (choose(N, 8)==0 && piece.find('\0')==str::npos && !oom) tty_printf(vt, "%s", piece.c_str()); else tty_write(vt, piece.data(), k);
        at+=k; want.feed(piece);
        bad=check(*v, want);
        if (bad.empty() && v->flushes!=flushes) bad=sfmt("%d chunks flushed of %d", v->flushes, flushes);
        if (!bad.empty()) { bad=sfmt("after %zu of %zu bytes: ", at, data.size())+bad+sfmt(" (after %s)", hexs(data.substr(at>60? at-60 : 0, std::min(at, (size_t)60)), 60).c_str()); break; }
        if (choose(N, 30)==0) // the program's own doing
        {
            if (choose(N, 3)) { int w=2+choose(N, cols+3), h=1+choose(N, rows+3), rx, ry, a, b; int m=v->flushes, r=v->resized; tty_resize(vt, w, h); glue_size(vt, &rx, &ry, &a, &b); if (v->resized==r) v->resize(rx, ry); if (v->flushes!=m) bad="resizing flushed"; if (!oom && (rx!=w || ry!=h)) bad="not resized"; }
            else
            {
                tty_reset(vt); want.st=Strings::N;
                v->cx=v->cy=0; v->fcur=1; v->fpad=0; for (auto &x : v->c) x=Cell();
            }
            str e=v->compare(); if (bad.empty() && !e.empty()) bad="after a resize or reset by the program, "+e;
        }
        if (choose(N, 40)==0 && old.size()<4)
        {
            tty c=tty_copy(vt);
            if (!c) { if (!oom) bad="copying failed"; continue; }
            if (!glue_nohooks(c)) { bad="a copy has the original's events"; break; }
            auto u=std::make_unique<Viewer>(); u->attach(c); u->oom=oom; Strings w=want; w.bells=0; w.osc.clear();
            if (choose(N, 2)) { std::swap(c, vt); std::swap(u, v); std::swap(w, want); flushes=0; }
            others.push_back(c); old.push_back(std::move(u)); wants.push_back(w);
        }
        if (threads) sim::yield_point();
    }
    for (size_t i=0;i<others.size();i++)
    {
        str e=check(*old[i], wants[i]);
        if (bad.empty() && !e.empty()) bad="a terminal nobody wrote to since: "+e;
        tty_free(others[i]);
        if (bad.empty() && old[i]->freed!=1) bad=sfmt("destroying told %d times", old[i]->freed);
        if (bad.empty()) bad=old[i]->bad;
    }
    tty_free(vt);
    if (bad.empty() && v->freed!=1) bad=sfmt("destroying told %d times", v->freed);
    if (bad.empty()) bad=v->bad;
    if (bad.empty() && !threads && faults.malloc_live>mem+3000) bad=sfmt("%lld bytes are still allocated", (long long)(faults.malloc_live-mem));
    return bad;
}
WORKLOAD(C28, c28_events, 4)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config();
    int n= choose(W, 4)? 1 : 2+choose(W, 3);
    bool oom= n==1 && choose(F, 4)==0;
    if (n>1) { static const u32 bg[]={3000, 300, 1000, 100}; cfg.bb_gap=bg[choose(S, 4)]; }
    struct T { str data; int cols, rows; bool fixed; u32 most; str bad; };
    std::vector<T> t(n);
    for (auto &x : t)
    {
        bool small=choose(W, 3);
        x.cols= small? 1+choose(W, 14) : choose(W, 2)? 1+choose(W, 150) : 80; x.rows= small? 1+choose(W, 7) : choose(W, 2)? 1+choose(W, 60) : 25;
        x.fixed=choose(W, 5)==0;
        u32 size= n>1? 600 : choose(W, 5)? 1500 : 12000;
        x.data= choose(W, 3)? lively(1+logsize(W, size), x.cols, x.rows) : stuff(1+logsize(W, size));
        if (choose(W, 4)==0) x.data+=lively(1+logsize(W, 300), x.cols, x.rows);
        if (choose(W, 6)==0) x.data.insert(0, "\e%@");
        x.most=1+logsize(N, choose(N, 2)? 8 : choose(N, 4)? 400 : 40000);
        describe("%zu bytes on %dx%d in pieces of up to %u; ", x.data.size(), x.cols, x.rows, x.most);
    }
    if (oom) faults.fail_malloc=1+logsize(F, 60), faults.fail_malloc_span= choose(F, 3)? 1 : 1+logsize(F, 50), describe("allocation %u fails", faults.fail_malloc);
    int left=n;
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        if (oom) { faults.n_malloc=1; faults.malloc_armed=true; }
        if (n==1) t[0].bad=watched(0, t[0].data, t[0].cols, t[0].rows, t[0].fixed, t[0].most, false, oom);
        else
        {
            for (int i=0;i<n;i++) spawn_thread(p, sfmt("terminal %d", i), [&,i]{ T &x=t[i]; x.bad=watched(i, x.data, x.cols, x.rows, x.fixed, x.most, true, false); left--; touch(); });
            wait_for([&]{ return !left; }, "terminals");
        }
        faults.malloc_armed=false;
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "watching a terminal");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    for (int i=0;i<n;i++) if (!t[i].bad.empty() && !(oom && t[i].bad=="no terminal")) fail("events", "%s", t[i].bad.c_str());
}

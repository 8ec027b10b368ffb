// C27: running out of memory is survived, and reported where there is a way to report it
#include "rec.h"
#include "sess.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <algorithm>

static str screen(tty vt) { size_t n; char *s=glue_screen(vt, &n); str r(s, n); free(s); return r; }
// without what takes memory: marks and the title
static str bare(const str &s)
{
    str r; size_t t=s.find(" title "), e=s.find('\n'); bool skip=false;
    size_t f=s.rfind(" flags ", e);
    for (size_t i=0;i<s.size();i++)
    {
        if (i>=t && i<f) continue;
        if (i>e && s[i]=='+') skip=true;
        if (s[i]==' ' || s[i]=='\n') skip=false;
        if (!skip) r+=s[i];
    }
    return r;
}
namespace {
// memory runs out during one operation: at a drawn allocation, for a drawn number of them
struct Oom
{
    bool on;
    Oom(u32 den, u32 most=3)
    {
        on= chance(F, 1, den);
        faults.n_malloc=0; faults.fail_malloc= on? 1+logsize(F, most)-(choose(F, 2)? 1 : 0) : 0; if (on && !faults.fail_malloc) faults.fail_malloc=1;
        faults.fail_malloc_span= choose(F, 3)? 1 : 1+logsize(F, 20);
        faults.malloc_armed=on;
    }
    bool hit() const { return on && faults.n_malloc>=faults.fail_malloc; }
    void off() { faults.malloc_armed=false; }
    ~Oom() { off(); }
};
}
static str dif(const str &got, const str &want)
{
    size_t d=first_diff(want, got), row=0; for (size_t i=0;i<d && i<want.size();i++) row+= want[i]=='\n';
    return sfmt("line %zu of the screen: \"%s\" instead of \"%s\"", row, got.substr(d>20? d-20 : 0, 60).c_str(), want.substr(d>20? d-20 : 0, 60).c_str());
}
WORKLOAD(C27, c27_terminal, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(false);
    int n=3+choose(W, 20); u32 den=1+choose(F, 3);
    describe("%d operations on terminals", n);
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        i64 mem=faults.malloc_live;
        struct T { tty vt, ref; bool exact, size; };    // ref: the same without faults; exact: equal; size: at least the size is
        std::vector<T> ts;
        auto check=[&](T &t, const char *what) {
            str g=screen(t.vt), w=screen(t.ref);
            if (t.exact) { if (g!=w) fail("screen", "%s, memory was there: %s", what, dif(g, w).c_str()); }
            else if (t.size) { if (bare(g)!=bare(w)) fail("screen", "%s, memory ran out; apart from marks and titles: %s", what, dif(bare(g), bare(w)).c_str()); }
        };
        for (int i=0;i<n;i++)
        {
            int op= ts.empty()? 0 : choose(W, 8);
            T *t= ts.empty()? 0 : &ts[choose(W, ts.size())];
            switch (op)
            {
            case 0:
            {
                if (ts.size()>3) break;
                int c= choose(W, 3)? 1+choose(W, 130) : 80, r= choose(W, 3)? 1+choose(W, 50) : 25; bool rs=choose(W, 4);
                T x; { Oom o(den); x.vt=tty_init(c, r, rs); if (!x.vt && !o.hit()) fail("refused", "tty_init fails with memory available"); }
                if (!x.vt) { probe("terminal refused"); break; }
                x.ref=tty_init(c, r, rs); x.exact=x.size=true;
                check(x, "a new terminal");
                ts.push_back(x);
                break;
            }
            case 1: case 2: case 3: case 4:
            {
                str d=show(1+logsize(W, 3000), choose(W, 3)==0);
                for (int k=choose(W, 40);k--;) d.insert(choose(W, d.size()+1), pick(W, std::vector<str>{"o\xcc\x88", "e\xcc\x81\xcc\x82\xcc\x83", "\e]0;another title\e\\", "\e]2;x", "\xcc\x88"}));
                bool rs=d.find("\e[8;")!=str::npos;
                int s1x, s1y, s2x, s2y, q;
                { Oom o(den, 12); tty_write(t->vt, d.data(), d.size()); if (o.hit()) t->exact=false, t->size=t->size && !rs, probe("memory ran out while writing"); }
                tty_write(t->ref, d.data(), d.size());
                glue_size(t->vt, &s1x, &s1y, &q, &q); glue_size(t->ref, &s2x, &s2y, &q, &q); (void)s1x; (void)s1y;
                check(*t, "after writing");
                break;
            }
            case 5:
            {
                int c=1+choose(W, 130), r=1+choose(W, 50), a, b, q; str was=screen(t->vt);
                bool hit; { Oom o(den); tty_resize(t->vt, c, r); hit=o.hit(); }
                glue_size(t->vt, &a, &b, &q, &q);
                if (a==c && b==r) { tty_resize(t->ref, c, r); check(*t, "after resizing"); }
                else if (!hit) fail("refused", "the terminal was not resized though memory was available");
                else { probe("terminal not resized"); str now_=screen(t->vt); if (now_!=was) fail("screen", "a resize that failed has changed the terminal: %s", dif(now_, was).c_str()); }
                break;
            }
            case 6:
            {
                tty c; { Oom o(den); c=tty_copy(t->vt); if (!c && !o.hit()) fail("refused", "tty_copy fails with memory available"); }
                if (!c) { probe("copy refused"); break; }
                str a=screen(c), b=screen(t->vt);
                if (a!=b) fail("copy", "a copy that was made differs: %s", dif(a, b).c_str());
                // and it continues the same
                str d=show(1+logsize(W, 200), false);
                tty_write(c, d.data(), d.size());
                tty o=tty_copy(t->vt); tty_write(o, d.data(), d.size());
                a=screen(c); b=screen(o);
                if (a!=b) fail("copy", "a copy that was made goes on differently: %s", dif(a, b).c_str());
                tty_free(o); tty_free(c);
                break;
            }
            case 7:
            {
                str d(choose(W, 4)? 100+choose(W, 1000) : 16000+choose(W, 3000), 'a'+choose(W, 26));
                bool hit; str before=screen(t->vt);
                { Oom o(den); tty_printf(t->vt, "%s\r\n", d.c_str()); hit=o.hit(); }
                d+="\r\n";
                if (hit && screen(t->vt)==before) { probe("not printed"); break; }
                tty_write(t->ref, d.data(), d.size());
                check(*t, "after printing");
                break;
            }
            }
        }
        // with memory again, everything works
        for (auto &t : ts)
        {
            int c=1+choose(W, 100), r=1+choose(W, 40);
            str d="\e\\\e\\\e[c\e%G\e]0;back\e\\"+show(1+logsize(W, 500), false);
            tty_resize(t.vt, c, r); tty_resize(t.ref, c, r);
            tty_write(t.vt, d.data(), d.size()); tty_write(t.ref, d.data(), d.size());
            str a=screen(t.vt), b=screen(t.ref);
            // a sequence cut off by the lack of memory swallows nothing
            if (a!=b) fail("recovery", "with memory again, a reset terminal differs: %s", dif(a, b).c_str());
            tty_free(t.vt); tty_free(t.ref);
        }
        if (faults.malloc_live>mem+200) fail("leak", "%lld bytes are still allocated after freeing everything", (long long)(faults.malloc_live-mem));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "using terminals");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
}
static struct timeval TVo(i64 t) { struct timeval tv; tv.tv_sec=t/1000000; tv.tv_usec=t%1000000; return tv; }
WORKLOAD(C27, c27_timeline, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(false);
    struct Fr { i64 t; str d; };
    int n=1+logsize(W, 40); u32 den=1+choose(F, 4); bool big=choose(W, 10)==0;
    describe("%d frames", n);
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        i64 mem=faults.malloc_live;
        ttyrec tr; { tty iv=choose(W, 2)? tty_init(80, 25, 1) : 0; Oom o(den, 6); tr=ttyrec_init(iv); if (!tr && !o.hit()) fail("refused", "ttyrec_init fails with memory available"); }
        if (!tr)
        {
            probe("timeline refused");
            if (faults.malloc_live>mem+200) fail("leak", "%lld bytes are still allocated after ttyrec_init has failed", (long long)(faults.malloc_live-mem));
            return 0;
        }
        std::vector<Fr> fr; i64 t=0; tty vt=0;
        ttyrec_frame head, last;
        { struct timeval z={-1000000, 0}; head=last=ttyrec_seek(tr, &z, 0); }
        for (int i=0;i<n;i++)
        {
            i64 d=logsize(W, 4000000); struct timeval tv=TVo(d);
            str s; u32 k= big && choose(W, 3)==0? 30000+choose(W, 60000) : 1+logsize(W, 500);
            while (s.size()<k) s+=pick(W, std::vector<str>{"hello ", "\r\n", "\e[1;31m", "\e[0m", "\xe6\x97\xa5", "\e[H", "\e[2J", "\e[5;10H", "\e[K", "abcdefghijklmnopqrstuvwxyz\e[3;7H0123456789 0123456789 0123456789 0123456789\r\n"});
            bool hit; { Oom o(den, 4); str c=s; ttyrec_add_frame(tr, &tv, c.data(), c.size()); hit=o.hit(); }
            t+=d;
            ttyrec_frame f=ttyrec_next_frame(tr, last);
            if (f)
            {
                if (f->len!=(int)s.size() || memcmp(f->data, s.data(), s.size())) fail("frame", "a frame that was added holds other data");
                if (f->t.tv_sec*1000000LL+f->t.tv_usec!=t) fail("frame", "a frame is at %s s instead of %s s", tvs(f->t.tv_sec*1000000LL+f->t.tv_usec).c_str(), tvs(t).c_str());
                fr.push_back({t, s}); last=f;
            }
            else if (!hit) fail("refused", "a frame was not added though memory was available");
            else probe("frame refused");
            if (chance(W, 1, 4) || i==n-1)
            {
                i64 at= choose(W, 2)? (i64)choose(W, t+2) : t; struct timeval q=TVo(at);
                ttyrec_frame g; { Oom o(den, 4); g=ttyrec_seek(tr, &q, &vt); if (!g && !o.hit()) fail("refused", "seeking fails with memory available"); }
                if (!g)
                {
                    probe("seek refused");
                    g=ttyrec_seek(tr, &q, &vt);
                    if (!g) fail("refused", "seeking fails with memory available again");
                }
                size_t m=0; while (m<fr.size() && fr[m].t<=at) m++;
                tty a=tty_init(80, 25, 1); for (size_t j=0;j<m;j++) tty_write(a, fr[j].d.data(), fr[j].d.size());
                str x=screen(vt), y=screen(a); tty_free(a);
                if (x!=y) fail("screen", "seeking to %s s: %s", tvs(at).c_str(), dif(x, y).c_str());
                if (m? g->len!=(int)fr[m-1].d.size() : g!=head) fail("frame", "seeking to %s s gave a wrong frame", tvs(at).c_str());
            }
        }
        static const char *ext[]={"s.ttyrec", "s.cast", "s.cast-v1", "s.nh", "s.txt"};
        int k=choose(W, 5); int ok; bool hit;
        { Oom o(den, 4); ok=ttyrec_save(tr, -1, 0, ext[k], 0, 0); hit=o.hit(); }
        if (!ok && !hit) fail("refused", "saving fails with memory available");
        if (!ok) probe("save refused");
        if (ok)
        {
            str raw=fs_get(ext[k]), all; for (auto &x : fr) all+=x.d;
            Rec r; if (k==0) dec_ttyrec(raw, r); else if (k==3) dec_nh(raw, r); else if (k==4) r.ev.push_back({0, raw}); else dec_cast(raw, r);
            if (r.bad || cat_data(r.ev)!=all) fail("incomplete", "%s was saved, but has %zu bytes of data instead of %zu %s", ext[k], cat_data(r.ev).size(), all.size(), r.why.c_str());
        }
        tty_free(vt); ttyrec_free(tr);
        wait_no_fds(p, "after everything was freed");
        if (faults.malloc_live>mem+200) fail("leak", "%lld bytes are still allocated after freeing everything", (long long)(faults.malloc_live-mem));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "using a timeline");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
}
static GenOpt small_opt(Fmt f) { GenOpt o=opt_for(f); o.big=false; o.empty=false; o.maxev=12; o.maxdata=600; return o; }
WORKLOAD(C27, c27_record, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI, F_LIVE});
    static const char *ext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"};
    static const char *fn[]={"ansi", "ttyrec", "nh_recorder", "asciicast-v1", "asciicast", 0, "live"};
    str name= str("rec")+(f==F_LIVE? "" : ext[f==F_CAST1? 3 : f==F_CAST2? 4 : f==F_NH? 2 : f==F_TTYREC? 1 : 0]);
    bool given=choose(W, 2);
    GenOpt o=small_opt(f==F_LIVE? F_ANSI : f); auto ev=gen_events(o);
    if (f==F_CAST1 || f==F_CAST2)
    {   // characters divided between pieces
        std::vector<Ev> e2; str carry;
        for (auto &e : ev) { str d=carry+e.d; carry=""; size_t cut=d.size(); if (cut>3 && choose(W, 2)) while (cut>1 && choose(W, 2)) cut--; carry=d.substr(cut); d.resize(cut); e2.push_back({e.t, d}); }
        if (!carry.empty()) e2.push_back({e2.back().t, carry});
        ev=e2;
    }
    u32 den=1+choose(F, 5);
    describe("%zu pieces to %s", ev.size(), name.c_str());
    i64 start= 1234567890LL*1000000;
    str acked; bool failed=false; std::vector<str> after; bool opened=false, closed=false; bool hit_close=false;
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        i64 mem=faults.malloc_live;
        struct timeval tv=TVo(start);
        recorder r; { Oom q(den, 4); r=ttyrec_w_open(-1, given? fn[f] : 0, name.c_str(), &tv); if (!r && !q.hit()) fail("refused", "ttyrec_w_open fails with memory available"); }
        opened=r;
        if (!r) probe("recorder refused");
        if (r)
        {
            for (auto &e : ev)
            {
                tv=TVo(start+e.t);
                Oom q(den);
                str c=e.d;
                int ok=ttyrec_w_write(r, &tv, c.data(), c.size());
                if (!ok && !failed && !q.hit()) fail("refused", "ttyrec_w_write fails with memory available");
                if (!ok) failed=true;
                else if (failed) fail("gap", "after a failed write, another one succeeded");
                if (!failed) acked+=e.d; else after.push_back(e.d);
            }
            Oom q(den);
            closed=ttyrec_w_close(r); hit_close=q.hit();
        }
        wait_no_fds(p, "after closing");
        if (faults.malloc_live>mem) fail("leak", "%lld bytes are still allocated after closing", (long long)(faults.malloc_live-mem));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "recording");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!opened) return;
    if (failed) probe("write refused");
    str all=cat_data(ev), raw=fs_has(name)? fs_get(name) : str();
    if (!closed && !failed && !hit_close) fail("refused", "closing fails with memory available");
    Rec r; if (f==F_TTYREC) dec_ttyrec(raw, r); else if (f==F_NH) dec_nh(raw, r); else if (f==F_ANSI || f==F_LIVE) r.ev.push_back({0, raw}); else dec_cast(raw, r);
    str got=cat_data(r.ev);
    int rows, cols, k=0;
    if ((f==F_CAST1 || f==F_CAST2) && sscanf(all.c_str(), "\e%%G\e[8;%d;%dt%n", &rows, &cols, &k)==2 && k) all.erase(0, k), acked.erase(0, std::min((size_t)k, acked.size()));
    if (!failed && closed)
    {
        if (r.bad || got!=all) fail("incomplete", "everything was written and closed successfully, but the recording has %zu bytes of %zu %s", got.size(), all.size(), r.why.c_str());
        return;
    }
    if (r.bad) return;
    if (!is_prefix(got, all)) fail("gap", "the recording is no prefix of what was written; it differs at %zu of %zu", first_diff(got, all), got.size());
    if (closed && got.size()+4<acked.size()) fail("lost", "%zu bytes were written successfully, only %zu are there", acked.size(), got.size());
}
namespace { struct Pl { str data; i64 t=0; }; }
static void p_init(const struct timeval *, void *) {}
static void p_wait(const struct timeval *d, void *a) { ((Pl*)a)->t+=d->tv_sec*1000000LL+d->tv_usec; }
static void p_print(const char *b, int n, void *a) { ((Pl*)a)->data.append(b, n); }
WORKLOAD(C27, c27_read, 2)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_ANSI, F_NH, F_CAST1, F_CAST2});
    auto ev=gen_events(small_opt(f));
    Encoded en=encode_as(f, ev, 1234567890LL*1000000, 80, 25, choose(W, 2));
    Comp c= choose(W, 2)? (Comp)choose(W, 5) : C_NONE;
    int how=choose(W, c? 2 : 4); bool load=choose(W, 2);
    describe("%s %s%s", load? "loading" : "playing", fmt_name[f], comp_ext[c]);
    Proc *p=mkproc("program");
    bool ok=false, hit=false; Pl pl; str all=cat_data(en.want), got;
    start_main(p, [&]() -> int {
        i64 mem=faults.malloc_live;
        Delivery d=deliver(p, str("play")+fmt_ext[f], compress(c, en.raw), c, how, "src");
        {
            Oom o(1, load? 30 : 8);
            if (!load) ok=ttyrec_r_play(d.fd, 0, d.name.c_str(), p_init, p_wait, p_print, &pl);
            else
            {
                ttyrec tr=ttyrec_load(d.fd, 0, d.name.c_str(), choose(W, 2)? tty_init(80, 25, 1) : 0);
                hit=o.hit(); o.off();
                ok=tr;
                if (tr)
                {
                    ttyrec_frame g=ttyrec_seek(tr, 0, 0);
                    for (;g;g=ttyrec_next_frame(tr, g)) if (g->len) pl.data.append(g->data, g->len);
                    ttyrec_free(tr);
                }
            }
            if (!hit) hit=o.hit();
        }
        wait_no_fds(p, "afterwards");
        // the stream's thread frees its things after closing
        for (int i=0;i<200 && faults.malloc_live>mem+200;i++) sleep_us(1000);
        if (faults.malloc_live>mem+200) fail("leak", "%lld bytes are still allocated afterwards", (long long)(faults.malloc_live-mem));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, load? "loading" : "playing");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!ok) { if (!hit) fail("refused", "fails with memory available"); probe("refused"); return; }
    if (pl.data==all) { if (hit) probe("memory ran out, everything is there"); return; }
    if (!hit) fail("data", "%zu bytes instead of %zu, differing from %zu on", pl.data.size(), all.size(), first_diff(pl.data, all));
    if (c==C_NONE) fail("incomplete", "it was claimed successful, but there are %zu bytes instead of %zu, differing from %zu on", pl.data.size(), all.size(), first_diff(pl.data, all));
    probe("a decompressor without memory");     // input that ends early, perhaps with a message
    if (pl.data.size()>200 && first_diff(pl.data, all)<pl.data.size()-200) fail("garbled", "what was read before memory ran out is wrong from %zu of %zu on", first_diff(pl.data, all), pl.data.size());
}
WORKLOAD(C27, c27_tools, 2)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    int n=1+choose(W, 3); bool tm=choose(W, 4)==0;
    std::vector<str> av={tm? "termtime" : "termcat"}; str ds;
    for (int i=0;i<n;i++)
    {
        Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_NH, F_CAST1, F_CAST2, F_ANSI});
        GenOpt o=small_opt(f); o.utf8=true; o.nul=false;
        str nm=sfmt("in%d%s", i, fmt_ext[f]);
        fs_put(nm, encode_as(f, gen_events(o), 1234567890LL*1000000, 80, 25, choose(W, 2)).raw);
        av.push_back(nm); ds+=nm+" ";
    }
    str out;
    if (!tm) { out=pick(W, std::vector<str>{"-", "out.ttyrec", "out.cast", "out.nh", "out.cast-v1", "out.txt"}); av.push_back(out); }
    describe("%s %s%s", av[0].c_str(), ds.c_str(), out.c_str());
    str o[2], e[2]; int code[2]; bool hit=false;
    for (int k=0;k<2;k++)
    {
        if (k && !out.empty() && out!="-") out="again"+out.substr(3), av.back()=out;
        auto co=capture("stdout"), ce=capture("stderr");
        Proc *p=mkproc(av[0], open_null(), co->w, ce->w);
        co->w=nullptr; ce->w=nullptr;
        if (k) { faults.n_malloc=0; faults.fail_malloc=1+logsize(F, 40); faults.fail_malloc_span= choose(F, 3)? 1 : 1+logsize(F, 50); faults.malloc_armed=true; }
        start_main(p, [&]() -> int { return run_args(tm? termtime_main : termcat_main, av); });
        Stop st=run_proc(p, 1000000*1000000LL);
        if (k) hit=faults.n_malloc>=faults.fail_malloc, faults.malloc_armed=false;
        expect_end(p, st, av[0].c_str());
        settle();
        if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
        o[k]= out.empty() || out=="-"? co->data : fs_has(out)? fs_get(out) : str();
        e[k]=ce->data; code[k]=p->code;
    }
    nontrivial();
    if (code[0] || !e[0].empty()) fail("status", "with memory available: status %d, \"%s\"", code[0], hexs(e[0], 200).c_str());
    if (code[1] || !e[1].empty()) { if (!hit) fail("status", "memory was available, status %d, \"%s\"", code[1], hexs(e[1], 200).c_str()); probe("the lack of memory reported"); return; }
    if (o[0]!=o[1]) fail("incomplete", "memory ran out; status 0 and no message, but the output differs from %zu on: %zu bytes instead of %zu", first_diff(o[1], o[0]), o[1].size(), o[0].size());
    if (hit) probe("memory ran out, everything is there");
}
WORKLOAD(C27, c27_termrec, 2)
{
    draw_sched_config(); draw_jitter(); cfg.max_bbs=3000000000ULL;
    Sess s; SessOpt o; o.eof=false; o.small=true; o.signals=choose(W, 4)==0; o.comp=false;
    s.plan(o);
    faults.fail_malloc=1+logsize(F, 60); faults.fail_malloc_span= choose(F, 3)? 1 : 1+logsize(F, 50); faults.malloc_armed=true;
    describe("; memory runs out at allocation %u, %u times", faults.fail_malloc, faults.fail_malloc_span);
    struct termios before=s.tty->tio;
    s.start();
    Stop st=run_proc(s.p, 400LL*3600*1000000);
    bool hit=faults.n_malloc>=faults.fail_malloc; faults.malloc_armed=false;
    expect_end(s.p, st, "the recorder");
    s.tend=now;
    run([&]{ return !s.tty->out->avail(); }, now+3600*1000000LL);
    settle();
    if (s.p->killed) fail("KILLED", "the recorder was killed by signal %d", s.p->killed);
    nontrivial();
    if (!s.tty->hup && memcmp(&before, &s.tty->tio, sizeof(before))) fail("terminal", "the terminal's settings have been left changed");
    bool told=s.p->code!=0;
    if (told)
    {
        if (!hit) fail("status", "memory was available, exit status %d", s.p->code);
        if (s.err->data.empty()) fail("silent", "termrec failed with status %d without a word", s.p->code);
        probe("the lack of memory reported");
        return;
    }
    str why;
    if (!fs_has(s.path)) why="there is no file";
    else
    {
        str file=fs_get(s.path), pre=s.old.empty()? str() : compress(s.comp, s.old);
        if (!is_prefix(pre, file)) why="the old contents are gone";
        else
        {
            Recorded r=decode_session(s.f, s.comp, file.substr(pre.size()), s.raw);
            if (!r.ok) why=r.why;
            else if (r.data!=s.emitted) why=sfmt("%zu bytes of data instead of %zu", r.data.size(), s.emitted.size());
        }
    }
    if (!why.empty()) fail("incomplete", "status 0%s, but %s", hit? " although memory had run out" : "", why.c_str());
    if (hit) probe("memory ran out, everything is there");
}

// C04: a storage failure is never reported as success; C19: unnamed recordings
#include "sess.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <signal.h>
#include <algorithm>

// ---------------------------------------------------------------- C04
namespace {
struct Watch                    // what happened to the storage, and whether the compressor went on regardless
{
    bool real=false, part=false; std::vector<std::pair<Ch,u64>> at;
    void arm(Proc *p)
    {
        on_storage_fault=[this,p](bool r)
        {
            if (real) return;
            (r? real : part)=true;
            at.clear();
            for (auto &o : p->fds) if (o && o->kind==K_PIPE && !o->isw && o->rd) at.push_back({o->rd, o->rd->total-o->rd->avail()});
        };
    }
    bool went_on() const { for (auto &x : at) if (x.first->total-x.first->avail()>x.second) return true; return false; }
};
}
static str plan_faults(i64 size, bool comp)
{
    str d;
    i64 have=0; for (auto &x : fs) have+=x.second->data.size();
    switch (choose(F, 6))
    {
    case 0: return "no fault";
    case 1: case 2: faults.disk_cap=have+(choose(F, 2)? (i64)logsize(F, size+20) : (i64)choose(F, size+20)); d=sfmt("room for %lld bytes", (long long)(faults.disk_cap-have)); break;
    case 3:
        faults.write_fail_at=1+(choose(F, 2)? logsize(F, 3+size/ (comp? 5000 : cfg.stdio_buf)) : 0); faults.write_errno=choose(F, 2)? ENOSPC : EIO;
        faults.write_short= !comp && choose(F, 2); faults.write_fail_sticky=choose(F, 2);
        d=sfmt("write %lld fails%s", (long long)faults.write_fail_at, faults.write_fail_sticky? " and all later ones" : "");
        break;
    case 4: faults.fail_close=true; d="close fails"; break;
    case 5: faults.fail_open= choose(F, 3)==0? ENOSPC : choose(F, 2)? EACCES : EROFS; d="cannot be opened"; break;
    }
    if (faults.disk_cap>=0 && choose(F, 3)==0) faults.fail_span=300000+logsize(F, 20000000), d+=", recovers";
    if (!comp && choose(F, 4)==0) faults.short_write_den=2+choose(F, 6);
    return d;
}
// told: a failure was reported
static void judge(Watch &w, bool told, Comp c, bool complete, const char *who, const str &why)
{
    if (w.real) nontrivial();
    if (told)
    {
        if (!w.real && !(w.part && c)) fail("spurious", "%s reported a failure though nothing failed", who);
        return;
    }
    if (w.real)
    {
        if (c && !w.went_on()) fail("compressed-late", "the compressed file could not be stored, %s reported no failure (%s)", who, complete? "complete" : why.c_str());
        fail("unreported", "storing failed, %s reported no failure (%s)", who, complete? "complete" : why.c_str());
    }
    if (complete) return;
    if (w.part && c && !w.went_on()) fail("compressed-late", "the compressed file could not be stored, %s reported no failure (%s)", who, why.c_str());
    fail("incomplete", "%s reported no failure, the file is incomplete: %s", who, why.c_str());
}
static bool decode_all(Fmt f, Comp c, const str &file, str &data, str &why)
{
    str raw;
    if (decompress(c, file, raw)!=D_OK) { why="not a complete compressed file"; return false; }
    Rec r;
    switch (f)
    {
    case F_ANSI: data=raw; return true;
    case F_TTYREC: dec_ttyrec(raw, r); break;
    case F_NH: dec_nh(raw, r); break;
    default: dec_cast(raw, r);
    }
    if (r.bad) { why=r.why; return false; }
    data=cat_data(r.ev);
    return true;
}
static bool is_complete(Fmt f, Comp c, const str &name, const str &want, str &why)
{
    str got;
    if (!fs_has(name)) { why="there is no file"; return false; }
    if (!decode_all(f, c, fs_get(name), got, why)) return false;
    if (got!=want) { why=sfmt("%zu bytes of data instead of %zu", got.size(), want.size()); return false; }
    return true;
}
static void add_noise(std::vector<Ev> &ev, bool cast, bool nonul)       // something a compressor has to pass on at once
{
    int n=1+choose(W, 8);
    for (int i=0;i<n;i++)
    {
        u32 b=choose(W, 1<<20)*2+1, k=1+logsize(W, 100000); str d;
        d.resize(k); for (u32 j=0;j<k;j++) { b=b*1664525u+1013904223u; d[j]= cast? '#'+(b>>24)%60 : (char)(b>>24); if (!d[j] && nonul) d[j]='0'; }
        ev.push_back({ev.back().t, d});
    }
}
// more than a compressor holds back: even bzip2 has to store some of it before the end
static void add_lots(std::vector<Ev> &ev, bool cast, bool nonul)
{
    u32 total=1000000+choose(W, 2500000), b=choose(W, 1<<20)*2+1;
    while (total)
    {
        u32 k=1+choose(W, 200000); if (k>total) k=total;
        total-=k;
        str d; d.resize(k); for (auto &x : d) { b=b*1664525u+1013904223u; x= cast? '#'+(b>>24)%60 : (char)(b>>24); if (!x && nonul) x='0'; }
        ev.push_back({ev.back().t, d});
    }
}
static const char *wext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"}, *wname[]={"ansi", "ttyrec", "nh_recorder", "asciicast-v1", "asciicast"};
static void sched04()
{
    draw_sched_config(); draw_jitter();
    cfg.max_bbs=3000000000ULL;
    static const u32 sb[]={4096, 64, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 4)];
    if (choose(N, 3)==0) cfg.pipe_cap=4096;
}
WORKLOAD(C04, c04_library, 3)
{
    sched04();
    Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI});
    Comp c=choose(W, 3)==0? (Comp)choose(W, 5) : C_NONE;
    GenOpt o=opt_for(f); o.maxgap=100*1000000LL; auto ev=gen_events(o);
    if (c && chance(W, 1, 20)) { if (choose(W, 2)) c=C_BZ2; add_lots(ev, o.utf8, !o.nul); }
    else if (c && choose(W, 2)) add_noise(ev, o.utf8, !o.nul);
    str data=cat_data(ev), name=str("rec")+wext[f]+comp_ext[c];
    int how=choose(W, 4);           // by name, by URL, by descriptor, ttyrec_save
    if (how==3 && (f==F_ANSI)) how=0;
    bool sleepy=choose(W, 2);
    str fd=plan_faults(data.size()+12*ev.size(), c);
    describe("%s, %zu events, %zu bytes, %s; %s", name.c_str(), ev.size(), data.size(), how==3? "ttyrec_save" : how==2? "descriptor" : how==1? "URL" : "name", fd.c_str());
    Proc *p=mkproc("writer");
    bool nosig=choose(W, 3);
    if (nosig) p->sig[SIGPIPE].h=(void(*)(int))1;
    Watch w; w.arm(p);
    bool told=false; int wbad=0;
    start_main(p, [&]() -> int {
        str n=name; if (how==1) n="file://"+name;
        if (how==3)
        {
            ttyrec tr=ttyrec_init(tty_init(80, 25, 1));
            i64 last=0;
            for (auto &e : ev) { struct timeval d={ (e.t-last)/1000000, (e.t-last)%1000000 }; last=e.t; ttyrec_add_frame(tr, &d, e.d.data(), e.d.size()); }
            int r=ttyrec_save(tr, -1, wname[f], n.c_str(), 0, 0);
            ttyrec_free(tr);
            if (!r) told=true;
            return r? 0 : 1;
        }
        struct timeval tm={1234567890, 0};
        int h=-1;
        if (how==2) { h=open_stream(-1, n.c_str(), SM_WRITE, 0); if (h==-1) { told=true; return 1; } }
        recorder r=ttyrec_w_open(h, wname[f], n.c_str(), &tm);
        if (!r) { told=true; return 1; }
        for (auto &e : ev)
        {
            struct timeval t={tm.tv_sec+e.t/1000000, e.t%1000000};
            if (!ttyrec_w_write(r, &t, e.d.data(), e.d.size())) wbad++;
            if (sleepy && choose(N, 4)==0) sleep_us(logsize(N, 3000000));
        }
        bool ok=ttyrec_w_close(r);
        if (wbad && ok) fail("inconsistent", "%d writes reported a failure, closing did not", wbad);
        if (!ok) told=true;
        return ok? 0 : 1;
    });
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "a program writing a recording");
    if (p->killed)
    {
        if (p->killed!=SIGPIPE || nosig || !c) fail("KILLED", "killed by signal %d", p->killed);
        told=true;
    }
    str why; bool all=is_complete(f, c, name, data, why);
    judge(w, told, c, all, "the library", why);
}
WORKLOAD(C04, c04_termcat, 2)
{
    sched04();
    Fmt f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI});
    Comp c=choose(W, 3)==0? (Comp)choose(W, 5) : C_NONE;
    bool cast= f==F_CAST1 || f==F_CAST2;
    GenOpt o=opt_for(cast? F_CAST2 : f); o.nul= o.nul && f!=F_NH; auto ev=gen_events(o);
    if (c && chance(W, 1, 20)) { if (choose(W, 2)) c=C_BZ2; add_lots(ev, o.utf8, !o.nul); }
    else if (c && choose(W, 2)) add_noise(ev, o.utf8, !o.nul);
    for (auto &e : ev) for (size_t k;(k=e.d.find("\e[8;"))!=str::npos;) e.d[k]='?';
    for (auto &e : ev) for (size_t k;(k=e.d.find("\e%G"))!=str::npos;) e.d[k]='?';
    str data=cat_data(ev), name= f==F_ANSI && choose(W, 3)==0? str("-") : str("out")+wext[f]+comp_ext[c];
    bool tostd= name=="-"; if (tostd) c=C_NONE;
    fs_put("in.ttyrec", enc_ttyrec(ev, 1234567890LL*1000000));
    bool missing=choose(W, 6)==0;
    Ino so=fs_put("stdout", "");
    str fd=plan_faults(data.size()+12*ev.size(), c);
    if (tostd && (faults.fail_open)) faults.fail_open=0;
    if (tostd) faults.fail_close=false;     // closed only by the kernel, or not the last one
    describe("termcat in.ttyrec %s %s, %zu events, %zu bytes; %s", missing? "missing.ttyrec" : "", name.c_str(), ev.size(), data.size(), fd.c_str());
    auto ce=capture("stderr");
    Proc *p=mkproc("termcat", open_null(), open_ino(so, 1), ce->w); ce->w=nullptr;
    Watch w; w.arm(p);
    std::vector<str> av={"termcat", "in.ttyrec"}; if (missing) av.push_back("missing.ttyrec"); av.push_back(name);
    start_main(p, [&]() -> int { return run_args(termcat_main, av); });
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "termcat");
    settle();
    if (p->killed && (p->killed!=SIGPIPE || !c)) fail("KILLED", "killed by signal %d", p->killed);
    bool told= p->killed || p->code;
    if (told && !p->killed && faults.fail_open && w.real && ce->data.empty()) fail("no-message", "the destination could not be opened, there is no message");
    str why; bool all=is_complete(f, c, tostd? "stdout" : name, data, why);
    judge(w, told, c, all, "termcat", why);
}
WORKLOAD(C04, c04_termrec, 3)
{
    sched04();
    Sess s; SessOpt o; o.eof=false; o.signals=choose(W, 4)==0; o.gaps=choose(W, 4);
    if (choose(W, 3)==0) o.maxburst=200000, o.maxbursts=30;
    s.plan(o);
    i64 size=0; for (auto &x : s.out) size+=12+x.d.size();
    str fd=plan_faults(size, s.comp);
    describe("; %s", fd.c_str());
    struct termios before=s.tty->tio;
    s.start();
    Watch w; w.arm(s.p);
    Stop st=run_proc(s.p, 400LL*3600*1000000);
    expect_end(s.p, st, "the recorder");
    s.tend=now;
    run([&]{ return !s.tty->out->avail(); }, now+3600*1000000LL);
    settle();
    if (s.p->killed) fail("KILLED", "the recorder was killed by signal %d", s.p->killed);
    bool told=s.p->code!=0;
    if (faults.fail_open && w.real)
    {
        if (s.prog) fail("open-ignored", "the file could not be opened, the program was started nevertheless");
        if (told && s.err->data.empty()) fail("no-message", "the file could not be opened, there is no message");
        if (memcmp(&before, &s.tty->tio, sizeof(before))) fail("terminal", "the terminal's settings have been left changed");
    }
    if (!told && !s.err->data.empty()) fail("message", "status 0 and the message \"%s\"", hexs(s.err->data, 200).c_str());
    str why; bool all=false;
    if (!fs_has(s.path)) why="there is no file";
    else
    {
        str file=fs_get(s.path), pre=s.old.empty()? str() : compress(s.comp, s.old);
        if (!is_prefix(pre, file)) why="the old contents are gone";
        else
        {
            Recorded r=decode_session(s.f, s.comp, file.substr(pre.size()), s.raw);
            if (!r.ok) why=r.why;
            else if (r.data!=s.emitted) why=sfmt("%zu bytes of data instead of %zu", r.data.size(), s.emitted.size());
            else all=true;
        }
    }
    judge(w, told, s.comp, all, "termrec", why);
}
WORKLOAD(C04, c04_remote, 1)        // the recording goes to a server, which leaves, or cannot be reached
{
    sched04();
    Sess s; SessOpt o; o.eof=false; o.append=false; o.signals=choose(W, 4)==0; o.gaps=choose(W, 4);
    if (choose(W, 3)==0) o.maxburst=60000;
    s.plan(o);
    i64 size=0; for (auto &x : s.out) size+=12+x.d.size();
    int how=choose(F, 6);           // 0 stays, 1 nobody of that name, 2 refused, 3 no sockets, else leaves
    s.upload(how>3? (i64)(choose(F, 2)? logsize(F, size+50) : choose(F, size+50)) : 1LL<<60);
    if (how && how<=3)
        on_resolve=[how](const char *, const char *, std::vector<Addr> &a) { if (how==1) { fault("no-such-host"); return -2; } int n=1+choose(F, 2); for (int i=0;i<n;i++) a.push_back({2, std::to_string(i), how-1, how==2? ECONNREFUSED : EMFILE, 0}); return 0; };
    if (how && how<=3) describe("; %s", how==1? "no such host" : how==2? "connection refused" : "no sockets");
    struct termios before=s.tty->tio;
    s.start();
    Watch w; w.arm(s.p);
    Stop st=run_proc(s.p, 400LL*3600*1000000);
    expect_end(s.p, st, "the recorder");
    s.tend=now;
    run([&]{ return !s.tty->out->avail(); }, now+3600*1000000LL);
    settle();
    if (s.p->killed) fail("KILLED", "the recorder was killed by signal %d", s.p->killed);
    bool told=s.p->code!=0;
    if (memcmp(&before, &s.tty->tio, sizeof(before))) fail("terminal", "the terminal's settings have been left changed");
    if (how && how<=3)
    {
        nontrivial();
        if (s.prog) fail("open-ignored", "the server could not be reached, the program was started nevertheless");
        if (!told || s.err->data.empty()) fail("no-message", "the server could not be reached, exit status %d, message \"%s\"", s.p->code, hexs(s.err->data, 100).c_str());
        return;
    }
    if (!told && !s.err->data.empty()) fail("message", "status 0 and the message \"%s\"", hexs(s.err->data, 200).c_str());
    if (!is_prefix(s.shown, s.emitted)) fail("terminal", "the terminal does not show what the program wrote");
    Recorded r=decode_session(s.f, s.comp, *s.sink, s.raw);
    str why= !r.ok? r.why : r.data!=s.emitted? sfmt("%zu bytes of data instead of %zu", r.data.size(), s.emitted.size()) : "";
    judge(w, told, s.comp, why.empty(), "termrec", why);
}

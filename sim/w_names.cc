// C19: recordings started without a name
#include "sess.h"
#include "internal.h"
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <algorithm>
#include <set>

namespace {
// Gregorian date from seconds since 1970, at a fixed offset
str stamp(i64 sec, i64 off)
{
    i64 t=sec+off, d=t/86400, s=t%86400; if (s<0) s+=86400, d--;
    i64 y=1970;
    auto leap=[](i64 y) { return (y%4==0 && y%100) || y%400==0; };
    while (1) { i64 n=leap(y)? 366 : 365; if (d<n) break; d-=n; y++; }
    static const int ml[]={31,28,31,30,31,30,31,31,30,31,30,31};
    int m=0; while (1) { int n=ml[m]+(m==1 && leap(y)); if (d<n) break; d-=n; m++; }
    return sfmt("%04lld-%02d-%02d.%02d-%02d-%02d", (long long)y, m+1, (int)d+1, (int)(s/3600), (int)(s/60%60), (int)(s%60));
}
str seqname(u32 k)          // "", a, b, ... z, aa, ab, ...
{
    str s;
    while (k) { k--; s.insert(s.begin(), 'a'+k%26); k/=26; }
    return s;
}
struct One
{
    int n; Proc *p=0; TtyP tty; std::shared_ptr<Capture> err; std::shared_ptr<ChildProg> prog;
    Fmt f; bool raw=false; std::vector<str> args; i64 at=0, started=-1, kill_at=-1;
    std::vector<std::pair<i64,str>> out; str emitted, shown;
    str name; i64 made=-1; Ino ino; str left; bool ended=false;
};
static const char *wext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"}, *wname[]={"ansi", "ttyrec", "nh_recorder", "asciicast-v1", "asciicast"};
}
static One *plan_one(int n, i64 maxat)
{
    One *o=new One; o->n=n;
    o->f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI});
    if (n && choose(W, 3)) o->f=F_TTYREC;
    o->args={"termrec"};
    if (o->f!=F_TTYREC || choose(W, 3)==0) { o->args.push_back(choose(W, 2)? "-f" : "--format"); o->args.push_back(wname[o->f]); }
    if (choose(W, 5)==0) o->raw=true, o->args.push_back("-r");
    o->args.push_back("-e"); o->args.push_back(sfmt("program %d", n));
    o->at= choose(N, 2)? 0 : choose(N, 2)? logsize(N, maxat) : choose(N, maxat+1);
    int k=choose(W, 4);
    for (int i=0;i<k;i++) o->out.push_back({choose(W, 3)? logsize(W, 3000000) : 0, sfmt("recording %d part %d: ", n, i)+textish(1+logsize(W, 400))+"\r\n"});
    for (auto &x : o->out) for (auto &c : x.second) if (!c) c='0';
    if (choose(F, 8)==0) o->kill_at=logsize(F, 5000000);
    return o;
}
static void start_one(One *o)
{
    o->tty=make_tty(sfmt("terminal %d", o->n), 80, 24);
    o->err=capture(sfmt("stderr %d", o->n));
    o->p=mkproc(sfmt("termrec %d", o->n), open_tty(o->tty), open_tty(o->tty), o->err->w); o->err->w=nullptr;
    o->tty->fg=o->p;
    spawn_actor(sfmt("terminal %d", o->n), [o]{ char b[4096]; i64 r; while ((r=ch_read(o->tty->out, b, sizeof(b), "terminal"))>0) o->shown.append(b, r); });
    o->started=now;
    start_main(o->p, [o]() -> int { return run_args(termrec_main, o->args); });
    if (o->kill_at>=0) spawn_actor("killer", [o]{ wait_until([o]{ return o->p->dead; }, now+o->kill_at, "killer"); if (!o->p->dead) { fault("SIGKILL"); kill_proc(o->p, 9); if (o->prog) { o->prog->tty->hup=true; touch(); } } });
}
static void run_prog(One *o, std::shared_ptr<ChildProg> c)
{
    if (o->prog) fail("program", "a second program has been started");
    o->prog=c;
    spawn_actor(sfmt("program %d", o->n), [o,c]
    {
        for (auto &x : o->out)
        {
            if (x.first) wait_until([&]{ return c->tty->hup; }, now+x.first, "program's pause");
            size_t at=0;
            const Ch &ch=c->tty->out;
            while (at<x.second.size() && ch->readers)
            {
                wait_for([&]{ return ch->avail()<ch->cap || !ch->readers; }, "program's output");
                if (!ch->readers) break;
                size_t k=std::min(x.second.size()-at, (size_t)(ch->cap-ch->avail()));
                ch->push(x.second.data()+at, k); o->emitted.append(x.second, at, k); at+=k; touch();
            }
        }
        c->tty->out->writers=0; c->tty->in->readers=0; child_release(c); c->done=true; touch();
    });
}
WORKLOAD(C19, c19_unnamed, 1)
{
    draw_sched_config(); draw_jitter();
    static const u32 sb[]={4096, 64, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 4)];
    static const struct { const char *tz; int off; } Z[]={{"UTC",0}, {"XYZ-5:30",19800}, {"ABC8",-28800}, {"FOO-13:45",49500}};
    auto &z=Z[choose(W, 4)];
    setenv("TZ", z.tz, 1); tzset();
    setenv("LC_ALL", choose(W, 2)? "C.UTF-8" : "C", 1);
    epoch=1000000LL*(choose(W, 2)? 1700000000LL+choose(W, 400000000) : choose(W, 2)? 951782399LL+choose(W, 3) : 1735689599LL-z.off)+choose(W, 1000000);
    int n=1+logsize(W, 7);
    i64 maxat= choose(W, 2)? 3 : choose(W, 2)? 3000 : 3000000;
    std::vector<One*> os;
    for (int i=0;i<n;i++) os.push_back(plan_one(i, maxat));
    // what is there already
    std::set<str> names;
    int have=0;
    if (choose(W, 3))
    {
        int secs=1+choose(W, 5);
        static const u32 full[]={1, 2, 3, 26, 27, 28, 54, 703, 704, 800};
        for (int s=0;s<secs;s++)
        {
            Fmt f= choose(W, 2)? os[0]->f : (Fmt)pick(W, std::vector<int>{F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI});
            u32 k=choose(W, 2)? choose(W, 6) : full[choose(W, 10)]; bool gaps=choose(W, 3)==0;
            for (u32 i=0;i<k;i++)
            {
                if (gaps && choose(W, 4)==0) continue;
                str nm=stamp(epoch/1000000+s, z.off)+seqname(i)+wext[f]+".bz2";
                if (fs_has(nm)) continue;
                Ino x=fs_put(nm, choose(W, 4)? sfmt("precious %s", nm.c_str()) : "");
                if (choose(W, 30)==0) x->type=1, x->data.clear();
                have++;
            }
            // near misses that are not in the way
            if (choose(W, 3)==0) fs_put(stamp(epoch/1000000+s, z.off)+wext[f], "uncompressed"), have++;
        }
    }
    // others use the same directory
    bool other=choose(F, 3)==0;
    int fl=choose(F, 8);
    str fd;
    if (fl==1) { faults.fail_open=pick(F, std::vector<int>{EACCES, ENOSPC, EROFS, EMFILE, ENAMETOOLONG, EDQUOT}); fd=sfmt(", creating files fails with %s", strerror(faults.fail_open)); }
    describe("%d recorders within %s s at %s, %d files there already%s%s", n, tvs(maxat).c_str(), stamp(epoch/1000000, z.off).c_str(), have, other? ", others create and delete files" : "", fd.c_str());
    struct Old { Ino ino; str data; }; std::map<str,Old> old;
    for (auto &x : fs) old[x.first]={x.second, x.second->data};
    std::map<str,i64> gone;
    auto find=[&](Proc *p) -> One* { for (auto o : os) if (o->p==p) return o; return nullptr; };
    on_open=[&](const str &path, int flags)
    {
        One *o=find(self->p);
        if (!o || (flags&O_ACCMODE)==O_RDONLY) return;
        if (fs_has(path))
        {
            if ((flags&O_CREAT) && (flags&O_EXCL)) { probe("a name was taken"); return; }
            if (o->name==path) return;
            fail("opened", "recorder %d opened the existing file %s for writing", o->n, path.c_str());
        }
    };
    auto made=[&](One *o, const str &path)
    {
        if (o->name!="") fail("files", "recorder %d created a second file, %s", o->n, path.c_str());
        o->name=path; o->made=now; o->ino=fs[path];
        if (faults.fail_open) return;
        str ext=str(wext[o->f])+".bz2";
        i64 a=(epoch+o->started)/1000000, b=(epoch+now)/1000000;
        str seq; bool dated=false;
        for (i64 s=a;s<=b && !dated;s++)
        {
            str d=stamp(s, z.off);
            if (path.size()<d.size()+ext.size() || path.compare(0, d.size(), d) || path.compare(path.size()-ext.size(), ext.size(), ext)) continue;
            seq=path.substr(d.size(), path.size()-ext.size()-d.size()); dated=true;
            bool ok=false;
            for (u32 k=0;k<2000 && !ok;k++)
            {
                if (seqname(k)==seq) { ok=true; break; }
                str w=d+seqname(k)+ext;
                if (!fs_has(w) && !(gone.count(w) && gone[w]>=o->started)) fail("sequence", "recorder %d took the name %s though %s was free", o->n, path.c_str(), w.c_str());
            }
            if (!ok) fail("sequence", "recorder %d took the name %s, which is not in the sequence", o->n, path.c_str());
            if (seq!="") probe("a later name in the sequence");
        }
        if (!dated) fail("name", "recorder %d, started at %s, uses the name %s for %s", o->n, stamp(a, z.off).c_str(), path.c_str(), wname[o->f]);
    };
    on_file_write=[&](const str &path)
    {
        One *o= self? find(self->p) : nullptr;
        if (!o) return;
        if (!fs_has(path)) fail("removed", "recorder %d removed %s", o->n, path.c_str());
        if (o->name==path) return;
        if (old.count(path)) fail("overwritten", "recorder %d wrote to %s, which was there before", o->n, path.c_str());
        for (auto q : os) if (q!=o && q->name==path) fail("overwritten", "recorder %d wrote to %s, recorder %d's file", o->n, path.c_str(), q->n);
        made(o, path);
    };
    on_exec=[&](std::shared_ptr<ChildProg> c)
    {
        One *o=find(c->p);
        if (!o) fail("program", "started by nobody");
        run_prog(o, c);
    };
    for (auto o : os)
        if (!o->at) start_one(o);
        else spawn_actor("starter", [o]{ sleep_us(o->at); start_one(o); });
    if (other) spawn_actor("others", [&]
    {
        int k=1+logsize(F, 30); std::vector<str> mine;
        i64 lim=maxat+300;
        for (int i=0;i<k;i++)
        {
            if (choose(F, 3)) sleep_us(choose(F, 2)? logsize(F, lim) : choose(F, 3)); else sim::yield_point();
            if (mine.size() && choose(F, 3)==0)
            {
                size_t j=choose(F, mine.size()); str x=mine[j];
                fs.erase(x); gone[x]=now; old.erase(x); mine.erase(mine.begin()+j); fault("other-deletes"); continue;
            }
            str nm=stamp((epoch+now)/1000000, z.off)+seqname(choose(F, 4))+wext[choose(F, 3)? os[0]->f : F_TTYREC]+".bz2";
            if (fs_has(nm)) continue;
            Ino x=fs_put(nm, sfmt("other's %d", i)); old[nm]={x, x->data}; mine.push_back(nm); fault("other-creates");
        }
    });
    Stop st=run([&]{ for (auto o : os) { if (!o->p || !o->p->dead) return false; if (!o->ended && o->ino) { o->ended=true; o->left=o->ino->data; } } return true; }, now+3600*1000000LL);
    for (auto o : os) { if (!o->p) fail("HANG", "a recorder was never started"); expect_end(o->p, st, "a recorder"); }
    settle();
    nontrivial();
    on_file_write=nullptr;
    for (auto &x : old)
    {
        if (!fs_has(x.first)) fail("lost", "%s is gone", x.first.c_str());
        if (fs[x.first]!=x.second.ino) fail("replaced", "%s has been replaced", x.first.c_str());
        if (fs_get(x.first)!=x.second.data) fail("overwritten", "%s has been changed: \"%s\"", x.first.c_str(), hexs(fs_get(x.first), 60).c_str());
    }
    std::set<str> own;
    for (auto o : os)
    {
        if (o->p->killed && o->p->killed!=9) fail("KILLED", "recorder %d was killed by signal %d", o->n, o->p->killed);
        if (o->name!="" && !own.insert(o->name).second) fail("shared", "two recorders use %s", o->name.c_str());
        if (o->p->killed) continue;
        if (faults.fail_open)
        {
            if (o->p->code==0 || o->err->data.empty()) fail("unreported", "the recording could not be created, status %d, message \"%s\"", o->p->code, hexs(o->err->data, 100).c_str());
            if (o->prog) fail("unreported", "the recording could not be created, the program was started nevertheless");
            continue;
        }
        if (o->p->code) fail("status", "recorder %d ended with status %d, \"%s\"", o->n, o->p->code, hexs(o->err->data, 200).c_str());
        if (o->name=="" || !fs_has(o->name)) fail("no-file", "recorder %d made no file", o->n);
        if (fs[o->name]!=o->ino) fail("replaced", "%s has been replaced", o->name.c_str());
        if (o->left!=fs_get(o->name)) fail("overwritten", "%s changed after its recorder had ended", o->name.c_str());
        Recorded r=decode_session(o->f, C_BZ2, fs_get(o->name), o->raw);
        if (!r.ok) fail("contents", "%s: %s", o->name.c_str(), r.why.c_str());
        if (r.data!=o->emitted) fail("contents", "%s does not hold what recorder %d has recorded, but \"%s\"", o->name.c_str(), o->n, hexs(r.data, 100).c_str());
    }
    for (auto &x : fs) if (!old.count(x.first) && !own.count(x.first)) fail("stray", "%s appeared", x.first.c_str());
}

// C05: compressed streams are transparent
#include "util.h"
#include "internal.h"
#include <string.h>
#include <errno.h>

static void write_chunks(Proc *p, int fd, const str &d, const char *what)
{
    size_t at=0;
    u32 mode=choose(W, 4);
    while (at<d.size())
    {
        size_t k= mode==0? d.size()-at : mode==1? 1+choose(W, 4096) : mode==2? 1+logsize(W, 70000) : 32768;
        if (k>d.size()-at) k=d.size()-at;
        if (chance(W, 1, 16)) sleep_us(logsize(W, 3000000));
        i64 r=h_write(p, fd, d.data()+at, k);
        if (r<=0) fail("write-failed", "%s: writing to the stream failed after %zu of %zu bytes: %s", what, at, d.size(), strerror(errno));
        at+=r;
    }
}
// returns all data; error if a read fails
static str read_all(Proc *p, int fd, u32 mode)
{
    str o; char buf[70000];
    while (1)
    {
        size_t k= mode==0? sizeof(buf) : mode==1? 1+choose(W, 300) : mode==2? 1+logsize(W, 65535) : 4096;
        if (mode && chance(W, 1, 16)) sleep_us(logsize(W, 3000000));
        i64 r=h_read(p, fd, buf, k);
        if (r<0) fail("read-failed", "reading from the stream failed after %zu bytes: %s", o.size(), strerror(errno));
        if (!r) break;
        o.append(buf, r);
        if (o.size()>(64u<<20)) fail("too-much", "the stream delivers more than it contains");
    }
    return o;
}
static str url_of(const str &name)
{
    switch (choose(W, 3)) { case 1: return "file://"+name; case 2: return "FILE://"+name; }
    return name;
}
static str ext_case(Comp c)
{
    str e=comp_ext[c];
    if (chance(W, 1, 5)) for (char &x : e) x=toupper(x);
    return e;
}

struct WJob { Comp c; str name, url; std::vector<str> parts; str before; int mode; bool byfd; };

WORKLOAD(C05, c05_write, 3)
{
    draw_sched_config(); draw_jitter();
    int n=1+(chance(W, 1, 3)? choose(W, 3) : 0);
    std::vector<WJob> jobs(n);
    for (int i=0;i<n;i++)
    {
        WJob &j=jobs[i];
        j.c=(Comp)(1+choose(W, 4));
        j.name=sfmt("out%d", i)+ext_case(j.c);
        j.url=url_of(j.name);
        int np=1+(chance(W, 1, 3)? choose(W, 3) : 0);
        for (int k=0;k<np;k++) j.parts.push_back(payload(chance(W, 1, 6)? 600000 : 70000));
        j.byfd=chance(W, 1, 5);
        if (chance(W, 1, 3))
        {
            str old=payload(3000);
            fs_put(j.name, compress(j.c, old));
            j.mode=SM_APPEND; j.before=old;
            if (np==1 && choose(W, 2)) j.mode=SM_WRITE, j.before="";
        }
        else j.mode= choose(W, 3)? SM_WRITE : SM_APPEND;
        describe("%s %s%s parts:", j.url.c_str(), j.mode==SM_APPEND? "append" : "write", j.byfd? " by fd" : "");
        for (auto &s : j.parts) describe(" %zu", s.size());
        describe("; ");
    }
    // parts after the first are appended by later openings, in the same process
    Proc *p=mkproc("writer");
    start_main(p, [&]() -> int {
        std::vector<int> fds(n);
        for (size_t round=0; ; round++)
        {
            bool any=false;
            for (int i=0;i<n;i++)
            {
                WJob &j=jobs[i]; fds[i]=-1;
                if (round>=j.parts.size()) continue;
                any=true;
                const char *err="?";
                int mode= round? SM_APPEND : j.mode;
                int raw=-1;
                if (j.byfd) raw=open_stream(-1, sfmt("raw%d", i).c_str(), mode, &err);
                if (j.byfd && raw==-1) fail("open-failed", "cannot open the plain file: %s", err);
                fds[i]=open_stream(raw, j.url.c_str(), mode, &err);
                if (fds[i]==-1) fail("open-failed", "open_stream(%s) failed: %s", j.url.c_str(), err);
            }
            if (!any) break;
            if (chance(W, 1, 2))
                for (int i=0;i<n;i++) { if (fds[i]!=-1) write_chunks(p, fds[i], jobs[i].parts[round], jobs[i].url.c_str()), h_close(p, fds[i]); }
            else
            {
                for (int i=0;i<n;i++) if (fds[i]!=-1) write_chunks(p, fds[i], jobs[i].parts[round], jobs[i].url.c_str());
                for (int i=n;i--;) if (fds[i]!=-1) h_close(p, fds[i]);
            }
            // wait until the background work on these files is over before appending
            if (round+1<4)
            {
                bool more=false; for (auto &j : jobs) if (round+1<j.parts.size()) more=true;
                if (more) sleep_us(1000000), wait_until([&]{ return open_fds(p, true)==0; }, now+3600*1000000LL, "background compression");
            }
        }
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p);
    expect_end(p, st, "writing compressed files and exiting");
    if (p->killed) fail("KILLED", "the writer was killed by signal %d", p->killed);
    for (int i=0;i<n;i++)
    {
        WJob &j=jobs[i];
        str name= j.byfd? sfmt("raw%d", i) : j.name, want= j.byfd? "" : j.before, got;
        for (auto &s : j.parts) want+=s;
        Dec d=decompress(j.c, fs_get(name), got);
        if (d!=D_OK) fail("invalid-output", "%s is not a valid %s file (%s) after writing %zu bytes", name.c_str(), comp_ext[j.c], d==D_TRUNC? "truncated" : "corrupt", want.size());
        if (got!=want) fail("write-mismatch", "%s decompresses to %zu bytes, %zu were written; first difference at %zu", name.c_str(), got.size(), want.size(), first_diff(got, want));
    }
}

// further members, so that the file so far ends at a multiple of n
static void aligned(Comp c, str &file, str &want, u32 n)
{
    str m[2]={compress(c, ""), compress(c, "a")};
    for (int i=0;i<4000;i++)
    {
        u32 need=(n-file.size()%n)%n;
        if (!need) return;
        if (need>2500) { str r(need-1500, 0); u64 v=i+need; for (char &x : r) x=v=sim::mix(v+1); want+=r; file+=compress(c, r); continue; }
        for (u32 a=0;a*m[1].size()<=need;a++)
            if ((need-a*m[1].size())%m[0].size()==0)
            {
                for (u32 k=0;k<a;k++) file+=m[1], want+='a';
                while (file.size()%n) file+=m[0];
                return;
            }
        file+=m[1], want+='a';
    }
}

struct RJob { Comp c; str name, url, want; bool byfd; u32 rmode; str got; };
WORKLOAD(C05, c05_read, 3)
{
    draw_sched_config(); draw_jitter();
    int n=1+(chance(W, 1, 3)? choose(W, 3) : 0);
    std::vector<RJob> jobs(n);
    std::map<str,str> net;
    for (int i=0;i<n;i++)
    {
        RJob &j=jobs[i];
        j.c=(Comp)(1+choose(W, 4));
        j.name=sfmt("in%d", i)+ext_case(j.c);
        int np=1+(chance(W, 1, 3)? 1+choose(W, 3) : 0);
        str file;
        bool align=np>1 && chance(W, 1, 3); u32 al[]={0, 8192, 5000, 32768, 131075};
        for (int k=0;k<np;k++)
        {
            str s=payload(chance(W, 1, 6)? 600000 : 70000); j.want+=s; file+=compress(j.c, s);
            if (align && k+1<np) aligned(j.c, file, j.want, choose(W, 3)? al[j.c] : 4096);
        }
        fs_put(j.name, file);
        j.byfd=chance(W, 1, 4);
        j.rmode=choose(W, 4);
        if (!j.byfd && chance(W, 1, 5)) j.url=sfmt("tcp://host%d:99/x", i)+comp_ext[j.c], net[sfmt("host%d", i)]=file;
        else j.url=url_of(j.name);
        describe("%s%s %d members, %zu bytes (%zu compressed); ", j.url.c_str(), j.byfd? " by fd" : "", np, j.want.size(), file.size());
    }
    str cur;
    on_resolve=[&](const char *h, const char *, std::vector<Addr> &a) { cur=h; a.push_back({2, "10.0.0.1", 0, 0, 0}); return 0; };
    on_connect=[&](const Addr &, Ch c2s, Ch s2c, int) {
        str data=net[cur];
        spawn_actor("server", [data,s2c,c2s]{
            size_t at=0;
            while (at<data.size())
            {
                size_t k=1+logsize(N, 20000); if (k>data.size()-at) k=data.size()-at;
                if (chance(N, 1, 4)) sleep_us(logsize(N, 500000));
                if (ch_write(s2c, data.data()+at, k, "server send")<(i64)k) return;
                at+=k;
            }
            ch_close_w(s2c);
        });
    };
    Proc *p=mkproc("reader");
    bool interleave=n>1 && choose(W, 2);
    start_main(p, [&]() -> int {
        std::vector<int> fds(n);
        int done=0;
        for (int i=0;i<n;i++)
        {
            RJob &j=jobs[i];
            const char *err="?";
            int raw=-1;
            if (j.byfd) raw=fd_install(p, open_ino(fs[j.name], 0));
            fds[i]=open_stream(raw, j.url.c_str(), choose(W, 4)? SM_READ : SM_REPREAD, &err);
            if (fds[i]==-1) fail("open-failed", "open_stream(%s) failed: %s", j.url.c_str(), err);
            if (interleave) spawn_thread(p, sfmt("reader%d", i), [&,i]{ jobs[i].got=read_all(p, fds[i], jobs[i].rmode); h_close(p, fds[i]); done++; touch(); });
            else j.got=read_all(p, fds[i], j.rmode), h_close(p, fds[i]);
        }
        if (interleave) wait_for([&]{ return done==n; }, "readers");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p);
    expect_end(p, st, "reading compressed files and exiting");
    if (p->killed) fail("KILLED", "the reader was killed by signal %d", p->killed);
    for (auto &j : jobs)
        if (j.got!=j.want) fail("read-mismatch", "%s reads as %zu bytes, it contains %zu; first difference at %zu: got \"%s\"", j.url.c_str(), j.got.size(), j.want.size(), first_diff(j.got, j.want), hexs(j.got.substr(first_diff(j.got, j.want)), 60).c_str());
}

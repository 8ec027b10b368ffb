// C12: termcat concatenates and converts, termtime measures
#include "rec.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <algorithm>

namespace {
struct Input { Fmt f; str name; std::vector<Ev> want; i64 total=0; bool missing=false; int kind=0; };
}
// one input: generated, stored, and what it should contribute
static Input make_input(int i, const GenOpt &lim, bool remote)
{
    Input in;
    in.f=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI, F_DM2});
    if (!lim.nul && in.f==F_DM2) in.f=F_TTYREC;
    if (chance(F, 1, 5))
    {
        in.missing=true;
        in.kind=choose(F, 4);
        in.name= in.kind==0? sfmt("no%d.ttyrec", i) : in.kind==1? sfmt("tcp://nowhere%d:7/x.ttyrec", i) : in.kind==2? sfmt("file://y%d.cast", i) : sfmt("missing%d.nh.gz", i);
        fault("missing-input");
        return in;
    }
    Comp c= choose(W, 3)==0? (Comp)choose(W, 5) : C_NONE;
    int how= remote && choose(W, 3)==0;
    str base=sfmt("in%d%s", i, fmt_ext[in.f]), raw;
    if (in.f==F_DM2)
    {
        std::vector<DosFrame> df; gen_dos(raw, df);
        if (choose(W, 2)) raw=compress(C_GZ, raw);
    }
    else
    {
        GenOpt o=opt_for(in.f);
        o.nul= o.nul && lim.nul; o.utf8= o.utf8 || lim.utf8; o.big=lim.big; o.maxev=lim.maxev;
        auto ev=gen_events(o);
        for (auto &x : ev) for (size_t k;(k=x.d.find("\e[8;"))!=str::npos;) x.d[k]='?';
        Encoded en=encode_as(in.f, ev, choose(W, 2)? 1234567890LL*1000000+choose(W, 1000000) : 0, 2+logsize(W, 300), 1+logsize(W, 150), choose(W, 2));
        raw=en.raw; in.want=en.want; in.total=en.total;
    }
    Proc *none=0;
    Delivery d=deliver(none, base, compress(c, raw), c, how, sfmt("h%d", i));
    in.name=d.name;
    if (in.f==F_DM2)
    {
        // the library's own reading of it, in a process of its own, is what has to come out
        Played pl; Proc *q=mkproc("reference");
        str n=in.name;
        if (how) { n=sfmt("ref%d.dm2", i)+comp_ext[c]; fs_put(n, compress(c, raw)); }
        start_main(q, [&]() -> int { play_rec(pl, -1, 0, n.c_str()); return 0; });
        Stop st=run_proc(q, 100000*1000000LL);
        expect_end(q, st, "reading a recording");
        for (auto &x : pl.prints) in.want.push_back({x.first, x.second});
        in.total=pl.t;
    }
    return in;
}
WORKLOAD(C12, c12_termcat, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    if (chance(N, 1, 2)) cfg.short_file_reads=true;
    static const u32 sb[]={4096, 16, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 4)];
    Fmt of=(Fmt)pick(W, std::vector<int>{F_TTYREC, F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI});
    bool cast= of==F_CAST1 || of==F_CAST2;
    GenOpt lim; lim.nul= of!=F_NH && !cast; lim.utf8=cast; lim.maxev=25; lim.big=choose(W, 6)==0;
    int n=1+choose(W, 4);
    std::vector<Input> in;
    for (int i=0;i<n;i++)
        if (i && chance(W, 1, 8) && in[0].name.substr(0, 4)!="tcp:") in.push_back(in[choose(W, i)]);   // the same one again
        else in.push_back(make_input(i, lim, true));
    Comp oc=choose(W, 3)==0? (Comp)choose(W, 5) : C_NONE;
    bool tostd= of==F_ANSI && choose(W, 2);
    static const char *wext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"};
    str out= tostd? "-" : str("out")+(of==F_ANSI && choose(W, 2)? "" : wext[of])+comp_ext[oc];
    if (tostd) oc=C_NONE;
    bool nodest=!tostd && chance(F, 1, 12);
    if (nodest) { faults.fail_open=choose(F, 2)? EACCES : ENOSPC; fault("destination-failure"); }
    std::vector<str> av={"termcat"};
    str ds; bool anyok=false;
    for (auto &x : in) { av.push_back(x.name); ds+=(x.missing? "!" : "")+x.name+" "; anyok|=!x.missing; }
    int web= tostd || nodest? 0 : std::max(0, (int)choose(W, 8)-5);      // to a file:// URL, or a server
    auto got_web=std::make_shared<str>(); int port=1+choose(W, 65535); auto pt=std::make_shared<int>(0);
    u32 room= choose(N, 2)? 0 : 1+logsize(N, 100000);
    if (web==2) net_host("sink", [=](Ch c2s, Ch, int to) { *pt=to; if (room) c2s->cap=room; char b[3000]; i64 n; while ((n=ch_read(c2s, b, 1+choose(N, sizeof(b)), "server reads"))>0) got_web->append(b, n); });
    str to= web==1? "file://"+out : web==2? sfmt("tcp://sink:%d/", port)+out : out;
    av.push_back(to);
    describe("termcat %s%s%s", ds.c_str(), to.c_str(), nodest? " (cannot be created)" : "");
    // expected
    std::vector<Ev> want; i64 base=0;
    for (auto &x : in) if (!x.missing) { for (auto &e : x.want) want.push_back({base+e.t, e.d}); base+=x.total; }
    auto co=capture("stdout", choose(N, 2)? logsize(N, 100000) : 0), ce=capture("stderr");
    Proc *p=mkproc("termcat", open_null(), co->w, ce->w);
    co->w=nullptr; ce->w=nullptr;
    start_main(p, [&]() -> int { return run_args(termcat_main, av); });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "termcat");
    settle();
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (nodest)
    {
        if (p->code==0 || ce->data.empty()) fail("status", "the destination cannot be created, exit status %d, messages \"%s\"", p->code, ce->data.c_str());
        return;
    }
    if ((p->code==0)!=anyok) fail("status", "%s input could be read, exit status %d", anyok? "some" : "no", p->code);
    size_t at=0; int miss=0;
    for (auto &x : in) if (x.missing)
    {
        size_t k=ce->data.find(x.name+":", at);
        if (k==str::npos) fail("not-reported", "%s could not be read, but is not reported: \"%s\"", x.name.c_str(), hexs(ce->data, 200).c_str());
        at=k+1; miss++;
    }
    if (!miss && !ce->data.empty()) fail("not-reported", "nothing failed, but there is a message: \"%s\"", hexs(ce->data, 200).c_str());
    if (miss) probe("one of several inputs missing");
    str got;
    if (tostd) got=co->data;
    else
    {
        if (web==2 && *pt!=port) fail("port", "asked to connect to port %d, it used %d", port, *pt);
        if (web!=2 && !fs_has(out)) fail("data", "no output file");
        if (decompress(oc, web==2? *got_web : fs_get(out), got)!=D_OK) fail("data", "the output is not a complete compressed file");
        if (!co->data.empty()) fail("data", "something was written to the standard output");
    }
    str all=cat_data(want);
    if (of==F_ANSI)
    {
        if (got!=all) fail("data", "%zu bytes instead of %zu, differing from %zu on", got.size(), all.size(), first_diff(got, all));
        return;
    }
    Rec r;
    if (of==F_TTYREC) dec_ttyrec(got, r); else if (of==F_NH) dec_nh(got, r); else dec_cast(got, r);
    if (r.bad) fail("data", "the output cannot be decoded: %s", r.why.c_str());
    std::vector<Ev> ge=r.ev;
    if (of==F_TTYREC) for (auto &e : ge) e.t+=r.start;
    i64 tol= of==F_NH? 10000 : of==F_CAST1? 1+(i64)want.size() : of==F_CAST2? 2 : 0;
    if (cast && want.size() && anyok)
    {
        // the leading size goes to the header; partial characters join their rest
        int rows=25, cols=80, k=0; size_t fi=0; while (fi+1<want.size() && want[fi].d.empty()) fi++;
        Ev &f=want[fi];
        if (sscanf(f.d.c_str(), "\e%%G\e[8;%d;%dt%n", &rows, &cols, &k)==2 && k) f.d.erase(0, k);
        if ((r.cols!=cols || r.rows!=rows)) fail("data", "the size is %dx%d instead of %dx%d", r.cols, r.rows, cols, rows);
        str carry;
        for (auto &x : want)
        {
            str d=carry+x.d; carry="";
            size_t k=d.size(), back=0;
            while (back<4 && back<k && ((u8)d[k-1-back]&0xc0)==0x80) back++;
            if (back<k) { u8 l=d[k-1-back]; u32 need= l>=0xf0? 4 : l>=0xe0? 3 : l>=0xc0? 2 : 1; if (l>=0xc0 && back+1<need) { carry=d.substr(k-1-back); d.resize(k-1-back); } }
            x.d=d;
        }
    }
    str e=cmp_timed_rec(want, ge, tol);
    if (!e.empty()) fail(e.find("byte ")==0? "timing" : "data", "%zu events of %d inputs: %s", want.size(), n, e.c_str());
    if (of==F_NH) for (size_t i=0;i<ge.size();i++) if (ge[i].t>base) fail("timing", "a time of %s s exceeds the total of %s s", tvs(ge[i].t).c_str(), tvs(base).c_str());
}
WORKLOAD(C12, c12_termtime, 1)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    if (chance(N, 1, 2)) cfg.short_file_reads=true;
    GenOpt lim; lim.maxev=25; lim.big=false;
    int n=1+choose(W, 4);
    std::vector<Input> in; str ds; bool anyok=false;
    std::vector<str> av={"termtime"};
    for (int i=0;i<n;i++) { in.push_back(make_input(i, lim, true)); av.push_back(in[i].name); ds+=in[i].name+" "; anyok|=!in[i].missing; }
    describe("termtime %s", ds.c_str());
    auto co=capture("stdout", choose(N, 2)? logsize(N, 100000) : 0), ce=capture("stderr");
    Proc *p=mkproc("termtime", open_null(), co->w, ce->w);
    co->w=nullptr; ce->w=nullptr;
    start_main(p, [&]() -> int { return run_args(termtime_main, av); });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "termtime");
    settle();
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    str want; size_t at=0; int miss=0;
    for (auto &x : in)
        if (!x.missing) want+=sfmt("%7lld.%06lld\t%s\n", (long long)x.total/1000000, (long long)x.total%1000000, x.name.c_str());
        else { size_t k=ce->data.find(x.name+":", at); if (k==str::npos) fail("not-reported", "%s could not be read, but is not reported: \"%s\"", x.name.c_str(), hexs(ce->data, 200).c_str()); at=k+1; miss++; }
    if (co->data!=want) fail("duration", "printed \"%s\" instead of \"%s\"", hexs(co->data, 300).c_str(), hexs(want, 300).c_str());
    if ((p->code==0)!=anyok) fail("status", "%s recording could be read, exit status %d", anyok? "some" : "no", p->code);
    if (!miss && !ce->data.empty()) fail("not-reported", "nothing failed, but there is a message: \"%s\"", hexs(ce->data, 200).c_str());
}

// C06: a normal exit completes all output; C07: abandoned streams harm nobody else
#include "rec.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <algorithm>

namespace {
struct Out { Comp c; str name, data; bool byfd=false, topipe=false; std::shared_ptr<Capture> cap; bool opened=false, rec=false; };
}
static void write_some(Proc *p, int fd, const str &d)
{
    size_t at=0;
    while (at<d.size())
    {
        size_t k=1+logsize(W, 60000); if (k>d.size()-at) k=d.size()-at;
        i64 r=h_write(p, fd, d.data()+at, k);
        if (r<=0) fail("write-failed", "writing to an output stream failed after %zu of %zu bytes: %s", at, d.size(), strerror(errno));
        at+=r;
    }
}

WORKLOAD(C06, c06_exit, 3)
{
    draw_sched_config(); draw_jitter();
    int n=1+choose(W, 4);
    std::vector<Out> outs(n);
    bool inputs=chance(W, 1, 3);
    int failing= chance(F, 1, 3)? 1+choose(F, 2) : 0;     // 1: pipe, 2: thread
    if (failing==1) faults.fail_pipe=1+choose(F, n+inputs);
    if (failing==2) faults.fail_thread=1+choose(F, n+inputs);
    for (int i=0;i<n;i++)
    {
        Out &o=outs[i];
        o.c=(Comp)(1+choose(W, 4));
        o.rec=chance(W, 1, 5);
        o.name=sfmt("o%d", i)+(o.rec? ".ttyrec" : "")+comp_ext[o.c];
        o.data=payload(chance(W, 1, 5)? 500000 : 60000);
        o.topipe=!o.rec && chance(W, 1, 4);
        describe("%s %zu bytes%s; ", o.name.c_str(), o.data.size(), o.topipe? " into a slow pipe" : o.rec? " by the recorder" : "");
    }
    if (failing) describe("%s %d fails; ", failing==1? "pipe" : "thread", failing==1? faults.fail_pipe : faults.fail_thread);
    if (inputs) fs_put("in.gz", compress(C_GZ, payload(200000)));
    int code=choose(W, 3), how=choose(W, 3);
    Proc *p=mkproc("program");
    for (auto &o : outs) if (o.topipe) o.cap=capture("slow reader", choose(N, 2)? logsize(N, 200000) : 0);
    start_main(p, [&]() -> int {
        std::vector<int> fds(n, -1); std::vector<recorder> recs(n, nullptr);
        int in=-1;
        bool keep_in=inputs && choose(W, 2);
        auto do_in=[&]{
            const char *err=(const char*)1;
            in=open_stream(-1, "in.gz", SM_READ, &err);
            if (in==-1) { if (!failing) fail("open-failed", "opening an input stream failed: %s", err==(const char*)1? "?" : err); if (err==(const char*)1 || !err) fail("no-message", "a failed open_stream gave no error message"); return; }
            char b[3000]; if (choose(W, 2)) h_read(p, in, b, sizeof(b));
            if (!keep_in) h_close(p, in);
        };
        bool in_first=choose(W, 2);
        if (inputs && in_first) do_in();
        for (int i=0;i<n;i++)
        {
            Out &o=outs[i];
            const char *err=(const char*)1;
            u32 np=faults.n_pipe, nt=faults.n_thread;
            if (o.rec)
            {
                recs[i]=ttyrec_w_open(-1, 0, o.name.c_str(), 0);
                o.opened=recs[i];
            }
            else
            {
                int raw=-1;
                if (o.topipe) raw=fd_install(p, o.cap->w), o.cap->w=nullptr;
                fds[i]=open_stream(raw, o.name.c_str(), SM_WRITE, &err);
                o.opened=fds[i]!=-1;
                if (!o.opened && (err==(const char*)1 || !err)) fail("no-message", "a failed open_stream gave no error message");
            }
            bool hit= failing==1? np<faults.fail_pipe && faults.n_pipe>=faults.fail_pipe : failing==2? nt<faults.fail_thread && faults.n_thread>=faults.fail_thread : false;
            if (hit && o.opened) fail("failure-ignored", "opening %s succeeded although creating its %s failed", o.name.c_str(), failing==1? "pipe" : "thread");
            if (!hit && !o.opened) fail("open-failed", "opening %s failed for no reason", o.name.c_str());
        }
        if (inputs && !in_first) do_in();
        std::vector<int> order; for (int i=0;i<n;i++) order.insert(order.begin()+choose(W, i+1), i);
        for (int i : order)
        {
            Out &o=outs[i];
            if (!o.opened) continue;
            if (o.rec)
            {
                size_t at=0; struct timeval tv={1000, 0};
                while (at<o.data.size()) { size_t k=1+logsize(W, 9000); if (k>o.data.size()-at) k=o.data.size()-at; if (!ttyrec_w_write(recs[i], &tv, o.data.data()+at, k)) fail("write-failed", "ttyrec_w_write failed"); at+=k; tv.tv_sec++; }
                if (!ttyrec_w_close(recs[i])) fail("write-failed", "ttyrec_w_close failed");
            }
            else write_some(p, fds[i], o.data), h_close(p, fds[i]);
            if (chance(W, 1, 4)) sleep_us(logsize(W, 100000));
        }
        if (how==1) sim::proc_exit(code);
        return code;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "a program exiting normally");
    if (p->killed) fail("KILLED", "the program was killed by signal %d", p->killed);
    if (!p->exited || p->code!=code) fail("exit-code", "the program exited with %d, it asked for %d", p->code, code);
    settle();
    for (auto &o : outs)
    {
        if (!o.opened) continue;
        str got, raw= o.topipe? o.cap->data : fs_get(o.name), want=o.data;
        Dec d=decompress(o.c, raw, got);
        if (d!=D_OK) fail("incomplete-output", "after the program's exit %s is %s: %zu compressed bytes, decompressing to %zu of %zu", o.name.c_str(), d==D_TRUNC? "truncated" : "corrupt", raw.size(), got.size(), want.size());
        if (o.rec) { Rec r; if (!dec_ttyrec(got, r)) fail("incomplete-output", "%s: %s", o.name.c_str(), r.why.c_str()); got=cat_data(r.ev); }
        if (got!=want) fail("incomplete-output", "after the program's exit %s holds %zu of %zu bytes", o.name.c_str(), got.size(), want.size());
    }
}

// the disk or the reader behind an output stream fails: exiting must still work
WORKLOAD(C06, c06_exit_failing, 1)
{
    draw_sched_config(); draw_jitter();
    int n=1+choose(W, 3);
    std::vector<Out> outs(n);
    for (int i=0;i<n;i++)
    {
        Out &o=outs[i];
        o.c=(Comp)(1+choose(W, 4)); o.rec=chance(W, 1, 3); o.name=sfmt("o%d", i)+(o.rec? ".ttyrec" : "")+comp_ext[o.c]; o.data=payload(300000); o.topipe=chance(W, 1, 3);
        describe("%s %zu bytes%s%s; ", o.name.c_str(), o.data.size(), o.topipe? " into a pipe that goes away" : "", o.rec? " by the recorder" : "");
    }
    if (choose(F, 2)) faults.disk_cap=logsize(F, 100000); else faults.write_fail_at=1+logsize(F, 30);
    Proc *p=mkproc("program");
    p->sig[13].h=(void(*)(int))1;   // the program ignores SIGPIPE
    start_main(p, [&]() -> int {
        std::vector<int> fds(n, -1); std::vector<recorder> recs(n, nullptr);
        for (int i=0;i<n;i++)
        {
            Out &o=outs[i]; int raw=-1;
            if (o.topipe)
            {
                Ofd r, w; make_pipe(r, w, 4096); Ch ch=r->rd; u32 lim=logsize(F, 20000);
                spawn_actor("reader that goes away", [ch,lim]{ char b[512]; u32 n=0; while (n<lim) { i64 k=ch_read(ch, b, sizeof(b), "reader"); if (k<=0) break; n+=k; } ch_close_r(ch); fault("reader-vanished"); });
                raw=fd_install(p, w);
            }
            if (o.rec && raw!=-1) raw=open_stream(raw, o.name.c_str(), SM_WRITE, 0);
            if (o.rec) recs[i]= o.topipe && raw==-1? nullptr : ttyrec_w_open(raw, 0, o.name.c_str(), 0);
            else fds[i]=open_stream(raw, o.name.c_str(), SM_WRITE, 0);
        }
        for (int i=0;i<n;i++)
        {
            if (recs[i])
            {
                size_t at=0; struct timeval tv={1000, 0}; const str &d=outs[i].data; bool stubborn=choose(W, 2);
                while (at<d.size()) { size_t k=1+logsize(W, 9000); if (k>d.size()-at) k=d.size()-at; if (!ttyrec_w_write(recs[i], &tv, d.data()+at, k) && !stubborn) break; at+=k; tv.tv_sec++; }
                ttyrec_w_close(recs[i]);
            }
            if (fds[i]==-1) continue;
            size_t at=0; const str &d=outs[i].data;
            while (at<d.size()) { size_t k=1+logsize(W, 60000); if (k>d.size()-at) k=d.size()-at; i64 r=h_write(p, fds[i], d.data()+at, k); if (r<=0) break; at+=r; }
            h_close(p, fds[i]);
        }
        return 5;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "a program exiting normally after its output failed");
    if (p->killed) fail("KILLED", "the program was killed by signal %d", p->killed);
    if (!p->exited || p->code!=5) fail("exit-code", "the program exited with %d, it asked for 5", p->code);
}

// ---------------------------------------------------------------- C07
namespace {
struct Src { int kind; Comp c=C_NONE; str name, url, want; bool damaged=false; bool outp=false; int fd=-1; size_t quota; str got; bool eof=false, closed=false; };
}
static void make_src(Src &s, int i, bool damage)
{
    s.kind=choose(W, 6);   // 0,1: file, 2: tcp, 3: telnet, 4: termcast, 5: curl
    s.c=(Comp)choose(W, 5);
    if (s.kind==4 || s.kind==3) s.c=C_NONE;
    s.want=payload(chance(W, 1, 4)? 300000 : 20000);
    if (s.kind>=4 && s.want.size()>50000) s.want.resize(50000);
    str raw=compress(s.c, s.want);
    if (damage && s.kind!=4)
    {
        s.damaged=true;
        switch (choose(F, 3))
        {
        case 0: if (raw.size()) raw.resize(choose(F, raw.size())); fault("truncated-input"); break;
        case 1: for (int k=1+choose(F, 3);k-- && raw.size();) raw[choose(F, raw.size())]^=1+choose(F, 255); fault("corrupted-input"); break;
        case 2: break;
        }
    }
    str host=sfmt("h%d", i);
    int end=choose(F, 3); // how the peer ends
    auto fin=[end](Ch c2s, Ch s2c) { if (end==1) sleep_us(logsize(N, 5000000)); if (end==2) { s2c->rst=true; c2s->rst=true; touch(); fault("connection-reset"); } };
    switch (s.kind)
    {
    case 0: case 1:
        s.name=sfmt("in%d", i)+comp_ext[s.c]; s.url= choose(W, 2)? "file://"+s.name : s.name;
        fs_put(s.name, raw);
        if (damage && choose(F, 3)==2) { fs[s.name]->fail_read_at=choose(F, raw.size()+1); fs[s.name]->fail_errno=EIO; s.damaged=true; }
        break;
    case 2: s.url="tcp://"+host+":70/x"+comp_ext[s.c]; net_host(host, [=](Ch c2s, Ch s2c, int) { send_chunks(s2c, raw, 5000, 200000); fin(c2s, s2c); }); if (end==2) s.damaged=true; break;
    case 3: s.url="telnet://"+host; { str t=telnet_noise(W, raw); net_host(host, [=](Ch c2s, Ch s2c, int) { send_chunks(s2c, t, 5000, 200000); fin(c2s, s2c); }); if (end==2) s.damaged=true; } break;
    case 4: s.url="termcast://"+host+"/bob"; s.damaged=true; { str t=telnet_noise(W, "\e[2J\r\n\e[3d a) bob (idle 3s)\r\n"), u=telnet_noise(W, s.want); bool talk=choose(F, 3);
            net_host(host, [=](Ch c2s, Ch s2c, int) { send_chunks(s2c, t, 60, 200000); if (talk) { char b; while (ch_read(c2s, &b, 1, "menu choice")==1 && b!='a') ; } send_chunks(s2c, u, 5000, 200000); fin(c2s, s2c); }); } break;
    case 5: s.url="http://"+host+"/x"+comp_ext[s.c]; break;
    }
    if (s.kind==5)
    {
        static std::map<str,std::pair<str,int>> *web; if (!web) web=new std::map<str,std::pair<str,int>>; 
        (*web)[s.url]={raw, damage? (int)choose(F, 3) : 0};
        on_curl_get=[](const str &u, std::function<bool(const char*,size_t)> sink, str &err) -> int {
            auto it=web->find(u); if (it==web->end()) { err="Not found"; return 22; }
            const str &d=it->second.first; size_t at=0, stop= it->second.second==1? choose(F, d.size()+1) : d.size();
            while (at<stop) { size_t k=1+logsize(N, 16000); if (k>stop-at) k=stop-at; if (chance(N, 1, 8)) sleep_us(logsize(N, 300000)); if (!sink(d.data()+at, k)) { err="Failed writing received data"; return 23; } at+=k; }
            if (it->second.second==1) { err="Connection reset"; return 56; }
            return 0;
        };
    }
    describe("%s %zu bytes%s; ", s.url.c_str(), s.want.size(), s.damaged? " damaged" : "");
}

// whether it's a beginning of what it should be, perhaps followed by (a beginning of) a decompressor's message
static bool cut_short(const str &got, const str &want)
{
    size_t d=first_diff(got, want);
    if (d>=got.size()) return true;
    for (const str &m : {str("Invalid/corrupt .gz file.\n"), str("Invalid/corrupt .bz2 file.\n"), str("\033[0mgzip: Error during decompression.\n"), str("\033[0mbzip2: Error during decompression.\n")})
        for (size_t q=d;;q--)
        {
            { str r=got.substr(q); if (r.size()<=m.size() && !m.compare(0, r.size(), r)) return true; }
            if (!q || q+m.size()<d) break;
        }
    return false;
}
static void abandon(bool oom)
{
    draw_sched_config(); draw_jitter();
    faults.strict_fds=true;
    int n=1+choose(W, 4);
    std::vector<Src> ss(n);
    for (int i=0;i<n;i++)
    {
        make_src(ss[i], i, chance(F, 1, 4));
        ss[i].quota= choose(W, 3)==0? (u32)-1 : choose(W, 3)==0? 0 : logsize(W, ss[i].want.size()+100);
    }
    bool out=chance(W, 1, 3);
    str odata; Comp oc=(Comp)(1+choose(W, 4));
    if (out) odata=payload(100000);
    int failing= oom? 4 : chance(F, 1, 4)? 1+choose(F, 4) : 0;
    if (failing==1) faults.fail_pipe=1+choose(F, n+1);
    if (failing==2) faults.fail_thread=1+choose(F, n+1);
    if (failing==3) faults.fail_dup=1;
    if (failing==4) faults.fail_malloc=1+choose(F, 2*n), faults.fail_malloc_span= oom && choose(F, 3)==0? 1+choose(F, 4) : 1, out=false;
    Proc *p=mkproc("program");
    std::vector<int> mine;
    Ofd mr, mw; make_pipe(mr, mw, 65536);
    Ch mych=mr->rd;
    start_main(p, [&]() -> int {
        std::vector<Src*> live;
        int ofd=-1;
        i64 mem=faults.malloc_live;
        if (out) { faults.strict_fds=true; ofd=open_stream(-1, (str("out")+comp_ext[oc]).c_str(), SM_WRITE, 0); }
        for (auto &s : ss)
        {
            const char *err=(const char*)1;
            faults.malloc_armed= failing==4;
            char *u=strdup(s.url.c_str());
            int own=-1;
            if (s.kind<=1 && chance(W, 1, 4)) own=fd_install(p, open_ino(fs[s.name], 0));
            s.fd=open_stream(own, u, SM_READ, &err);
            faults.malloc_armed=false;
            memset(u, 'Z', strlen(u)); free(u);
            if (s.fd==-1)
            {
                if (!failing) fail("open-failed", "open_stream(%s) failed: %s", s.url.c_str(), err==(const char*)1? "?" : err? err : "(no message)");
                if (!err || err==(const char*)1) fail("no-message", "open_stream(%s) failed without an error message", s.url.c_str());
                s.closed=true;
                continue;
            }
            live.push_back(&s);
        }
        // reuse descriptors as they become free
        auto grab=[&]{ int f=fd_install(p, choose(W, 2)? mw : open_null(), OWN_HARNESS); if (p->fds[f]==mw && 0) mw->refs++; mine.push_back(f); };
        while (!live.empty())
        {
            size_t k=choose(W, live.size());
            Src &s=*live[k];
            char buf[9000];
            bool fin=false;
            if (s.got.size()<s.quota)
            {
                i64 r=h_read(p, s.fd, buf, 1+logsize(W, sizeof(buf)-1));
                if (r>0) s.got.append(buf, r);
                else { fin=true; s.eof= r==0; if (r<0 && !s.damaged) fail("read-failed", "reading %s failed: %s", s.url.c_str(), strerror(errno)); }
            }
            else fin=true;
            if (fin) { if (chance(W, 1, 4)) sleep_us(logsize(W, 1000000)); h_close(p, s.fd); s.closed=true; live.erase(live.begin()+k); if (mine.size()<30 && choose(W, 2)) grab(); }
            if (chance(W, 1, 20)) sleep_us(logsize(W, 100000));
            if (ofd!=-1 && chance(W, 1, 3) && odata.size()) {}
        }
        if (ofd!=-1) { write_some(p, ofd, odata); h_close(p, ofd); }
        grab();
        wait_no_fds(p, "after every stream was closed");
        for (int i=0;i<200 && oom && faults.malloc_live>mem+200;i++) sleep_us(1000);
        if (oom && faults.malloc_live>mem+200) fail("leak", "%lld bytes are still allocated after every stream was closed", (long long)(faults.malloc_live-mem));
        for (int f : mine) h_close(p, f);
        check_fds();
        return 3;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "a program that abandoned its streams");
    check_fds();
    if (p->killed) fail("KILLED", "the program was killed by signal %d", p->killed);
    if (p->code!=3) fail("exit-code", "the program exited with %d, it asked for 3", p->code);
    if (mych->total) fail("fd-misuse", "%zu bytes appeared in a pipe of the program's own", (size_t)mych->total);
    if (sim_gai_live()) fail("leak", "%d address records not freed", sim_gai_live());
    for (auto &s : ss)
    {
        if (s.fd==-1 || s.damaged) continue;
        if (failing==4 && faults.n_malloc>=faults.fail_malloc && cut_short(s.got, s.want)) continue; // ends with a message
        if (s.got.size()>s.want.size() || s.want.compare(0, s.got.size(), s.got)) fail("disturbed", "%s: read %zu bytes, wrong from %zu on: %s", s.url.c_str(), s.got.size(), first_diff(s.got, s.want), hexs(s.got.substr(first_diff(s.got, s.want))).c_str());
        if (s.eof && s.got!=s.want && !(failing==4 && faults.n_malloc>=faults.fail_malloc)) fail("disturbed", "%s ended after %zu of %zu bytes", s.url.c_str(), s.got.size(), s.want.size());
    }
    if (out && !failing)
    {
        str got; Dec d=decompress(oc, fs_get(str("out")+comp_ext[oc]), got);
        if (d!=D_OK || got!=odata) fail("disturbed", "the output stream holds %zu of %zu bytes", got.size(), odata.size());
    }
}

WORKLOAD(C07, c07_abandon, 3) { abandon(false); }
WORKLOAD(C27, c27_streams, 2) { abandon(true); }

// readers and writers of recordings: the library's own descriptors are closed exactly once
static void cb_wait(const struct timeval *, void *) {}
static void cb_print(const char *, int n, void *a) { *(size_t*)a+=n; }
WORKLOAD(C07, c07_records, 1)
{
    draw_sched_config(); draw_jitter();
    faults.strict_fds=true;
    Proc *p=mkproc("program");
    int n=1+choose(W, 5);
    std::vector<int> what(n); for (auto &w : what) w=choose(W, 10);
    int ofail=choose(F, 3); u32 oat=logsize(F, 20000);
    std::vector<Ev> ev; for (int i=choose(W, 6);i--;) ev.push_back({i*1000000LL, textish(1+choose(W, 300))});
    std::sort(ev.begin(), ev.end(), [](const Ev &a, const Ev &b) { return a.t<b.t; });
    for (int w : what) { describe("%d ", w); if (w==8) p->sig[13].h=(void(*)(int))1; }   // it wants to hear of failures
    faults.write_errno= choose(F, 2)? ENOSPC : EIO;
    start_main(p, [&]() -> int {
        std::vector<int> mine;
        int i=0;
        for (int w : what)
        {
            Comp c=(Comp)choose(W, 5);
            str name=sfmt("f%d.ttyrec", i++)+comp_ext[c];
            size_t got=0;
            switch (w)
            {
            case 0: case 1: // play
                if (choose(W, 2)) // another format
                {
                    Fmt f=(Fmt)choose(W, 6); str raw;
                    if (f==F_DM2) { std::vector<DosFrame> fr; gen_dos(raw, fr); if (choose(W, 2)) raw=compress(C_GZ, raw); }
                    else { GenOpt o=opt_for(f); o.big=false; o.maxev=5; o.maxdata=500; raw=encode_as(f, gen_events(o), 0, 80, 25, false).raw; }
                    name=sfmt("f%d%s", i-1, fmt_ext[f])+comp_ext[c];
                    fs_put(name, compress(w? C_NONE : c, raw));
                    int own= w? fd_install(p, open_ino(fs[name], 0)) : -1;
                    if (!ttyrec_r_play(own, 0, name.c_str(), 0, cb_wait, cb_print, &got)) fail("open-failed", "ttyrec_r_play(%s) failed", name.c_str());
                    if (!got && !raw.empty() && f!=F_ANSI && f!=F_TTYREC && f!=F_NH) fail("disturbed", "%s plays as nothing", name.c_str());
                    break;
                }
                fs_put(name, compress(w? C_NONE : c, enc_ttyrec(ev, 0))); // a descriptor's data is taken as is
                { int own=-1; if (w) own=fd_install(p, open_ino(fs[name], 0));
                if (!ttyrec_r_play(own, 0, name.c_str(), 0, cb_wait, cb_print, &got)) fail("open-failed", "ttyrec_r_play(%s) failed", name.c_str()); }
                if (got!=cat_data(ev).size()) fail("disturbed", "%s plays as %zu bytes of %zu", name.c_str(), got, cat_data(ev).size());
                break;
            case 2: { int own= choose(W, 2)? fd_install(p, open_ino(fs_put(name, ""), 0)) : -1; if (ttyrec_r_play(own, "nonsense", name.c_str(), 0, cb_wait, cb_print, &got)) fail("no-error", "unknown format accepted"); break; }
            case 3: { int own= choose(W, 2)? fd_install(p, open_ino(fs_put(name, ""), 1)) : -1; faults.strict_fds= own!=-1; if (ttyrec_w_open(own, "nonsense", name.c_str(), 0)) fail("no-error", "unknown format accepted"); faults.strict_fds=true; break; }
            case 4: if (ttyrec_r_play(-1, 0, "missing.ttyrec.gz", 0, cb_wait, cb_print, &got)) fail("no-error", "missing file accepted"); break;
            case 5: { recorder r=ttyrec_w_open(-1, 0, name.c_str(), 0); if (!r) fail("open-failed", "ttyrec_w_open(%s)", name.c_str()); struct timeval tv={5,0}; ttyrec_w_write(r, &tv, "abc", 3); if (!ttyrec_w_close(r)) fail("write-failed", "ttyrec_w_close(%s)", name.c_str()); break; }
            case 6: { const char *err=(const char*)1; const char *u[]={"telnet://h0/x", "termcast://h0/bob", "tcp://nohost:5/", "telnet://nohost", "tcp://h0", "tcp://h0:99999", "termcast://h0", "http://h0/x"}; int k=choose(W, 8);
                net_host("h0", [](Ch c2s, Ch s2c, int) { char b[10]; ch_read(c2s, b, 10, "server"); });
                int m= k<2? SM_WRITE : k==7? (choose(W, 2)? SM_REPREAD : SM_APPEND) : SM_READ;
                int fd=open_stream(-1, u[k], m, &err);
                if (fd!=-1) fail("no-error", "%s was opened", u[k]);
                if (!err || err==(const char*)1) fail("no-message", "opening %s failed without a message", u[k]);
                break; }
            case 7: { ttyrec t=ttyrec_load(-1, 0, name.c_str(), 0); if (t) fail("no-error", "missing recording loaded"); fs_put(name, compress(c, enc_ttyrec(ev, 0))); t=ttyrec_load(-1, 0, name.c_str(), 0); if (!t) fail("open-failed", "ttyrec_load"); if (!ttyrec_save(t, -1, 0, ("copy"+name).c_str(), 0, 0)) fail("write-failed", "ttyrec_save"); ttyrec_free(t); break; }
            case 8: { // a recorder whose disk is full, or fails
                i64 have=0; for (auto &x : fs) have+=x.second->data.size();
                if (ofail==0) faults.disk_cap=have+oat; else faults.write_fail_at=faults.n_writes+1+oat%20;
                recorder r=ttyrec_w_open(-1, 0, name.c_str(), 0); struct timeval tv={5,0}; bool stubborn=choose(W, 2); str d=payload(30000);
                if (r) { for (int q=1+choose(W, 12);q--;) { tv.tv_sec++; if (!ttyrec_w_write(r, &tv, d.data(), d.size()) && !stubborn) break; } ttyrec_w_close(r); }
                wait_no_fds(p, "after a recording whose output failed was closed");
                faults.disk_cap=-1; faults.write_fail_at=-1;
                break; }
            case 9: { // the program's own input and output, by their usual name
                const char *err=(const char*)1; bool wr=choose(W, 2);
                int fd=open_stream(-1, "-", wr? SM_WRITE : SM_READ, &err);
                if (fd==-1) fail("open-failed", "opening - failed: %s", err==(const char*)1? "?" : err? err : "(no message)");
                if (wr) { if (h_write(p, fd, "said", 4)!=4) fail("write-failed", "writing to - failed"); }
                else { char b[10]; i64 k=h_read(p, fd, b, 10); if (k<0) fail("read-failed", "reading - failed"); }
                h_close(p, fd);
                if (!p->fds[wr? 1 : 0]) fail("disturbed", "closing the stream \"-\" closed the program's own standard %s", wr? "output" : "input");
                break; }
            }
            mine.push_back(fd_install(p, open_null(), OWN_HARNESS));
        }
        wait_no_fds(p, "after every recording was closed");
        for (int f : mine) h_close(p, f);
        check_fds();
        return 3;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "a program that read and wrote recordings");
    check_fds();
    if (p->killed) fail("KILLED", "the program was killed by signal %d", p->killed);
    if (p->code!=3) fail("exit-code", "the program exited with %d, it asked for 3", p->code);
    if (sim_gai_live()) fail("leak", "%d address records not freed", sim_gai_live());
}

// C29: streams abandoned or failing, again and again
WORKLOAD(C29, c29_abandon, 2)
{
    draw_sched_config(); draw_jitter();
    cfg.max_points=4000000; cfg.max_bbs=3000000000ULL;
    int n=1+choose(W, 3), times=4+logsize(W, 40);
    std::vector<Src> ss(n);
    for (int i=0;i<n;i++)
    {
        make_src(ss[i], i, chance(F, 1, 3));
        ss[i].quota= choose(W, 3)==0? (u32)-1 : choose(W, 3)==0? 0 : logsize(W, ss[i].want.size()+100);
    }
    Comp oc=(Comp)choose(W, 5); str odata=payload(30000);
    int bad=choose(W, 9); static const char *B[]={"missing.gz", "tcp://nohost:5/", "tcp://ss:99999/", "telnet://nohost", "termcast://ss", "nosuch://x", "tcp://ss/x", "http://ss/x"};
    int failing=choose(F, 5); u32 when=choose(F, 2*n+2);      // something cannot be had now and then
    describe("%d times%s%s", times, bad<8? ", and " : "", bad<8? B[bad] : "");
    Proc *p=mkproc("program");
    p->sig[13].h=(void(*)(int))1;
    start_main(p, [&]() -> int {
        Holds first;
        for (int k=0;k<times;k++)
        {
            if (k && failing==1) faults.fail_pipe=faults.n_pipe+1+when;
            if (k && failing==2) faults.fail_thread=faults.n_thread+1+when;
            if (k && failing==3) faults.malloc_armed=true, faults.fail_malloc=faults.n_malloc+1+when, faults.fail_malloc_span=1;
            std::vector<Src*> live;
            for (auto &s : ss) { s.got.clear(); s.fd=open_stream(-1, s.url.c_str(), SM_READ, 0); if (s.fd!=-1) live.push_back(&s); }
            while (!live.empty())
            {
                size_t q=choose(N, live.size()); Src &s=*live[q]; char b[9000]; i64 r=0;
                if (s.got.size()<s.quota) { r=h_read(p, s.fd, b, 1+logsize(N, sizeof(b)-1)); if (r>0) s.got.append(b, r); }
                if (r<=0) { h_close(p, s.fd); live.erase(live.begin()+q); }
            }
            if (bad<8) { const char *e; int fd=open_stream(-1, B[bad], choose(N, 2)? SM_READ : SM_WRITE, &e); if (fd!=-1) h_close(p, fd); }
            { int fd=open_stream(-1, (str("o")+comp_ext[oc]).c_str(), SM_WRITE, 0); if (fd!=-1) { for (size_t at=0;at<odata.size();) { i64 r=h_write(p, fd, odata.data()+at, std::min<size_t>(odata.size()-at, 1+logsize(N, 9000))); if (r<=0) break; at+=r; } h_close(p, fd); } }
            faults.malloc_armed=false;
            if (k<2) first=quiet(p, 0);
            else if (k==times-1 || chance(N, 1, 8))
            {
                Holds h=quiet(p, &first);
                if (h.mem>first.mem) fail("memory", "after %d times %lld bytes are held, after 2 times it was %lld", k+1, (long long)h.mem, (long long)first.mem);
                if (h.threads>first.threads) fail("threads", "after %d times there are %d threads left, after 2 times %d", k+1, h.threads, first.threads);
                if (h.fds>first.fds) fail("descriptors", "after %d times there are %d descriptors open, after 2 times %d: %s", k+1, h.fds, first.fds, fd_report(p).c_str());
            }
        }
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 400LL*3600*1000000);
    expect_end(p, st, "opening and abandoning streams again and again");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
}

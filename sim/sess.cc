#include "sess.h"
#include "internal.h"
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include <algorithm>

bool is_prefix(const str &a, const str &b) { return a.size()<=b.size() && !memcmp(a.data(), b.data(), a.size()); }
static i64 gap(bool gaps)
{
    if (!gaps) return logsize(W, 30000);
    switch (choose(W, 8))
    {
    case 0: return 0;
    case 1: return 1+choose(W, 20);
    case 2: case 3: case 4: return logsize(W, 300000);
    case 5: case 6: return logsize(W, 20000000);
    default: return choose(W, 6)? 1000000LL*(1+choose(W, 60)) : 1000000LL*logsize(W, 40000);
    }
}
void Sess::plan(const SessOpt &o)
{
    f=(Fmt)pick(W, o.fmts);
    comp= o.noise? (Comp)pick(W, std::vector<int>{C_GZ, C_GZ, C_ZST, C_XZ, C_BZ2}) : o.comp && choose(W, 3)==0? (Comp)choose(W, 5) : C_NONE;
    utf=choose(W, 2);
    static const char *wext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"};
    static const char *wname[]={"ansi", "ttyrec", "nh_recorder", "asciicast-v1", "asciicast"};
    args={"termrec"};
    bool byf=choose(W, 4)==0;
    path=str("session")+(byf? (choose(W, 2)? "" : ".log") : wext[f])+comp_ext[comp];
    if (byf && f==F_TTYREC && choose(W, 2)) byf=false;      // the default format
    if (byf) { args.push_back(choose(W, 2)? "-f" : "--format"); args.push_back(wname[f]); }
    if (choose(W, 6)==0) raw=true, args.push_back("-r");
    if (o.append && choose(W, 8)==0 && (f==F_TTYREC || f==F_ANSI))
    {
        append=true, args.push_back("-a");
        if (choose(W, 3)) old= f==F_ANSI? str("earlier\r\n") : enc_ttyrec({{0, "earlier\r\n"}}, epoch-3600000000LL), fs_put(path, compress(comp, old));
    }
    if (!append && o.append && choose(W, 8)==0) stale=str(200+logsize(W, 3000000), '#'), fs_put(path, stale);    // to be overwritten
    args.push_back("-e"); args.push_back(choose(W, 2)? "program" : "prog -x 'a  b'");
    args.push_back(path);
    // the program
    bool cast= f==F_CAST1 || f==F_CAST2;
    int n=o.small? 1+choose(W, 4) : o.minbursts+logsize(W, o.maxbursts-o.minbursts);
    u32 maxb=1+logsize(W, o.maxburst);
    str all;
    for (int i=0;i<n;i++)
    {
        Step s; s.gap=gap(o.gaps);
        u32 k=1+o.minburst+logsize(W, maxb-1);
        if (o.noise) { u32 b=choose(W, 1<<20)*2+1; s.d.resize(k); for (u32 j=0;j<k;j++) b=b*1664525u+1013904223u, s.d[j]= cast || f==F_NH? '!'+(b>>24)%90 : (char)(b>>24); }
        else if (cast) s.d=utf8_payload(k);
        else if (choose(W, 2)) s.d=textish(k);
        else if (choose(W, 3)==0) { u32 b=choose(W, 1<<20)*2+1; s.d.resize(k); for (u32 j=0;j<k;j++) b=b*1664525u+1013904223u, s.d[j]=(char)(b>>24); }   // incompressible
        else { u32 b=choose(W, 1<<20), m=choose(W, 2)? 90 : 256; s.d.resize(k); for (u32 j=0;j<k;j++) s.d[j]=m==90? '!'+(b+j+j/91)%90 : (char)(b+j*7+j/251); }
        if (f==F_NH) for (auto &c : s.d) if (!c) c='0';
        out.push_back(s); all+=s.d;
    }
    // what only the recorder inserts must not come from the program
    for (const char *bad : {"\e[8;", "\e%G"})
        for (size_t k=0;(k=all.find(bad, k))!=str::npos;) all[k]='?';
    { size_t at=0; for (auto &s : out) s.d=all.substr(at, s.d.size()), at+=s.d.size(); }
    mode=choose(W, 3); ending=choose(W, 3); status=choose(W, 2)? 0 : choose(W, 256)<<8;
    if (o.typing && choose(W, 3))
    {
        n=1+logsize(W, 20); u32 maxt=1+logsize(W, choose(W, 5)? 40 : 9000);
        for (int i=0;i<n;i++) { Step s; s.gap=gap(o.gaps); u32 k=1+logsize(W, maxt-1), b=choose(W, 1<<16); s.d.resize(k); for (u32 j=0;j<k;j++) s.d[j]=b+j*3+j/83; typed_plan.push_back(s); }
    }
    if (o.resizes && choose(W, 2)) { n=1+logsize(W, 8); for (int i=0;i<n;i++) rz.push_back({gap(o.gaps), (int)(2+logsize(W, 300)), (int)(1+logsize(W, 200))}); }
    if (o.signals && choose(F, 3)==0) { static const int S[]={SIGTERM, SIGHUP, SIGINT, SIGQUIT, SIGTSTP, SIGWINCH}; n=1+logsize(F, 12); for (int i=0;i<n;i++) sg.push_back({gap(o.gaps), S[choose(F, 6)]}); }
    if (o.pressure)
    {
        // everything at once, and nobody fast enough
        slow_term=1+logsize(N, 20000); if (choose(N, 2)) slow_prog=1+logsize(N, 20000);
        sg.clear(); n=5+choose(F, 60); for (int i=0;i<n;i++) sg.push_back({(i64)logsize(F, 20000), choose(F, 3)? SIGWINCH : SIGTERM});
        for (auto &x : rz) x.gap%=200000;
        for (auto &x : out) x.gap%=50000;
        for (auto &x : typed_plan) x.gap%=50000;
    }
    if (o.eof && choose(F, 5)==0) { user=1+choose(F, 2); user_gap=gap(o.gaps); }
    if (!o.pressure && choose(N, 3)==0) slow_term=1+logsize(N, 50000);
    if (!o.pressure && choose(N, 4)==0) slow_prog=1+logsize(N, 50000);
    int cols= choose(W, 12)==0? 0 : 2+logsize(W, 300), rows= cols? 1+logsize(W, 150) : 0;
    if (choose(W, 30)==0) { if (cols) (choose(W, 2)? cols : rows)=0; else rows=1+choose(W, 50); }      // half a size is none
    tty=make_tty("terminal", cols, rows);
    tty->tio.c_lflag^= choose(W, 3)==0? ECHO : 0; tty->tio.c_iflag^= choose(W, 3)==0? IXON : 0; tty->tio.c_cc[VERASE]= choose(W, 2)? 127 : 8;
    tty->initial=tty->tio;
    if (choose(W, 3)) epoch+=choose(W, 1000000);
    describe("%s%s%s%s, %zu bytes in %zu bursts, mode %d, ending %d, %zu inputs, %zu resizes, %zu signals%s%s%s", path.c_str(), byf? str(" -f ").append(wname[f]).c_str() : "", raw? " -r" : "", append? " -a" : "",
        all.size(), out.size(), mode, ending, typed_plan.size(), rz.size(), sg.size(), user==1? ", user ends input" : user==2? ", terminal hangs up" : "", slow_term? ", slow terminal" : "", slow_prog? ", slow program" : "");
}
void Sess::upload(i64 leaves)
{
    bool local=leaves<0 && choose(W, 4)==0;
    if (local) { args.back()="file://"+path; describe(" as %s", args.back().c_str()); return; }
    old.clear(); stale.clear(); fs.erase(path);
    port=1+choose(W, 65535); sink=std::make_shared<str>();
    bool named= path!="session" && path!="session.log";
    args.back()=sfmt("tcp://rec:%d", port)+(named || choose(W, 2)? "/"+path : "");
    path=args.back();
    u32 room= choose(N, 3)? 0 : 1+logsize(N, 200000), slow= choose(N, 3)==0? 1+logsize(N, 100000) : 0;
    describe(" to %s%s", path.c_str(), leaves>=0? sfmt(" (which leaves after %lld bytes)", (long long)leaves).c_str() : "");
    net_host("rec", [=](Ch c2s, Ch, int to)
    {
        sink_port=to; c2s->store=true; if (room) c2s->cap=room;
        char b[5000];
        while (leaves<0 || (i64)sink->size()<leaves)
        {
            if (slow) sleep_us(1+choose(N, slow));
            size_t k=1+(choose(N, 2)? sizeof(b)-1 : choose(N, sizeof(b)));
            if (leaves>=0) k=std::min<i64>(k, leaves-sink->size());
            i64 n=ch_read(c2s, b, k, "the server reads");
            if (n<=0) return;
            sink->append(b, n);
        }
        if (choose(N, 2)) sleep_us(logsize(N, 3000000));
        sink_left=true; fault("server-leaves"); c2s->readers=0;
        sink->append(c2s->q, c2s->h, str::npos); c2s->pop(c2s->avail()); touch();      // whatever was still taken
    });
}
str Sess::file() const { return sink? *sink : fs_get(path); }
void Sess::start()
{
    setenv("LC_ALL", utf? "C.UTF-8" : "C", 1);
    err=capture("stderr");
    Ch pipe_out; Ofd o;
    if (out_breaks>=0) { Ofd r; make_pipe(r, o, cfg.pipe_cap); pipe_out=r->rd; } else o=open_tty(tty);
    p=mkproc("termrec", open_tty(tty), o, err->w); err->w=nullptr; o=nullptr;
    tty->fg=p;
    t0=now;
    { bool whole=tty->ws.ws_col && tty->ws.ws_row; sizes.push_back({now, whole? tty->ws.ws_col : 0, whole? tty->ws.ws_row : 0}); }
    on_exec=[this](std::shared_ptr<ChildProg> c)
    {
        if (prog) fail("program", "a second program has been started");
        prog=c; prog_t0=now;
        if (c->argv.size()!=3 || c->argv[0]!="sh" || c->argv[1]!="-c" || c->argv[2]!="exec "+args[args.size()-2])
            fail("program", "the command run is not the one asked for: \"%s\"", c->argv.empty()? "" : c->argv.back().c_str());
        if (!c->tty) fail("program", "the program has no terminal");
        if (on_prog) on_prog(*this);
        spawn_actor("program", [this,c]
        {
            size_t next=0;
            auto emit1=[&](const Step &s) -> bool {
                if (s.gap) wait_until([&]{ return c->tty->hup; }, now+s.gap, "program's pause");
                size_t at=0;
                while (at<s.d.size())
                {
                    const Ch &ch=c->tty->out;
                    wait_for([&]{ return ch->avail()<ch->cap || !ch->readers; }, "program's output");
                    if (!ch->readers) return false;
                    size_t k=std::min(s.d.size()-at, (size_t)(ch->cap-ch->avail()));
                    ch->push(s.d.data()+at, k); emitted.append(s.d, at, k); at+=k;
                    emit.push_back({emitted.size(), now});
                    touch();
                }
                return true;
            };
            bool up=true;
            size_t total=0; for (auto &s : typed_plan) total+=s.d.size();
            bool later= user==0;        // all input will come
            if (mode==2)
            {
                size_t seen=0;
                while (up && next<out.size())
                {
                    if (later && seen<total)
                    {
                        wait_for([&]{ return received.size()>seen || c->tty->hup; }, "program waits for input");
                        if (c->tty->hup) break;
                        seen=received.size();
                    }
                    up=emit1(out[next++]);
                }
            }
            else while (up && next<out.size()) up=emit1(out[next++]);
            if (mode && later) wait_for([&]{ return received.size()>=total || c->tty->hup; }, "program waits for all input");
            if (user) wait_for([&]{ return c->tty->hup; }, "program runs until its terminal hangs up");
            auto fds=[&]{ c->tty->out->writers=0; c->tty->in->readers=0; touch(); };
            auto ex=[&]{ c->done=true; c->status=status; touch(); };
            prog_end=now;
            bool daemon= choose(N, 4)==0;       // leaves a process behind that closed its terminal but nothing else
            if (daemon && c->kept.size()) probe("a daemon inherited descriptors");
            if (ending==0) { fds(); if (!daemon) child_release(c); ex(); }
            else if (ending==1) { fds(); sleep_us(logsize(N, 3000000)); if (!daemon) child_release(c); ex(); }
            else { ex(); sleep_us(logsize(N, 3000000)); if (!daemon) child_release(c); fds(); }
            prog_done=true; touch();
        });
        spawn_actor("program's reader", [this,c]
        {
            char b[4096];
            while (1)
            {
                if (slow_prog) sleep_us(1+choose(N, slow_prog));
                wait_for([&]{ return c->tty->in->avail() || !c->tty->in->writers || !c->tty->in->readers; }, "program's input");
                if (!c->tty->in->readers || !c->tty->in->avail()) break;
                i64 r=ch_try_read(c->tty->in, b, slow_prog? 1+choose(N, sizeof(b)) : sizeof(b));
                if (r<=0) break;
                received.append(b, r); recv.push_back({received.size(), now}); touch();
            }
        });
    };
    if (pipe_out) spawn_actor("pager", [this,pipe_out]
    {
        char b[4096];
        while ((i64)shown.size()<out_breaks)
        {
            if (slow_term) sleep_us(1+choose(N, slow_term));
            i64 r=ch_read(pipe_out, b, std::min<i64>(sizeof(b), out_breaks-shown.size()), "pager");
            if (r<=0) return;
            shown.append(b, r); show.push_back({shown.size(), now}); touch();
        }
        out_broke=true; fault("reader-of-output-leaves");
        ch_close_r(pipe_out); touch();
    });
    else spawn_actor("terminal", [this]
    {
        char b[8192];
        while (1)
        {
            if (slow_term) { wait_for([&]{ return tty->out->avail(); }, "terminal"); sleep_us(1+choose(N, slow_term)); }
            i64 r=ch_read(tty->out, b, slow_term? 1+choose(N, sizeof(b)) : sizeof(b), "terminal");
            if (r<=0) break;
            shown.append(b, r); show.push_back({shown.size(), now}); touch();
        }
    });
    if (typed_plan.size() || user)
        spawn_actor("user", [this]
        {
            for (auto &s : typed_plan)
            {
                wait_until([&]{ return p->dead || tty->hup; }, now+s.gap, "user's pause");
                size_t at=0;
                while (at<s.d.size())
                {
                    const Ch &ch=tty->in;
                    wait_for([&]{ return ch->avail()<ch->cap || p->dead || tty->hup; }, "typing");
                    if (p->dead || tty->hup) return;
                    size_t k=std::min(s.d.size()-at, (size_t)(ch->cap-ch->avail()));
                    tty_type(tty, s.d.data()+at, k); typed.append(s.d, at, k); at+=k; type.push_back({typed.size(), now});
                    touch();
                }
            }
            if (user)
            {
                wait_for([&]{ return p->dead || tty->history.size(); }, "set up");
                wait_until([&]{ return p->dead; }, now+user_gap, "user's pause");
                user_end=now; fault(user==2? "terminal-hangup" : "end-of-input");
                ch_close_w(tty->in);
                if (user==2) { tty->hup=true; tty->out->readers=0; touch(); send_signal(p, SIGHUP); }
                touch();
            }
        });
    if (rz.size())
        spawn_actor("resizes", [this]
        {
            for (auto &r : rz)
            {
                wait_until([&]{ return p->dead; }, now+r.gap, "user's pause");
                if (p->dead) return;
                ::sim::tty_resize(tty, r.cols, r.rows);
                sizes.push_back({now, r.cols, r.rows}); fault("window-resize");
            }
        });
    if (sg.size())
        spawn_actor("signals", [this]
        {
            wait_for([&]{ return p->dead || (p->sig[SIGPIPE].h && tty->history.size()); }, "set up");
            for (auto &s : sg)
            {
                wait_until([&]{ return p->dead; }, now+s.gap, "pause");
                if (p->dead) return;
                sent.push_back({now, s.sig}); fault(s.sig==SIGWINCH? "stray-SIGWINCH" : "signal");
                send_signal(p, s.sig); touch();
            }
        });
    start_main(p, [this]() -> int { return run_args(termrec_main, args); });
}
void Sess::finish(i64 limit)
{
    Stop st=run_proc(p, limit);
    if (!p->dead)
    {
        fail("HANG", "the recorder %s at %s s; %zu bytes written by the program, %zu shown, %zu of %zu typed bytes received; threads: %s",
            st==STOP_DEADLOCK? "is deadlocked" : st==STOP_TIME? "is still running" : "runs without end", tvs(now).c_str(), emitted.size(), shown.size(), received.size(), typed.size(), blocked_report());
    }
    tend=now;
    run([&]{ return !tty->out->avail() && err->eof; }, now+3600*1000000LL);
}

static bool take_sizes(const str &d, std::vector<Sizes> &sz, str &clean, i64 t)
{
    size_t i=0; bool any=false;
    while (i<d.size())
    {
        if (d[i]=='\e' && d.compare(i, 3, "\e%G")==0) { i+=3; any=true; continue; }
        int r, c, n=0;
        if (d[i]=='\e' && d.compare(i, 4, "\e[8;")==0 && sscanf(d.c_str()+i, "\e[8;%d;%dt%n", &r, &c, &n)==2 && n) { sz.push_back({t, c, r}); i+=n; any=true; continue; }
        clean+=d[i++];
    }
    return any;
}
Recorded decode_session(Fmt f, Comp c, const str &file, bool raw)
{
    Recorded o; str s;
    Dec d=decompress(c, file, s);
    o.truncated= d!=D_OK; o.stored=s.size();
    Rec r;
    bool ok=true;
    switch (f)
    {
    case F_ANSI: r.ev.push_back({0, s}); break;
    case F_TTYREC: ok=dec_ttyrec(s, r); break;
    case F_NH: ok=dec_nh(s, r); break;
    default: ok=dec_cast(s, r); break;
    }
    o.ok=ok && d==D_OK; o.why= d!=D_OK? "incomplete compressed data" : r.why;
    o.timed= f!=F_ANSI;
    o.rel= f==F_NH || f==F_CAST1;
    o.prec= f==F_NH? 10000 : f==F_CAST1? (i64)r.ev.size()+2 : f==F_CAST2? 1 : 0;
    if (r.cols && !raw) o.sizes.push_back({o.rel? 0 : r.start, r.cols, r.rows});
    i64 base= o.rel? 0 : r.start;
    o.events=r.ev; o.cols=r.cols; o.rows=r.rows;
    // an event may end in the middle of a size sequence only if the file is cut there
    for (auto &e : r.ev)
    {
        o.rawdata+=e.d;
        if (raw) o.data+=e.d;
        else take_sizes(e.d, o.sizes, o.data, base+e.t);
        o.at.push_back({o.data.size(), base+e.t});
    }
    return o;
}
// every byte is stamped between its emission and its appearance on the terminal
void check_times(Sess &s, Recorded &r)
{
    if (!r.timed) return;
    i64 lo=INT64_MIN, hi=INT64_MAX; size_t lo_at=0, hi_at=0;     // bounds of the base for relative formats
    size_t e=0, d=0, at=0;
    for (auto &x : r.at)
    {
        // the bytes at..x.first-1 carry the time x.second
        while (at<x.first)
        {
            while (e<s.emit.size() && s.emit[e].first<=at) e++;
            while (d<s.show.size() && s.show[d].first<=at) d++;
            i64 em= e<s.emit.size()? s.emit[e].second+epoch : INT64_MIN/4;
            size_t next=x.first;
            if (e<s.emit.size() && s.emit[e].first<next) next=s.emit[e].first;
            i64 dm=INT64_MAX;
            if (d<s.show.size())
            {
                dm=s.show[d].second+epoch;
                if (s.show[d].first<next) next=s.show[d].first;
                // asciicast holds whole characters only: the beginning of one may come with its end
                if (s.f==F_CAST1 || s.f==F_CAST2)
                {
                    size_t q=at; while (q && q<s.emitted.size() && ((u8)s.emitted[q]&0xc0)==0x80) q--;
                    size_t z=q+1; while (z<s.emitted.size() && ((u8)s.emitted[z]&0xc0)==0x80) z++;
                    if (z>q+1 && s.show[d].first<z)
                    {
                        size_t dd=d; while (dd<s.show.size() && s.show[dd].first<z) dd++;
                        dm= dd<s.show.size()? s.show[dd].second+epoch : INT64_MAX;
                    }
                    if (z>q+1) next=std::min(next, z); else next=std::min(next, at+1);
                }
            }
            if (!r.rel)
            {
                if (x.second+r.prec<em) fail("stamp-early", "byte %zu is stamped %s s, but the program wrote it at %s s", at, tvs(x.second).c_str(), tvs(em).c_str());
                if (dm!=INT64_MAX && x.second-r.prec>dm) fail("stamp-late", "byte %zu is stamped %s s, but it was on the terminal at %s s", at, tvs(x.second).c_str(), tvs(dm).c_str());
            }
            else
            {
                if (em-x.second-r.prec>lo) lo=em-x.second-r.prec, lo_at=at;
                if (dm!=INT64_MAX && dm-x.second+r.prec<hi) hi=dm-x.second+r.prec, hi_at=at;
            }
            at=next;
        }
    }
    if (r.rel && lo>hi) fail("stamp-drift", "the times of bytes %zu and %zu are %s s further apart than can be", lo_at, hi_at, tvs(lo-hi).c_str());
}

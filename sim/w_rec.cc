// C01: the recorder relays and captures; C02: its timing; C03: what survives its death; C18: signals and terminal settings
#include "sess.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <signal.h>
#include <algorithm>

static str ext_after(Sess &s, const str &file)     // what this session added to the file, for -a
{
    str stored=file, pre=compress(s.comp, s.old);
    if (s.old.empty()) return stored;
    if (!is_prefix(pre, stored)) fail("append", "the file's old contents are gone");
    return stored.substr(pre.size());
}
static void check_session(Sess &s)
{
    if (s.p->killed) fail("KILLED", "the recorder was killed by signal %d", s.p->killed);
    if (s.p->code || !s.err->data.empty()) fail("status", "the recorder exited with %d and the message \"%s\" though nothing failed", s.p->code, hexs(s.err->data, 200).c_str());
    if (!s.prog) fail("program", "the program has never been started");
    if (!s.prog->done) fail("program", "the recorder ended before the program");
    if (!is_prefix(s.received, s.typed)) { size_t d=first_diff(s.received, s.typed); fail("input", "byte %zu of what the program received is not what was typed: \"%s\" instead of \"%s\"", d, hexs(s.received.substr(d), 40).c_str(), hexs(s.typed.substr(d), 40).c_str()); }
    bool full= s.user==0;
    if (full? s.shown!=s.emitted : !is_prefix(s.shown, s.emitted))
    { size_t d=first_diff(s.shown, s.emitted); fail("terminal", "the terminal shows %zu bytes, the program wrote %zu; at %zu: \"%s\" instead of \"%s\"", s.shown.size(), s.emitted.size(), d, hexs(s.shown.substr(d), 40).c_str(), hexs(s.emitted.substr(d), 40).c_str()); }
    str file=ext_after(s, s.file());
    Recorded r=decode_session(s.f, s.comp, file, s.raw);
    if (!r.ok) fail("recording", "the recording is damaged: %s", r.why.c_str());
    const str &want= full? s.emitted : s.user==1? s.shown : s.emitted;
    // asciicast can't hold a part of a character
    if (s.user && (s.f==F_CAST1 || s.f==F_CAST2)) { str t=s.shown.substr(std::min(s.shown.size(), r.data.size())); if (is_prefix(r.data, s.shown) && t.size()<4 && t.size() && (u8)t[0]>=0xc0 && t.find_first_of(str("\0\x01\x7f", 3))==str::npos && !utf8_ok(t)) { probe("ends within a character"); return; } }
    bool good= s.user==2? is_prefix(r.data, s.emitted) && is_prefix(s.shown, r.data) : r.data==want;
    if (!good) { size_t d=first_diff(r.data, want); fail("recording", "the recording has %zu bytes, the terminal got %zu, the program wrote %zu; at %zu: \"%s\" instead of \"%s\"", r.data.size(), s.shown.size(), s.emitted.size(), d, hexs(r.data.substr(d), 40).c_str(), hexs(want.substr(d), 40).c_str()); }
    if (s.user==0 && s.tend<s.prog_end) fail("program", "the session ended before the program");
}
static void c01(bool pressure)
{
    draw_sched_config(choose(W, 3)==0); draw_jitter();
    cfg.max_bbs=1000000000ULL;
    static const u32 sb[]={4096, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 3)];
    Sess s; SessOpt o;
    if (chance(W, 1, 20)) o.maxburst=300000;
    if (pressure) o.pressure=true, o.maxburst=60000, o.maxbursts=12;
    s.plan(o);
    nontrivial();
    s.start();
    s.finish();
    check_session(s);
    if (s.fast() && s.user==0)
    {
        // nothing is sat upon: a fast terminal shows, and a fast program gets, everything at once
        size_t j=0;
        for (auto &e : s.emit) { while (j<s.show.size() && s.show[j].first<e.first) j++; if (j<s.show.size() && s.show[j].second-e.second>2000000) fail("late", "what the program wrote at %s s was shown %s s later", tvs(e.second).c_str(), tvs(s.show[j].second-e.second).c_str()); }
        j=0;
        for (auto &e : s.type) if (s.prog_t0>=0) { while (j<s.recv.size() && s.recv[j].first<e.first) j++; i64 from=std::max(e.second, s.prog_t0); if (j<s.recv.size() && s.recv[j].second-from>2000000) fail("late", "what was typed at %s s was received %s s later", tvs(e.second).c_str(), tvs(s.recv[j].second-from).c_str()); }
    }
}

WORKLOAD(C01, c01_session, 3) { c01(false); }
WORKLOAD(C01, c01_pressure, 1) { c01(true); }
WORKLOAD(C01, c01_remote, 1)        // recorded to a server, or a file:// URL
{
    draw_sched_config(choose(W, 3)==0); draw_jitter();
    cfg.max_bbs=1000000000ULL;
    static const u32 sb[]={4096, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 3)];
    Sess s; SessOpt o; o.maxburst=8000;
    s.plan(o); s.upload();
    nontrivial();
    s.start();
    s.finish();
    settle();
    if (s.sink && s.sink_port!=s.port) fail("port", "asked to connect to port %d, it used %d", s.port, s.sink_port);
    if (s.sink && (fs_has(s.path) || fs_has("session"))) fail("stray", "a file has been made as well");
    check_session(s);
}

// ---------------------------------------------------------------- C02
static bool had_size(Sess &s, int c, int r, i64 from, i64 to)       // the terminal had this size at some moment in [from,to]
{
    for (size_t i=0;i<s.sizes.size();i++)
    {
        i64 a=s.sizes[i].t, b= i+1<s.sizes.size()? s.sizes[i+1].t : INT64_MAX;
        if (a<=to && b>=from && s.sizes[i].cols==c && s.sizes[i].rows==r) return true;
    }
    return false;
}
WORKLOAD(C02, c02_timing, 1)
{
    draw_sched_config(choose(W, 3)==0); draw_jitter();
    cfg.max_bbs=1000000000ULL;
    Sess s; SessOpt o; o.append=false; o.maxburst=8000; o.eof=choose(W, 6)==0;
    o.fmts={F_TTYREC, F_TTYREC, F_TTYREC, F_CAST2, F_CAST2, F_CAST1, F_NH};
    s.plan(o);
    nontrivial();
    s.start();
    s.finish();
    if (s.p->killed || s.p->code) fail("status", "the recorder ended with status %d, signal %d", s.p->code, s.p->killed);
    if (!s.prog) fail("program", "the program has never been started");
    Recorded r=decode_session(s.f, s.comp, fs_get(s.path), s.raw);
    if (!r.ok) fail("recording", "the recording is damaged: %s", r.why.c_str());
    if (!is_prefix(r.data, s.emitted)) fail("recording", "the recording is not what the program wrote");
    check_times(s, r);
    // sizes
    auto &ps=s.prog->tty->resizes;
    if (s.prog_t0>=0)
    {
        // when the program started its terminal was as the user's; and so is every later size
        i64 last=s.t0;
        int c0=s.prog->tty->ws.ws_col, r0=s.prog->tty->ws.ws_row;
        for (auto &x : ps) { if (!had_size(s, x.second.ws_col, x.second.ws_row, last, x.first)) fail("size", "the program's terminal was set to %dx%d at %s s, the user's was not that big", x.second.ws_col, x.second.ws_row, tvs(x.first).c_str()); last=s.t0; }
        if (ps.empty() && !had_size(s, c0, r0, s.t0, s.prog_t0)) fail("size", "the program's terminal is %dx%d from the start, the user's never was", c0, r0);
    }
    if (!s.raw)
    {
        i64 prev=INT64_MIN;
        for (auto &x : r.sizes)
        {
            if (x.cols==80 && x.rows==25 && &x==&r.sizes[0] && s.sizes[0].cols==0) continue;        // unknown size
            i64 t= r.rel? s.tend : x.t-epoch;
            if (!r.rel && s.f==F_CAST2 && &x==&r.sizes[0]) t=s.tend;    // the header has whole seconds only
            if (!had_size(s, x.cols, x.rows, s.t0, t)) fail("size", "the recording says %dx%d, the terminal was not that big until then", x.cols, x.rows);
            // and not one that had long been replaced
            if (!r.rel && prev!=INT64_MIN && !had_size(s, x.cols, x.rows, std::max(s.t0, x.t-epoch-2000000), x.t-epoch) && s.fast()) fail("size", "the recording says %dx%d at %s s, when the terminal was no longer that big", x.cols, x.rows, tvs(x.t).c_str());
            prev=x.t;
        }
        if (s.sizes[0].cols && r.sizes.empty()) fail("size", "the recording does not say how big the terminal was");
    }
    if (s.fast() && s.sizes.back().cols)
        for (size_t i=0;i<s.sizes.size();i++)
        {
            // a size that stayed for two seconds of the session has been passed on and noted in time
            i64 a=s.sizes[i].t, b= i+1<s.sizes.size()? s.sizes[i+1].t : INT64_MAX, until=a+2000000;
            i64 end=std::min(s.prog_end>=0? s.prog_end : s.tend, s.user_end>=0? s.user_end : INT64_MAX);
            if (s.prog_t0>=0 && i+1<s.sizes.size() && s.prog_t0+2000000>until) until=s.prog_t0+2000000;
            if (b<=until || end<=until || !s.sizes[i].cols) continue;
            if (i) probe("resize long enough to be noted");
            int c=0, rr=0; bool known=false;
            for (auto &x : ps) if (x.first<=until) c=x.second.ws_col, rr=x.second.ws_row, known=true;
            if (ps.empty()) c=s.prog->tty->ws.ws_col, rr=s.prog->tty->ws.ws_row, known=true;
            if (known && (c!=s.sizes[i].cols || rr!=s.sizes[i].rows)) fail("resize-lost", "two seconds after the terminal became %dx%d the program's was still %dx%d", s.sizes[i].cols, s.sizes[i].rows, c, rr);
            if (s.raw || !r.timed) continue;
            // the size the recording has at that moment
            if (r.rel) { if (i+1==s.sizes.size() && (r.sizes.empty() || r.sizes.back().cols!=s.sizes[i].cols || r.sizes.back().rows!=s.sizes[i].rows)) fail("resize-lost", "the recording does not say that the terminal became %dx%d", s.sizes[i].cols, s.sizes[i].rows); }
            else
            {
                Sizes *l=0;
                for (auto &x : r.sizes) if (x.t-epoch<=until) l=&x;
                if (!l || l->cols!=s.sizes[i].cols || l->rows!=s.sizes[i].rows) fail("resize-lost", "at %s s the terminal became %dx%d, two seconds later the recording still says %dx%d", tvs(a).c_str(), s.sizes[i].cols, s.sizes[i].rows, l? l->cols : 0, l? l->rows : 0);
            }
        }
}

// ---------------------------------------------------------------- C03
static str strip_sizes(const str &d, bool raw)
{
    if (raw) return d;
    str r;
    for (size_t i=0;i<d.size();)
    {
        int a, b, n=0;
        if (d.compare(i, 3, "\e%G")==0) { i+=3; continue; }
        if (d.compare(i, 4, "\e[8;")==0 && sscanf(d.c_str()+i, "\e[8;%d;%dt%n", &a, &b, &n)==2 && n) { i+=n; continue; }
        r+=d[i++];
    }
    return r;
}
// messages of the reader, perhaps cut off, at the end of what it played
static str drop_message(str d, bool cast, Comp c)
{
    if (cast) for (const char *m : {"Malformed asciicast: ", "Not an asciicast: ", "Unsupported asciicast version.\n"}) { size_t k=d.rfind(m); if (k!=str::npos && d.size()-k<120) { d.resize(k); break; } }
    if (c) for (const char *m : {"\e[0mgzip: Error during decompression.\n", "\e[0mbzip2: Error during decompression.\n", "Invalid/corrupt .bz2 file.\n", "Invalid/corrupt .gz file.\n"})
        for (size_t n=strlen(m);n>=1;n--) if (d.size()>=n && !d.compare(d.size()-n, n, m, n)) { d.resize(d.size()-n); return d; }
    return d;
}
static bool cut_prefix(const str &got, const str &want, size_t &bad)     // a beginning of want, perhaps with a cut off size sequence or a message after it
{
    size_t d=first_diff(got, want);
    if (d>=got.size()) return true;
    bad=d;
    static const char *seq="\e[8;";
    for (size_t e : {d, d? d-1 : d, d>1? d-2 : d, d>2? d-3 : d, d>3? d-4 : d})
    {
        str t=got.substr(e);
        if (t.size()<14 && t.size()<=3 && str("\e%G").compare(0, t.size(), t)==0) return true;
        if (t.size()<14 && !t.compare(0, std::min<size_t>(4, t.size()), seq, std::min<size_t>(4, t.size())) && t.find_first_not_of("0123456789;", std::min<size_t>(4, t.size()))==str::npos) return true;
    }
    return false;
}
static void check_remains(Sess &s, const char *what)
{
    bool cast= s.f==F_CAST1 || s.f==F_CAST2;
    if (!fs_has(s.path)) return;
    if (s.stale.size() && !s.prog && fs_get(s.path)==s.stale) return;      // ended before anything began
    str file=ext_after(s, fs_get(s.path));
    Recorded r=decode_session(s.f, s.comp, file, s.raw);
    size_t bad=0;
    if (s.f==F_ANSI || s.f==F_NH? !cut_prefix(r.data, s.emitted, bad) : !is_prefix(r.data, s.emitted))
    { size_t d=first_diff(r.data, s.emitted); fail("not-a-prefix", "%s, the recording's intact part (%zu bytes) is not a beginning of the session: at %zu \"%s\" instead of \"%s\"", what, r.data.size(), d, hexs(r.data.substr(d), 40).c_str(), hexs(s.emitted.substr(d), 40).c_str()); }
    { Recorded t=r; if (s.f==F_NH && t.at.size()) t.at.pop_back(); check_times(s, t); }    // its end may be a part of a size sequence
    // as the library plays it
    fs_put(str("left")+(s.f==F_TTYREC? ".ttyrec" : s.f==F_NH? ".nh" : s.f==F_CAST1? ".cast-v1" : s.f==F_CAST2? ".cast" : ".txt")+comp_ext[s.comp], file);
    str name=str("left")+(s.f==F_TTYREC? ".ttyrec" : s.f==F_NH? ".nh" : s.f==F_CAST1? ".cast-v1" : s.f==F_CAST2? ".cast" : ".txt")+comp_ext[s.comp];
    Played pl; bool ok=false;
    faults=Faults();
    on_syscall=nullptr;
    Proc *q=mkproc("player");
    start_main(q, [&]() -> int { ok=play_rec(pl, -1, cast? "asciicast" : 0, name.c_str()); return 0; });
    Stop st=run_proc(q, 1000000*1000000LL);
    expect_end(q, st, "playing what is left of the recording");
    if (q->killed || !ok) fail("unplayable", "what is left of the recording cannot be played");
    if (s.comp==C_GZ && file.size()==1) return;        // not recognisable as compressed
    str clean=strip_sizes(pl.data, s.raw && !cast);
    if (!cut_prefix(clean, s.emitted, bad) && !cut_prefix(strip_sizes(drop_message(pl.data, cast, s.comp), s.raw && !cast), s.emitted, bad)) fail("not-a-prefix", "%s, the recording plays %zu bytes that are not a beginning of the session: at %zu \"%s\" instead of \"%s\"", what, clean.size(), bad, hexs(clean.substr(bad), 40).c_str(), hexs(s.emitted.substr(bad), 40).c_str());
    size_t slack= s.comp? 150000 : 0;
    if (pl.data.size()+slack<r.rawdata.size() && !cast) fail("lost", "%s, only %zu of the intact %zu bytes are played", what, pl.data.size(), r.rawdata.size());
    if (cast && clean.size()+slack<r.data.size()) fail("lost", "%s, only %zu of the intact %zu bytes are played", what, clean.size(), r.data.size());
    if (!s.comp && r.timed && r.events.size())
    {
        // and the intact part keeps its timing
        std::vector<Ev> want=r.events;
        if (cast) want.insert(want.begin(), {0, sfmt("\e%%G\e[8;%d;%dt", r.rows, r.cols)});
        Played t=pl; str wd=cat_data(want);
        if (t.data.size()>wd.size()) t.data.resize(wd.size());
        str e=cmp_timed(want, t, s.f==F_CAST1? 2+want.size() : 1);
        if (!e.empty()) fail("timing", "%s, the intact part of the recording plays wrongly: %s", what, e.c_str());
    }
}
static void plan03(Sess &s, bool bulk=false)
{
    SessOpt o; o.eof=choose(W, 8)==0; o.signals=choose(W, 3)==0;
    if (choose(W, 3)==0) o.maxburst=200000, o.maxbursts=12;
    else if (choose(W, 4)) o.minburst=500, o.maxburst=3000, o.minbursts=10, o.maxbursts=60;
    o.gaps=choose(W, 4);
    if (bulk) o.eof=false, o.typing=choose(W, 2), o.comp=false, o.minburst=2000, o.maxburst=6000, o.minbursts=40, o.maxbursts=90, o.gaps=choose(W, 2);
    s.plan(o);
    if (bulk) for (auto &x : s.out) if (x.gap>100000) x.gap%=100000;
}
static void c03_killed(bool bulk)
{
    draw_sched_config(choose(W, 3)==0); draw_jitter();
    cfg.max_bbs=1000000000ULL;
    static const u32 sb[]={4096, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 3)];
    Sess s; plan03(s, bulk);
    size_t shown_then=0; bool killed=false;
    i64 dur=1000; u32 est=40; for (auto &x : s.out) dur+=x.gap, est+=8+x.d.size()/512;
    if (s.mode==2) for (auto &x : s.typed_plan) dur+=x.gap;
    i64 at_call= choose(F, 3)? 1+(bulk? 100+choose(F, est/2) : choose(F, 3)? choose(F, est) : logsize(F, 500)) : -1, calls=0;
    auto die=[&]{ if (s.p->dead || s.p->exiting) return; killed=true; shown_then=s.tty->out->total; fault("SIGKILL"); kill_proc(s.p, SIGKILL); };
    on_syscall=[&]{ if (at_call>0 && self && self->p==s.p && ++calls==at_call) die(); };
    s.start();
    if (at_call<0)
    {
        i64 when= bulk? (i64)choose(F, 1000000)*dur/1000000 : choose(F, 4)? (i64)choose(F, 1000000)*dur/1000000 : logsize(F, 100000000);
        spawn_actor("killer", [&,when]{ wait_until([&]{ return s.p->dead; }, now+when, "killer"); if (!s.p->dead) die(); });
    }
    describe(", killed at %s", at_call<0? "some time" : sfmt("call %lld", (long long)at_call).c_str());
    Stop st=run_proc(s.p, 400LL*3600*1000000);
    expect_end(s.p, st, "the recorder");
    s.tend=now;
    on_syscall=nullptr;
    if (killed) nontrivial();
    run([&]{ return !s.tty->out->avail(); }, now+3600*1000000LL);
    check_remains(s, killed? "killed" : "ended");
    if (killed && !s.comp && fs_has(s.path))
    {
        Recorded r=decode_session(s.f, s.comp, ext_after(s, fs_get(s.path)), s.raw);
        size_t biggest=0, at=0; (void)at; for (auto &x : s.out) biggest=std::max(biggest, x.d.size());
        size_t lim=65536+std::min<size_t>(65536, std::max<size_t>(biggest, 4096));
        if (r.data.size()+lim<shown_then) fail("lost-tail", "killed after %zu bytes had been shown, the recording has only %zu", shown_then, r.data.size());
        if (r.data.size()) probe("something survived the kill");
        if (shown_then>2*lim) probe("killed late");
    }
}
WORKLOAD(C03, c03_kill, 3) { c03_killed(false); }
WORKLOAD(C03, c03_bulk, 1) { c03_killed(true); }
WORKLOAD(C03, c03_disk, 3)
{
    draw_sched_config(choose(W, 3)==0); draw_jitter();
    cfg.max_bbs=1000000000ULL;
    static const u32 sb[]={4096, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 3)];
    Sess s; plan03(s);
    str pre=fs_get(s.path);
    if (choose(F, 2)) faults.disk_cap=pre.size()+logsize(F, 150000);
    else { faults.write_fail_at=1+logsize(F, 60); faults.write_errno=choose(F, 2)? ENOSPC : EIO; faults.write_short=choose(F, 2); }
    if (choose(F, 2)) faults.fail_span=300000+logsize(F, 60000000);
    if (choose(F, 2)) faults.short_write_den=2+choose(F, 6);
    describe(", disk fails%s", faults.fail_span>=0? " and recovers" : "");
    s.start();
    Stop st=run_proc(s.p, 400LL*3600*1000000);
    expect_end(s.p, st, "the recorder");
    s.tend=now;
    if (faults.fired) nontrivial();
    bool fired=faults.fail_since>=0;
    run([&]{ return !s.tty->out->avail(); }, now+3600*1000000LL);
    check_remains(s, fired? "after a storage failure" : "without failure");
}

// ---------------------------------------------------------------- C18
void odd_termios(struct termios &t)
{
    static const tcflag_t L[]={ECHO, ICANON, ISIG, IEXTEN, ECHOE, ECHOK, NOFLSH, TOSTOP}, I[]={ICRNL, IXON, IXOFF, ISTRIP, INLCR, IGNCR, BRKINT, IUTF8}, O[]={OPOST, ONLCR, OCRNL, ONOCR};
    for (auto x : L) if (choose(W, 4)==0) t.c_lflag^=x;
    for (auto x : I) if (choose(W, 4)==0) t.c_iflag^=x;
    for (auto x : O) if (choose(W, 4)==0) t.c_oflag^=x;
    if (choose(W, 4)==0) t.c_cflag^=PARENB;
    if (choose(W, 4)==0) t.c_cflag=(t.c_cflag&~CSIZE)|CS7;
    if (choose(W, 3)==0) t.c_cc[VMIN]=choose(W, 4), t.c_cc[VTIME]=choose(W, 30);
    if (choose(W, 3)==0) t.c_cc[VERASE]=choose(W, 32), t.c_cc[VINTR]="\3\0\1\2\30\35"[choose(W, 6)];    // none of the keys a player has
}
bool same_termios(const struct termios &a, const struct termios &b) { return a.c_iflag==b.c_iflag && a.c_oflag==b.c_oflag && a.c_lflag==b.c_lflag && a.c_cflag==b.c_cflag && !memcmp(a.c_cc, b.c_cc, sizeof(a.c_cc)); }
WORKLOAD(C18, c18_termrec, 3)
{
    draw_sched_config(choose(W, 3)==0); draw_jitter();
    cfg.max_bbs=1000000000ULL;
    Sess s; SessOpt o; o.signals=false; o.maxburst=4000; o.append=false; if (choose(W, 2)) o.maxbursts=6;
    int fl=choose(F, 10);
    if (fl==8) o.noise=true, o.minburst=1000, o.maxburst=12000, o.minbursts=10, o.maxbursts=25, fl=2;
    s.plan(o);
    odd_termios(s.tty->tio); s.tty->initial=s.tty->tio;
    str fd;
    if (o.noise) faults.disk_cap=fs_get(s.path).size()+logsize(F, 20000), fd=", disk full early";
    else if (fl==1) faults.fail_forkpty=1, fd=", no pty";
    else if (fl==2) faults.disk_cap=fs_get(s.path).size()+logsize(F, 3000), fd=", disk full";
    else if (fl==3) faults.fail_open=EACCES, fd=", no permission";
    else if (fl==4 && s.comp) { if (choose(F, 2)) faults.fail_thread=1; else faults.fail_pipe=1; fd=", no compressor"; }
    else if (fl==9) faults.fail_select=1+logsize(F, 100), fd=", waiting fails";
    describe("%s", fd.c_str());
    struct Sent { i64 t; int sig; size_t at; };
    std::vector<Sent> sent;
    static const int S[]={SIGINT, SIGHUP, SIGQUIT, SIGTERM, SIGTSTP};
    auto send=[&](int sig) {
        if (s.p->dead || s.p->exiting || (size_t)s.p->sig[sig].h<2) return;
        sent.push_back({now, sig, kills.size()}); fault("signal");
        send_signal(s.p, sig); touch();
    };
    // at some moments, and at some calls of the recorder's
    std::map<i64,int> at;
    int n=logsize(F, 8); i64 est=30; for (auto &x : s.out) est+=6+x.d.size()/1000;
    for (int i=0;i<n;i++) at[1+choose(F, est)]=S[choose(F, 5)];
    bool at_end=choose(F, 3)==0;            // at every call after the program's end
    i64 calls=0;
    on_syscall=[&]{
        if (!self || self->p!=s.p) return;
        auto it=at.find(++calls); if (it!=at.end()) send(it->second);
        if (at_end && s.prog_done && sent.size()<60 && chance(F, 1, 2)) send(S[choose(F, 5)]);
    };
    bool at_reap=choose(F, 2);
    on_reaped=[&]{ if (self && self->p==s.p && at_reap) { probe("signal just as the program is reaped"); send(S[choose(F, 5)]); } };
    int m=logsize(F, 10);
    i64 dur=1000; for (auto &x : s.out) dur+=x.gap;
    s.start();
    if (m) spawn_actor("signals", [&]{
        wait_for([&]{ return s.p->dead || s.p->sig[SIGPIPE].h; }, "set up");
        for (int i=0;i<m && !s.p->dead;i++)
        {
            i64 g= choose(F, 3)==0? 0 : choose(F, 2)? logsize(F, 3000000) : (i64)choose(F, 1000)*dur/m/1000;
            wait_until([&]{ return s.p->dead; }, now+g, "pause");
            send(S[choose(F, 5)]);
        }
    });
    Stop st=run_proc(s.p, 400LL*3600*1000000);
    expect_end(s.p, st, "the recorder");
    s.tend=now;
    on_syscall=nullptr; on_reaped=nullptr;
    run([&]{ return !s.tty->out->avail(); }, now+3600*1000000LL);
    settle();
    if (s.p->killed) fail("KILLED", "the recorder was killed by signal %d", s.p->killed);
    if (sent.size()) nontrivial();
    if (sent.size() && s.prog && s.user==0 && !faults.fired && s.tend<s.prog_end) fail("ended", "the recorder ended before the program");
    std::map<int,int> ns, nk;
    for (auto &x : sent) ns[x.sig]++;
    for (auto &k : kills)
    {
        if (!s.prog || k.pid!=s.prog->pid) fail("stranger", "signal %d was sent to process %d, which is not the recorded program", k.sig, k.pid);
        if (k.stale) fail("stranger", "signal %d was sent to process %d after that had been waited for", k.sig, k.pid);
        if (++nk[k.sig]>ns[k.sig] && !(k.sig==SIGHUP && s.user==2)) fail("invented", "the program got signal %d more often than the recorder", k.sig);
    }
    for (auto &x : sent)
    {
        if (!s.prog) continue;
        i64 by=x.t+1000000+cfg.jitter*20;
        if (s.prog->done && s.prog_end<=by+3000000) continue;
        if (s.tend<=by) continue;
        bool got=false;
        for (size_t i=x.at;i<kills.size();i++) if (kills[i].sig==x.sig && kills[i].t<=by) got=true;
        if (!got) fail("not-passed", "signal %d, sent at %s s, was not passed on to the program (which ended at %s s)", x.sig, tvs(x.t).c_str(), tvs(s.prog_end).c_str());
    }
    if (!s.tty->hup)
    {
        if (!same_termios(s.tty->tio, s.tty->initial)) fail("terminal", "the recorder ended with status %d, the terminal's settings are not what they were", s.p->code);
        if (s.tty->history.size()) probe("terminal settings restored");
    }
    if (!s.prog && s.tty->history.size() && fl!=2) probe("changed settings without a program");
    if (fl==1 || fl==3 || (fl==4 && s.comp)) { if (s.p->code==0 || s.err->data.empty()) fail("status", "setting up failed%s, exit status %d, message \"%s\"", fd.c_str(), s.p->code, hexs(s.err->data, 100).c_str()); }
}

// ---------------------------------------------------------------- C06: whoever shows the output is gone, or waiting fails
WORKLOAD(C06, c06_recorder, 1)
{
    draw_sched_config(choose(W, 3)==0); draw_jitter();
    cfg.max_bbs=1000000000ULL;
    Sess s; SessOpt o; o.signals=false; o.append=false; o.eof=false; o.maxburst= choose(W, 3)? 4000 : 60000; if (choose(W, 2)) o.maxbursts=6;
    s.plan(o);
    size_t total=0; for (auto &x : s.out) total+=x.d.size();
    int kind=choose(F, 3);
    if (kind!=1) s.out_breaks= choose(F, 4)==0? 0 : choose(F, total+1);
    if (kind!=0) faults.fail_select=1+logsize(F, 60);
    if (kind==0) describe(", output ends after %lld bytes", (long long)s.out_breaks); else describe("%s, waiting fails", kind==2? ", to a pipe" : "");
    nontrivial();
    s.start();
    s.finish();
    if (s.p->killed) fail("KILLED", "the recorder was killed by signal %d", s.p->killed);
    Recorded r=decode_session(s.f, s.comp, fs_get(s.path), s.raw);
    if (!is_prefix(r.data, s.emitted)) { size_t d=first_diff(r.data, s.emitted); fail("recording", "at %zu of %zu the recording has something the program did not write: \"%s\"", d, r.data.size(), hexs(r.data.substr(d), 40).c_str()); }
    size_t sh=s.shown.size();
    if (s.f==F_CAST1 || s.f==F_CAST2) sh= sh>3? sh-3 : 0;     // no place for a part of a character
    if (r.data.size()<sh) fail("lost", "the recorder ended with status %d and the message \"%s\"; %zu bytes had been shown, the recording has but %zu", s.p->code, hexs(s.err->data, 100).c_str(), s.shown.size(), r.data.size());
    if (!(faults.fail_select && faults.n_select>=faults.fail_select) && !s.out_broke && r.data.size()!=s.emitted.size()) fail("lost", "%zu bytes recorded of %zu", r.data.size(), s.emitted.size());
    if (s.out_broke && s.p->code) probe("ended for want of a reader");
}

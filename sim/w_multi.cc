// C25: things used at the same time do not affect one another; C26: the screen does not depend on how data is divided
#include "rec.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <algorithm>

static str screen(tty vt) { size_t n; char *s=glue_screen(vt, &n); str r(s, n); free(s); return r; }
static str cmp_screen(const str &got, const str &want)
{
    if (got==want) return "";
    size_t d=first_diff(want, got), row=0; for (size_t i=0;i<d && i<want.size();i++) row+= want[i]=='\n';
    return sfmt("line %zu of the screen: \"%s\" instead of \"%s\"", row, got.substr(d>20? d-20 : 0, 60).c_str(), want.substr(d>20? d-20 : 0, 60).c_str());
}
// anything a terminal may be sent, whole and broken
str stuff(u32 n)
{
    str s=show(n, choose(W, 4)==0);
    static const char *x[]={"\e[", "\e[;;;m", "\e[999999999999999999C", "\e[1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16;17;18;19;20m", "\e]2;new title\e\\", "\e]0;unterminated", "\xf0\x9f\x90\x88", "\xf0\x9f", "\xe2", "\xc3\x28", "\xff\xfe", "\xed\xa0\x80", "\xc0\x80", "\e%@", "\e%G", "\e[?1;7;25h", "\e[!p", "\e#8", "\e(0lqk\e(B", "\e)0\x0e", "\e\e[A", "\e[3\x18" "4m", "\e[2\e[3C", "\e[38;5m", "\e[38;2;300;1;1m", "\e[>c", "\e[6n", "\eD", "\eE", "\eH", "\e[g", "\e[3g", "\e[20h", "\e[1J", "\e[1K", "\eP0;1|17/ab\e\\", "\x9b" "5C", "\e[4h", "\e[12;40H\e[s", "\e[u", "\0"};
    if (choose(W, 2)) for (int k=1+choose(W, 30);k--;) s.insert(choose(W, s.size()+1), x[choose(W, sizeof(x)/sizeof(*x))]);
    if (choose(W, 3)==0) for (int k=1+choose(W, 30);k-- && s.size();) s[choose(W, s.size())]=(char)choose(W, 256);
    if (choose(W, 6)==0) s+=payload(600);
    if (choose(W, 8)==0) { str t="\e]0;", u=textish(1+logsize(W, 4000)); for (char c : u) if ((u8)c>=32 && c!=127) t+=c; s.insert(choose(W, s.size()+1), t+(choose(W, 2)? "\a" : "\e\\")); }
    return s;
}
namespace {
struct Wanted { int cols, rows; str data; size_t at; str got; const char *what; };   // what a screen has to be after that much
struct Job { str name; std::function<str()> run; std::function<str()> after; };
}
static str feed_alone(const Wanted &w)
{
    tty vt=tty_init(w.cols, w.rows, 1);
    tty_write(vt, w.data.data(), w.at);
    str s=screen(vt);
    tty_free(vt);
    return s;
}
static Job job_screen(int i, u32 size)
{
    auto w=std::make_shared<Wanted>();
    w->cols=2+choose(W, 120); w->rows=1+choose(W, 50); w->data=stuff(1+logsize(W, size)); w->at=w->data.size(); w->what="a terminal";
    Job j; j.name="terminal";
    j.run=[w] {
        tty vt=tty_init(w->cols, w->rows, 1);
        size_t at=0;
        while (at<w->data.size())
        {
            size_t k= choose(N, 3)? 1+logsize(N, 200) : 1+logsize(N, w->data.size()); if (k>w->data.size()-at) k=w->data.size()-at;
            str piece=w->data.substr(at, k);
            tty_write(vt, piece.data(), piece.size()); at+=k;
            if (chance(N, 1, 6)) { tty c=tty_copy(vt); if (choose(N, 2)) std::swap(c, vt); tty_write(c, "\e[31mjunk\e[2J\e]0;t\a", 17); tty_free(c); }
            sim::yield_point();
        }
        w->got=screen(vt);
        tty_free(vt);
        return str();
    };
    j.after=[w] { return cmp_screen(w->got, feed_alone(*w)); };
    return j;
}
// when set, every job uses these
static int same_fmt, same_comp;
static Fmt any_fmt(const std::vector<int> &v) { int f=pick(W, v); return (Fmt)(same_fmt<0? f : v[same_fmt%v.size()]); }
static Comp any_comp() { Comp c=choose(W, 2)? (Comp)choose(W, 5) : C_NONE; return same_comp<0? c : (Comp)same_comp; }
struct Cb { Played pl; std::function<void()> inner; };
static void cb_init(const struct timeval *ts, void *arg) { Played &p=((Cb*)arg)->pl; p.ninit++; p.init=ts->tv_sec*1000000LL+ts->tv_usec; }
static void cb_wait(const struct timeval *d, void *arg) { Played &p=((Cb*)arg)->pl; p.t+=d->tv_sec*1000000LL+d->tv_usec; }
static void cb_print(const char *d, int n, void *arg)
{
    Cb *c=(Cb*)arg;
    if (c->pl.marks.empty() || c->pl.marks.back().second!=c->pl.t) c->pl.marks.push_back({c->pl.data.size(), c->pl.t});
    c->pl.data.append(d, n);
    if (c->inner && chance(N, 1, 4)) { auto f=c->inner; c->inner=nullptr; f(); }
}
static Job job_play(int i, u32 maxev, std::shared_ptr<Job> inner)
{
    Fmt f=any_fmt({F_TTYREC, F_ANSI, F_NH, F_CAST1, F_CAST2, F_LIVE});
    const char *fmt= f==F_LIVE? (choose(W, 2)? "live" : "auto") : (f==F_TTYREC || f==F_CAST1 || f==F_CAST2) && (same_fmt<0? choose(W, 4)==0 : same_fmt/6%2)? "auto" : 0;
    GenOpt o=opt_for(f); o.big=false; o.maxev=maxev; o.maxdata=1500;
    auto ev=gen_events(o);
    if (f!=F_LIVE && (ev.empty() || ev[0].d.empty())) fmt=0;   // not recognised
    auto en=std::make_shared<Encoded>(encode_as(f==F_LIVE? F_ANSI : f, ev, choose(W, 2)? 1234567890LL*1000000 : 0, 2+choose(W, 200), 1+choose(W, 60), choose(W, 2)));
    Comp c=any_comp();
    int how=choose(W, 4); if (c && how>1) how-=2;
    Job j; j.name=str("reading ")+fmt_name[f]+comp_ext[c];
    j.run=[=] {
        Delivery d=deliver(sim::self->p, sfmt("play%d%s", i, fmt_ext[f]), compress(c, en->raw), c, how, sfmt("src%d", i));
        Cb cb; str bad;
        if (inner) cb.inner=[&] { bad=inner->run(); };
        if (!ttyrec_r_play(d.fd, fmt, d.name.c_str(), cb_init, cb_wait, cb_print, &cb)) return sfmt("%s could not be opened", d.name.c_str());
        if (cb.inner) { auto g=cb.inner; g(); }
        if (!bad.empty()) return inner->name+": "+bad;
        if (f==F_LIVE) return cb.pl.data==en->raw? str() : sfmt("%zu bytes instead of %zu, wrong from %zu on", cb.pl.data.size(), en->raw.size(), first_diff(cb.pl.data, en->raw));
        str e=cmp_timed(en->want, cb.pl);
        if (e.empty() && cb.pl.t!=en->total) e=sfmt("the waits sum up to %s s instead of %s s", tvs(cb.pl.t).c_str(), tvs(en->total).c_str());
        if (e.empty() && (cb.pl.ninit!=en->ninit || (en->ninit && cb.pl.init!=en->init))) e="wrong start time";
        return e;
    };
    j.after=[=] { return inner && inner->after? inner->after() : str(); };
    return j;
}
struct WriteJob { int i; Fmt f; Comp c; i64 start; std::vector<Ev> ev; recorder r; size_t at=0; str name; };
static std::shared_ptr<WriteJob> mk_write(int i, u32 maxev)
{
    auto w=std::make_shared<WriteJob>();
    w->i=i; w->f=any_fmt({F_TTYREC, F_CAST2, F_CAST1, F_NH});
    GenOpt o=opt_for(w->f); o.big=false; o.empty=false; o.maxev=maxev; o.maxdata=1500;
    w->ev=gen_events(o);
    w->start= 1234567890LL*1000000+(w->f==F_TTYREC? choose(W, 1000000) : 0);
    w->c=any_comp();
    static const char *wext[]={".txt", ".ttyrec", ".nh", ".cast-v1", ".cast"};
    w->name=sfmt("out%d%s%s", i, wext[w->f], comp_ext[w->c]);
    return w;
}
static str write_open(WriteJob &w)
{
    struct timeval tv; tv.tv_sec=w.start/1000000; tv.tv_usec=w.start%1000000;
    w.r=ttyrec_w_open(-1, 0, w.name.c_str(), &tv);
    return w.r? "" : "ttyrec_w_open failed";
}
static str write_step(WriteJob &w)
{
    Ev &e=w.ev[w.at++];
    i64 t=w.start+e.t; struct timeval tv; tv.tv_sec=t/1000000; tv.tv_usec=t%1000000;
    str copy=e.d;
    if (!ttyrec_w_write(w.r, &tv, copy.data(), copy.size())) return "ttyrec_w_write failed";
    memset(&copy[0], '#', copy.size());
    return "";
}
static str write_end(WriteJob &w) { return ttyrec_w_close(w.r)? "" : "ttyrec_w_close failed"; }
static str write_check(WriteJob &w) // after the process has ended
{
    str raw; Dec d=decompress(w.c, fs_get(w.name), raw);
    if (d!=D_OK) return w.name+" is not a complete compressed file";
    Rec r;
    if (w.f==F_TTYREC) dec_ttyrec(raw, r); else if (w.f==F_NH) dec_nh(raw, r); else dec_cast(raw, r);
    if (r.bad) return sfmt("%s cannot be decoded: %s", w.name.c_str(), r.why.c_str());
    std::vector<Ev> want=w.ev, got=r.ev;
    if (w.f==F_TTYREC)
    {
        i64 f=want[0].t; for (auto &x : want) x.t-=f;
        if (r.start!=w.start+f) return w.name+" starts at a wrong time";
    }
    int rows, cols, k=0;    // the size may have become the header's
    str gd=cat_data(got), wd=cat_data(want);
    if (w.f==F_CAST1 || w.f==F_CAST2)
    {
        if (r.start/1000000!=w.start/1000000) return w.name+" starts at a wrong time";
        if (gd!=wd && sscanf(wd.c_str(), "\e%%G\e[8;%d;%dt%n", &rows, &cols, &k)==2 && k) return gd==wd.substr(k)? "" : sfmt("%s: %zu bytes instead of %zu", w.name.c_str(), gd.size(), wd.size()-k);
    }
    str e=cmp_timed_rec(want, got, w.f==F_NH? 10000 : w.f==F_TTYREC? 0 : 2+(i64)(w.f==F_CAST1? want.size() : 0));
    return e.empty()? "" : w.name+": "+e;
}
static Job job_write(int i, u32 maxev)
{
    auto w=mk_write(i, maxev);
    Job j; j.name="writing "+w->name;
    j.run=[w] {
        str e=write_open(*w);
        while (e.empty() && w->at<w->ev.size()) { e=write_step(*w); sim::yield_point(); }
        if (e.empty()) e=write_end(*w);
        return e;
    };
    j.after=[w] { return write_check(*w); };
    return j;
}
static Job job_timeline(int i, u32 size)
{
    struct T { str data; std::vector<std::pair<i64,size_t>> fr; std::vector<Wanted> sk; };
    auto t=std::make_shared<T>();
    t->data=stuff(1+logsize(W, size));
    size_t at=0; i64 tm=0;
    while (at<t->data.size()) { size_t k=1+logsize(W, 400); if (k>t->data.size()-at) k=t->data.size()-at; at+=k; tm+=1+logsize(W, 3000000); t->fr.push_back({tm, at}); }
    Job j; j.name="timeline";
    j.run=[t]() -> str {
        ttyrec tr=ttyrec_init(tty_init(80, 25, 1));
        size_t at=0, n=0; i64 last=0; tty vt=0; str bad;
        for (auto &f : t->fr)
        {
            struct timeval d; d.tv_sec=(f.first-last)/1000000; d.tv_usec=(f.first-last)%1000000; last=f.first;
            ttyrec_add_frame(tr, &d, t->data.data()+at, f.second-at); at=f.second; n++;
            if (chance(N, 1, 5) || n==t->fr.size())
            {
                size_t k=1+choose(N, n);
                struct timeval tv; tv.tv_sec=t->fr[k-1].first/1000000; tv.tv_usec=t->fr[k-1].first%1000000;
                ttyrec_frame g=ttyrec_seek(tr, &tv, &vt);
                size_t from= k>1? t->fr[k-2].second : 0;
                if (!g || g->len!=(int)(t->fr[k-1].second-from) || memcmp(g->data, t->data.data()+from, g->len)) { bad=sfmt("frame %zu is not the one added", k); break; }
                t->sk.push_back({80, 25, t->data, t->fr[k-1].second, screen(vt), "timeline"});
            }
            sim::yield_point();
        }
        tty_free(vt); ttyrec_free(tr);
        return bad;
    };
    j.after=[t]() -> str { for (auto &w : t->sk) { str e=cmp_screen(w.got, feed_alone(w)); if (!e.empty()) return sfmt("after seeking to byte %zu: ", w.at)+e; } return ""; };
    return j;
}
static Job job_stream(int i, u32 size)
{
    int kind=choose(W, 5);      // file or tcp, compressed; telnet; termcast
    if (same_fmt>=0) kind=same_fmt%4;
    if (kind==4) kind=1;
    struct Peer1 { str sent[2]; bool eof[2]={false,false}; int port=-1; char key=0; };      // what the server saw; the second one serves the same alone
    auto sv=std::make_shared<Peer1>();
    str data=payload(size), wire=data, host=sfmt("srv%d", i), who=sfmt("player%d", i);
    Comp c= kind>1? C_NONE : any_comp();
    int port= kind==0? 0 : choose(W, 3)? 1+choose(W, 65535) : kind==1? 7 : 23;
    char letter='a'+choose(W, 26);
    if (kind==1) { str z=compress(c, data); net_host(host, [=](Ch, Ch s2c, int pt) { sv->port=pt; send_chunks(s2c, z, 3000, 20000); }); }
    if (kind==2)
    {
        for (auto &x : data) if ((u8)x==255) x='y';
        wire=telnet_noise(W, data);
        for (int k=0;k<2;k++) net_host(k? host+"alone" : host, [=](Ch c2s, Ch s2c, int pt) {
            if (!k) sv->port=pt;
            c2s->name="keep";
            spawn_actor("server input", [=] { char b[500]; i64 n; while ((n=ch_read(c2s, b, sizeof(b), "client's answers"))>0) sv->sent[k].append(b, n); ch_close_r(c2s); sv->eof[k]=true; touch(); });
            send_chunks(s2c, wire, 500, 2000);
        });
    }
    str menu;
    if (kind==3)
    {
        int rows=1+choose(W, 6), at=choose(W, rows);
        for (int k=0;k<rows;k++) { char l= k==at? letter : 'a'+(letter-'a'+1+k)%26; menu+=sfmt("\r\n\e[%dd %c) \e[1m%s\e[0m (idle %us)", k+3, l, k==at? who.c_str() : sfmt("player%d%d", i, k).c_str(), choose(W, 100)); }
        for (auto &x : data) if ((u8)x==255) x='y';
        net_host(host, [=](Ch c2s, Ch s2c, int pt) {
            sv->port=pt;
            send_chunks(s2c, menu, 60, 5000);
            if (ch_read(c2s, &sv->key, 1, "menu choice")!=1) return;
            send_chunks(s2c, data, 500, 5000);
        });
        data=menu+data;
    }
    static const char *kn[]={"stream", "stream", "telnet", "termcast"};
    Job j; j.name=str(kn[kind])+comp_ext[c];
    j.run=[=]() -> str {
        str url;
        if (kind==0) url=deliver(sim::self->p, sfmt("s%d", i), compress(c, data), c, kind, "").name;
        else url=sfmt("%s://%s:%d/%s", kind==1? "tcp" : kn[kind], host.c_str(), port, kind==1? (str("x")+comp_ext[c]).c_str() : kind==3? who.c_str() : "");
        const char *e="?"; str got;
        int fd=open_stream(-1, url.c_str(), SM_READ, &e);
        if (fd==-1) return sfmt("opening %s failed: %s", url.c_str(), e);
        char b[4096]; i64 n;
        while ((n=h_read(sim::self->p, fd, b, 1+choose(N, sizeof(b))))>0) got.append(b, n);
        h_close(sim::self->p, fd);
        if (kind && sv->port!=port) return sfmt("asked for port %d, it used %d", port, sv->port);
        if (kind==3 && sv->key!=letter) return sfmt("chose session '%c' instead of '%c'", sv->key, letter);
        return got==data? str() : sfmt("%zu bytes instead of %zu, wrong from %zu on", got.size(), data.size(), first_diff(got, data));
    };
    if (kind==2) j.after=[=]() -> str {
        int fd=open_stream(-1, sfmt("telnet://%salone/", host.c_str()).c_str(), SM_READ, 0);
        if (fd==-1) return "could not be opened alone";
        char b[4096]; while (h_read(sim::self->p, fd, b, sizeof(b))>0) ;
        h_close(sim::self->p, fd);
        if (!wait_until([=]{ return sv->eof[0] && sv->eof[1]; }, now+3600*1000000LL, "the connections' end")) return "a connection stays open";
        return sv->sent[0]==sv->sent[1]? str() : sfmt("answers differ from those given alone: \"%s\" instead of \"%s\"", hexs(sv->sent[0], 60).c_str(), hexs(sv->sent[1], 60).c_str());
    };
    return j;
}
// sending: a compressed file, or upload to a server
static Job job_send(int i, u32 size)
{
    auto data=std::make_shared<str>(payload(size)); auto got=std::make_shared<str>();
    Comp c=any_comp(); bool tcp=choose(W, 2); if (same_fmt>=0) tcp=same_fmt&1;
    u32 most=1+logsize(N, 6000);
    str name=sfmt("sent%d%s", i, comp_ext[c]);
    int port=1+choose(W, 65535); auto pt=std::make_shared<int>(0);
    if (tcp) net_host(sfmt("sink%d", i), [=](Ch c2s, Ch, int to) { *pt=to; char b[1000]; i64 n; while ((n=ch_read(c2s, b, 1+choose(N, sizeof(b)), "server reads"))>0) got->append(b, n); });
    Job j; j.name=str(tcp? "upload" : "sending")+comp_ext[c];
    j.run=[=]() -> str {
        const char *e="?"; str url= tcp? sfmt("tcp://sink%d:%d/%s", i, port, name.c_str()) : name;
        int fd=open_stream(-1, url.c_str(), SM_WRITE, &e);
        if (fd==-1) return sfmt("opening %s failed: %s", url.c_str(), e);
        for (size_t at=0;at<data->size();)
        {
            size_t k=1+choose(N, most); if (k>data->size()-at) k=data->size()-at;
            i64 r=h_write(sim::self->p, fd, data->data()+at, k);
            if (r<=0) return sfmt("sending failed after %zu bytes, errno %d", at, errno);
            at+=r;
        }
        h_close(sim::self->p, fd);
        return "";
    };
    j.after=[=]() -> str {
        str raw; Dec d=decompress(c, tcp? *got : fs_get(name), raw);
        if (tcp && *pt!=port) return sfmt("asked for port %d, it used %d", port, *pt);
        if (d!=D_OK) return "not a complete compressed stream";
        return raw==*data? str() : sfmt("%zu bytes instead of %zu, wrong from %zu on", raw.size(), data->size(), first_diff(raw, *data));
    };
    return j;
}
static Job job_dos(int i)
{
    struct D { str raw; Played got, alone; };
    auto d=std::make_shared<D>();
    std::vector<DosFrame> fr; gen_dos(d->raw, fr);
    if (d->raw.size()>40000) d->raw.resize(40000);
    fs_put(sfmt("d%d.dm2", i), d->raw);
    Job j; j.name="reading dosrecorder";
    j.run=[d,i]() -> str { return play_rec(d->got, -1, 0, sfmt("d%d.dm2", i).c_str())? "" : "could not be opened"; };
    j.after=[d,i]() -> str {
        if (!play_rec(d->alone, -1, 0, sfmt("d%d.dm2", i).c_str())) return "alone it could not be opened";
        if (d->got.data!=d->alone.data) return sfmt("%zu bytes instead of %zu, wrong from %zu on", d->got.data.size(), d->alone.data.size(), first_diff(d->got.data, d->alone.data));
        return d->got.marks==d->alone.marks? "" : "other times";
    };
    return j;
}
static Job job_printf(int i)
{
    struct P { str want; size_t n; str got; };
    auto t=std::make_shared<P>(); std::vector<std::pair<int,str>> what;
    for (int k=1+choose(W, 12);k--;)
    {
        str s=sfmt("%c", 'a'+i%26); s+=str(choose(W, 12)? choose(W, 200) : 15000+choose(W, 4000), 'A'+choose(W, 26));
        int v=(int)choose(W, 2000000)-1000000;
        what.push_back({v, s}); t->want+=sfmt("%d:", v)+s+"\r\n";
    }
    Job j; j.name="printing to a terminal";
    j.run=[t,what]() -> str {
        tty vt=tty_init(100, 40, 1);
        for (auto &x : what) { tty_printf(vt, "%d:%s\r\n", x.first, x.second.c_str()); sim::yield_point(); }
        t->got=screen(vt); tty_free(vt);
        return "";
    };
    j.after=[t]() -> str { return cmp_screen(t->got, feed_alone({100, 40, t->want, t->want.size(), "", ""})); };
    return j;
}
// a terminal whose contents another one is to show
static Job job_redirect(int i, u32 size)
{
    struct R { int cols, rows; str data; bool dump; std::vector<u32> cut; };
    auto t=std::make_shared<R>();
    t->cols=2+choose(W, 78); t->rows=1+choose(W, 24); t->dump=choose(W, 2);
    if (choose(W, 2)) t->data="\e%@";
    t->data+=stuff(1+logsize(W, size));
    for (int k=choose(W, 20);k--;) t->data.insert(t->data.size()-choose(W, t->data.size()/2+1), pick(W, std::vector<str>{"\e(0lqk\e(B", "\xb0\xb1\xb2\xdb", "\xe2\x94\x80\xe2\x96\x92", "\x0e" "abc\x0f"}));
    for (size_t at=0;at<t->data.size();) { u32 k=1+logsize(W, 300); if (k>t->data.size()-at) k=t->data.size()-at; t->cut.push_back(k); at+=k; }
    auto go=[t](const str &name) -> str {
        int fd=open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0666);
        if (fd==-1) return "opening failed";
        FILE *f=fdopen(fd, "wb"); if (!f) return "fdopen failed";
        tty vt=tty_init(t->cols, t->rows, 1);
        tty_write(vt, "before\xe2\x94\x80\r\n", 11);
        vtvt_attach(vt, f, t->dump);
        size_t at=0; for (u32 k : t->cut) { tty_write(vt, t->data.data()+at, k); at+=k; sim::yield_point(); }
        tty_free(vt);
        return fclose(f)? "fclose failed" : "";
    };
    Job j; j.name="a redirected terminal";
    j.run=[=] { return go(sfmt("vt%d", i)); };
    j.after=[=]() -> str {
        str e=go("alone"); if (!e.empty()) return e;
        str a=fs_get("alone"), g=fs_get(sfmt("vt%d", i));
        return a==g? str() : sfmt("%zu bytes instead of %zu, differing from %zu on: \"%s\" instead of \"%s\"", g.size(), a.size(), first_diff(g, a), hexs(g.substr(first_diff(g, a)), 60).c_str(), hexs(a.substr(first_diff(g, a)), 60).c_str());
    };
    return j;
}
static Job any_job(int i, u32 size, bool nest)
{
    std::shared_ptr<Job> in;
    switch (choose(W, 12))
    {
    case 7: case 8: return job_send(i, size);
    case 9: return job_dos(i);
    case 10: return job_printf(i);
    case 11: return job_redirect(i, size);
    case 0: return job_screen(i, size);
    case 1: return job_timeline(i, size);
    case 2: return job_stream(i, size);
    case 3: case 4: return job_write(i, size/100+1);
    default: if (nest && choose(W, 3)==0) in=std::make_shared<Job>(any_job(i+10, size, false)); return job_play(i, size/100+1, in);
    }
}
static void run_after(std::vector<Job> &jobs, const char *how)
{
    for (auto &j : jobs)
    {
        if (!j.after) continue;
        str e; Proc *p=mkproc("alone");
        u32 g=cfg.bb_gap; cfg.bb_gap=0;
        start_main(p, [&]() -> int { e=j.after(); return 0; });
        Stop st=run_proc(p, 3600*1000000LL);
        cfg.bb_gap=g;
        expect_end(p, st, "the same alone");
        if (!e.empty()) fail("result", "%s, %s: %s", j.name.c_str(), how, e.c_str());
    }
}
WORKLOAD(C25, c25_threads, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    static const u32 bg[]={3000, 300, 1000, 100, 30};
    cfg.bb_gap=bg[choose(S, 5)];
    u32 size= cfg.bb_gap<200? 800 : 6000;
    if (choose(N, 3)==0) cfg.short_file_reads=true;
    int n=2+choose(W, 4);
    std::vector<Job> jobs; bool same=choose(W, 2); int kind=choose(W, 9); static const u32 pg[]={0, 2, 4, 10};
    cfg.post_gap=pg[choose(S, 4)];
    same_fmt=same_comp=-1; if (same) { if (choose(W, 3)) same_fmt=choose(W, 30); if (choose(W, 3)) same_comp=choose(W, 5); }
    for (int i=0;i<n;i++) jobs.push_back(!same? any_job(i, size, true) : kind==0? job_screen(i, size) : kind==1? job_write(i, size/100+1) : kind==2? job_play(i, size/100+1, nullptr) : kind==3? job_timeline(i, size) : kind==4? job_stream(i, size) : kind==5? job_send(i, choose(W, 4)? size : 100000) : kind==6? job_dos(i) : kind==7? job_printf(i) : job_redirect(i, size));
    for (auto &j : jobs) describe("%s; ", j.name.c_str());
    std::vector<str> err(n); int left=n;
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        for (int i=0;i<n;i++)
            spawn_thread(p, sfmt("job %d", i), [&,i]{ if (choose(N, 3)==0) sleep_us(logsize(N, 100)); err[i]=jobs[i].run(); left--; touch(); });
        wait_for([&]{ return !left; }, "jobs");
        wait_no_fds(p, "after everything was done");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "several things at the same time");
    settle();
    check_fds();
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    for (int i=0;i<n;i++) if (!err[i].empty()) fail("result", "%s, with %d others at the same time: %s", jobs[i].name.c_str(), n-1, err[i].c_str());
    run_after(jobs, "with others at the same time");
}
WORKLOAD(C25, c25_turns, 2)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    std::vector<std::shared_ptr<WriteJob>> wr; std::vector<Wanted> scr;
    same_fmt=same_comp=-1; if (choose(W, 2)) same_fmt=choose(W, 30); if (choose(W, 3)==0) same_comp=choose(W, 5);
    if (choose(S, 2)) cfg.post_gap=3;
    int nw=choose(W, 5), ns= nw? choose(W, 5) : 2+choose(W, 3);
    for (int i=0;i<nw;i++) wr.push_back(mk_write(i, 60));
    for (int i=0;i<ns;i++) { Wanted w; w.cols=2+choose(W, 120); w.rows=1+choose(W, 50); w.data=stuff(1+logsize(W, 4000)); w.at=w.data.size(); w.what="terminal"; scr.push_back(w); }
    describe("%d recorders and %d terminals in turns", nw, ns);
    str bad; bool late=choose(W, 2);
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        std::vector<tty> vt(ns); std::vector<size_t> at(ns, 0); std::vector<int> st(nw, 0);
        std::vector<bool> live(ns, false);
        if (!late) { for (int i=0;i<ns;i++) vt[i]=tty_init(scr[i].cols, scr[i].rows, 1), live[i]=true; for (int i=0;i<nw && bad.empty();i++) bad=write_open(*wr[i]), st[i]=1; }
        std::vector<int> todo; for (int i=0;i<ns+nw;i++) todo.push_back(i);
        while (todo.size() && bad.empty())
        {
            size_t q=choose(W, todo.size()); int i=todo[q]; bool done=false;
            if (i<ns)
            {
                if (!live[i]) vt[i]=tty_init(scr[i].cols, scr[i].rows, 1), live[i]=true;
                size_t k=1+logsize(W, choose(W, 2)? 30 : 600); if (k>scr[i].data.size()-at[i]) k=scr[i].data.size()-at[i];
                tty_write(vt[i], scr[i].data.data()+at[i], k); at[i]+=k;
                if (at[i]>=scr[i].data.size()) { scr[i].got=screen(vt[i]); if (choose(W, 2)) tty_free(vt[i]), live[i]=false; done=true; }
            }
            else
            {
                WriteJob &w=*wr[i-ns];
                if (!st[i-ns]) bad=write_open(w), st[i-ns]=1;
                else if (w.at<w.ev.size()) bad=write_step(w);
                else bad=write_end(w), done=true;
                if (!bad.empty()) bad=w.name+": "+bad;
            }
            if (done) todo.erase(todo.begin()+q);
        }
        for (int i=0;i<ns;i++) if (live[i])
        {
            if (scr[i].got!=screen(vt[i])) bad="a terminal nobody wrote to has changed";
            tty_free(vt[i]);
        }
        wait_no_fds(p, "after everything was done");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "using several things in turns");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!bad.empty()) fail("result", "in turns: %s", bad.c_str());
    std::vector<Job> jobs;
    for (auto &w : wr) { Job j; j.name=w->name; j.after=[w]{ return write_check(*w); }; jobs.push_back(j); }
    for (auto &w : scr) { Job j; j.name="terminal"; Wanted *x=&w; j.after=[x]{ return cmp_screen(x->got, feed_alone(*x)); }; jobs.push_back(j); }
    run_after(jobs, "in turns with others");
}

// ---- C26
WORKLOAD(C26, c26_split, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(false);
    int cols= choose(W, 3)? 1+choose(W, 150) : 80, rows= choose(W, 3)? 1+choose(W, 60) : 25;
    bool fixed=choose(W, 4)==0;
    str data=stuff(1+logsize(W, choose(W, 5)? 1500 : 20000));
    u32 most=1+logsize(N, choose(N, 2)? 8 : choose(N, 4)? 400 : 40000);
    u32 printf_den= choose(N, 3)? 0 : 1+choose(N, 6);
    bool long_run=chance(W, 1, 15);
    if (long_run) { str d; u32 z=16000+choose(W, 30000); while (d.size()<z) d+=stuff(1+logsize(W, 3000)); data=d; most=data.size(); if (choose(N, 3)) printf_den=1; if (choose(N, 2)) for (auto &x : data) if (!x) x='0'; }
    describe("%zu bytes on %dx%d in pieces of up to %u", data.size(), cols, rows, most);
    str bad;
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        i64 mem=faults.malloc_live;
        tty vt=tty_init(cols, rows, !fixed);
        std::vector<tty> others; std::vector<std::pair<size_t,str>> left;    // copies left alone
        size_t at=0; int checks=0;
        while (at<data.size() && bad.empty())
        {
            size_t k=1+choose(N, most); if (k>data.size()-at) k=data.size()-at;
            if (long_run && choose(N, 3)==0) { static const u32 L[]={4096, 8192, 16384, 32768, 1024, 2048}; k=L[choose(N, 6)]+choose(N, 5)-2; if (k>data.size()-at) k=data.size()-at; }
            str piece=data.substr(at, k);   // so that reading past it is seen
            if (printf_den && choose(N, printf_den)==0 && piece.find('\0')==str::npos) { if (choose(N, 2)) tty_printf(vt, "%s", piece.c_str()); else tty_printf(vt, "%.*s%s", (int)(k/2), piece.c_str(), piece.c_str()+k/2); }
            else tty_write(vt, piece.data(), k);
            at+=k;
            if (chance(N, 1, 30)) { if (choose(N, 2)) tty_printf(vt, "%s", ""); else tty_write(vt, piece.data(), 0); }
            if (others.size()<5 && chance(N, 1, 12))
            {
                tty c=tty_copy(vt); if (!c) { bad="copying failed"; break; }
                if (choose(N, 2)) std::swap(c, vt);
                if (choose(N, 2)) { others.push_back(c); left.push_back({at, screen(c)}); }
                else { str j=stuff(40); tty_write(c, j.data(), j.size()); tty_free(c); }
            }
            if ((checks<6 && chance(N, 1, 10)) || at==data.size())
            {
                checks++;
                tty all=tty_init(cols, rows, !fixed);
                tty_write(all, data.data(), at);
                str e=cmp_screen(screen(vt), screen(all));
                if (!e.empty()) bad=sfmt("after %zu of %zu bytes in pieces of up to %u, ", at, data.size(), most)+e;
                tty_free(all);
            }
        }
        for (size_t i=0;i<others.size() && bad.empty();i++)
        {
            str e=cmp_screen(screen(others[i]), left[i].second);
            if (!e.empty()) bad=sfmt("the copy made after %zu bytes has changed: ", left[i].first)+e;
            // and goes on from where it was
            size_t a=left[i].first;
            while (a<data.size()) { size_t k=1+choose(N, most*4); if (k>data.size()-a) k=data.size()-a; tty_write(others[i], data.data()+a, k); a+=k; }
            e=cmp_screen(screen(others[i]), screen(vt));
            if (bad.empty() && !e.empty()) bad=sfmt("the copy made after %zu bytes, fed the rest, ", left[i].first)+e;
        }
        for (auto c : others) tty_free(c);
        tty_free(vt);
        if (faults.malloc_live>mem+5000) bad=sfmt("%lld bytes are still allocated after freeing everything", (long long)(faults.malloc_live-mem));
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "writing to a terminal");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!bad.empty()) fail("screen", "%s", bad.c_str());
}
// the same bytes arriving differently: as frames of a recording, or live with any fragmentation
WORKLOAD(C26, c26_arrival, 2)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    if (chance(N, 1, 2)) cfg.short_file_reads=true;
    static const u32 sb[]={4096, 16, 512, 65536};
    cfg.stdio_buf=sb[choose(N, 4)];
    str data=stuff(1+logsize(W, 6000));
    int how=choose(W, 4); Comp c= how<2 && choose(W, 3)==0? (Comp)choose(W, 5) : C_NONE;
    Fmt f= choose(W, 2)? F_TTYREC : F_LIVE;
    std::vector<Ev> ev; i64 t=0;
    for (size_t at=0;at<data.size();) { size_t k=1+logsize(W, 300); if (k>data.size()-at) k=data.size()-at; ev.push_back({t, data.substr(at, k)}); at+=k; t+=logsize(W, 1000000); }
    str raw= f==F_LIVE? data : enc_ttyrec(ev, 1234567890LL*1000000);
    str want, got;
    describe("%zu bytes, %s", data.size(), f==F_LIVE? "live" : "ttyrec");
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        tty all=tty_init(80, 25, 1); tty_write(all, data.data(), data.size()); want=screen(all); tty_free(all);
        Delivery d=deliver(p, f==F_LIVE? "r" : "r.ttyrec", compress(c, raw), c, how, "src");
        ttyrec tr=ttyrec_load(d.fd, f==F_LIVE? "live" : 0, d.name.c_str(), 0);
        if (!tr) fail("open-failed", "the recording could not be loaded");
        struct timeval far; far.tv_sec=4000000000LL; far.tv_usec=0; tty vt=0;
        ttyrec_seek(tr, &far, &vt);
        got=screen(vt);
        tty_free(vt); ttyrec_free(tr);
        wait_no_fds(p, "after loading");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "loading");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    str e=cmp_screen(got, want);
    if (!e.empty()) fail("screen", "loaded as %s: %s", f==F_LIVE? "live" : "ttyrec", e.c_str());
}

// C29: doing the same again and again leaves no more behind than doing it once
WORKLOAD(C29, c29_repeat, 3)
{
    cfg.max_bbs=3000000000ULL;
    draw_sched_config(); draw_jitter();
    cfg.max_points=4000000;
    same_fmt=same_comp=-1;
    u32 size=choose(W, 4)? 800 : 6000;
    if (cfg.bb_gap && cfg.bb_gap<300) size=300;
    int n=1+choose(W, 3), times=4+logsize(W, 60);
    std::vector<Job> jobs;
    for (int i=0;i<n;i++) { jobs.push_back(any_job(i, size, true)); describe("%s; ", jobs.back().name.c_str()); }
    bool together=choose(W, 2);
    describe("%d times%s", times, together? ", each time all at once" : "");
    Proc *p=mkproc("program");
    start_main(p, [&]() -> int {
        Holds first;
        for (int k=0;k<times;k++)
        {
            if (together)
            {
                int left=n;
                for (auto &j : jobs) { auto run=j.run; spawn_thread(p, j.name, [run,&left] { run(); left--; touch(); })->detached=true; }
                wait_for([&]{ return !left; }, "the threads");
            }
            else for (auto &j : jobs) j.run();
            if (k<2) first=quiet(p, 0);     // the first time something may be set up for good
            else if (k==times-1 || chance(N, 1, 8))
            {
                Holds h=quiet(p, &first);
                if (h.mem>first.mem) fail("memory", "having done the same %d times, %lld bytes are held, after 2 times it was %lld", k+1, (long long)h.mem, (long long)first.mem);
                if (h.threads>first.threads) fail("threads", "having done the same %d times, there are %d threads left, after 2 times %d", k+1, h.threads, first.threads);
                if (h.fds>first.fds) fail("descriptors", "having done the same %d times, there are %d descriptors open, after 2 times %d: %s", k+1, h.fds, first.fds, fd_report(p).c_str());
            }
        }
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 400LL*3600*1000000);
    expect_end(p, st, "doing the same again and again");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
}

#include "rec.h"
#include "internal.h"
#include <string.h>

const char *fmt_name[]={"ansi", "ttyrec", "nh_recorder", "asciicast-v1", "asciicast", "dosrecorder", "live"};
const char *fmt_ext[]={".txt", ".ttyrec", ".nh", ".cast", ".cast", ".dm2", ".log"};

static void pl_init(const struct timeval *ts, void *arg)
{
    Played &p=*(Played*)arg;
    p.ninit++; p.init=ts->tv_sec*1000000LL+ts->tv_usec;
    if (p.nwaits || p.data.size()) p.wait_first=true;
}
static void pl_wait(const struct timeval *tv, void *arg)
{
    Played &p=*(Played*)arg;
    p.nwaits++;
    i64 d=tv->tv_sec*1000000LL+tv->tv_usec;
    if (d<0) p.negative=true;
    p.t+=d;
}
static void pl_print(const char *b, int len, void *arg)
{
    Played &p=*(Played*)arg;
    if (len<0) fail("bad-callback", "print called with %d bytes", len);
    if (p.marks.empty() || p.marks.back().second!=p.t) p.marks.push_back({p.data.size(), p.t});
    if (p.wall.empty() || p.wall.back().second!=now) p.wall.push_back({p.data.size(), now});
    p.data.append(b, len);
    p.prints.push_back({p.t, str(b, len)});
    if (p.data.size()>p.limit) fail("too-much", "the reader delivers without end");
    if (p.slow && chance(N, 1, 3)) sleep_us(logsize(N, p.slow));
}
int play_rec(Played &pl, int fd, const char *format, const char *filename)
{
    return ttyrec_r_play(fd, format, filename, pl_init, pl_wait, pl_print, &pl);
}
static str cmp_marks(const str &wd, const std::vector<std::pair<size_t,i64>> &wm, const str &gd, const std::vector<std::pair<size_t,i64>> &gm, i64 tol)
{
    if (wd!=gd)
    {
        size_t d=first_diff(wd, gd);
        return sfmt("%zu bytes instead of %zu, differing from %zu on: \"%s\" instead of \"%s\"", gd.size(), wd.size(), d, hexs(gd.substr(d), 40).c_str(), hexs(wd.substr(d), 40).c_str());
    }
    auto at=[](const std::vector<std::pair<size_t,i64>> &m, size_t o) { i64 t=0; auto it=std::upper_bound(m.begin(), m.end(), std::make_pair(o, INT64_MAX)); if (it!=m.begin()) t=(it-1)->second; return t; };
    for (auto *m : {&wm, &gm})
        for (auto &x : *m)
            for (size_t o : {x.first, x.first? x.first-1 : 0})
            {
                if (o>=wd.size()) continue;
                i64 a=at(wm, o), b=at(gm, o);
                if (b-a>tol || a-b>tol) return sfmt("byte %zu of %zu comes at %s s instead of %s s", o, wd.size(), tvs(b).c_str(), tvs(a).c_str());
            }
    return "";
}
static void marks_of(const std::vector<Ev> &e, str &d, std::vector<std::pair<size_t,i64>> &m) { for (auto &x : e) { m.push_back({d.size(), x.t}); d+=x.d; } }
str cmp_timed(const std::vector<Ev> &want, const Played &got, i64 tol)
{
    str d; std::vector<std::pair<size_t,i64>> m; marks_of(want, d, m);
    return cmp_marks(d, m, got.data, got.marks, tol);
}
str cmp_timed_rec(const std::vector<Ev> &want, const std::vector<Ev> &got, i64 tol)
{
    str d, g; std::vector<std::pair<size_t,i64>> m, n; marks_of(want, d, m); marks_of(got, g, n);
    return cmp_marks(d, m, g, n, tol);
}

str utf8_payload(u32 n)
{
    static const char *w[]={"a", "bc ", "\r\n", "ż", "日", "\"", "\\", "🐈", "é", "/", "\t", "\e[1m", "\b", "\e[H\e[J", "\x7f", "x\\\"y", "‼", "\f", "]}", "[1, \"o\", \"", "\xf1\xaa\xaf\x8d", "\xf4\x8f\xbf\xbd", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbd", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xf4\x8f\xbf\xbf"};
    str s;
    u32 plain=choose(W, 3);
    while (s.size()<n) { const char *x=w[plain==1? choose(W, 3) : choose(W, choose(W, 8)? 22 : 31)]; s+=x; if (n>3000 && chance(W, 1, 3)) { str t=s.substr(0, 2000); while (t.size() && ((u8)t.back()&0xc0)==0x80) t.pop_back(); if (t.size() && (u8)t.back()>=0xc0) t.pop_back(); while (s.size()+t.size()<n && t.size()) s+=t; } }
    return s;
}
GenOpt opt_for(Fmt f)
{
    GenOpt o;
    switch (f)
    {
    case F_NH: o.nul=false; o.gran=10000; break;
    case F_CAST1: case F_CAST2: o.utf8=true; o.empty=true; break;
    case F_TTYREC: o.empty=true; break;
    default: break;
    }
    return o;
}
std::vector<Ev> gen_events(const GenOpt &o)
{
    std::vector<Ev> e;
    u32 n=1+logsize(W, o.maxev-1);
    if (o.big && chance(W, 1, 12)) n=1+logsize(W, o.maxev*25);
    u32 tm=choose(W, 6), dm=choose(W, 4);
    i64 t=0;
    static const i64 round[]={0, 1000000, 2000000, 500000, 999999, 1000001, 10000, 1, 60000000, 5000000};
    for (u32 i=0;i<n;i++)
    {
        Ev x;
        i64 d=0;
        if (i || !choose(W, 2))
            switch (tm)
            {
            case 0: d=100000; break;
            case 1: d=logsize(W, 3000000); break;
            case 2: d=round[choose(W, 10)]; break;
            case 3: d=choose(W, 4)? 0 : logsize(W, 2000000000); break;
            case 4: d= choose(W, 8)? logsize(W, 100000) : (i64)logsize(W, 4000000)*1000; break;
            case 5: d=i? 0 : 0; break;
            }
        if (d>o.maxgap) d=o.maxgap;
        t+=d; t-=t%o.gran;
        x.t=t;
        u32 k= dm==0? 1+logsize(W, o.maxdata) : dm==1? 1+choose(W, 20) : dm==2? 1+logsize(W, 300) : 1+logsize(W, n<30? 40000 : 5000);
        if (o.big && n<60 && chance(W, 1, 25)) k=1+logsize(W, 200000);
        if (o.maxdata<3000 && k>o.maxdata) k=1+k%o.maxdata;
        if (o.empty && chance(W, 1, 15)) k=0;
        if (k)
        {
            if (o.utf8) x.d=utf8_payload(k);
            else
            {
                switch (choose(W, 3))
                {
                case 0: x.d=textish(k<400? k : 400); while (x.d.size()<k) x.d+=x.d.substr(0, k-x.d.size()); break;
                case 1: { u64 v=choose(W, 1<<30); x.d.resize(k); for (u32 j=0;j<k;j++) { if (!(j&7)) v=sim::mix(v+1); x.d[j]=v>>(8*(j&7)); } break; }
                case 2: { u32 b=choose(W, 1<<20); x.d.resize(k); for (u32 j=0;j<k;j++) x.d[j]='!'+(b+j+j/91)%94; break; }
                }
                if (!o.nul) for (auto &c : x.d) if (!c) c='0';
            }
        }
        e.push_back(x);
    }
    return e;
}
static str cast_num(i64 us, bool exotic)
{
    if (us<0) harness_error("negative");
    i64 s=us/1000000, f=us%1000000;
    if (exotic)
        switch (choose(W, 6))
        {
        case 1: if (!f) return sfmt("%lld", (long long)s); break;
        case 2: { str x=sfmt("%lld.%06lld", (long long)s, (long long)f); while (x.back()=='0') x.pop_back(); if (x.back()=='.') x+='0'; return x; }
        case 3: return sfmt("%lld.%06lld%u", (long long)s, (long long)f, choose(W, 1000));
        case 4: if (!f && s%10==0 && s) return sfmt("%llde1", (long long)s/10); return sfmt("%lld.%06llde%s0", (long long)s, (long long)f, choose(W, 2)? "+" : "");
        case 5: if (f%100==0 ) return sfmt("%lld.%04lldE-1", (long long)(us/100000), (long long)(us%100000/10)); break;
        }
    return sfmt("%lld.%06lld", (long long)s, (long long)f);
}
static str sp(bool exotic) { if (!exotic) return ""; switch (choose(W, 6)) { case 1: return " "; case 2: return "\t"; case 3: return "\n"; case 4: return "  "; case 5: return "\r\n"; } return ""; }
static str cast_head(int version, i64 start, int cols, int rows, bool exotic)
{
    std::vector<str> f;
    auto S=[&]{ return sp(exotic); };
    auto kv=[&](const char *k, const str &v) { return S()+"\""+k+"\""+S()+":"+S()+v; };
    f.push_back(kv("width", sfmt("%d", cols))+S()); f.push_back(kv("height", sfmt("%d", rows))+S());
    if (start) f.push_back(kv("timestamp", sfmt("%lld", (long long)start/1000000))+S());
    if (exotic)
    {
        if (choose(W, 2)) f.push_back(kv("title", json_str(utf8_payload(choose(W, 60)), W, true))+S());
        if (choose(W, 2)) f.push_back(kv("command", json_str("/bin/sh", W, true))+S());
        if (choose(W, 2)) f.push_back(kv("idle_time_limit", "2.5")+S());
        if (choose(W, 2)) f.push_back(kv("duration", "12.345678")+S());
        if (choose(W, 2)) f.push_back(kv("env", choose(W, 4)? "{"+kv("TERM", "\"xterm\"")+S()+","+kv("SHELL", "\"/bin/sh\"")+S()+"}" : "{"+S()+"}")+S());
        if (choose(W, 3)==0) f.push_back(kv("theme", "{"+kv("fg", "\"#ffffff\"")+S()+","+kv("bg", "\"#000000\"")+S()+"}")+S());
        for (size_t i=f.size();i-- >1;) std::swap(f[i], f[choose(W, i+1)]);
    }
    str o=kv("version", sfmt("%d", version))+S();
    for (auto &x : f) o+=","+x;
    return "{"+o;
}
Encoded encode_as(Fmt f, const std::vector<Ev> &e, i64 start, int cols, int rows, bool exotic)
{
    Encoded r;
    switch (f)
    {
    case F_ANSI:
    {
        r.raw=cat_data(e);
        i64 t=0; for (size_t i=0;i<r.raw.size();i+=60) r.want.push_back({t, r.raw.substr(i, 60)}), t+=200000;
        r.total=t;
        break;
    }
    case F_TTYREC:
        r.raw=enc_ttyrec(e, start);
        r.ninit=1; r.init=start+(e.empty()? 0 : e[0].t);
        for (auto &x : e) r.want.push_back({x.t-e[0].t, x.d});
        r.total=e.empty()? 0 : e.back().t-e[0].t;
        { size_t p=0; for (auto &x : e) p+=12+x.d.size(), r.ends.push_back(p); }
        break;
    case F_NH:
    {
        // several events with the same time may share a stamp
        if (choose(W, 2)) { r.raw+='\0'; r.raw+=str(4, '\0'); }
        for (auto &x : e) { u32 v=x.t/10000; r.raw+='\0'; for (int i=0;i<4;i++) r.raw+=(char)(v>>(8*i)); r.raw+=x.d; r.ends.push_back(r.raw.size()); }
        r.want=e; r.total=e.empty()? 0 : e.back().t;
        if (choose(W, 4)==0) { if (choose(W, 2) && r.total<4000000000000LL) r.total+=choose(W, 2000)*10000; u32 v=r.total/10000; r.raw+='\0'; for (int i=0;i<4;i++) r.raw+=(char)(v>>(8*i)); } // a time at the end
        break;
    }
    case F_CAST1: case F_CAST2:
    {
        bool v2= f==F_CAST2;
        auto S=[&]{ return sp(exotic); };
        r.raw=cast_head(v2? 2 : 1, start, cols, rows, exotic);
        r.raw+= v2? "}"+str(exotic && choose(W, 2)? "\r\n" : "\n") : ","+S()+"\"stdout\""+S()+":"+S()+"[";
        r.ninit=1; r.init=start/1000000*1000000;
        r.want.push_back({0, sfmt("\e%%G\e[8;%d;%dt", rows, cols)});
        i64 last=0; bool first=true;
        for (auto &x : e)
        {
            if (v2 && exotic && choose(W, 8)==0) r.raw+="["+cast_num(x.t>last && choose(W, 2)? last+logsize(W, x.t-last<1000000000? x.t-last : 1000000000) : x.t, exotic)+","+S()+"\""+(choose(W, 2)? "i" : choose(W, 2)? "m" : "r")+"\","+S()+json_str(utf8_payload(choose(W, 10)), W, true)+"]\n";
            if (!v2 && !first) r.raw+=","+S();
            r.raw+=str("[")+S()+cast_num(v2? x.t : x.t-last, exotic)+S()+","+S();
            if (v2) r.raw+="\"o\""+S()+","+S();
            r.raw+=json_str(x.d, W, exotic)+S()+"]";
            r.ends.push_back(r.raw.size());
            r.raw+= v2? "\n" : S();
            last=x.t; first=false;
            r.want.push_back(x);
        }
        if (v2 && exotic && choose(W, 8)==0) { last+=logsize(W, 5000000); r.raw+="["+cast_num(last, exotic)+","+S()+"\"i\","+S()+json_str(utf8_payload(choose(W, 10)), W, true)+"]\n"; }
        if (!v2) r.raw+="]"+S()+"}"+S();
        r.total=last;
        break;
    }
    default: harness_error("encode_as %d", f);
    }
    return r;
}
void gen_dos(str &raw, std::vector<DosFrame> &want)
{
    int n=1+logsize(W, chance(W, 1, 8)? 150 : 12);
    std::vector<std::vector<std::pair<u8,u8>>> scr(256, std::vector<std::pair<u8,u8>>(2000, {' ', 7}));
    raw.clear(); want.clear(); i64 t=0;
    auto p16=[&](u32 v) { raw+=(char)v; raw+=(char)(v>>8); };
    for (int i=0;i<n;i++)
    {
        u32 delay= choose(W, 3)==0? 0 : logsize(W, choose(W, 5)? 5000 : 4000000);
        if (chance(W, 1, 10)) delay=1000*(1+choose(W, 5));
        t+=delay*1000LL;
        u32 style=choose(W, 4);
        int src= style==0? choose(W, 256) : 0, dst= style<2? choose(W, 256) : 0;
        auto s=scr[src];
        u32 nch= chance(W, 1, 15)? choose(W, 2001) : logsize(W, 30);
        bool note=chance(W, 1, 5);
        str body; std::vector<std::pair<u32,u32>> chs;
        u32 room=60000;
        for (u32 k=0;k<nch;k++)
        {
            u32 pos=choose(W, 2000), len= nch>200? choose(W, 3) : logsize(W, 2000-pos);
            if (len>2000-pos) len=2000-pos;
            if (len*2>room) len=0;
            room-=len*2;
            chs.push_back({pos, len});
            u32 m=choose(W, 4); u8 a=choose(W, 4)? 7 : choose(W, 256), ch=m==1? ' ' : 'A'+choose(W, 26);
            for (u32 q=0;q<len;q++)
            {
                if (m==2) ch=32+(ch-32+7)%95;
                if (m==3) { ch=128+(ch*5+q)%128; if (q%17==0) a=a*3+q; }
                s[pos+q]={ch, a}; body+=(char)ch; body+=(char)a;
            }
        }
        raw+=(char)delay; raw+=(char)(delay>>8); raw+=(char)(delay>>16); raw+=(char)(delay>>24);
        raw+=(char)choose(W, 80); raw+=(char)choose(W, 25); raw+=(char)src; raw+=(char)dst;
        p16(nch|(note? 0x8000 : 0));
        for (auto &x : chs) p16(x.first), p16(x.second);
        raw+=body;
        scr[dst]=s;
        DosFrame fr; fr.t=t; fr.note=note;
        if (note)
        {
            u32 w=choose(W, 81), h=choose(W, 26), x=choose(W, 81-w), y=choose(W, 26-h), tl=choose(W, 3)? choose(W, 40) : choose(W, 81);
            raw+=(char)w; raw+=(char)h; raw+=(char)x; raw+=(char)y; raw+=(char)tl; raw+=(char)7; raw+=(char)0;
            for (u32 j=0;j<h;j++) for (u32 k=0;k<w;k++) { u8 ch='a'+(j+k)%26, a=0x1f; s[(y+j)*80+x+k]={ch, a}; raw+=(char)ch; raw+=(char)a; }
            for (u32 k=0;k<tl;k++) fr.title+=(char)('A'+k%26);
            raw+=fr.title;
        }
        fr.s=s; fr.end=raw.size(); want.push_back(fr);
    }
}
Delivery deliver(Proc *p, const str &base, const str &data, Comp c, int how, const str &host)
{
    Delivery d; d.name=base+comp_ext[c];
    switch (how)
    {
    case 0: fs_put(d.name, data); break;                         // by name, a file
    case 1:                                                      // by name, over the network
        d.name="tcp://"+host+":7/"+d.name;
        net_host(host, [data](Ch c2s, Ch s2c, int) { send_chunks(s2c, data, choose(N, 3)? 30000 : 20, choose(N, 2)? 300000 : 0); });
        break;
    case 2:                                                      // descriptor of a pipe
    {
        Ofd r, w; make_pipe(r, w, cfg.pipe_cap);
        Ch ch=w->wr; u32 mc=choose(N, 4)? 30000 : 1+choose(N, 20), md=choose(N, 2)? 200000 : 0;
        if (data.size()/mc>20000) mc=30000;
        spawn_actor("sender", [ch,data,mc,md,w]{ send_chunks(ch, data, mc, md); ch_close_w(ch); });
        d.fd=fd_install(p, r);
        d.name=base;
        break;
    }
    case 3: fs_put(d.name, data); d.fd=fd_install(p, open_ino(fs[d.name], 0)); d.name=base; break;
    }
    return d;
}


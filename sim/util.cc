#include "util.h"
#include "internal.h"
#include <string.h>
#include <stdarg.h>
#include <stdlib.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <zstd.h>

str sfmt(const char *fmt, ...) { char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); return b; }
str tvs(i64 us) { return sfmt("%s%lld.%06lld", us<0? "-" : "", (long long)(us<0? -us : us)/1000000, (long long)(us<0? -us : us)%1000000); }
Proc *mkproc(const str &name, Ofd in, Ofd out, Ofd err)
{
    Proc *p=new_proc(name);
    fd_install(p, in? in : open_null(), OWN_STD);
    fd_install(p, out? out : open_null(), OWN_STD);
    fd_install(p, err? err : open_null(), OWN_STD);
    std_files(p);
    return p;
}
std::shared_ptr<Capture> capture(const str &name, i64 us_per_kb)
{
    auto c=std::make_shared<Capture>();
    Ofd r; make_pipe(r, c->w, 65536);
    Ch ch=r->rd;
    c->t=spawn_actor(name, [c,ch,us_per_kb]{
        char buf[4096];
        while (1)
        {
            i64 n=ch_read(ch, buf, sizeof(buf), "reader of captured output");
            if (n<=0) break;
            c->data.append(buf, n);
            c->times.push_back({now, c->data.size()});
            if (us_per_kb) sleep_us(us_per_kb*n/1024+1);
        }
        c->eof=true; touch();
    });
    return c;
}
int run_args(int (*m)(int, char**), std::vector<str> args)
{
    std::vector<char*> av;
    for (auto &a : args) av.push_back(strdup(a.c_str()));
    av.push_back(0);
    char **v=(char**)malloc(av.size()*sizeof(char*));
    memcpy(v, av.data(), av.size()*sizeof(char*));
    return m(av.size()-1, v);
}
Stop run_proc(Proc *p, i64 limit) { return run([p]{ return p->dead; }, now+limit); }
void expect_end(Proc *p, Stop st, const char *what)
{
    if (p->dead) return;
    const char *k= st==STOP_DEADLOCK? "deadlock: nothing can run any more" : st==STOP_TIME? "still running after the virtual time limit" : "no end in sight (step limit)";
    fail("HANG", "%s: %s at %s s; threads: %s", what, k, tvs(now).c_str(), blocked_report());
}
void settle(i64 us) { run([]{ return false; }, now+us); }

str textish(u32 n)
{
    static const char *words[]={"ls -l\r\n", "\e[1;31mred\e[0m ", "hello world ", "\e[2J\e[H", "żółw ", "\r\n", "0123456789", "\t", "}\n", "\\", "\"q\" ", "\e[5;10H", "日本 ", "$ ", "\e[K", "\b \b"};
    str s;
    while (s.size()<n) s+=words[choose(W, 16)];
    s.resize(n);
    return s;
}
str payload(u32 max)
{
    u32 n=logsize(W, max);
    str s;
    switch (choose(W, 5))
    {
    case 0: { s.resize(n); for (u32 i=0;i<n;i++) s[i]="abcdefghij\n"[(i*7+i/97)%11]; break; }
    case 1: { str t=textish(n<2000? n : 2000); while (s.size()<n && t.size()) s+=t.substr(0, n-s.size()); break; }
    case 2: { u64 x=choose(W, 1<<30); s.resize(n); for (u32 i=0;i<n;i++) { if (!(i&7)) x=sim::mix(x+1); s[i]=x>>(8*(i&7)); } break; }
    case 3: { s.assign(n, (char)choose(W, 256)); break; }
    case 4: { u64 x=choose(W, 1<<30); s.resize(n); for (u32 i=0;i<n;i++) { if (!(i&63)) x=sim::mix(x+1); s[i]= (x>>(i&31))&1? 'x' : (char)(x>>8); } break; }
    }
    return s;
}
str hexs(const str &s, size_t max)
{
    str r;
    for (size_t i=0;i<s.size() && i<max;i++)
    {
        unsigned char c=s[i];
        if (c>=32 && c<127 && c!='\\') r+=c;
        else r+=sfmt("\\x%02x", c);
    }
    if (s.size()>max) r+="...";
    return r;
}
size_t first_diff(const str &a, const str &b) { size_t i=0; while (i<a.size() && i<b.size() && a[i]==b[i]) i++; return i; }

const char *comp_ext[]={"", ".gz", ".bz2", ".xz", ".zst"};
Comp comp_of(const str &n)
{
    for (int i=1;i<NCOMP;i++) { str e=comp_ext[i]; if (n.size()>=e.size() && !strcasecmp(n.c_str()+n.size()-e.size(), e.c_str())) return (Comp)i; }
    return C_NONE;
}
str compress(Comp c, const str &s)
{
    str o;
    switch (c)
    {
    case C_GZ:
    {
        z_stream z; memset(&z, 0, sizeof(z));
        deflateInit2(&z, 6, Z_DEFLATED, 15+16, 8, Z_DEFAULT_STRATEGY);
        o.resize(deflateBound(&z, s.size())+64);
        z.next_in=(Bytef*)s.data(); z.avail_in=s.size(); z.next_out=(Bytef*)&o[0]; z.avail_out=o.size();
        if (deflate(&z, Z_FINISH)!=Z_STREAM_END) harness_error("deflate");
        o.resize(z.total_out); deflateEnd(&z);
        return o;
    }
    case C_BZ2:
    {
        unsigned n=s.size()+s.size()/50+1000; o.resize(n);
        if (BZ2_bzBuffToBuffCompress(&o[0], &n, (char*)s.data(), s.size(), 1, 0, 0)!=BZ_OK) harness_error("bz2");
        o.resize(n); return o;
    }
    case C_XZ:
    {
        o.resize(lzma_stream_buffer_bound(s.size())+100); size_t p=0;
        if (lzma_easy_buffer_encode(0, LZMA_CHECK_CRC32, 0, (const uint8_t*)s.data(), s.size(), (uint8_t*)&o[0], &p, o.size())!=LZMA_OK) harness_error("xz");
        o.resize(p); return o;
    }
    case C_ZST:
    {
        o.resize(ZSTD_compressBound(s.size())); size_t r=ZSTD_compress(&o[0], o.size(), s.data(), s.size(), 1);
        if (ZSTD_isError(r)) harness_error("zstd");
        o.resize(r); return o;
    }
    default: return s;
    }
}
Dec decompress(Comp c, const str &s, str &out)
{
    static char buf[1<<16];
    out.clear();
    switch (c)
    {
    case C_GZ:
    {
        size_t p=0; if (s.empty()) return D_OK;
        while (p<s.size())
        {
            z_stream z; memset(&z, 0, sizeof(z)); inflateInit2(&z, 15+16);
            z.next_in=(Bytef*)s.data()+p; z.avail_in=s.size()-p; int r;
            do { z.next_out=(Bytef*)buf; z.avail_out=sizeof(buf); r=inflate(&z, Z_NO_FLUSH); out.append(buf, sizeof(buf)-z.avail_out); } while (r==Z_OK && (z.avail_in || !z.avail_out));
            p=s.size()-z.avail_in; inflateEnd(&z);
            if (r==Z_OK || r==Z_BUF_ERROR) return D_TRUNC;
            if (r!=Z_STREAM_END) return D_BAD;
        }
        return D_OK;
    }
    case C_BZ2:
    {
        size_t p=0;
        while (p<s.size())
        {
            bz_stream z; memset(&z, 0, sizeof(z)); BZ2_bzDecompressInit(&z, 0, 0);
            z.next_in=(char*)s.data()+p; z.avail_in=s.size()-p; int r;
            do { z.next_out=buf; z.avail_out=sizeof(buf); r=BZ2_bzDecompress(&z); out.append(buf, sizeof(buf)-z.avail_out); } while (r==BZ_OK && (z.avail_in || !z.avail_out));
            p=s.size()-z.avail_in; BZ2_bzDecompressEnd(&z);
            if (r==BZ_OK) return D_TRUNC;
            if (r!=BZ_STREAM_END) return D_BAD;
        }
        return s.empty()? D_TRUNC : D_OK;
    }
    case C_XZ:
    {
        lzma_stream z=LZMA_STREAM_INIT; if (lzma_stream_decoder(&z, UINT64_MAX, LZMA_CONCATENATED)!=LZMA_OK) harness_error("lzma");
        z.next_in=(const uint8_t*)s.data(); z.avail_in=s.size(); lzma_ret r;
        do { z.next_out=(uint8_t*)buf; z.avail_out=sizeof(buf); r=lzma_code(&z, LZMA_FINISH); out.append(buf, sizeof(buf)-z.avail_out); } while (r==LZMA_OK);
        lzma_end(&z);
        return r==LZMA_STREAM_END? D_OK : r==LZMA_BUF_ERROR? D_TRUNC : s.empty()? D_TRUNC : D_BAD;
    }
    case C_ZST:
    {
        ZSTD_DStream *z=ZSTD_createDStream(); ZSTD_initDStream(z);
        ZSTD_inBuffer in={s.data(), s.size(), 0}; size_t r=1; ZSTD_outBuffer o;
        do { o={buf, sizeof(buf), 0}; r=ZSTD_decompressStream(z, &o, &in); if (ZSTD_isError(r)) { ZSTD_freeDStream(z); return D_BAD; } out.append(buf, o.pos); } while (in.pos<in.size || o.pos==o.size);
        ZSTD_freeDStream(z);
        return r==0? D_OK : D_TRUNC;
    }
    default: out=s; return D_OK;
    }
}

// ---------------------------------------------------------------- recordings
str cat_data(const std::vector<Ev> &e) { str s; for (auto &x : e) s+=x.d; return s; }
static void le32(str &s, u32 v) { for (int i=0;i<4;i++) s+=(char)(v>>(8*i)); }
static u32 rd32(const str &s, size_t p) { return (u8)s[p]|(u8)s[p+1]<<8|(u8)s[p+2]<<16|(u32)(u8)s[p+3]<<24; }
str enc_ttyrec(const std::vector<Ev> &e, i64 start)
{
    str s;
    for (auto &x : e) { i64 t=start+x.t; le32(s, t/1000000); le32(s, t%1000000); le32(s, x.d.size()); s+=x.d; }
    return s;
}
bool dec_ttyrec(const str &s, Rec &r)
{
    size_t p=0; i64 last=-1;
    r=Rec();
    while (p<s.size())
    {
        if (s.size()-p<12) { r.bad=true; r.why="truncated header"; break; }
        u32 sec=rd32(s, p), us=rd32(s, p+4), n=rd32(s, p+8);
        if (us>=1000000) { r.bad=true; r.why=sfmt("microseconds field is %u", us); break; }
        if (s.size()-p-12<n) { r.bad=true; r.why="truncated frame"; break; }
        i64 t=sec*1000000LL+us;
        if (!r.has_start) r.start=t, r.has_start=true;
        Ev e; e.t=t-r.start; e.d=s.substr(p+12, n);
        if (t<last) { r.bad=true; r.why="time goes backwards"; break; }
        last=t;
        r.ev.push_back(e);
        p+=12+n;
        r.consumed=p;
    }
    if (!r.ev.empty()) r.total=r.ev.back().t;
    return !r.bad;
}
// nh_recorder: a 0 byte and the time in 1/100 s, then the data that came at that time
str enc_nh(const std::vector<Ev> &e)
{
    str s;
    s+='\0'; le32(s, 0);
    for (auto &x : e) { s+='\0'; le32(s, x.t/10000); s+=x.d; }
    return s;
}
bool dec_nh(const str &s, Rec &r)
{
    r=Rec();
    size_t p=0; i64 last=0;
    while (p<s.size())
    {
        if (s[p]) { r.bad=true; r.why="data before the first time stamp"; break; }
        if (s.size()-p<5) { r.bad=true; r.why="truncated time stamp"; break; }
        i64 t=rd32(s, p+1)*10000LL;
        if (t<last) { r.bad=true; r.why="time goes backwards"; break; }
        last=t;
        size_t z=s.find('\0', p+5);
        if (z==str::npos) z=s.size();
        if (z>p+5) { Ev e; e.t=t; e.d=s.substr(p+5, z-p-5); r.ev.push_back(e); }
        p=z; r.consumed=p;
    }
    r.total=last;
    return !r.bad;
}
bool utf8_ok(const str &s)
{
    for (size_t i=0;i<s.size();)
    {
        u8 c=s[i];
        int n= c<0x80? 0 : c>=0xc2 && c<0xe0? 1 : c>=0xe0 && c<0xf0? 2 : c>=0xf0 && c<0xf5? 3 : -1;
        if (n<0 || i+n>=s.size()+0 ) { if (n<0 || i+n>s.size()-1) return false; }
        u32 v= n==0? c : n==1? c&31 : n==2? c&15 : c&7;
        for (int k=1;k<=n;k++) { if (((u8)s[i+k]&0xc0)!=0x80) return false; v=v<<6|((u8)s[i+k]&63); }
        if (n==2 && (v<0x800 || (v>=0xd800 && v<0xe000))) return false;
        if (n==3 && (v<0x10000 || v>0x10ffff)) return false;
        i+=n+1;
    }
    return true;
}
static void put_utf8(str &s, u32 v)
{
    if (v<0x80) s+=(char)v;
    else if (v<0x800) s+=(char)(0xc0|v>>6), s+=(char)(0x80|(v&63));
    else if (v<0x10000) s+=(char)(0xe0|v>>12), s+=(char)(0x80|(v>>6&63)), s+=(char)(0x80|(v&63));
    else s+=(char)(0xf0|v>>18), s+=(char)(0x80|(v>>12&63)), s+=(char)(0x80|(v>>6&63)), s+=(char)(0x80|(v&63));
}
// strict JSON
struct Js
{
    const str &s; size_t p=0; bool ok=true; str why;
    Js(const str &s_) : s(s_) {}
    bool bad(const char *w) { if (ok) why=sfmt("%s at byte %zu", w, p); ok=false; return false; }
    void ws() { while (p<s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; }
    bool lit(char c) { ws(); if (p<s.size() && s[p]==c) { p++; return true; } return false; }
    bool string(str &o)
    {
        o.clear(); ws();
        if (p>=s.size() || s[p]!='"') return bad("string expected");
        p++;
        u32 hi=0;
        while (1)
        {
            if (p>=s.size()) return bad("unterminated string");
            u8 c=s[p++];
            if (c!='\\' && hi) return bad("lone surrogate");
            if (c=='"') return true;
            if (c<32) { p--; return bad("control character in a string"); }
            if (c!='\\') { o+=(char)c; continue; }
            if (p>=s.size()) return bad("unterminated string");
            c=s[p++];
            switch (c)
            {
            case '"': case '\\': case '/': o+=(char)c; break;
            case 'b': o+='\b'; break; case 'f': o+='\f'; break; case 'n': o+='\n'; break; case 'r': o+='\r'; break; case 't': o+='\t'; break;
            case 'u':
            {
                if (p+4>s.size()) return bad("truncated \\u");
                u32 v=0; for (int i=0;i<4;i++) { char h=s[p++]; int d= h>='0'&&h<='9'? h-'0' : h>='a'&&h<='f'? h-'a'+10 : h>='A'&&h<='F'? h-'A'+10 : -1; if (d<0) return bad("bad \\u"); v=v*16+d; }
                if (v>=0xd800 && v<0xdc00) { if (hi) return bad("two high surrogates"); hi=v; break; }
                if (v>=0xdc00 && v<0xe000) { if (!hi) return bad("low surrogate alone"); v=0x10000+((hi-0xd800)<<10)+(v-0xdc00); hi=0; }
                else if (hi) return bad("lone surrogate");
                put_utf8(o, v);
                break;
            }
            default: return bad("unknown escape");
            }
        }
    }
    bool number(double &v, i64 *us=0)
    {
        ws(); size_t b=p;
        if (p<s.size() && s[p]=='-') p++;
        if (p>=s.size() || s[p]<'0' || s[p]>'9') return bad("number expected");
        while (p<s.size() && ((s[p]>='0' && s[p]<='9') || strchr(".eE+-", s[p])) && s[p]) p++;
        str n=s.substr(b, p-b);
        char *e; v=strtod(n.c_str(), &e);
        if (*e) return bad("bad number");
        if (us)
        {
            // exact decimal seconds to microseconds, truncated
            if (n.find_first_of("eE")!=str::npos) *us=(i64)(v*1e6);
            else
            {
                bool neg=n[0]=='-'; if (neg) n=n.substr(1);
                size_t d=n.find('.'); str f= d==str::npos? "" : n.substr(d+1); f+="000000"; f.resize(6);
                *us=atoll(n.substr(0, d).c_str())*1000000+atoll(f.c_str()); if (neg) *us=-*us;
            }
        }
        return true;
    }
    bool value() // any value, ignored
    {
        ws(); if (p>=s.size()) return bad("value expected");
        str t; double d;
        if (s[p]=='"') return string(t);
        if (s[p]=='{') { p++; if (lit('}')) return true; do { if (!string(t) || !lit(':') || !value()) return bad("object"); } while (lit(',')); return lit('}') || bad("} expected"); }
        if (s[p]=='[') { p++; if (lit(']')) return true; do { if (!value()) return false; } while (lit(',')); return lit(']') || bad("] expected"); }
        for (const char *k : {"true", "false", "null"}) if (!s.compare(p, strlen(k), k)) { p+=strlen(k); return true; }
        return number(d);
    }
};
bool dec_cast(const str &s, Rec &r)
{
    r=Rec();
    Js j(s);
    int version=0; bool v1body=false;
    auto done=[&](const char *w) { r.bad=true; r.why= j.ok? sfmt("%s at byte %zu", w, j.p) : j.why; return false; };
    if (!j.lit('{')) return done("no header");
    i64 t=0;
    auto v1=[&]() -> bool {
        v1body=true;
        if (!j.lit('[')) return false;
        r.consumed=j.p;
        if (j.lit(']')) return true;
        do {
            i64 us; double d; str x;
            if (!j.lit('[') || !j.number(d, &us) || !j.lit(',') || !j.string(x) || !j.lit(']')) return false;
            if (us<0) { j.bad("negative delay"); return false; }
            t+=us; r.ev.push_back({t, x}); r.consumed=j.p;
        } while (j.lit(','));
        return j.lit(']');
    };
    do
    {
        str k; double d;
        if (!j.string(k) || !j.lit(':')) return done("bad header");
        if (k=="version") { if (!j.number(d)) return done("bad version"); version=d; }
        else if (k=="width") { if (!j.number(d)) return done("bad width"); r.cols=d; }
        else if (k=="height") { if (!j.number(d)) return done("bad height"); r.rows=d; }
        else if (k=="timestamp") { if (!j.number(d)) return done("bad timestamp"); r.start=(i64)d*1000000; r.has_start=true; }
        else if (k=="stdout") { if (!v1()) return done("bad stdout array"); }
        else if (!j.value()) return done("bad header value");
    } while (j.lit(','));
    if (!j.lit('}')) return done("no end of header");
    if (version!=1 && version!=2) return done("unknown version");
    if (version==1)
    {
        if (!v1body) return done("no stdout array");
        j.ws(); if (j.p!=s.size()) return done("trailing garbage");
        r.total=t;
        return true;
    }
    r.consumed=j.p;
    while (1)
    {
        j.ws();
        if (j.p>=s.size()) break;
        i64 us; double d; str ty, x;
        if (!j.lit('[') || !j.number(d, &us) || !j.lit(',') || !j.string(ty) || !j.lit(',') || !j.string(x) || !j.lit(']')) return done("bad event");
        if (us<t) return done("time goes backwards");
        t=us;
        if (ty=="o") r.ev.push_back({t, x});
        if (j.p<s.size() && s[j.p]!='\n' && s[j.p]!='\r') return done("newline expected");
        r.consumed=j.p;
    }
    r.total=t;
    return true;
}
str json_str(const str &s, Tape tp, bool exotic)
{
    str o="\"";
    for (size_t i=0;i<s.size();)
    {
        u8 c=s[i];
        int n= c<0x80? 1 : c<0xe0? 2 : c<0xf0? 3 : 4;
        u32 v= n==1? c : n==2? c&31 : n==3? c&15 : c&7;
        for (int k=1;k<n;k++) v=v<<6|((u8)s[i+k]&63);
        u32 how= exotic? choose(tp, 3) : 0;
        if (c=='"' || c=='\\') { if (how==1) o+=sfmt("\\u%04x", c); else o+='\\', o+=(char)c; }
        else if (c=='\n') o+= how==1? "\\u000a" : "\\n";
        else if (c=='\r') o+= how==1? "\\u000D" : "\\r";
        else if (c=='\t') o+= how==1? "\\u0009" : "\\t";
        else if (c=='\b') o+= how==1? "\\u0008" : "\\b";
        else if (c=='\f') o+= how==1? "\\u000c" : "\\f";
        else if (c=='/' && how==1) o+="\\/";
        else if (c<32 || c==127) o+=sfmt(how==2? "\\u%04X" : "\\u%04x", c);
        else if (how==1 && v<0x10000) o+=sfmt("\\u%04x", v);
        else if (how==1) o+=sfmt("\\u%04x\\u%04x", 0xd800+((v-0x10000)>>10), 0xdc00+((v-0x10000)&0x3ff));
        else o.append(s, i, n);
        i+=n;
    }
    return o+"\"";
}

// ---------------------------------------------------------------- network
static std::vector<std::pair<str,Peer>> hosts;
void net_host(const str &name, Peer pr)
{
    hosts.push_back({name, pr});
    on_resolve=[](const char *h, const char *, std::vector<Addr> &a) {
        for (size_t i=0;i<hosts.size();i++) if (hosts[i].first==h) { a.push_back({2, std::to_string(i), 0, 0, 0}); return 0; }
        return -2;
    };
    on_connect=[](const Addr &at, Ch c2s, Ch s2c, int port) {
        size_t i=atoi(at.ip.c_str()); c2s->cap=1<<30;
        spawn_actor("server "+hosts[i].first, [=]{ hosts[i].second(c2s, s2c, port); ch_close_w(s2c); if (c2s->name!="keep") ch_close_r(c2s); });
    };
}
void send_chunks(const Ch &s2c, const str &data, u32 maxchunk, u32 maxdelay)
{
    size_t at=0;
    bool slow=maxdelay && chance(N, 1, 2);
    while (at<data.size())
    {
        size_t k=1+logsize(N, maxchunk); if (k>data.size()-at) k=data.size()-at;
        if (slow && chance(N, 1, 3)) sleep_us(logsize(N, maxdelay));
        if (ch_write(s2c, data.data()+at, k, "server sends")<(i64)k) return;
        at+=k;
    }
}
str telnet_noise(Tape t, const str &data, str *negs)
{
    str o;
    static const u8 opts[]={1, 3, 5, 24, 25, 31, 0, 255, 34, 86};
    u32 den=4+logsize(t, 2000);
    for (size_t i=0;i<=data.size();i++)
    {
        if (chance(t, 1, i==0 || i==data.size()? 2 : den))
            switch (choose(t, 4))
            {
            case 0: { u8 c=251+choose(t, 4), op=opts[choose(t, 10)]; o+='\xff'; o+=(char)c; o+=(char)op; if (negs) *negs+=(char)c, *negs+=(char)op; break; }
            case 1: { o+='\xff'; o+=(char)(241+choose(t, 9)); break; }
            case 2: { o+="\xff\xfa"; o+=(char)opts[choose(t, 6)]; u32 n= choose(t, 6)? choose(t, 30) : choose(t, 65); for (u32 k=0;k<n;k++) { char c=choose(t, 5)? 'a'+choose(t, 26) : (char)choose(t, 256); o+=c; if (c=='\xff') o+=c; } o+="\xff\xf0"; break; }
            case 3: { for (int k=1+choose(t, 3);k--;) { u8 c=251+choose(t, 4), op=opts[choose(t, 10)]; o+='\xff'; o+=(char)c; o+=(char)op; if (negs) *negs+=(char)c, *negs+=(char)op; } break; }
            }
        if (i==data.size()) break;
        o+=data[i]; if (data[i]=='\xff') o+='\xff';
    }
    return o;
}
void check_fds() { if (!fd_misuse.empty()) fail("fd-misuse", "%s", fd_misuse.c_str()); }
void wait_no_fds(Proc *p, const char *what)
{
    sleep_us(1000);
    if (!wait_until([&]{ return open_fds(p, true)==0; }, now+3600*1000000LL, "descriptors to be closed"))
        fail("fd-leak", "%s: descriptors still open an hour later: %s", what, fd_report(p).c_str());
}

Holds quiet(Proc *p, const Holds *most)
{
    Holds h;
    auto look=[&]{ h.mem=faults.malloc_live; h.threads=threads_left(p); h.fds=open_fds(p, false); };
    if (!most)
    {   // until nothing goes away any more
        wait_until([&]{ return open_fds(p, true)==0; }, now+3600*1000000LL, "descriptors to be closed");
        for (int same=0;same<20;) { Holds o=h; sleep_us(50000); look(); if (h.mem==o.mem && h.threads==o.threads && h.fds==o.fds) same++; else same=0; }
        return h;
    }
    wait_until([&]{ look(); return h.mem<=most->mem && h.threads<=most->threads && h.fds<=most->fds; }, now+3600*1000000LL, "what was used to be given back");
    return h;
}

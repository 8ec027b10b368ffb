// C17: damaged or failing input is survived and its intact part kept
#include "rec.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <algorithm>

static bool is_message(const str &m, bool cast, bool dm2)
{
    if (m.empty()) return true;
    static const char *known[]={"Not an asciicast: ", "Malformed asciicast: ", "Unsupported asciicast version.\n", "Not a DosRecorder recording!"};
    for (const char *k : known) { size_t n=strlen(k); if (!m.compare(0, n, k) && m.size()<120 && (m.find('\n')==str::npos || m.find('\n')==m.size()-1)) return true; }
    return false;
}
// what remains of an input when it is cut at k
struct Damage { int kind; size_t pos; str data; bool cut; i64 eio=-1; };
static Damage damage(const str &raw, const std::vector<size_t> &spots, bool small)
{
    Damage d; d.kind=choose(F, 7);
    d.pos= raw.empty()? 0 : choose(F, raw.size()+1);
    if (!spots.empty() && choose(F, 3)) { i64 p=(i64)spots[choose(F, spots.size())]+(i64)choose(F, 30)-8; if (p<0) p=0; if ((size_t)p>raw.size()) p=raw.size(); d.pos=p; }
    d.data=raw; d.cut=false;
    switch (d.kind)
    {
    case 0: case 1: d.data.resize(d.pos); d.cut=true; fault("truncated-input"); break;
    case 2: d.eio=d.pos; d.cut=true; break;          // a read error
    case 3: { u32 n=1+choose(F, 4); size_t p=d.pos; for (u32 i=0;i<n && p<d.data.size();i++) { d.data[p]^=1+choose(F, 255); p+=1+logsize(F, 3000); } fault("flipped-bytes"); break; }
    case 4: { u32 n=1+logsize(F, 300); u64 v=choose(F, 1<<30); str g; for (u32 i=0;i<n;i++) v=sim::mix(v+1), g+=(char)v; if (choose(F, 2)) d.data.insert(d.pos, g); else d.data=d.data.substr(0, d.pos)+g+(d.pos+n<raw.size()? raw.substr(d.pos+n) : ""); fault("garbage"); break; }
    case 5: { u32 n=1+logsize(F, 300); d.data.erase(d.pos, n); fault("lost-bytes"); break; }
    case 6: { str g=choose(F, 2)? str(1+logsize(F, small? 2000 : 100000), (char)(choose(F, 3)? 0 : 255)) : raw.substr(0, choose(F, raw.size()+1)); d.data=d.data.substr(0, d.pos)+g+raw.substr(d.pos); fault("foreign-block"); break; }
    }
    return d;
}
static Delivery deliver_damaged(Proc *p, const str &base, const Damage &d, Comp c, int how)
{
    if (d.eio<0) return deliver(p, base, d.data, c, how, "src");
    Delivery r;
    if (how==1)
    {
        r.name="tcp://src:7/"+base+comp_ext[c];
        str part=d.data.substr(0, d.eio);
        net_host("src", [part](Ch c2s, Ch s2c, int) { send_chunks(s2c, part, 30000, 300000); wait_for([&]{ return s2c->avail()==0 || !s2c->readers; }, "everything read"); s2c->rst=true; touch(); fault("connection-reset"); });
        return r;
    }
    r.name=base+comp_ext[c];
    Ino i=fs_put(r.name, d.data); i->fail_read_at=d.eio; i->fail_errno=choose(F, 2)? EIO : ENOMEM;
    if (how==3 || how==2) { r.fd=fd_install(p, open_ino(i, 0)); r.name=base; }
    return r;
}

WORKLOAD(C17, c17_damage, 5)
{
    draw_sched_config(); draw_jitter();
    faults.malloc_limit=2LL<<30;
    cfg.max_bbs=300000000;
    Fmt f=(Fmt)pick(W, std::vector<int>{F_ANSI, F_TTYREC, F_TTYREC, F_NH, F_CAST1, F_CAST2, F_CAST2, F_DM2, F_DM2, F_LIVE});
    GenOpt o=opt_for(f);
    Encoded en; std::vector<DosFrame> df;
    if (f==F_DM2) { gen_dos(en.raw, df); for (auto &x : df) en.ends.push_back(x.end); }
    else
    {
        auto ev=gen_events(o);
        if (f==F_LIVE) { en.raw=cat_data(ev); en.want.push_back({0, en.raw}); }
        else en=encode_as(f, ev, choose(W, 2)? 1234567890LL*1000000 : 0, 80, 25, choose(W, 2));
    }
    str stored=en.raw;
    bool gz=f==F_DM2 && choose(W, 2);
    if (gz) stored=compress(C_GZ, stored);
    Comp c= f!=F_LIVE && choose(W, 2)? (Comp)choose(W, 5) : C_NONE;
    str file=compress(c, stored);
    Comp oc= c? c : gz? C_GZ : C_NONE;
    Damage d=damage(file, oc? std::vector<size_t>() : en.ends, f==F_DM2);
    int how=choose(W, 4);
    if (c && how>1) how-=2;
    bool autodet=(f==F_TTYREC || f==F_CAST2) && chance(W, 1, 5) && en.raw.size()>12 && !(f==F_TTYREC && (en.want[0].d.empty() || en.want[0].d.size()>=65536)) && d.pos>=12;
    if (autodet && oc) autodet=false;
    const char *format= f==F_LIVE? "live" : autodet? "auto" : choose(W, 2)? 0 : f==F_ANSI? "baudrate" : f==F_CAST1? "asciicast" : fmt_name[f];
    str base=str("r")+(autodet? "" : fmt_ext[f]);
    static const char *dk[]={"truncated", "truncated", "read error", "flipped", "garbage", "bytes lost", "foreign block"};
    describe("%s%s %zu bytes stored, %s at %zu", fmt_name[f], comp_ext[c], file.size(), dk[d.kind], d.pos);
    // how much of the recording is intact
    size_t good; str ref;
    if (oc)
    {
        size_t at=d.pos;
        // bzlib and zlib drop the piece they were reading
        u32 piece= d.eio<0? 0 : c==C_BZ2? 5000 : oc==C_GZ || gz? 16384 : 0;
        at= at>piece? at-piece : 0;
        str out; decompress(oc, file.substr(0, at), out);
        if (c && gz) { ref=out; str o2; decompress(C_GZ, out, o2); out=o2; }
        good=out.size();
        // one call of the decompressor's may be lost with the error
        size_t slack=0;
        if (oc==C_GZ || gz) slack+=2*32768+34; if (c==C_BZ2) slack+=32768; if (c==C_ZST) slack+=131072;
        if (c && gz) slack+=65536;
        if (f==F_DM2 && d.eio>=0) slack+=32768;     // gzread drops what it had read ahead
        good= good>slack? good-slack : 0;
        if (good) probe("intact part of a damaged compressed file");
    }
    else good= f==F_DM2 && d.eio>=0? (d.pos>32768? d.pos-32768 : 0) : d.pos;
    Played whole, pl;
    if (chance(N, 1, 5)) pl.slow=100000;
    Proc *p=mkproc("reader");
    bool ok=false; i64 peak=0;
    start_main(p, [&]() -> int {
        if (f==F_DM2) { fs_put("whole.dm2", en.raw); play_rec(whole, -1, 0, "whole.dm2"); }
        Delivery dl=deliver_damaged(p, base, d, c, how);
        faults.malloc_peak=faults.malloc_live;
        i64 base_mem=faults.malloc_live;
        ok=play_rec(pl, dl.fd, format, dl.name.c_str());
        peak=faults.malloc_peak-base_mem;
        wait_no_fds(p, "after playing");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "reading a damaged recording");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    if (!ok) fail("open-failed", "the recording could not be opened");
    if (peak>32<<20) fail("memory", "reading needed %lld bytes of memory", (long long)peak);
    if (pl.data.size()>3*1000000+en.raw.size()*64 && f!=F_DM2 && !oc) fail("too-much", "%zu bytes came out of %zu", pl.data.size(), en.raw.size());
    if (f==F_DM2)
    {
        size_t n=0; while (n<df.size() && df[n].end<=good) n++;
        if (n>pl.prints.size()) fail("lost", "%zu frames precede the damage, %zu were shown", n, pl.prints.size());
        for (size_t i=0;i<n;i++) if (pl.prints[i]!=whole.prints[i]) fail("changed", "frame %zu, before the damage, is shown differently", i);
        return;
    }
    // intact events, in full
    std::vector<Ev> need;
    size_t extra=en.want.size()-en.ends.size();          // the reader's own size sequence
    if (f==F_ANSI || f==F_LIVE)
    {
        if (pl.data.compare(0, good, en.raw, 0, good)) fail("lost", "%zu bytes precede the damage, wrong from %zu on (%zu came)", good, first_diff(pl.data, en.raw), pl.data.size());
        if (f==F_ANSI) { size_t k=0; for (auto &x : en.want) { k+=x.d.size(); if (k<=good) need.push_back(x); } }
    }
    else
    {
        size_t n=0; while (n<en.ends.size() && en.ends[n]<=good) n++;
        for (size_t i=0;i<(n? n+extra : 0);i++) need.push_back(en.want[i]);
    }
    str nd=cat_data(need);
    if (pl.data.compare(0, nd.size(), nd)) fail("lost", "%s: %zu events (%zu bytes) precede the damage (at %zu), wrong from %zu on (%zu came): \"%s\"", fmt_name[f], need.size(), nd.size(), d.pos, first_diff(pl.data, nd), pl.data.size(), hexs(pl.data.substr(std::min(pl.data.size(), first_diff(pl.data, nd))), 60).c_str());
    if (f!=F_LIVE)
    {
        Played t=pl; t.data.resize(nd.size());
        str e=cmp_timed(need, t);
        if (!e.empty()) fail("timing", "%s, before the damage: %s", fmt_name[f], e.c_str());
    }
    // nothing invented: a cut recording shows a beginning of the whole, perhaps with a message
    if (d.cut && !oc && (f!=F_NH))
    {
        str all=cat_data(en.want);
        size_t k=first_diff(pl.data, all);
        while (1)
        {
            if (is_message(pl.data.substr(k), f==F_CAST1 || f==F_CAST2, false)) break;
            if (!k || pl.data.size()-k>120) fail("invented", "%s cut at %zu of %zu: %zu bytes of playback, not a beginning of the whole: \"%s\" follows", fmt_name[f], d.pos, file.size(), pl.data.size(), hexs(pl.data.substr(k), 60).c_str());
            k--;
        }
    }
    if (d.cut && !oc && f==F_NH) { str all=cat_data(en.want); if (all.compare(0, pl.data.size(), pl.data)) fail("invented", "nh_recorder cut at %zu: playback differs from %zu on", d.pos, first_diff(pl.data, all)); }
}

// ---------------------------------------------------------------- hostile contents
static str hostile(Fmt &f)
{
    bool big=chance(W, 1, 8); i64 budget= big? 800 : 40000;     // huge terminals are slow
    str s; auto u32le=[&](u32 v) { for (int i=0;i<4;i++) s+=(char)(v>>8*i); };
    static const u32 odd[]={0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 65535, 65536, 32768, 32769, 0xfffffff0u, 999999, 1000000, 1<<20};
    auto oddv=[&]{ return choose(W, 4)? odd[choose(W, 13)] : choose(W, 1<<30); };
    auto escs=[&](u32 n) {
        static const char *e[]={"\e[8;9999;9999t", "\e[8;256;512t", "\e[8;1;2t", "\e[8;0;0t", "\e[8;256;2t", "\e[8;1;512t", "\e[99999999999L", "\e[4294967295M", "\e[2147483647;2147483647H", "\e[999999C", "\e[5;2r", "\e[2;99999r", "\e[1P", "\e[99999@", "\e[99999X", "\e[99999P",
            "\e[38;2;999;999;999m", "\e[38;5;99999m", "\e[;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;m", "\e]0;", "\e]2;title\a", "\e]0;t\x18", "\e]4294967295;t\a", "\e]0\a", "\ec", "\e%G", "\e%@", "\e#8", "\eM", "\eD", "\eE", "\e(0", "\e[?1049h", "\e[?7l", "\e[J", "\e[1J", "\e[2J", "\e[1K", "\b\b\b", "\t\t\t\t\t\t\t\t\t\t\t\t", "\xcc\x81", "\xe2\x80\x8b", "日", "\xf4\x8f\xbf\xbf", "\xff\xfe", "\xed\xa0\x80", "\xc0\x80", "A", "\r", "\n", "\e[79C日", "\e[999;999H日", "\e[s", "\e[u", "\e7", "\e8", "\e[3g", "\eH", "\e[S", "\e[99999S", "\e[99999T", "\e[?5h", "\e[0;5;1;7;8;9m"};
        str o; for (u32 i=0;i<n;i++) { str x=e[choose(W, sizeof(e)/sizeof(*e))]; if (!big && x.size()>9 && x.substr(0, 4)=="\e[8;") continue; if (budget<0) break; size_t o0=o.size(); u32 rep=chance(W, 1, 30)? 1+logsize(W, 3000) : 1; while (rep-- && (i64)(o.size()-o0)<budget) o+=x; if (chance(W, 1, 40)) o+=str(1+logsize(W, 2000), (char)choose(W, 256)); budget-=o.size()-o0; } return o;
    };
    switch (f)
    {
    case F_TTYREC:
        for (u32 n=1+choose(W, 30);n--;) { u32le(oddv()); u32le(oddv()); str d=escs(choose(W, 40)); u32le(choose(W, 4)? d.size() : oddv()); s+=d; }
        break;
    case F_NH:
        for (u32 n=1+choose(W, 30);n--;) { if (choose(W, 4)) { s+='\0'; u32le(oddv()); } str d=escs(choose(W, 40)); s+=d; if (choose(W, 6)==0) s+=str(choose(W, 12), '\0'); }
        break;
    case F_CAST1: case F_CAST2:
    {
        static const char *tok[]={"{", "}", "[", "]", "\"", ":", ",", "\"version\"", "\"version\":2", "\"version\":1", "\"width\":", "\"height\":999999999999999999999", "\"stdout\":[", "null", "nul", "true", "-1", "0.5", "1e308", "1e-99999", "9999999999999999999999", "\\", "\\u", "\\ud83d", "\\udc08", "\\u0000", "\\uffff", "\\ud800\\ud800", "\"o\"", "\"i\"", " ", "\n", "\xff", "\"timestamp\":1e30,", "\"env\":{\"a\":{\"b\":{}}}", "[0.1,\"o\",\"x\"]\n", "[0.1, \"y\"],", "{\"version\":2,\"width\":80,\"height\":25}\n", "{\"version\":1,\"width\":80,\"height\":25,\"stdout\":[", "0.00000000000000000001"};
        if (choose(W, 3)) s+=(choose(W, 2)? "{\"version\":2,\"width\":80,\"height\":25}\n" : "{\"version\":1,\"width\":80,\"height\":25,\"stdout\":[");
        // one extreme thing where nothing before it spoils the rest
        switch (choose(W, 12))
        {
        case 0: { u32 k=choose(W, 3)? 1048570+choose(W, 12) : 900000+choose(W, 300000); str x(k, 'x'); if (choose(W, 3)==0) x.replace(k-6, 6, choose(W, 2)? "\\u65e5" : "\\u0041");
            switch (choose(W, 3)) { case 0: s+="[1,"; if (f==F_CAST2) s+="\"o\","; s+="\""+x+"\"]"; break; case 1: s+="[1,\""+x+"\",\"z\"]"; break; default: s="{\"version\":2,\""+x+"\":1,\"width\":80,\"height\":25}\n[1,\"o\",\"x\"]\n"; } s+= f==F_CAST2? "\n" : ","; break; }
        case 1: case 2:
        {
            static const char *num[]={"1e2000000000", "1E+99999999999999999999", "5e-2147483648", "0e2147483647", "1e4294967296", "123456789012345678901234567890", "0.00000000000000000000000000000001", "1e18", "1e-18", "9e9", "0.9999999999", "1.5e3", "1.", ".5", "1e", "1e+", "-1", "+1", "--1", "1ee5", "1.5.5", "18446744073709551616", "9223372036854775807.9"};
            const char *x=num[choose(W, sizeof(num)/sizeof(*num))];
            if (choose(W, 3)) for (u32 n=1+logsize(W, 100);n--;) s+=str("[")+x+(f==F_CAST2? ",\"o\",\"a\"]\n" : ",\"a\"],"); else s=str("{\"version\":2,\"width\":80,\"height\":25,\"timestamp\":")+x+"}\n[1,\"o\",\"x\"]\n";
            break;
        }
        }
        for (u32 n=1+logsize(W, 200);n--;)
            switch (choose(W, 8))
            {
            case 0: { str d=escs(5); for (auto &ch : d) if (ch=='"') ch='q'; s+=str("[")+(choose(W, 2)? "1.5" : tok[choose(W, sizeof(tok)/sizeof(*tok))])+(f==F_CAST2? ",\"o\",\"" : ",\"")+d+"\"]"+(f==F_CAST2? "\n" : ","); break; }
            case 1: if (chance(W, 1, 10)) { s+="[1,"; if (f==F_CAST2) s+="\"o\","; s+="\""+str(900000+choose(W, 300000), 'x')+"\"]"; break; }
            default: s+=tok[choose(W, sizeof(tok)/sizeof(*tok))];
            }
        break;
    }
    case F_DM2:
    {
        bool many=choose(W, 6)==5; // starts with a frame of the greatest number of chunks, or just above
        for (u32 n=1+choose(W, 40);n--;)
        {
            u32le(oddv()); s+=(char)choose(W, 256); s+=(char)choose(W, 256); s+=(char)choose(W, 256); s+=(char)choose(W, 256);
            static const u32 ks[]={1999, 2000, 2001, 2002, 0x7fff};
            u32 k= many? 1999+choose(W, 4) : choose(W, 4)? choose(W, 6) : choose(W, 4)? oddv()&0x7fff : ks[choose(W, 5)]; bool note=choose(W, 3)==0;
            if (k>1000) n=0;
            many=false;
            s+=(char)k; s+=(char)((k>>8)|(note? 0x80 : 0));
            u32 tot=0;
            bool edge=choose(W, 4)==0, plain=k>1000 && choose(W, 4), atedge=false; u32 v=choose(W, 1<<30);
            for (u32 q=0;q<k && q<4000;q++)
            {
                u32 pos, len;
                if (plain) v=sim::mix(v+q), pos=v%1990, len=v/2000%4;
                else pos=choose(W, 6)? choose(W, 2000) : oddv(), len=choose(W, 6)? choose(W, 30) : oddv();
                if (edge && !choose(W, plain? 300 : 3)) { pos=1995+choose(W, 7); len=choose(W, 3)? 2000-pos+choose(W, 3) : 65536-pos+choose(W, 2); atedge=true; } s+=(char)pos; s+=(char)(pos>>8); s+=(char)len; s+=(char)(len>>8); tot+=(len&0xffff);
            }
            if (plain || atedge? choose(W, 10) : choose(W, 4)) s+=str(std::min(tot*2, atedge? 200000u : 20000u), (char)choose(W, 256));
            if (note)
            {
                size_t at=s.size();
                for (int q=0;q<7;q++) s+=(char)(choose(W, 3)? choose(W, 30) : choose(W, 256));
                if (choose(W, 3)==0) { u32 x=choose(W, 81), w=80-x+choose(W, 2), y=choose(W, 26), h=25-y+choose(W, 2); s[at+2]=x; s[at+3]=y; s[at+0]=w; s[at+1]=h; if (choose(W, 2)) s[at+4]=78+choose(W, 5); }
                 s+=str(choose(W, 3000), 'n'); }
        }
        if (choose(W, 3)==0) s=compress(C_GZ, s);
        break;
    }
    default: s=escs(1+logsize(W, 2000));
    }
    if (choose(W, 3)==0) for (u32 k=1+choose(W, 5);k-- && s.size();) s[choose(W, s.size())]=choose(W, 256);
    return s;
}
WORKLOAD(C17, c17_hostile, 3)
{
    draw_sched_config(false);
    cfg.max_bbs=3000000000LL;
    Fmt f=(Fmt)pick(W, std::vector<int>{F_ANSI, F_TTYREC, F_NH, F_CAST1, F_CAST2, F_DM2, F_LIVE});
    str raw=hostile(f);
    Comp c=(Comp)(chance(W, 1, 4)? choose(W, 5) : 0);
    str name=str("r")+(choose(W, 4)? fmt_ext[f] : ".x")+comp_ext[c];
    fs_put(name, compress(c, raw));
    fault("hostile-input");
    int tool=choose(W, 4);       // play, load and seek, convert, library load and save
    static const char *tn[]={"play", "load", "termcat", "load and save"};
    describe("%s %zu bytes, %s", name.c_str(), raw.size(), tn[tool]);
    static const char *ofm[]={"ttyrec", "asciicast", "asciicast-v1", "nh_recorder", "ansi"};
    const char *of=ofm[choose(W, 5)];
    Played pl; i64 peak=0;
    Proc *p=mkproc("reader");
    start_main(p, [&]() -> int {
        i64 b0=faults.malloc_live; faults.malloc_peak=b0;
        if (tool==0) { play_rec(pl, -1, 0, name.c_str()); peak=faults.malloc_peak-b0; if (peak>32<<20) fail("memory", "playing %zu bytes took %lld bytes of memory", raw.size(), (long long)peak); }
        else if (tool==2) return run_args(termcat_main, {"termcat", "-o", str("out.")+(of[0]=='a' && of[1]=='s'? "cast" : "ttyrec"), "-f", of, name});
        else
        {
            ttyrec tr=ttyrec_load(-1, 0, name.c_str(), 0);
            if (!tr) return 0;
            tty vt=tty_init(80, 25, 1);
            for (int i=choose(W, 6);i--;)
            {
                struct timeval tv={(long)logsize(W, 2000000000), (long)choose(W, 1000000)};
                ttyrec_frame fr=ttyrec_seek(tr, &tv, &vt);
                for (int k=choose(W, 4);k-- && fr;) fr=ttyrec_next_frame(tr, fr);
            }
            peak=faults.malloc_peak-b0;
            if (peak>(64LL<<20)+(i64)raw.size()*60) fail("memory", "loading %zu bytes took %lld bytes of memory", raw.size(), (long long)peak);
            if (tool==3) ttyrec_save(tr, -1, of, "out.bin", 0, 0);
            tty_free(vt);
            ttyrec_free(tr);
            sleep_us(1000000);      // a decompressor may still be winding up
            if (faults.malloc_live>b0+100000) fail("memory", "%lld bytes are still allocated after freeing a recording of %zu bytes", (long long)(faults.malloc_live-b0), raw.size());
        }
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000000*1000000LL);
    expect_end(p, st, "reading a hostile recording");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
}

// ---------------------------------------------------------------- hostile peers
WORKLOAD(C17, c17_net, 1)
{
    draw_sched_config(); draw_jitter();
    int kind=choose(W, 3);
    str junk;
    u32 n=logsize(W, 400);
    for (u32 i=0;i<n;i++)
    {
        static const char *t[]={"\xff\xfb\x01", "\xff\xfd\x1f", "\xff\xfa", "\xff\xf0", "\xff\xff", "\xff", "\xfe", "a) bob", "\e[2J\r\n\e[3d", " a) bob (idle 2s)", "\r\n", "\e[", "\e[24;1H", "b) ", "Watch which session? ", "\xff\xfa\x18\x01\xff\xf0", "q)", "\e[99999999999;1H", " z) bo", "b"};
        if (choose(W, 3)) junk+=t[choose(W, sizeof(t)/sizeof(*t))];
        else { u64 v=choose(W, 1<<30); for (u32 k=1+logsize(W, 500);k--;) v=sim::mix(v+1), junk+=(char)v; }
        if (chance(W, 1, 30)) junk+=str(1+logsize(W, 5000), (char)choose(W, 256));
    }
    int fin=choose(F, 3);
    str url= kind==0? "telnet://h" : kind==1? "termcast://h/bob" : "tcp://h:1/x.gz";
    if (kind==2) { junk=compress((Comp)C_GZ, textish(3000)).substr(0, choose(W, 300))+junk; }
    describe("%s, %zu bytes of junk", url.c_str(), junk.size());
    net_host("h", [=](Ch c2s, Ch s2c, int) {
        send_chunks(s2c, junk, choose(N, 2)? 20 : 5000, 100000);
        if (fin==1) { s2c->rst=true; c2s->rst=true; touch(); fault("connection-reset"); }
        if (fin==2) sleep_us(logsize(N, 5000000));
    });
    fault("hostile-peer");
    Proc *p=mkproc("reader");
    size_t total=0;
    p->sig[13].h=(void(*)(int))1;
    start_main(p, [&]() -> int {
        const char *e=0; int fd=open_stream(-1, url.c_str(), SM_READ, &e);
        if (fd==-1) fail("open-failed", "cannot connect");
        char b[5000]; i64 k;
        while ((k=h_read(p, fd, b, 1+choose(N, sizeof(b)-1)))>0) { total+=k; if (total>200000+junk.size()*2000) fail("too-much", "%zu bytes of junk became %zu", junk.size(), total); }
        h_close(p, fd);
        wait_no_fds(p, "after the stream ended");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 1000000*1000000LL);
    expect_end(p, st, "reading junk from a network peer");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
}

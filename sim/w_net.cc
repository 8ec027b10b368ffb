// C09 telnet, C10 termcast, C11 connecting
#include "util.h"
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <netdb.h>

// reads to the end in odd-sized pieces
static str slurp(Proc *p, int fd, int *err, u32 slow)
{
    str o; char buf[20000]; *err=0;
    u32 mode=choose(W, 3);
    while (1)
    {
        size_t k= mode==0? sizeof(buf) : mode==1? 1+choose(W, 40) : 1+logsize(W, sizeof(buf)-1);
        if (slow && chance(W, 1, 8)) sleep_us(logsize(W, slow));
        i64 r=h_read(p, fd, buf, k);
        if (r<0) { *err=errno; break; }
        if (!r) break;
        o.append(buf, r);
        if (o.size()>(32u<<20)) fail("too-much", "the stream delivers without end");
    }
    return o;
}
// checks the client's answers against the requests made; returns non-telnet bytes the client sent
static str check_answers(const str &negs, const str &sent, bool complete)
{
    str other; size_t k=0;
    for (size_t i=0;i<sent.size();)
    {
        if ((u8)sent[i]!=255) { other+=sent[i++]; continue; }
        if (i+3>sent.size()) { if (complete) fail("bad-answer", "the client sent an incomplete command: %s", hexs(sent.substr(i)).c_str()); break; }
        u8 c=sent[i+1], op=sent[i+2];
        if (c<251 || c==255) fail("bad-answer", "the client sent an unknown command %u after %zu bytes", c, i);
        i+=3;
        // find the request this answers; refusals of what is off already may stay unanswered
        while (1)
        {
            if (k+1>=negs.size()) fail("bad-answer", "the client sent IAC %u %u without being asked", c, op);
            u8 rc=negs[k], ro=negs[k+1]; k+=2;
            u8 want= rc==251? (ro==1 || ro==3? 253 : 254) : rc==253? (ro==3? 251 : 252) : rc==252? 254 : 252;
            if (c==want && op==ro) break;
            if (rc==252 || rc==254) continue;
            fail("bad-answer", "request IAC %u %u was answered by IAC %u %u, the answer should be IAC %u %u", rc, ro, c, op, want, ro);
        }
    }
    if (complete)
        for (;k+1<negs.size();k+=2)
            if ((u8)negs[k]==251 || (u8)negs[k]==253) fail("no-answer", "request IAC %u %u was never answered", (u8)negs[k], (u8)negs[k+1]);
    return other;
}

WORKLOAD(C09, c09_telnet, 1)
{
    draw_sched_config(); draw_jitter();
    str data=payload(chance(W, 1, 5)? 100000 : 6000);
    if (chance(W, 1, 3)) for (size_t i=0;i<data.size();i++) if (chance(W, 1, 7)) data[i]=(char)(240+choose(W, 16));
    str negs, wire=telnet_noise(W, data, &negs);
    u32 c2scap= chance(W, 1, 4)? 3+choose(W, 60) : 1<<20;
    int end=chance(F, 1, 5); // reset instead of an orderly end
    bool early= chance(F, 1, 8); size_t cut= early? choose(F, wire.size()+1) : wire.size();
    describe("%zu payload bytes, %zu on the wire, %zu requests, client-to-server buffer %u%s%s", data.size(), wire.size(), negs.size()/2, c2scap, end? ", reset at the end" : "", early? ", cut short" : "");
    str sent; bool srv_done=false, all_sent=false; Ch s2c_;
    // what the client must deliver of the part that is sent
    str want; { str w=wire.substr(0, cut); int st=0; want=""; for (u8 c : w) switch (st) { case 0: if (c==255) st=1; else want+=(char)c; break; case 1: st= c==255? (want+='\xff', 0) : c>=251? 2 : c==250? 3 : 0; break; case 2: st=0; break; case 3: st=4; break; case 4: if (c==255) st=5; break; case 5: st= c==240? 0 : 4; break; } }
    net_host("srv", [&](Ch c2s, Ch s2c, int port) {
        if (port!=23) fail("wrong-port", "telnet connected to port %d", port);
        c2s->cap=c2scap; s2c_=s2c;
        Ch c=c2s; c->name="keep";
        spawn_actor("server input", [&,c]{
            char b[500]; bool slow=choose(N, 2);
            while (1) { i64 n=ch_read(c, b, 1+choose(N, sizeof(b)-1), "client's answers"); if (n<=0) break; sent.append(b, n); if (slow && chance(N, 1, 4)) sleep_us(logsize(N, 100000)); }
            ch_close_r(c); srv_done=true; touch();
        });
        send_chunks(s2c, wire.substr(0, cut), choose(N, 2)? 3 : 3000, 500000);
        all_sent=true;
        if (end) { sleep_us(logsize(N, 1000000)); s2c->rst=true; touch(); fault("connection-reset"); return; }
    });
    Proc *p=mkproc("client");
    str got; int err=0;
    u32 slow= choose(W, 2)? logsize(W, 200000) : 0;
    start_main(p, [&]() -> int {
        const char *e="?";
        int fd=open_stream(-1, "telnet://srv/ignored", SM_READ, &e);
        if (fd==-1) fail("open-failed", "opening a telnet stream failed: %s", e);
        got=slurp(p, fd, &err, slow);
        h_close(p, fd);
        wait_no_fds(p, "after the telnet stream ended");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "reading a telnet stream to its end");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    settle();
    if (end)
    {
        // what the kernel had not delivered before the reset is lost
        if (got.size()>want.size() || want.compare(0, got.size(), got)) fail("payload", "%zu bytes delivered, wrong from %zu on: \"%s\" instead of \"%s\"", got.size(), first_diff(got, want), hexs(got.substr(first_diff(got, want)), 30).c_str(), hexs(want.substr(first_diff(got, want)), 30).c_str());
        check_answers(negs, sent, false);
        return;
    }
    if (got!=want) fail("payload", "%zu bytes delivered of %zu, wrong from %zu on: \"%s\" instead of \"%s\"", got.size(), want.size(), first_diff(got, want), hexs(got.substr(first_diff(got, want)), 30).c_str(), hexs(want.substr(first_diff(got, want)), 30).c_str());
    str other=check_answers(negs, sent, !early);
    if (!other.empty()) fail("unasked", "the client sent %zu bytes of its own: %s", other.size(), hexs(other).c_str());
}

WORKLOAD(C10, c10_termcast, 1)
{
    draw_sched_config(); draw_jitter();
    static const char *names[]={"bob", "bobby", "xbob", "bo", "Bob", "alice", "bob2", "a(b", "x) bob", "kilobyte"};
    str want_name=names[choose(W, 3)? 0 : choose(W, 8)];
    int npages=1+choose(W, 4);
    int appears= chance(W, 1, 4)? npages : choose(W, npages);  // page with the session; npages: never
    std::vector<str> pages; char letter=0;
    bool colour=choose(W, 2);
    for (int k=0;k<npages;k++)
    {
        str pg="\e[H\e[2J\e[1mTermcast\e[0m\r\n\r\n The following sessions are in progress:\r\n";
        if (chance(W, 1, 5)) pg+=textish(logsize(W, 9000));
        std::vector<str> here;
        int m=choose(W, 14);
        for (int i=0;i<m;i++) { str nm= choose(W, 2)? names[choose(W, 10)] : sfmt("player%d", choose(W, 1000)); if (nm!=want_name && nm!="x) bob") here.push_back(nm); }
        if (k==appears) here.insert(here.begin()+choose(W, here.size()+1), want_name);
        int row=4;
        for (size_t i=0;i<here.size();i++)
        {
            char l='a'+i;
            if (here[i]==want_name) letter=l;
            pg+=sfmt("\r\n\e[%dd%s%c) ", row++, choose(W, 2)? " " : "", l);
            const char *c1= colour? (choose(W, 2)? "\e[1;33m" : "\e[32m") : "";
            pg+=c1+here[i]+(colour && choose(W, 2)? "\e[0m" : "")+" "+(colour && choose(W, 3)==0? "\e[36m" : "")+sfmt("(idle %ds, connected %dm)", choose(W, 100), choose(W, 100))+(colour? "\e[m" : "");
        }
        pg+="\r\n\r\n\e[23dWatch which session? ('q' quits) ";
        pages.push_back(pg);
    }
    str session="\e[2J<<<JOINED>>>"+payload(chance(W, 1, 4)? 60000 : 4000);
    for (size_t q; (q=session.find("<<<JOINED>>>", 5))!=str::npos && q>4;) session[q]='-';
    int how= chance(F, 1, 5)? 1+choose(F, 3) : 0; // 1: closes in the menu, 2: closes when joined, 3: reset in the session
    u32 cutpage= how==1? choose(F, npages) : npages;
    describe("session '%s' on page %d of %d%s, %zu bytes%s", want_name.c_str(), appears, npages, letter? sfmt(" as %c", letter).c_str() : "", session.size(), how==1? ", server closes in the menu" : how==2? ", server closes on joining" : how==3? ", reset during the session" : "");
    str wire_m[8]; for (int k=0;k<npages;k++) wire_m[k]= choose(W, 2)? telnet_noise(W, pages[k]) : pages[k];
    str wire_s=telnet_noise(W, session);
    str keys; bool joined=false; bool nul=false; (void)nul;
    int maxchunk=1<<choose(N, 12);
    str menu_sent;
    net_host("termcast.example", [&](Ch c2s, Ch s2c, int port) {
        if (port!=23) fail("wrong-port", "termcast connected to port %d", port);
        int tstate=0;
        auto poll=[&](Ch c) { // strip telnet answers
            char b[300]; i64 n;
            while ((n=ch_try_read(c, b, sizeof(b)))>0)
                for (int i=0;i<n;i++) { u8 x=b[i]; if (tstate==0) { if (x==255) tstate=1; else keys+=(char)x; } else if (tstate==1) tstate=2; else tstate=0; }
            return n;
        };
        auto wait_key=[&](i64 t) { return wait_until([&]{ if (keys.empty()) poll(c2s); return !keys.empty(); }, now+t, "menu key"); };
        for (int k=0;k<npages && !joined;k++)
        {
            size_t n= k==(int)cutpage? choose(F, wire_m[k].size()+1) : wire_m[k].size();
            send_chunks(s2c, wire_m[k].substr(0, n), maxchunk, 100000);
            menu_sent+=pages[k];
            if (k==(int)cutpage) { fault("server-closes"); return; }
            if (wait_key(k==appears? 50000*1000000LL : 2000000)) // a slow reader may take long to get through the page
            {
                if (k<appears) fail("wrong-session", "the client chose '%s' although '%s' was not in the menu yet", hexs(keys).c_str(), want_name.c_str());
                if (keys[0]!=letter) fail("wrong-session", "the client chose '%s', '%s' is '%c'", hexs(keys).c_str(), want_name.c_str(), letter);
                joined=true;
            }
            else if (k==appears) fail("not-joined", "'%s' was in the menu as '%c' but the client did not choose it", want_name.c_str(), letter);
        }
        if (!joined) { fault("session-missing"); return; }
        if (how==2) { fault("server-closes"); return; }
        if (how==3) { send_chunks(s2c, wire_s.substr(0, choose(F, wire_s.size()+1)), maxchunk, 100000); s2c->rst=true; touch(); fault("connection-reset"); return; }
        send_chunks(s2c, wire_s, maxchunk, 100000);
        poll(c2s);
    });
    Proc *p=mkproc("client");
    str got; int err=0; u32 slow= choose(W, 3)==0? logsize(W, 200000) : 0;
    start_main(p, [&]() -> int {
        const char *e="?";
        str u="termcast://termcast.example/"+want_name;
        int fd=open_stream(-1, u.c_str(), SM_READ, &e);
        if (fd==-1) fail("open-failed", "opening a termcast stream failed: %s", e);
        for (auto &c : u) c='Z';
        got=slurp(p, fd, &err, slow);
        h_close(p, fd);
        wait_no_fds(p, "after the termcast stream ended");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "reading a termcast stream to its end");
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    settle();
    if (!joined)
    {
        if (how==1 && (int)cutpage==appears) return; // it may have found the session, and could not tell the server
        if (got.size()<=menu_sent.size() && !menu_sent.compare(0, got.size(), got) && !err) fail("not-reported", "the session was not found but the stream just ended after %zu bytes", got.size());
        return;
    }
    if (keys.size()>1) fail("unasked", "the client sent more than the menu choice: %s", hexs(keys).c_str());
    size_t at=got.find("<<<JOINED>>>");
    if (how==2) return;
    if (at==str::npos || at<4) { if (how==3) return; fail("session-data", "the session's start is missing from the %zu bytes read", got.size()); }
    str s=got.substr(at-4);
    if (how==3 ? session.compare(0, s.size(), s)!=0 : s!=session) fail("session-data", "the session has %zu bytes, %zu were read; wrong from %zu on: \"%s\"", session.size(), s.size(), first_diff(s, session), hexs(s.substr(first_diff(s, session)), 40).c_str());
}

WORKLOAD(C11, c11_connect, 1)
{
    draw_sched_config(); draw_jitter();
    faults.strict_fds=true;
    int proto=choose(W, 4);        // tcp, telnet, termcast, tcp for writing
    static const char *pre[]={"tcp://", "telnet://", "termcast://", "tcp://"};
    int style=choose(W, 7);        // host forms
    str host= style==1? "[::1]" : style==2? "[2001:db8::7]" : style==3? "10.1.2.3" : style==4? str(1+choose(W, 120), 'h') : style==5? "fe80::1:2" : "some.host.example";
    str bare= host[0]=='['? host.substr(1, host.size()-2) : host;
    bool tel= proto==1 || proto==2;
    int pk= choose(W, tel? 3 : 2); // 0: good port, 1: bad port, 2: default
    str portstr; int port=23; bool bad=false;
    static const char *badp[]={":0", ":65536", ":-1", ":99999", ":x", ":12x", ":", ":99999999999999999999", ":4294967297", ":0x50", ":1:x"};
    if (pk==0 || (pk==1 && chance(W, 1, 2))) { port= choose(W, 3)? 1+choose(W, 65535) : (choose(W, 2)? 65535 : 1); portstr=sfmt(chance(W, 1, 5)? ":0%d" : ":%d", port); }
    else if (pk==1) { portstr= !tel && choose(W, 3)==0? "" : badp[choose(W, 11)]; bad=true; }
    if (style==5 && portstr.empty()) style=4, host=bare="h";     // would be taken for a port
    str path= proto==2? "/bob" : choose(W, 3)==0? "" : choose(W, 2)? "/" : "/some:thing/x";
    str url=str(pre[proto])+host+portstr+path;
    // addresses
    int na=choose(F, 6); // 0: does not resolve
    std::vector<Addr> addrs; int gai=0;
    static const int errs[]={ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, EACCES};
    static const int gais[]={EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_NODATA, EAI_MEMORY};
    int nofam= chance(F, 1, 6)? (choose(F, 2)? 2 : 10) : 0;
    if (!na) gai=gais[choose(F, 5)];
    bool noaccept=chance(F, 1, 4);
    for (int i=0;i<na;i++)
    {
        Addr a; a.fam= choose(W, 2)? 2 : 10; a.ip=""; a.delay= chance(N, 1, 3)? logsize(N, 30000000) : 0;
        a.behaviour= a.fam==nofam? 2 : noaccept || chance(F, 1, 2)? 1 : 0;
        a.err= a.behaviour==2? EAFNOSUPPORT : errs[choose(F, 5)];
        addrs.push_back(a);
    }
    int winner=-1; for (int i=0;i<na;i++) if (addrs[i].behaviour==0) { winner=i; break; }
    describe("%s: ", url.c_str()); for (auto &a : addrs) describe("%s ", a.behaviour==0? "accepts" : strerror(a.err)); if (gai) describe("%s", gai_strerror(gai));
    on_resolve=[&](const char *h, const char *, std::vector<Addr> &o) { if (gai) return gai; o=addrs; return 0; };
    str data=payload(20000), wdata=payload(20000);
    if (tel) for (auto &c : data) if ((u8)c==255) c='y';
    str received; bool peer_done=false; i64 early_bytes=0; int conns=0;
    on_connect=[&](const Addr &a, Ch c2s, Ch s2c, int pt) {
        conns++;
        if (pt!=port) fail("wrong-port", "connected to port %d instead of %d", pt, port);
        spawn_actor("server in", [&,c2s]{ char b[1000]; i64 n; while ((n=ch_read(c2s, b, sizeof(b), "server input"))>0) received.append(b, n); peer_done=true; touch(); });
        spawn_actor("server out", [&,s2c]{ if (proto!=3) send_chunks(s2c, data, 4000, 300000); else wait_for([&]{ return peer_done; }, "writer to finish"); ch_close_w(s2c); });
    };
    Proc *p=mkproc("client");
    int wmode= proto!=3? (choose(W, 5)? SM_READ : SM_REPREAD) : choose(W, 2)? SM_WRITE : SM_APPEND;
    bool opened=false;
    if (chance(F, 1, 3)) // the program handles signals meanwhile
    {
        p->sig[14].h=[](int) {}; p->sig[14].flags= choose(F, 3)? 0 : SA_RESTART;
        int n=1+choose(F, 4); describe(" %d signals", n);
        spawn_actor("signals", [&,n]{ for (int i=0;i<n && !opened;i++) { sleep_us(logsize(N, 3000000)); if (opened) break; fault("signal"); send_signal(p, 14); } });
    }
    str got; int err=0; int fd=-2; const char *e=(const char*)1;
    start_main(p, [&]() -> int {
        fd=open_stream(-1, url.c_str(), wmode, &e);
        p->sig[14].h=(void(*)(int))1; opened=true;
        if (fd==-1)
        {
            if (open_fds(p, true)) fail("fd-leak", "after failing to open %s these remain open: %s", url.c_str(), fd_report(p).c_str());
            return 0;
        }
        if (proto!=3) got=slurp(p, fd, &err, 0);
        else { size_t at=0; while (at<wdata.size()) { size_t k=1+logsize(W, 9000); if (k>wdata.size()-at) k=wdata.size()-at; i64 r=h_write(p, fd, wdata.data()+at, k); if (r<=0) fail("write-failed", "writing to the connection failed"); at+=r; } }
        h_close(p, fd);
        wait_no_fds(p, "after the connection ended");
        return 0;
    });
    nontrivial();
    Stop st=run_proc(p, 100000*1000000LL);
    expect_end(p, st, "opening and reading a network stream");
    check_fds();
    if (p->killed) fail("KILLED", "killed by signal %d", p->killed);
    settle();
    if (sim_gai_live()) fail("leak", "%d address records not freed", sim_gai_live());
    str log; for (auto &s : net_log) log+=s+"; ";
    if (bad)
    {
        if (fd!=-1 || conns) fail("bad-port", "%s was accepted (%s)", url.c_str(), log.c_str());
        if (!e || e==(const char*)1 || !*e) fail("no-message", "opening %s failed without a message", url.c_str());
        return;
    }
    str want=sfmt("resolve %s %d", bare.c_str(), port);
    if (net_log.empty() || net_log[0]!=want) fail("wrong-host", "%s: asked for '%s' instead of '%s'", url.c_str(), net_log.empty()? "nothing" : net_log[0].c_str(), want.c_str());
    // order of attempts
    std::vector<int> att; for (auto &s : net_log) if (!s.compare(0, 8, "connect ")) att.push_back(atoi(s.c_str()+8));
    std::vector<int> exp; for (int i=0;i<na && (winner==-1 || i<=winner);i++) if (addrs[i].behaviour!=2) exp.push_back(i);
    if (att!=exp) fail("wrong-order", "%s: %d addresses, first accepting is %d; attempts: %s", url.c_str(), na, winner, log.c_str());
    if (winner==-1)
    {
        if (fd!=-1) fail("no-error", "%s was opened although nothing accepted", url.c_str());
        if (!e || e==(const char*)1 || !*e) fail("no-message", "opening %s failed without a message", url.c_str());
        bool named=false;
        if (gai) named= str(e)==gai_strerror(gai) || (gai==EAI_NONAME && !strcmp(e, "No such host"));
        for (auto &a : addrs) if (str(e).find(strerror(a.err))!=str::npos) named=true;
        if (!named) fail("wrong-message", "opening %s failed with '%s'", url.c_str(), e);
        return;
    }
    if (fd==-1) fail("open-failed", "opening %s failed (%s) although address %d accepts", url.c_str(), e && e!=(const char*)1? e : "?", winner);
    if (conns!=1) fail("wrong-order", "%d connections were made", conns);
    if (proto==3) { if (received!=wdata) fail("data", "%zu bytes written, the server got %zu", wdata.size(), received.size()); return; }
    if (!received.empty()) fail("unasked", "the client sent %zu bytes nobody asked for: %s", received.size(), hexs(received).c_str());
    if (proto==2) { if (got.compare(0, data.size(), data)) fail("data", "the server sent %zu bytes, wrong from %zu on", data.size(), first_diff(got, data)); return; }
    if (got!=data) fail("data", "the server sent %zu bytes, %zu were read; wrong from %zu on", data.size(), got.size(), first_diff(got, data));
}

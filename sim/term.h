// The user's terminal, and what can be told apart on it (C15, C30).
#pragma once
#include "rec.h"
#include "internal.h"
#include <algorithm>
namespace {
const u32 RIGHT=0xffffffff;
const u64 CJKBIT=0x8000000000000000ULL, INVERSE=0x0400000000000000ULL;
struct Cell { u32 ch=' '; std::vector<u32> comb; u64 attr=0; };
// What can be told apart on a screen: the looks of a blank are its background and lines.
static str looks(const Cell &c)
{
    if (c.ch==RIGHT) return "R";
    u64 a=c.attr&~CJKBIT;
    if (c.ch==' ' && c.comb.empty()) a&= 0x03ffffff00000000ULL|0x60000000|INVERSE|(a&INVERSE? 0x03ffffffULL : 0);
    if (c.ch==' ' && c.comb.empty() && !a) return "_";
    str s=sfmt("%x:%llx", c.ch, (unsigned long long)a);
    for (u32 x : c.comb) s+=sfmt("+%x", x);
    return s;
}
struct Screen { int w=0, h=0, x=0, y=0; std::vector<str> c; };
// The user's terminal: of a fixed size, knowing only what the player may send.
struct Term
{
    int w, h, x=0, y=0, s1=0, s2; u64 attr=0; std::vector<Cell> c; str seq; int st=0; u32 u=0; int uc=0;
    str odd, title; int bells=0, titles=0; bool graph=false, graph_ok=false;   // line graphics: shown as what those who have none get
    static inline int (*exact)(u32)=nullptr;
    Term(int W_, int H_) : w(W_), h(H_), s2(H_), c(W_*H_) {}
    static int width(u32 ch) { if (exact) return exact(ch); if ((ch>=0x300 && ch<0x370) || ch==0x200b) return 0; if ((ch>=0x2e80 && ch<0xa4d0) || (ch>=0xac00 && ch<0xd7a4) || (ch>=0xff00 && ch<=0xff60)) return 2; return 1; }
    Cell &at(int X, int Y) { return c[Y*w+X]; }
    void split(int X, int Y) { if (X<0 || X>=w) return; Cell &k=at(X, Y); if (k.ch==RIGHT && X) { at(X-1, Y).ch=' '; at(X-1, Y).comb.clear(); } else if (k.ch!=RIGHT && width(k.ch)==2 && X+1<w) { at(X+1, Y).ch=' '; at(X+1, Y).comb.clear(); } }
    void erase(int a, int b) { for (;a<b;a++) { if (a<0 || a>=w*h) continue; split(a%w, a/w); c[a]=Cell(); c[a].attr=attr; } }
    void move_lines(int t, int n)       // n>0: delete, n<0: insert at t
    {
        int H=s2-t; if (H<=0 || t<s1) return;
        if (n>H) n=H;
        if (n<-H) n=-H;
        Cell b; b.attr=attr;
        auto from=c.begin()+t*w, to=c.begin()+s2*w;
        if (n>0) { std::move(from+n*w, to, from); std::fill(to-n*w, to, b); }
        else { n=-n; std::move_backward(from, to-n*w, to); std::fill(from, from+n*w, b); }
    }
    void put(u32 ch)
    {
        int k=width(ch);
        if (!k)
        {
            if (!x) return;
            int X=x-1; if (at(X, y).ch==RIGHT && X) X--;
            if (at(X, y).comb.size()<4) at(X, y).comb.push_back(ch);
            return;
        }
        if (x+k>w) { x=0; if (++y>=s2) { y=s2-1; int o=s1; move_lines(o, 1); } }
        for (int i=0;i<k;i++) split(x+i, y);
        for (int i=0;i<k;i++) { Cell &n=at(x+i, y); n=Cell(); n.attr=attr; n.ch= i? RIGHT : ch; }
        x+=k;
    }
    void csi()
    {
        std::vector<int> a(1, 0); size_t i=0;
        if (seq.find_first_not_of("0123456789;", 0)!=seq.size()-1) { odd="\\e["+seq; return; }
        for (;i+1<seq.size();i++) if (seq[i]==';') a.push_back(0); else a.back()=a.back()*10+seq[i]-'0';
        auto p=[&](size_t k, int d) { return k<a.size() && a[k]? a[k] : d; };
        int at=y*w+std::min(x, w-1), eol=(y+1)*w;
        switch (seq.back())
        {
        case 'H': case 'f': y=std::min(p(0, 1), h)-1; x=std::min(p(1, 1), w)-1; break;
        case 'A': y=std::max(0, y-p(0, 1)); break;
        case 'B': y=std::min(h-1, y+p(0, 1)); break;
        case 'C': x=std::min(w-1, x+p(0, 1)); break;
        case 'D': x=std::max(0, std::min(x, w-1)-p(0, 1)); break;
        case 'r': { int t=p(0, 1)-1, b=std::min(p(1, h), h); if (t+1<b || h==1) s1=t, s2=b; x=y=0; break; }
        case 'M': move_lines(y, p(0, 1)); x=0; break;
        case 'L': move_lines(y, -p(0, 1)); x=0; break;
        case 'J': if (a[0]==0) erase(at, w*h); else if (a[0]==1) erase(0, x>=w? at+1 : at+1); else erase(0, w*h); break;
        case 'K': if (a[0]==0) erase(at, eol); else if (a[0]==1) erase(y*w, at+1); else erase(y*w, eol); break;
        case 'X': erase(at, std::min(eol, at+p(0, 1))); break;
        case 't': break;
        case 'm':
            for (size_t i=0;i<a.size();i++)
            {
                int v=a[i]; auto col=[&](int sh, u64 type, u64 val) { attr=(attr&~(0x3ffffffULL<<sh))|(type<<24|val)<<sh; };
                static const u64 fl[]={0, 0x04000000, 0x08000000, 0x10000000, 0x20000000, 0x0800000000000000ULL, 0, INVERSE, 0, 0x40000000};
                if (!v) attr=0;
                else if (v<10 && fl[v]) attr|=fl[v];
                else if (v>=30 && v<38) col(0, 1, v-30);
                else if (v>=40 && v<48) col(32, 1, v-40);
                else if (v>=90 && v<98) col(0, 1, v-90+8);
                else if (v>=100 && v<108) col(32, 1, v-100+8);
                else if ((v==38 || v==48) && i+2<a.size() && a[i+1]==5) { col(v==38? 0 : 32, 2, a[i+2]); i+=2; }
                else if ((v==38 || v==48) && i+4<a.size() && a[i+1]==2) { col(v==38? 0 : 32, 3, a[i+2]<<16|a[i+3]<<8|a[i+4]); i+=4; }
                else odd="\\e["+seq;
            }
            break;
        default: odd="\\e["+seq;
        }
    }
    void grow(int W2, int H2)
    {
        Term o=*this; w=W2; h=H2; s1=0; s2=h; c.assign(w*h, Cell());
        for (int Y=0;Y<o.h;Y++) for (int X=0;X<o.w;X++) at(X, Y)=o.at(X, Y);
        if (x>=o.w) x=o.w-1;
    }
    void osc() { st=0; if (seq.substr(0, 2)=="0;") title=seq.substr(2), titles++; else odd="\\e]"+seq; }
    void feed(u8 b)
    {
        switch (st)
        {
        case 0:
            if (uc) { if ((b&0xc0)!=0x80) { odd="bad UTF-8"; uc=0; return; } u=u<<6|(b&0x3f); if (!--uc) put(u); return; }
            if (b==27) st=1, seq.clear();
            else if (b>=0xc0) uc= b>=0xf0? 3 : b>=0xe0? 2 : 1, u=b&(0x3f>>uc);
            else if (b>=32 && b<127) put(graph? '?' : b);
            else if (b==7) bells++;
            else if (graph_ok && (b==14 || b==15)) graph= b==14;
            else odd=sfmt("byte %d", b);
            break;
        case 1:
            st=0;
            if (b=='[') st=2;
            else if (b==']') st=3, seq.clear();
            else if (b=='c') { str o=odd, t=title; int n=titles, m=bells; bool g=graph_ok; *this=Term(w, h); graph_ok=g; odd=o; title=t; titles=n; bells=m; }
            else odd=sfmt("\\e%c", b);
            break;
        case 2: seq+=b; if (b>='@') { st=0; csi(); } break;
        case 3: if (b==7) osc(); else if (b==27) st=4; else seq+=b; break;
        case 4: if (b=='\\') osc(); else odd="an escape within a string", st=0; break;
        }
    }
    Screen screen(int W_, int H_)
    {
        Screen s; s.w=W_; s.h=H_; s.x=std::min(x, w-1); s.y=y;
        for (int Y=0;Y<H_;Y++) for (int X=0;X<W_;X++) s.c.push_back(X<w && Y<h? looks(at(X, Y)) : "?");
        return s;
    }
};
static Screen vt_screen(tty vt, int termw)
{
    Screen s; glue_size(vt, &s.w, &s.h, &s.x, &s.y); s.x=std::min(s.x, termw-1);
    for (int y=0;y<s.h;y++) for (int x=0;x<s.w;x++)
    {
        Cell c; u32 cb[64];
        glue_cell(vt, x, y, &c.ch, &c.attr, cb);
        for (u32 k : cb) if (k) c.comb.push_back(k);
        s.c.push_back(looks(c));
    }
    return s;
}
static str escd(const str &s) { str r; for (u8 c : s) if (c<32 || c==127 || c=='\\') r+= c==27? "\\e" : c=='\n'? "\\n" : c=='\r'? "\\r" : sfmt("\\x%02x", c); else r+=c; return r; }
static str differ(const Screen &want, const Screen &got)
{
    for (size_t i=0;i<want.c.size();i++) if (want.c[i]!=got.c[i])
    {
        size_t e=(i/want.w+1)*want.w; str a, b; for (size_t k=i;k<e && k<i+8;k++) a+=want.c[k]+" ", b+=got.c[k]+" ";
        return sfmt("row %zu column %zu: \"%s\" instead of \"%s\"", i/want.w+1, i%want.w+1, b.c_str(), a.c_str());
    }
    if (want.x!=got.x || want.y!=got.y) return sfmt("the cursor is in row %d column %d instead of row %d column %d", got.y+1, got.x+1, want.y+1, want.x+1);
    return "";
}
}

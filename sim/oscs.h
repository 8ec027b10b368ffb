#pragma once
#include "rec.h"
namespace {
// the bells and string commands in a stream
struct Strings
{
    enum { N, E, O, S } st=N; u32 tok=0; bool has=false; str s; int bells=0; std::vector<std::pair<u32,str>> osc;
    void end() { if (tok!=0xffffffff) osc.push_back({tok, s}); st=N; }
    void feed(const str &d)
    {
        for (char ch : d)
        {
            unsigned char b=ch;
            if (b==7) { if (st==O || st==S) end(); else bells++; continue; }
            if (b==24 || b==26) { st=N; continue; }
            if (b==27) { if (st==O || st==S) end(); st=E; continue; }
            if (!b || b==5 || (b>=8 && b<=15) || b==127) continue;
            switch (st)
            {
            case N: break;
            case E: if (b==']') st=O, tok=0, has=false, s.clear(); else st=N; break;
            case O: if (b>='0' && b<='9') tok=tok*10+b-'0'; else { st=S; has= b==';'; if (!has) tok=0xffffffff; } break;
            case S: if (has && s.size()<4095) s+=ch; break;
            }
        }
    }
};
}

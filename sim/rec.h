// Recordings: generation, encoding by formats, delivery to the library, and comparing what it makes of them.
#pragma once
#include "util.h"
enum Fmt { F_ANSI, F_TTYREC, F_NH, F_CAST1, F_CAST2, F_DM2, F_LIVE, NFMT };
extern const char *fmt_name[], *fmt_ext[];          // for reading
struct Played
{
    str data; i64 t=0;                              // time = sum of waits
    std::vector<std::pair<size_t,i64>> marks;       // from this offset on, the data came at this time
    std::vector<std::pair<size_t,i64>> wall;        // same, virtual clock
    std::vector<std::pair<i64,str>> prints;         // calls as made
    int ninit=0; i64 init=0; bool wait_first=false; int nwaits=0;
    u32 slow=0; bool negative=false;
    size_t limit=64u<<20;
};
int play_rec(Played &pl, int fd, const char *format, const char *filename); // runs ttyrec_r_play on the calling simulated thread
// a time for every byte of both: "" if they agree, else the difference.  tol: allowed difference of times
str cmp_timed(const std::vector<Ev> &want, const Played &got, i64 tol=0);
str cmp_timed_rec(const std::vector<Ev> &want, const std::vector<Ev> &got, i64 tol);
struct GenOpt { bool nul=true, utf8=false, empty=false; u32 maxev=40; u32 maxdata=3000; i64 gran=1; bool big=true; i64 maxgap=4000LL*1000000; };
std::vector<Ev> gen_events(const GenOpt &o);        // times from 0, nondecreasing
GenOpt opt_for(Fmt f);
// encodes; returns what reading it back has to give (data incl. size sequences the reader inserts, times from the reader's zero)
struct Encoded { str raw; std::vector<Ev> want; i64 init=0; int ninit=0; i64 total=0; std::vector<size_t> ends; };
Encoded encode_as(Fmt f, const std::vector<Ev> &e, i64 start, int cols, int rows, bool exotic);
str utf8_payload(u32 n);
struct DosFrame { i64 t; std::vector<std::pair<u8,u8>> s; str title; bool note; size_t end; };
void gen_dos(str &raw, std::vector<DosFrame> &want);
struct Delivery { int fd=-1; str name; };
Delivery deliver(Proc *p, const str &base, const str &data, Comp c, int how, const str &host); // data: as stored; 0 file, 1 tcp, 2 pipe, 3 descriptor of a file
str show(u32 n, bool resize, int maxcols=131, int maxrows=51);         // screenfuls of anything (w_seek.cc)

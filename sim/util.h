#pragma once
#include "sim.h"
#include "sut.h"
using namespace sim;
namespace sim { void std_files(Proc *p); }
extern "C" int sim_gai_live();

// processes
Proc *mkproc(const str &name, Ofd in=nullptr, Ofd out=nullptr, Ofd err=nullptr);
struct Capture { str data; std::vector<std::pair<i64,size_t>> times; bool eof=false; Ofd w; Thr *t=0; };
std::shared_ptr<Capture> capture(const str &name, i64 us_per_kb=0);   // a pipe whose reader is an actor
int run_args(int (*m)(int, char**), std::vector<str> args);           // called on the process' main thread
Stop run_proc(Proc *p, i64 limit=3600*1000000LL);                     // until p has ended
void expect_end(Proc *p, Stop st, const char *what);                  // HANG unless p ended
void settle(i64 us=60*1000000LL);                                     // let actors finish

// data
str payload(u32 max);                       // W tape
str textish(u32 n);
str hexs(const str &s, size_t max=60);
size_t first_diff(const str &a, const str &b);
enum Comp { C_NONE, C_GZ, C_BZ2, C_XZ, C_ZST, NCOMP };
extern const char *comp_ext[];
str compress(Comp c, const str &s);
enum Dec { D_OK, D_TRUNC, D_BAD };
Dec decompress(Comp c, const str &s, str &out);   // all members
Comp comp_of(const str &name);

// recordings
struct Ev { i64 t; str d; };                 // absolute time in us relative to the start
struct Rec { std::vector<Ev> ev; i64 start=0; bool has_start=false; int cols=0, rows=0; bool bad=false; str why; size_t consumed=0; i64 total=0; };
str cat_data(const std::vector<Ev> &e);
str enc_ttyrec(const std::vector<Ev> &e, i64 start);
str enc_nh(const std::vector<Ev> &e);
bool dec_ttyrec(const str &s, Rec &r);       // strict; r.bad set where decoding stopped, r.ev has the intact prefix
bool dec_nh(const str &s, Rec &r);
bool dec_cast(const str &s, Rec &r);         // v1 or v2, strict JSON
str json_str(const str &s, Tape t, bool exotic);
bool utf8_ok(const str &s);
str sfmt(const char *fmt, ...) __attribute__((format(printf,1,2)));
str tvs(i64 us);

// network peers: host name -> script run by an actor for every connection
typedef std::function<void(Ch c2s, Ch s2c, int port)> Peer;
void net_host(const str &name, Peer p);
void send_chunks(const Ch &s2c, const str &data, u32 maxchunk, u32 maxdelay); // N tape; stops if the client is gone
str telnet_noise(Tape t, const str &data, str *negs=0);       // data with commands and negotiations strewn in
// descriptor discipline and leaks
void check_fds();                           // fails on misuse
void wait_no_fds(Proc *p, const char *what);// on a simulated thread: all of the library's descriptors closed, else a leak

// C29: what a simulated program holds once everything it had open has been closed
struct Holds { i64 mem=0; int threads=0, fds=0; };
Holds quiet(sim::Proc *p, const Holds *most);       // on a simulated thread; waits until it is no more than that

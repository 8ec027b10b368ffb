// A recording session: termrec on a simulated terminal, the program it records, and the user.
#pragma once
#include "rec.h"
struct Sizes { i64 t; int cols, rows; };
struct SessOpt
{
    bool small=false, typing=true, resizes=true, signals=true, eof=true, gaps=true, append=true, comp=true, pressure=false, noise=false;   // noise: nothing a compressor could hold back for long
    std::vector<int> fmts={F_TTYREC, F_TTYREC, F_CAST2, F_CAST1, F_NH, F_ANSI};
    u32 maxburst=20000, maxbursts=30, minburst=0, minbursts=1;
};
struct Sess
{
    // plan
    Fmt f=F_TTYREC; Comp comp=C_NONE; str path; bool raw=false, append=false, utf=false; std::vector<str> args; str old, stale;   // stale: what was in the file, not to be kept
    bool unnamed=false;
    struct Step { i64 gap; str d; };
    std::vector<Step> out, typed_plan;
    struct Rz { i64 gap; int cols, rows; };
    std::vector<Rz> rz;
    struct Sg { i64 gap; int sig; };
    std::vector<Sg> sg;
    int mode=0;                         // program: 0 just writes, 1 waits for all input, 2 reacts to input
    int ending=0;                       // 0 exits, 1 closes the terminal first, 2 leaves something holding the terminal
    int user=0;                         // 0 stays, 1 end of input, 2 hangs up
    i64 user_gap=0;
    u32 slow_term=0, slow_prog=0; int status=0;
    // history
    TtyP tty; Proc *p=0; std::shared_ptr<Capture> err; std::shared_ptr<ChildProg> prog;
    str emitted, shown, typed, received;
    std::vector<std::pair<size_t,i64>> emit, show, type, recv;    // (end offset, time), in order
    std::vector<Sizes> sizes;           // of the user's terminal
    std::vector<std::pair<i64,int>> sent;
    i64 t0=0, tend=-1, prog_t0=-1, user_end=-1, prog_end=-1; bool prog_done=false;
    bool stop=false; u64 max_points=0;
    bool outfile_is_ptr=false;
    i64 out_breaks=-1; bool out_broke=false;   // the recorder's output goes to a pipe, whose reader leaves after so many bytes
    std::shared_ptr<str> sink; bool sink_left=false; int sink_port=0, port=0;    // the recording is sent to a server
    void upload(i64 leaves=-1);         // which leaves after so many bytes
    str file() const;                   // what has been recorded
    std::function<void(Sess&)> on_prog; // extra actions when the program starts
    void plan(const SessOpt &o);
    void start();
    void finish(i64 limit=400LL*3600*1000000);    // runs until the recorder has ended, then lets the terminal drain
    bool fast() const { return !slow_term && !slow_prog && cfg.jitter<=2000; }
};
struct Recorded
{
    bool ok=false; str why, data;       // data: without the recorder's size sequences
    std::vector<std::pair<size_t,i64>> at;  // (end offset in data, time); absolute unless rel
    std::vector<Sizes> sizes; bool timed=false, rel=false; i64 prec=0;
    bool truncated=false; str rawdata; std::vector<Ev> events; int cols=0, rows=0;
    size_t stored=0;                    // bytes of the (decompressed) file
};
// decodes what a session left in a file; tolerant: stops at the first thing out of order and says so
Recorded decode_session(Fmt f, Comp c, const str &file, bool raw);
void check_times(Sess &s, Recorded &r);
bool is_prefix(const str &a, const str &b);

// Simulated kernel: descriptors, files, pipes, terminals, sockets, signals, children -
// and the interposed system calls and libc functions through which the code under test
// (and the compression libraries) reach it.
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <malloc.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <zstd.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <poll.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <utime.h>

namespace sim
{
Faults faults;
std::map<str,Ino> fs;
std::function<void(const str&)> on_file_write;
std::function<void(bool)> on_storage_fault;
std::function<void(const str&, int)> on_open;
std::function<void()> on_syscall;
std::function<void(std::shared_ptr<ChildProg>)> on_exec;
std::vector<std::shared_ptr<ChildProg>> children;
std::vector<KillCall> kills;
std::function<int(const char*, const char*, std::vector<Addr>&)> on_resolve;
std::function<void(const Addr&, Ch, Ch, int)> on_connect;
std::vector<str> net_log;
std::function<int(const str&, std::function<bool(const char*,size_t)>, str&)> on_curl_get;
std::function<void()> on_reaped;
str fd_misuse;
static u64 ino_id=1;
static i64 total_bytes=0;

void *real_sym(const char *n)
{
    void *p=dlsym(RTLD_NEXT, n);
    if (!p) { syscall(SYS_write, 2, "no symbol ", 10); syscall(SYS_write, 2, n, strlen(n)); syscall(SYS_exit_group, 99); }
    return p;
}

#define SIMCALL (sim::self!=0)
static void cancel_check()
{
    if (thr_cancelable(self) && !self->p->actor)
    {
        self->cancel_enabled=false;
        trace("cancelled");
        self->retval=(void*)-1;
        REAL(void, pthread_exit, (void*))((void*)-1);
    }
}
static void enter(const char *what, int fd=-1)
{
    hash(what, 4);
    if (tracing) trace("%s(%d)", what, fd);
    shm->inter=mix(shm->inter^((u64)what[0]<<8)^(u64)what[1]^((u64)self->id<<20));
    if (on_syscall && !self->p->actor) on_syscall();
    yield_point();
}
static bool pending_restart()
{
    Thr *t=self;
    u64 m=(t->pending|(t->p->main==t? t->p->pending : 0)) & ~t->sigmask;
    for (int s=1;s<64;s++)
        if (m>>s&1 && !(t->p->sig[s].flags&SA_RESTART)) return false;
    return true;
}
// 0: condition holds, 1: timed out, -1: interrupted (errno=EINTR)
static int blockop(Pred p, i64 deadline, const char *why, bool restartable)
{
    while (1)
    {
        cancel_check();
        if (p && p()) return 0;
        if (deadline>=0 && now>=deadline) return 1;
        wait_until(p, deadline, why, true);
        if (self->interrupted)
        {
            self->interrupted=false;
            cancel_check();
            bool rs=pending_restart();
            deliver_signals();
            if (!rs || !restartable) { errno=EINTR; return -1; }
        }
    }
}

// ---------------------------------------------------------------- descriptors
static Ofd getfd(int fd, const char *what)
{
    Proc *p=self->p;
    if (fd<0 || fd>=(int)p->fds.size() || !p->fds[fd])
    {
        if (faults.strict_fds && fd!=-1 && fd_misuse.empty())
        {
            char b[200];
            snprintf(b, sizeof(b), "%s on descriptor %d, which is not open", what, fd);
            fd_misuse=b;
        }
        trace("EBADF: %s(%d)", what, fd);
        errno=EBADF;
        return nullptr;
    }
    if (faults.strict_fds && p->fd_owner[fd]==OWN_HARNESS && fd_misuse.empty())
    {
        char b[200];
        snprintf(b, sizeof(b), "%s on descriptor %d (%s), which belongs to someone else", what, fd, p->fds[fd]->desc.c_str());
        fd_misuse=b;
    }
    return p->fds[fd];
}
static void set_cloexec(Proc *p, int fd, bool on) { if (fd>=0) { if ((int)p->fd_cloexec.size()<=fd) p->fd_cloexec.resize(fd+1); p->fd_cloexec[fd]=on; } }
static int fd_alloc(Proc *p, Ofd o, int owner)
{
    size_t i=0;
    while (i<p->fds.size() && p->fds[i]) i++;
    if (i==p->fds.size()) p->fds.push_back(nullptr), p->fd_owner.push_back(0);
    set_cloexec(p, i, false);
    p->fds[i]=o; p->fd_owner[i]=owner;
    o->refs++;
    return i;
}
int fd_install(Proc *p, Ofd o, int owner) { return fd_alloc(p, o, owner); }
static void release(Ofd o)
{
    if (--o->refs) return;
    touch();
    switch (o->kind)
    {
    case K_FILE: o->ino->opens--; break;
    case K_PIPE:
    case K_SOCK:
        if (o->rd && !o->shut_rd) o->rd->readers--;
        if (o->wr && !o->shut_wr) o->wr->writers--;
        break;
    case K_PTM:
        o->tty->hup=true;
        o->tty->in->writers--;
        o->tty->out->readers--;
        break;
    default: break;
    }
}
static void fd_drop(Proc *p, int fd)
{
    Ofd o=p->fds[fd];
    p->fds[fd]=nullptr;
    release(o);
}
int fd_install_at(Proc *p, int fd, Ofd o, int owner)
{
    while ((int)p->fds.size()<=fd) p->fds.push_back(nullptr), p->fd_owner.push_back(0);
    o->refs++;
    if (p->fds[fd]) fd_drop(p, fd);
    p->fds[fd]=o; p->fd_owner[fd]=owner;
    set_cloexec(p, fd, false);
    return fd;
}
void close_all_fds(Proc *p) { for (size_t i=0;i<p->fds.size();i++) if (p->fds[i]) fd_drop(p, i); }
void h_close(Proc *p, int fd)
{
    if (fd<0 || fd>=(int)p->fds.size() || !p->fds[fd]) { if (fd_misuse.empty()) fd_misuse="the caller's own descriptor "+std::to_string(fd)+" had been closed behind its back"; return; }
    trace("caller closes %d", fd);
    fd_drop(p, fd);
}
int open_fds(Proc *p, bool sut_only)
{
    int n=0;
    for (size_t i=0;i<p->fds.size();i++) if (p->fds[i] && !(sut_only && p->fd_owner[i]!=OWN_SUT)) n++;
    return n;
}
str fd_report(Proc *p)
{
    str r;
    for (size_t i=0;i<p->fds.size();i++) if (p->fds[i] && p->fd_owner[i]==OWN_SUT) r+=std::to_string(i)+"="+p->fds[i]->desc+" ";
    return r;
}
struct Inflight { Ofd o; Inflight(Ofd o_) : o(o_) { o->refs++; } ~Inflight() { release(o); } };

Ofd open_null() { Ofd o=std::make_shared<OFD>(); o->kind=K_NULL; o->desc="/dev/null"; o->flags=O_RDWR; return o; }
Ofd open_ino(Ino i, int flags)
{
    Ofd o=std::make_shared<OFD>(); o->kind=K_FILE; o->ino=i; o->flags=flags; o->desc="file"; i->opens++;
    return o;
}
void make_pipe(Ofd &r, Ofd &w, u32 cap)
{
    Ch c=std::make_shared<Chan>();
    c->cap=cap; c->readers=c->writers=1;
    r=std::make_shared<OFD>(); w=std::make_shared<OFD>();
    r->kind=w->kind=K_PIPE; r->rd=c; w->wr=c; r->desc="pipe(r)"; w->desc="pipe(w)";
}
TtyP make_tty(const str &name, int cols, int rows)
{
    TtyP t=std::make_shared<Tty>();
    t->name=name;
    t->in=std::make_shared<Chan>(); t->out=std::make_shared<Chan>();
    t->in->cap=4095; t->out->cap=4096;
    t->in->readers=t->in->writers=t->out->readers=t->out->writers=1;
    memset(&t->tio, 0, sizeof(t->tio));
    t->tio.c_iflag=ICRNL|IXON; t->tio.c_oflag=OPOST|ONLCR; t->tio.c_cflag=CS8|CREAD|B38400;
    t->tio.c_lflag=ISIG|ICANON|ECHO|ECHOE|ECHOK|IEXTEN;
    t->tio.c_cc[VINTR]=3; t->tio.c_cc[VEOF]=4; t->tio.c_cc[VMIN]=1; t->tio.c_cc[VQUIT]=28; t->tio.c_cc[VERASE]=127;
    t->tio.c_cc[VSTART]=17; t->tio.c_cc[VSTOP]=19; t->tio.c_cc[VSUSP]=26; t->tio.c_cc[VKILL]=21;
    memset(&t->ws, 0, sizeof(t->ws));
    t->ws.ws_col=cols; t->ws.ws_row=rows;
    t->initial=t->tio;
    return t;
}
Ofd open_tty(TtyP t)
{
    Ofd o=std::make_shared<OFD>(); o->kind=K_TTY; o->tty=t; o->desc=t->name; o->flags=O_RDWR;
    return o;
}
void tty_type(TtyP t, const char *d, size_t n)
{
    for (size_t i=0;i<n;i++)
    {
        u8 c=d[i]; const struct termios &m=t->tio;
        if (!t->cooked()) { t->in->push(&c, 1); continue; }
        if (m.c_iflag&ISTRIP) c&=127;
        if (m.c_iflag&IXON && c && (c==m.c_cc[VSTART] || c==m.c_cc[VSTOP])) continue;
        if (m.c_lflag&ISIG && c && (c==m.c_cc[VINTR] || c==m.c_cc[VQUIT] || c==m.c_cc[VSUSP]))
        {
            if (t->fg) send_signal(t->fg, c==m.c_cc[VINTR]? SIGINT : c==m.c_cc[VQUIT]? SIGQUIT : SIGTSTP);
            continue;
        }
        if (c=='\r') { if (m.c_iflag&IGNCR) continue; if (m.c_iflag&ICRNL) c='\n'; }
        else if (c=='\n' && m.c_iflag&INLCR) c='\r';
        if (m.c_lflag&ICANON)
        {
            if (c && c==m.c_cc[VERASE]) { if (!t->line.empty()) t->line.pop_back(); continue; }
            if (c && c==m.c_cc[VKILL]) { t->line.clear(); continue; }
            if (!(c && c==m.c_cc[VEOF])) t->line+=(char)c;
            if (m.c_lflag&ECHO && c!=m.c_cc[VEOF]) t->out->push(&c, 1);
            if (c=='\n' || c==m.c_cc[VEOF]) t->in->push(t->line.data(), t->line.size()), t->line.clear();
            continue;
        }
        if (m.c_lflag&ECHO) t->out->push(&c, 1);
        t->in->push(&c, 1);
        if (m.c_iflag&PARMRK && c==255 && !(m.c_iflag&ISTRIP)) t->in->push(&c, 1);
    }
    touch();
}
static size_t tty_min(TtyP t)   // how much input makes the terminal readable
{
    t->live=true;
    return !t->cooked() || t->tio.c_lflag&ICANON || t->tio.c_cc[VTIME] || !t->tio.c_cc[VMIN]? 1 : t->tio.c_cc[VMIN];
}
void tty_resize(TtyP t, int cols, int rows)
{
    bool ch= t->ws.ws_col!=cols || t->ws.ws_row!=rows;
    t->ws.ws_col=cols; t->ws.ws_row=rows;
    t->resizes.push_back({now, t->ws});
    trace("%s resized to %dx%d", t->name.c_str(), cols, rows);
    if (ch && t->fg) { t->winch_count++; send_signal(t->fg, SIGWINCH); }
}
i64 ch_write(const Ch &c, const void *buf, size_t n, const char *why)
{
    size_t d=0;
    while (d<n)
    {
        if (!c->readers) return d? (i64)d : -1;
        size_t room= c->avail()<c->cap? c->cap-c->avail() : 0;
        if (!room) { wait_for([c]{ return c->avail()<c->cap || !c->readers; }, why); continue; }
        size_t k= n-d<room? n-d : room;
        c->push((const char*)buf+d, k);
        d+=k;
        touch();
    }
    return d;
}
i64 ch_read(const Ch &c, void *buf, size_t n, const char *why)
{
    while (!c->avail())
    {
        if (!c->writers) return 0;
        wait_for([c]{ return c->avail() || !c->writers; }, why);
    }
    return ch_try_read(c, buf, n);
}
i64 ch_try_read(const Ch &c, void *buf, size_t n)
{
    size_t k= n<c->avail()? n : c->avail();
    memcpy(buf, c->q.data()+c->h, k);
    c->pop(k);
    touch();
    return k;
}
void ch_close_r(const Ch &c) { c->readers=0; touch(); }
void ch_close_w(const Ch &c) { c->writers=0; touch(); }

// ---------------------------------------------------------------- files
Ino fs_put(const str &path, const str &data)
{
    Ino i=std::make_shared<Inode>();
    i->id=ino_id++; i->data=data;
    total_bytes+=data.size();
    fs[path]=i;
    return i;
}
static str norm(const str &p)
{
    str r=p;
    while (r.compare(0, 2, "./")==0) r=r.substr(2);
    return r;
}
bool fs_has(const str &path) { return fs.count(norm(path)); }
const str &fs_get(const str &path) { static str e; auto i=fs.find(norm(path)); return i==fs.end()? e : i->second->data; }

static int do_open(const char *path, int flags)
{
    str p=norm(path);
    if (p=="") { errno=ENOENT; return -1; }
    if (p=="/dev/null") return fd_alloc(self->p, open_null(), OWN_SUT);
    bool wr=(flags&O_ACCMODE)!=O_RDONLY;
    if (on_open && !self->p->actor) on_open(p, flags);
    if (p.compare(0, 6, "nodir/")==0 || p.find("://")!=str::npos) { errno=ENOENT; return -1; }
    if (p.compare(0, 7, "noperm/")==0) { errno=EACCES; return -1; }
    auto it=fs.find(p);
    if (wr && faults.fail_open && !(it!=fs.end() && (flags&O_CREAT) && (flags&O_EXCL))) { fault("open-error"); faults.fired=true; if (on_storage_fault) on_storage_fault(true); errno=faults.fail_open; return -1; }
    if (it==fs.end())
    {
        if (!(flags&O_CREAT)) { errno=ENOENT; return -1; }
        if (p.back()=='/') { errno=EISDIR; return -1; }
        fs_put(p, "");
        it=fs.find(p);
        if (on_file_write) on_file_write(p);
    }
    else
    {
        if ((flags&O_CREAT) && (flags&O_EXCL)) { errno=EEXIST; return -1; }
        if (wr && it->second->type==1) { errno=EISDIR; return -1; }
        if ((flags&O_TRUNC) && wr)
        {
            total_bytes-=it->second->data.size();
            it->second->data.clear();
            if (on_file_write) on_file_write(p);
        }
    }
    Ofd o=open_ino(it->second, flags);
    o->desc=p;
    return fd_alloc(self->p, o, OWN_SUT);
}
static ssize_t file_write(Ofd o, const void *buf, size_t n)
{
    Inode &f=*o->ino;
    size_t k=n;
    faults.n_writes++;
    bool fail=false; int err=0;
    bool well= faults.fail_span>=0 && faults.fail_since>=0 && now>=faults.fail_since+faults.fail_span;
    if (well) { static bool once; if (!once) probe("disk recovered"); once=true; }
    if (!well && faults.write_fail_at>0 && (faults.write_fail_sticky? faults.n_writes>=faults.write_fail_at : faults.n_writes==faults.write_fail_at))
    {
        faults.fired=true;
        if (faults.write_short && faults.n_writes==faults.write_fail_at && n>1)
            k=1+choose(F, n-1), fault("short-write");
        else
            fail=true, err=faults.write_errno;
    }
    else if (faults.short_write_den && n>1 && chance(F, 1, faults.short_write_den))
        k=1+choose(F, n-1), fault("short-write");
    if (!well && !fail && faults.disk_cap>=0 && total_bytes+(i64)k>faults.disk_cap)
    {
        faults.fired=true;
        i64 room=faults.disk_cap-total_bytes;
        if (room<=0) fail=true, err=ENOSPC;
        else k=room, fault("short-write");
    }
    if (fail)
    {
        if (faults.fail_since<0) faults.fail_since=now;
        if (on_storage_fault) on_storage_fault(true);
        fault(err==ENOSPC? "ENOSPC" : err==EIO? "EIO-write" : "write-error");
        errno=err;
        return -1;
    }
    if (k<n && on_storage_fault) on_storage_fault(false);
    if (o->flags&O_APPEND) o->off=f.data.size();
    if (o->off>f.data.size()) f.data.resize(o->off);
    u64 old=f.data.size();
    size_t over= f.data.size()-o->off; if (over>k) over=k;
    f.data.replace(o->off, over, (const char*)buf, k);
    o->off+=k;
    f.writes++;
    total_bytes+=f.data.size()-old;
    if (on_file_write) on_file_write(o->desc);
    return k;
}
static size_t cut(size_t n, bool on)
{
    if (!on || n<2) return n;
    switch (choose(N, 4))
    {
    case 2: fault("short-read"); return 1+choose(N, n-1);
    case 3: fault("short-read"); return 1+choose(N, n<9? n-1 : 8);
    }
    return n;
}
static ssize_t file_read(Ofd o, void *buf, size_t n)
{
    Inode &f=*o->ino;
    if (f.type==1) { errno=EISDIR; return -1; }
    if (o->off>=f.data.size() && !(f.fail_read_at>=0 && (i64)o->off>=f.fail_read_at)) return 0;
    size_t k=f.data.size()-o->off;
    if (k>n) k=n;
    if (f.fail_read_at>=0)
    {
        if ((i64)o->off>=f.fail_read_at) { fault("EIO-read"); errno=f.fail_errno; return -1; }
        if ((i64)(o->off+k)>f.fail_read_at) k=f.fail_read_at-o->off;
    }
    k=cut(k, cfg.short_file_reads);
    memcpy(buf, f.data.data()+o->off, k);
    o->off+=k;
    return k;
}
static ssize_t chan_read(Ofd o, Ch c, void *buf, size_t n, const char *why, int flags=0)
{
    if (!n) return 0;
    size_t least=1;
    if (o->kind==K_TTY)
    {
        least=std::min(n, tty_min(o->tty));
        if (o->tty->cooked() && !(o->tty->tio.c_lflag&ICANON) && !o->tty->tio.c_cc[VMIN] && !c->avail()) return 0;
    }
    if (blockop([c,o,least]{ return c->avail()>=least || !c->writers || c->rst || o->shut_rd; }, -1, why, true)) return -1;
    if (o->shut_rd) return 0;
    if (c->rst) { fault("ECONNRESET"); errno=ECONNRESET; return -1; }
    if (!c->avail())
    {
        if (o->kind==K_PTM) { errno=EIO; return -1; }
        return 0;
    }
    size_t k= c->avail()<n? c->avail() : n;
    k=cut(k, cfg.short_reads);
    memcpy(buf, c->q.data()+c->h, k);
    if (!(flags&MSG_PEEK)) c->pop(k);
    touch();
    return k;
}
static bool tty_dead(Ofd o) { return o->kind==K_TTY && o->tty->hup; }
static ssize_t chan_write(Ofd o, Ch c, const void *buf, size_t n, const char *why, int flags=0)
{
    size_t d=0;
    bool isline= o->kind==K_TTY || o->kind==K_PTM;
    while (d<n)
    {
        if (o->kind==K_PTM && !o->tty->in->readers) { probe("input-for-nobody"); return n; }    // Linux: goes nowhere, no error
        if (isline? tty_dead(o) : (!c->readers || o->shut_wr))
        {
            if (d) { if (c->store && on_storage_fault) on_storage_fault(false); return d; }
            if (isline) { errno=EIO; return -1; }
            trace("EPIPE on %s", o->desc.c_str());
            if (c->store && on_storage_fault) on_storage_fault(true);
            probe("EPIPE");
            if (!(flags&MSG_NOSIGNAL)) thread_signal(SIGPIPE);
            errno=EPIPE;
            return -1;
        }
        size_t room= c->avail()<c->cap? c->cap-c->avail() : 0;
        size_t need= (o->kind==K_PIPE && n-d<=4096 && n<=4096)? n-d : 1;
        if (room<need)
        {
            if (o->flags&O_NONBLOCK) { if (d) return d; errno=EAGAIN; return -1; }
            if (self->in_handler==0) cancel_check();
            wait_until([c,o,need,isline]{ return c->cap-(c->avail()<c->cap? c->avail() : c->cap)>=need || (isline && tty_dead(o)) || !c->readers; }, -1, why, true);
            if (self->interrupted)
            {
                self->interrupted=false;
                cancel_check();
                bool rs=pending_restart();
                deliver_signals();
                if (d) { fault("interrupted-write"); return d; }
                if (!rs) { errno=EINTR; return -1; }
            }
            continue;
        }
        size_t k= n-d<room? n-d : room;
        if (o->kind==K_TTY && o->tty->cooked() && (o->tty->tio.c_oflag&(OPOST|ONLCR))==(OPOST|ONLCR))
        {
            const char *nl=(const char*)memchr((const char*)buf+d, '\n', k);
            if (nl==(const char*)buf+d) { c->push("\r\n", 2); d++; touch(); continue; }
            if (nl) k=nl-(const char*)buf-d;
        }
        c->push((const char*)buf+d, k);
        d+=k;
        touch();
    }
    return d;
}
static ssize_t do_read(int fd, void *buf, size_t n, int flags=0)
{
    Ofd o=getfd(fd, "read");
    if (!o) return -1;
    Inflight fl(o);
    cancel_check();
    if (n>0x7ffff000) n=0x7ffff000;
    ssize_t r;
    switch (o->kind)
    {
    case K_FILE:
        if ((o->flags&O_ACCMODE)==O_WRONLY) { errno=EBADF; return -1; }
        r=file_read(o, buf, n); break;
    case K_PIPE: case K_SOCK:
        if (o->err) { errno=o->err; o->err=0; return -1; }
        if (!o->rd) { errno= o->kind==K_SOCK? ENOTCONN : EBADF; return -1; }
        r=chan_read(o, o->rd, buf, n, o->kind==K_PIPE? "read(pipe)" : "read(socket)", flags);
        break;
    case K_TTY: r=chan_read(o, o->tty->in, buf, n, "read(tty)"); break;
    case K_PTM: r=chan_read(o, o->tty->out, buf, n, "read(ptm)"); break;
    default: r=0;
    }
    if (r>0) hash(buf, r<64? r : 64);
    if (tracing) trace("read(%d)=%zd", fd, r);
    return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n, int flags=0)
{
    Ofd o=getfd(fd, "write");
    if (!o) return -1;
    Inflight fl(o);
    cancel_check();
    hash(buf, n<64? n : 64);
    ssize_t r;
    switch (o->kind)
    {
    case K_FILE:
        if ((o->flags&O_ACCMODE)==O_RDONLY) { errno=EBADF; return -1; }
        if (!n) return 0;
        r=file_write(o, buf, n); break;
    case K_PIPE: case K_SOCK:
        if (!o->wr) { errno= o->kind==K_SOCK? ENOTCONN : EBADF; return -1; }
        r=chan_write(o, o->wr, buf, n, o->kind==K_PIPE? "write(pipe)" : "write(socket)", flags);
        break;
    case K_TTY: r=chan_write(o, o->tty->out, buf, n, "write(tty)"); break;
    case K_PTM: r=chan_write(o, o->tty->in, buf, n, "write(ptm)"); break;
    default: r=n;
    }
    if (tracing) trace("write(%d,%zu)=%zd", fd, n, r);
    return r;
}
i64 h_read(Proc *p, int fd, void *buf, size_t n)
{
    if (fd<0 || fd>=(int)p->fds.size() || !p->fds[fd]) { if (fd_misuse.empty()) fd_misuse="the caller's own descriptor "+std::to_string(fd)+" had been closed behind its back"; errno=EBADF; return -1; }
    enter("hread", fd);
    bool st=faults.strict_fds; faults.strict_fds=false;
    i64 r=do_read(fd, buf, n);
    faults.strict_fds=st;
    return r;
}
i64 h_write(Proc *p, int fd, const void *buf, size_t n)
{
    if (fd<0 || fd>=(int)p->fds.size() || !p->fds[fd]) { if (fd_misuse.empty()) fd_misuse="the caller's own descriptor "+std::to_string(fd)+" had been closed behind its back"; errno=EBADF; return -1; }
    enter("hwrite", fd);
    bool st=faults.strict_fds; faults.strict_fds=false;
    i64 r=do_write(fd, buf, n);
    faults.strict_fds=st;
    return r;
}
static int do_close(int fd)
{
    Ofd o=getfd(fd, "close");
    if (!o) return -1;
    int r=0;
    if (o->kind==K_FILE && faults.fail_close && (o->flags&O_ACCMODE)!=O_RDONLY && o->refs==1)
        { fault("EIO-close"); faults.fired=true; if (on_storage_fault) on_storage_fault(true); r=-1; }
    fd_drop(self->p, fd);
    cancel_check();
    if (r) errno=EIO;
    return r;
}
static bool rd_ready(Ofd o)
{
    switch (o->kind)
    {
    case K_PIPE: case K_SOCK: return !o->rd || o->rd->avail() || !o->rd->writers || o->rd->rst || o->shut_rd;
    case K_TTY: return o->tty->in->avail()>=tty_min(o->tty) || !o->tty->in->writers || o->tty->hup;
    case K_PTM: return o->tty->out->avail() || !o->tty->out->writers;
    default: return true;
    }
}
static bool wr_ready(Ofd o)
{
    Ch c= o->kind==K_PIPE||o->kind==K_SOCK? o->wr : o->kind==K_TTY? o->tty->out : o->kind==K_PTM? o->tty->in : nullptr;
    if (!c) return true;
    if (!c->readers) return true;
    return c->avail()<c->cap && (o->kind!=K_PIPE || c->cap-c->avail()>=4096 || !c->avail());
}

// ---------------------------------------------------------------- mutexes and conditions
struct Mtx { Thr *owner=0; };
struct Cnd { std::vector<Thr*> waiters; };
static std::map<std::pair<Proc*,void*>,Mtx> mtxs;
static std::map<std::pair<Proc*,void*>,Cnd> cnds;
static int m_lock(void *m)
{
    Mtx &x=mtxs[{self->p, m}];
    if (x.owner==self) { trace("relock"); }
    while (x.owner)
        wait_until([&x]{ return !x.owner; }, -1, "mutex", false);
    x.owner=self;
    return 0;
}
static int m_unlock(void *m)
{
    Mtx &x=mtxs[{self->p, m}];
    if (x.owner!=self) { trace("unlock of a mutex not held"); return EPERM; }
    x.owner=0;
    touch();
    return 0;
}

// ---------------------------------------------------------------- children
extern "C" { u64 sim_vf[8]; void sim_vf_resume(int ret) __attribute__((noreturn)); }
static std::vector<Ofd> saved_fds; static std::vector<int> saved_own;
static std::shared_ptr<ChildProg> cur_child;
static bool saved_np;
static std::vector<bool> saved_ce;
extern "C" void __asan_handle_no_return() __attribute__((weak));
static void start_child_mode(std::shared_ptr<ChildProg> c)
{
    Proc *p=self->p;
    saved_fds=p->fds; saved_own=p->fd_owner; saved_ce=p->fd_cloexec;
    for (auto &o : p->fds) if (o) o->refs++;
    cur_child=c; c->p=p;
    child_mode=1;
    saved_np=self->nopreempt; self->nopreempt=true;
}
[[noreturn]] static void end_child_mode(bool execed, int status)
{
    Proc *p=self->p;
    auto c=cur_child; cur_child=nullptr;
    if (execed)
        for (size_t i=0;i<p->fds.size();i++)
            if (p->fds[i] && p->fds[i]->kind!=K_TTY && !(i<p->fd_cloexec.size() && p->fd_cloexec[i]))
                { p->fds[i]->refs++; c->kept.push_back(p->fds[i]); trace("the program inherits descriptor %zu (%s)", i, p->fds[i]->desc.c_str()); }
    close_all_fds(p);
    p->fds=saved_fds; p->fd_owner=saved_own; p->fd_cloexec=saved_ce;
    saved_fds.clear();
    child_mode=0;
    self->nopreempt=saved_np;
    children.push_back(c);
    int pid=c->pid;
    if (execed) { if (on_exec) on_exec(c); else c->done=true; }
    else
    {
        c->done=true; c->status=status<<8;
        if (c->tty) { c->tty->out->writers=0; c->tty->in->readers=0; }
    }
    touch();
    c=nullptr;
    if (__asan_handle_no_return) __asan_handle_no_return();
    sim_vf_resume(pid);
}
void child_release(std::shared_ptr<ChildProg> c) { for (auto &o : c->kept) release(o); c->kept.clear(); touch(); }
void kernel_reset() {}

// ---------------------------------------------------------------- static data of the code under test
extern "C" { extern char __start_sut_data[] __attribute__((weak)), __stop_sut_data[] __attribute__((weak)), __start_sut_bss[] __attribute__((weak)), __stop_sut_bss[] __attribute__((weak)); }
static std::vector<u64> pristine;
struct Image { std::vector<u64> d; FILE *in, *out, *err; int oi, oe, oo; char *oa; bool valid=false; };
static std::map<Proc*,Image> images;
static Proc *live=0;
__attribute__((no_sanitize_address,noinline)) static void grab(std::vector<u64> &v)
{
    size_t a=(__stop_sut_data-__start_sut_data)/8, b=(__stop_sut_bss-__start_sut_bss)/8;
    v.resize(a+b);
    volatile u64 *d=(volatile u64*)__start_sut_data, *e=(volatile u64*)__start_sut_bss;
    for (size_t i=0;i<a;i++) v[i]=d[i];
    for (size_t i=0;i<b;i++) v[a+i]=e[i];
}
__attribute__((no_sanitize_address,noinline)) static void put(const std::vector<u64> &v)
{
    size_t a=(__stop_sut_data-__start_sut_data)/8, b=(__stop_sut_bss-__start_sut_bss)/8;
    volatile u64 *d=(volatile u64*)__start_sut_data, *e=(volatile u64*)__start_sut_bss;
    for (size_t i=0;i<a;i++) d[i]=v[i];
    for (size_t i=0;i<b;i++) e[i]=v[a+i];
}
void capture_pristine() { grab(pristine); }
void proc_switch(Proc *p)
{
    if (!p || p==live) return;
    if (live)
    {
        Image &o=images[live];
        grab(o.d);
        o.oi=optind; o.oe=opterr; o.oo=optopt; o.oa=optarg; o.valid=true;
        put(images.count(p) && images[p].valid? images[p].d : pristine);
    }
    Image &n=images[p];
    if (n.valid) optind=n.oi, opterr=n.oe, optopt=n.oo, optarg=n.oa;
    else optind=0, opterr=1, optopt='?', optarg=0;
    if (p->in) stdin=p->in;
    if (p->out) stdout=p->out;
    if (p->err) stderr=p->err;
    live=p;
}
void restore_sut() { put(pristine); }

// curl stand-in
struct Curl { str url; FILE *out=0, *in=0; bool upload=false; };
static str curl_err;
}
using namespace sim;

// ======================================================================================
#define RAW(nr, ...) syscall(nr, ##__VA_ARGS__)
extern "C" {

ssize_t read(int fd, void *buf, size_t n) { if (!SIMCALL) return RAW(SYS_read, fd, buf, n); enter("read", fd); ssize_t r=do_read(fd, buf, n); after_data(); return r; }
ssize_t write(int fd, const void *buf, size_t n) { if (!SIMCALL) return RAW(SYS_write, fd, buf, n); enter("write", fd); ssize_t r=do_write(fd, buf, n); after_data(); return r; }
ssize_t pread(int fd, void *buf, size_t n, off_t off)
{
    if (!SIMCALL) return RAW(SYS_pread64, fd, buf, n, off);
    enter("pread", fd);
    Ofd o=getfd(fd, "pread"); if (!o) return -1;
    if (o->kind!=K_FILE) { errno=ESPIPE; return -1; }
    u64 s=o->off; o->off=off; ssize_t r=do_read(fd, buf, n); o->off=s; return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
{
    if (!SIMCALL) return RAW(SYS_pwrite64, fd, buf, n, off);
    enter("pwrite", fd);
    Ofd o=getfd(fd, "pwrite"); if (!o) return -1;
    if (o->kind!=K_FILE) { errno=ESPIPE; return -1; }
    u64 s=o->off; o->off=off; ssize_t r=do_write(fd, buf, n); o->off=s; return r;
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (!SIMCALL) return RAW(SYS_readv, fd, v, c);
    ssize_t t=0;
    for (int i=0;i<c;i++)
    {
        if (!v[i].iov_len) continue;
        ssize_t r=read(fd, v[i].iov_base, v[i].iov_len);
        if (r<0) return t? t : r;
        t+=r;
        if (r<(ssize_t)v[i].iov_len) break;
    }
    return t;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!SIMCALL) return RAW(SYS_writev, fd, v, c);
    str s;
    for (int i=0;i<c;i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return write(fd, s.data(), s.size());
}
int open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); int mode=(flags&O_CREAT)? va_arg(ap, int) : 0; va_end(ap);
    if (!SIMCALL) return RAW(SYS_open, path, flags, mode);
    enter("open"); trace("open(%s,%x)", path, flags); cancel_check();
    return do_open(path, flags);
}
int open64(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); int mode=(flags&O_CREAT)? va_arg(ap, int) : 0; va_end(ap);
    if (!SIMCALL) return RAW(SYS_open, path, flags, mode);
    return open(path, flags, mode);
}
int openat(int dfd, const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); int mode=(flags&O_CREAT)? va_arg(ap, int) : 0; va_end(ap);
    if (!SIMCALL) return RAW(SYS_openat, dfd, path, flags, mode);
    return open(path, flags, mode);
}
int creat(const char *path, mode_t mode) { if (!SIMCALL) return RAW(SYS_creat, path, mode); return open(path, O_WRONLY|O_CREAT|O_TRUNC, mode); }
int close(int fd) { if (!SIMCALL) return RAW(SYS_close, fd); enter("close", fd); return do_close(fd); }
off_t lseek(int fd, off_t off, int wh)
{
    if (!SIMCALL) return RAW(SYS_lseek, fd, off, wh);
    enter("lseek", fd);
    Ofd o=getfd(fd, "lseek"); if (!o) return -1;
    if (o->kind!=K_FILE) { errno=ESPIPE; return -1; }
    i64 b= wh==SEEK_SET? 0 : wh==SEEK_CUR? (i64)o->off : (i64)o->ino->data.size();
    if (b+off<0) { errno=EINVAL; return -1; }
    return o->off=b+off;
}
off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
int ftruncate(int fd, off_t len)
{
    if (!SIMCALL) return RAW(SYS_ftruncate, fd, len);
    enter("ftruncate", fd);
    Ofd o=getfd(fd, "ftruncate"); if (!o) return -1;
    if (o->kind!=K_FILE) { errno=EINVAL; return -1; }
    o->ino->data.resize(len); if (on_file_write) on_file_write(o->desc);
    return 0;
}
int fsync(int fd) { if (!SIMCALL) return RAW(SYS_fsync, fd); enter("fsync", fd); return getfd(fd, "fsync")? 0 : -1; }
int fdatasync(int fd) { if (!SIMCALL) return RAW(SYS_fdatasync, fd); return fsync(fd); }
int dup(int fd)
{
    if (!SIMCALL) return RAW(SYS_dup, fd);
    enter("dup", fd);
    Ofd o=getfd(fd, "dup"); if (!o) return -1;
    if (++faults.n_dup==faults.fail_dup) { fault("dup-EMFILE"); errno=EMFILE; return -1; }
    return fd_alloc(self->p, o, OWN_SUT);
}
int dup2(int fd, int to)
{
    if (!SIMCALL) return RAW(SYS_dup2, fd, to);
    enter("dup2", fd);
    Ofd o=getfd(fd, "dup2"); if (!o) return -1;
    if (fd==to) return to;
    return fd_install_at(self->p, to, o, OWN_SUT);
}
int dup3(int fd, int to, int fl) { if (!SIMCALL) return RAW(SYS_dup3, fd, to, fl); int r=dup2(fd, to); if (r>=0 && (fl&O_CLOEXEC)) set_cloexec(self->p, r, true); return r; }
static int sim_pipe(int p[2])
{
    enter("pipe");
    if (++faults.n_pipe==faults.fail_pipe) { fault("pipe-EMFILE"); errno=EMFILE; return -1; }
    Ofd r, w;
    make_pipe(r, w, cfg.pipe_cap);
    p[0]=fd_alloc(self->p, r, OWN_SUT); p[1]=fd_alloc(self->p, w, OWN_SUT);
    trace("pipe -> %d,%d", p[0], p[1]);
    return 0;
}
int pipe(int p[2]) { if (!SIMCALL) return RAW(SYS_pipe, p); return sim_pipe(p); }
int pipe2(int p[2], int fl) { if (!SIMCALL) return RAW(SYS_pipe2, p, fl); int r=sim_pipe(p); if (!r && (fl&O_CLOEXEC)) set_cloexec(self->p, p[0], true), set_cloexec(self->p, p[1], true); return r; }
static int sim_fcntl(int fd, int cmd, long arg)
{
    enter("fcntl", fd);
    Ofd o=getfd(fd, "fcntl"); if (!o) return -1;
    switch (cmd)
    {
    case F_GETFL: return o->flags;
    case F_SETFL: o->flags=(o->flags&(O_ACCMODE))|(arg&~O_ACCMODE); return 0;
    case F_GETFD: return fd<(int)self->p->fd_cloexec.size() && self->p->fd_cloexec[fd]? FD_CLOEXEC : 0;
    case F_SETFD: set_cloexec(self->p, fd, arg&FD_CLOEXEC); return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int r=fd_alloc(self->p, o, OWN_SUT); set_cloexec(self->p, r, cmd==F_DUPFD_CLOEXEC); return r; }
    }
    return 0;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a=va_arg(ap, long); va_end(ap); if (!SIMCALL) return RAW(SYS_fcntl, fd, cmd, a); return sim_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a=va_arg(ap, long); va_end(ap); if (!SIMCALL) return RAW(SYS_fcntl, fd, cmd, a); return sim_fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) throw()
{
    va_list ap; va_start(ap, req); void *a=va_arg(ap, void*); va_end(ap);
    if (!SIMCALL) return RAW(SYS_ioctl, fd, req, a);
    enter("ioctl", fd);
    Ofd o=getfd(fd, "ioctl"); if (!o) return -1;
    if (o->kind!=K_TTY && o->kind!=K_PTM) { errno=ENOTTY; return -1; }
    switch (req)
    {
    case TIOCGWINSZ: *(struct winsize*)a=o->tty->ws; return 0;
    case TIOCSWINSZ:
        o->tty->ws=*(struct winsize*)a;
        o->tty->resizes.push_back({now, o->tty->ws});
        trace("%s: size set to %dx%d", o->tty->name.c_str(), o->tty->ws.ws_col, o->tty->ws.ws_row);
        return 0;
    case TCGETS: return 0;
    }
    errno=EINVAL;
    return -1;
}
int isatty(int fd) throw()
{
    if (!SIMCALL) { struct termios t; return RAW(SYS_ioctl, fd, TCGETS, &t)==0; }
    enter("isatty", fd);
    Ofd o=getfd(fd, "isatty"); if (!o) return 0;
    if (o->kind==K_TTY || o->kind==K_PTM) return 1;
    errno=ENOTTY;
    return 0;
}
int tcgetattr(int fd, struct termios *t) throw()
{
    if (!SIMCALL) return REAL(int, tcgetattr, (int, struct termios*))(fd, t);
    enter("tcgetattr", fd);
    Ofd o=getfd(fd, "tcgetattr"); if (!o) return -1;
    if (o->kind!=K_TTY && o->kind!=K_PTM) { errno=ENOTTY; return -1; }
    *t=o->tty->tio;
    return 0;
}
int tcsetattr(int fd, int act, const struct termios *t) throw()
{
    if (!SIMCALL) return REAL(int, tcsetattr, (int, int, const struct termios*))(fd, act, t);
    enter("tcsetattr", fd);
    Ofd o=getfd(fd, "tcsetattr"); if (!o) return -1;
    if (o->kind!=K_TTY && o->kind!=K_PTM) { errno=ENOTTY; return -1; }
    TtyP y=o->tty;
    if (act==TCSADRAIN || act==TCSAFLUSH)
        if (blockop([y]{ return !y->out->avail() || !y->out->readers; }, -1, "tcsetattr(drain)", true)) return -1;
    if (act==TCSAFLUSH) y->in->q.clear(), y->in->h=0;
    y->tio=*t;
    y->history.push_back(*t);
    return 0;
}
int tcdrain(int fd)
{
    if (!SIMCALL) return REAL(int, tcdrain, (int))(fd);
    enter("tcdrain", fd);
    Ofd o=getfd(fd, "tcdrain"); if (!o) return -1;
    if (o->kind!=K_TTY) { errno=ENOTTY; return -1; }
    TtyP y=o->tty;
    if (blockop([y]{ return !y->out->avail() || !y->out->readers; }, -1, "tcdrain", true)) return -1;
    return 0;
}
int tcflush(int fd, int q) throw() { if (!SIMCALL) return REAL(int, tcflush, (int,int))(fd, q); enter("tcflush", fd); return 0; }

static void fill_stat(struct stat *st, Ofd o, Ino i)
{
    memset(st, 0, sizeof(*st));
    st->st_blksize=4096;
    if (i) { st->st_mode=(i->type==1? S_IFDIR : S_IFREG)|0644; st->st_size=i->data.size(); st->st_ino=i->id; st->st_nlink=1; }
    else if (o->kind==K_PIPE) st->st_mode=S_IFIFO|0600;
    else if (o->kind==K_SOCK) st->st_mode=S_IFSOCK|0600;
    else st->st_mode=S_IFCHR|0600;
}
int fstat(int fd, struct stat *st) throw()
{
    if (!SIMCALL) return RAW(SYS_fstat, fd, st);
    enter("fstat", fd);
    Ofd o=getfd(fd, "fstat"); if (!o) return -1;
    fill_stat(st, o, o->kind==K_FILE? o->ino : nullptr);
    return 0;
}
int stat(const char *path, struct stat *st) throw()
{
    if (!SIMCALL) return RAW(SYS_stat, path, st);
    enter("stat");
    auto i=fs.find(norm(path));
    if (i==fs.end()) { errno=ENOENT; return -1; }
    fill_stat(st, nullptr, i->second);
    return 0;
}
int lstat(const char *path, struct stat *st) throw() { if (!SIMCALL) return RAW(SYS_lstat, path, st); return stat(path, st); }
int fstat64(int fd, struct stat64 *st) throw() { return fstat(fd, (struct stat*)st); }
int stat64(const char *path, struct stat64 *st) throw() { return stat(path, (struct stat*)st); }
int lstat64(const char *path, struct stat64 *st) throw() { return lstat(path, (struct stat*)st); }
int access(const char *path, int m) throw()
{
    if (!SIMCALL) return RAW(SYS_access, path, m);
    enter("access");
    if (fs.count(norm(path))) return 0;
    errno=ENOENT; return -1;
}
int unlink(const char *path) throw()
{
    if (!SIMCALL) return RAW(SYS_unlink, path);
    enter("unlink"); trace("unlink(%s)", path);
    auto i=fs.find(norm(path));
    if (i==fs.end()) { errno=ENOENT; return -1; }
    str n=i->first; fs.erase(i);
    if (on_file_write) on_file_write(n);
    return 0;
}
int remove(const char *path) throw() { if (!SIMCALL) return REAL(int, remove, (const char*))(path); return unlink(path); }
int rename(const char *a, const char *b) throw()
{
    if (!SIMCALL) return RAW(SYS_rename, a, b);
    enter("rename");
    auto i=fs.find(norm(a));
    if (i==fs.end()) { errno=ENOENT; return -1; }
    Ino n=i->second; fs.erase(i); fs[norm(b)]=n;
    if (on_file_write) { on_file_write(norm(a)); on_file_write(norm(b)); }
    return 0;
}
int link(const char *a, const char *b) throw()
{
    if (!SIMCALL) return RAW(SYS_link, a, b);
    enter("link");
    auto i=fs.find(norm(a));
    if (i==fs.end()) { errno=ENOENT; return -1; }
    if (fs.count(norm(b))) { errno=EEXIST; return -1; }
    fs[norm(b)]=i->second;
    return 0;
}
int mkdir(const char *path, mode_t m) throw() { if (!SIMCALL) return RAW(SYS_mkdir, path, m); enter("mkdir"); errno=EACCES; return -1; }
mode_t umask(mode_t m) throw() { if (!SIMCALL) return RAW(SYS_umask, m); return 022; }

// ---- waiting on descriptors
static int do_select(int n, fd_set *r, fd_set *w, fd_set *e, i64 timeout)
{
    std::vector<std::pair<int,Ofd>> rs, ws;
    for (int i=0;i<n;i++)
    {
        if (r && FD_ISSET(i, r)) { Ofd o=getfd(i, "select"); if (!o) return -1; rs.push_back({i,o}); }
        if (w && FD_ISSET(i, w)) { Ofd o=getfd(i, "select"); if (!o) return -1; ws.push_back({i,o}); }
    }
    bool any= !rs.empty() || !ws.empty();
    if (any && ++faults.n_select==faults.fail_select) { fault("select-ENOMEM"); errno=ENOMEM; return -1; }
    int b=blockop(any? Pred([&]{ for (auto &x : rs) if (rd_ready(x.second)) return true; for (auto &x : ws) if (wr_ready(x.second)) return true; return false; }) : Pred(),
        timeout<0? -1 : now+timeout, any? "select" : "select(sleep)", false);
    if (b<0) return -1;
    int k=0;
    if (r) { FD_ZERO(r); for (auto &x : rs) if (rd_ready(x.second)) FD_SET(x.first, r), k++; }
    if (w) { FD_ZERO(w); for (auto &x : ws) if (wr_ready(x.second)) FD_SET(x.first, w), k++; }
    if (e) FD_ZERO(e);
    if (k>1) probe("select-two-ready");
    return k;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (!SIMCALL) return RAW(SYS_select, n, r, w, e, tv);
    enter("select");
    i64 t=-1;
    if (tv)
    {
        if (tv->tv_sec<0 || tv->tv_usec<0) { errno=EINVAL; return -1; }
        t=tv->tv_sec>1000000000000LL? 1000000000000000000LL : tv->tv_sec*1000000LL+tv->tv_usec;
    }
    i64 t0=now;
    int k=do_select(n, r, w, e, t);
    int er=errno;
    if (tv && t<1000000000000000000LL) { i64 left=t-(now-t0); if (left<0) left=0; tv->tv_sec=left/1000000; tv->tv_usec=left%1000000; }
    errno=er;
    return k;
}
int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *ss)
{
    if (!SIMCALL) return REAL(int, pselect, (int, fd_set*, fd_set*, fd_set*, const struct timespec*, const sigset_t*))(n, r, w, e, ts, ss);
    enter("pselect");
    u64 old=self->sigmask;
    if (ss) { u64 m=0; for (int i=1;i<64;i++) if (sigismember(ss, i)==1) m|=1ULL<<i; self->sigmask=m; sig_flag=true; }
    int k;
    // as on Linux: a descriptor that is ready wins, the signal stays pending then
    k=do_select(n, r, w, e, ts? ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000 : -1);
    self->sigmask=old;
    return k;
}
int poll(struct pollfd *f, nfds_t n, int ms)
{
    if (!SIMCALL) return RAW(SYS_poll, f, n, ms);
    enter("poll");
    if (n && ++faults.n_select==faults.fail_select) { fault("poll-ENOMEM"); errno=ENOMEM; return -1; }
    std::vector<Ofd> o(n);
    bool bad=false;
    for (nfds_t i=0;i<n;i++) { f[i].revents=0; if (f[i].fd<0) continue; o[i]=getfd(f[i].fd, "poll"); if (!o[i]) f[i].revents=POLLNVAL, bad=true; }
    auto scan=[&]{ int k=0; for (nfds_t i=0;i<n;i++) if (o[i])
        { f[i].revents=0;
          if ((f[i].events&POLLIN) && rd_ready(o[i])) f[i].revents|=POLLIN;
          if ((f[i].events&POLLOUT) && wr_ready(o[i])) f[i].revents|=POLLOUT;
          Ch c= o[i]->kind==K_PTM? o[i]->tty->out : o[i]->rd;
          if (c && !c->writers && !c->avail()) f[i].revents|=POLLHUP;
          if (o[i]->wr && !o[i]->wr->readers) f[i].revents|=POLLERR;
          if (f[i].revents) k++; }
        else if (f[i].revents) k++;
        return k; };
    if (!bad)
    {
        int b=blockop([&]{ return scan()>0; }, ms<0? -1 : now+ms*1000LL, "poll", false);
        if (b<0) return -1;
    }
    return scan();
}

// ---- time
static i64 wall() { return epoch+now; }
int gettimeofday(struct timeval *tv, void *tz) throw()
{
    if (!SIMCALL) return RAW(SYS_gettimeofday, tv, tz);
    enter("gettimeofday");
    tv->tv_sec=wall()/1000000; tv->tv_usec=wall()%1000000;
    return 0;
}
time_t time(time_t *t) throw()
{
    if (!SIMCALL) return RAW(SYS_time, t);
    enter("time");
    time_t x=wall()/1000000; if (t) *t=x;
    return x;
}
int clock_gettime(clockid_t c, struct timespec *ts) throw()
{
    if (!SIMCALL) return RAW(SYS_clock_gettime, c, ts);
    enter("clock_gettime");
    i64 x= c==CLOCK_REALTIME? wall() : now+1000000000LL;
    ts->tv_sec=x/1000000; ts->tv_nsec=x%1000000*1000;
    return 0;
}
int usleep(useconds_t us) { if (!SIMCALL) return REAL(int, usleep, (useconds_t))(us); enter("usleep"); return blockop(nullptr, now+us, "usleep", false)<0? -1 : 0; }
int nanosleep(const struct timespec *ts, struct timespec *rem)
{
    if (!SIMCALL) return RAW(SYS_nanosleep, ts, rem);
    enter("nanosleep");
    if (ts->tv_sec<0 || ts->tv_nsec<0 || ts->tv_nsec>999999999) { errno=EINVAL; return -1; }
    i64 d=now+ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000;
    int b=blockop(nullptr, d, "nanosleep", false);
    if (rem && b<0) { i64 l=d-now; rem->tv_sec=l/1000000; rem->tv_nsec=l%1000000*1000; }
    return b<0? -1 : 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem)
{
    if (!SIMCALL) return REAL(int, clock_nanosleep, (clockid_t,int,const struct timespec*,struct timespec*))(c, fl, ts, rem);
    enter("clock_nanosleep");
    i64 a=ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000;
    i64 d= fl&TIMER_ABSTIME? (c==CLOCK_REALTIME? a-epoch : a-1000000000LL) : now+a;
    int b=blockop(nullptr, d<now? now : d, "clock_nanosleep", false);
    if (rem && b<0 && !(fl&TIMER_ABSTIME)) { i64 l=d-now; rem->tv_sec=l/1000000; rem->tv_nsec=l%1000000*1000; }
    return b<0? EINTR : 0;
}
unsigned sleep(unsigned s) { if (!SIMCALL) return REAL(unsigned, sleep, (unsigned))(s); enter("sleep"); i64 d=now+s*1000000LL; int b=blockop(nullptr, d, "sleep", false); return b<0? (d-now+999999)/1000000 : 0; }
int sched_yield(void) throw() { if (!SIMCALL) return RAW(SYS_sched_yield); enter("sched_yield"); preempt_fair(); return 0; }

// ---- threads
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void*), void *arg) throw()
{
    if (!SIMCALL) return REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void*(*)(void*), void*))(th, at, fn, arg);
    enter("pthread_create");
    if (++faults.n_thread==faults.fail_thread) { fault("thread-EAGAIN"); return EAGAIN; }
    int det=PTHREAD_CREATE_JOINABLE;
    if (at) pthread_attr_getdetachstate(at, &det);
    static int cnt; char nm[40];
    snprintf(nm, sizeof(nm), "thr%d", ++cnt);
    u64 mask=self->sigmask;
    Thr *t=spawn_thread(self->p, nm, nullptr);
    t->fn=[t,fn,arg]{ t->retval=fn(arg); };
    t->sigmask=mask;
    t->detached= det==PTHREAD_CREATE_DETACHED;
    *th=(pthread_t)t;
    trace("created %s", nm);
    yield_point();
    return 0;
}
int pthread_join(pthread_t th, void **rv)
{
    if (!SIMCALL) return REAL(int, pthread_join, (pthread_t, void**))(th, rv);
    enter("pthread_join");
    Thr *t=(Thr*)th;
    if (t->joined) { trace("join of a joined thread"); return ESRCH; }
    while (!thr_exited(t)) blockop([t]{ return thr_exited(t); }, -1, "pthread_join", true);
    t->joined=true;
    if (rv) *rv=t->retval;
    return 0;
}
int pthread_detach(pthread_t th) throw() { if (!SIMCALL) return REAL(int, pthread_detach, (pthread_t))(th); ((Thr*)th)->detached=true; return 0; }
pthread_t pthread_self(void) throw() { if (!SIMCALL) return pthread_self_real(); return (pthread_t)self; }
int pthread_equal(pthread_t a, pthread_t b) throw() { return a==b; }
int pthread_cancel(pthread_t th)
{
    if (!SIMCALL) return REAL(int, pthread_cancel, (pthread_t))(th);
    enter("pthread_cancel");
    Thr *t=(Thr*)th;
    if (thr_exited(t)) return ESRCH;
    t->cancel_pending=true;
    probe("cancel");
    if (t->state==T_BLOCKED) probe("cancel-blocked");
    touch();
    return 0;
}
int pthread_setcancelstate(int st, int *old)
{
    if (!SIMCALL) return REAL(int, pthread_setcancelstate, (int, int*))(st, old);
    enter("pthread_setcancelstate");
    if (old) *old= self->cancel_enabled? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE;
    self->cancel_enabled= st==PTHREAD_CANCEL_ENABLE;
    return 0;
}
int pthread_setcanceltype(int st, int *old) { if (!SIMCALL) return REAL(int, pthread_setcanceltype, (int, int*))(st, old); if (old) *old=PTHREAD_CANCEL_DEFERRED; return 0; }
void pthread_testcancel(void) { if (!SIMCALL) return; enter("pthread_testcancel"); cancel_check(); }
void pthread_exit(void *rv)
{
    if (SIMCALL) { self->retval=rv; self->cancel_enabled=false; }
    REAL(void, pthread_exit, (void*))(rv);
    __builtin_unreachable();
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) throw()
{
    if (!SIMCALL) return REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*))(m, a);
    mtxs[{self->p, m}]=Mtx();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) throw() { if (!SIMCALL) return REAL(int, pthread_mutex_destroy, (pthread_mutex_t*))(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) throw() { if (!SIMCALL) return REAL(int, pthread_mutex_lock, (pthread_mutex_t*))(m); enter("lock"); int r=m_lock(m); after_lock(); return r; }
int pthread_mutex_trylock(pthread_mutex_t *m) throw() { if (!SIMCALL) return REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))(m); enter("trylock"); if (mtxs[{self->p, m}].owner) return EBUSY; mtxs[{self->p, m}].owner=self; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) throw() { if (!SIMCALL) return REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))(m); int r=m_unlock(m); enter("unlock"); after_lock(); return r; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) throw() { if (!SIMCALL) return REAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*))(c, a); cnds[{self->p, c}]=Cnd(); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) throw() { if (!SIMCALL) return REAL(int, pthread_cond_destroy, (pthread_cond_t*))(c); return 0; }
static int c_wait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline)
{
    Cnd &x=cnds[{self->p, c}];
    Thr *me=self;
    cancel_check();
    if (m_unlock(m)) return EPERM;
    x.waiters.push_back(me);
    bool spur= cfg.spurious && chance(F, 1, 6);
    if (spur) { fault("spurious-wakeup"); deadline= deadline<0? now+choose(F, 1000) : deadline; }
    auto in=[&x,me]{ for (Thr *t : x.waiters) if (t==me) return true; return false; };
    bool tmo=false;
    while (in())
    {
        if (deadline>=0 && now>=deadline) { tmo=true; break; }
        if (thr_cancelable(me)) break;
        wait_until([&]{ return !in(); }, deadline, "cond_wait", true);
        if (me->interrupted) { me->interrupted=false; if (!thr_cancelable(me)) deliver_signals(); }
    }
    for (size_t i=0;i<x.waiters.size();i++) if (x.waiters[i]==me) { x.waiters.erase(x.waiters.begin()+i); break; }
    bool ce=me->cancel_enabled;
    m_lock(m);
    (void)ce;
    cancel_check();
    return tmo && !spur? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!SIMCALL) return REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))(c, m);
    enter("cond_wait");
    return c_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!SIMCALL) return REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))(c, m, ts);
    enter("cond_timedwait");
    i64 d=ts->tv_sec*1000000LL+(ts->tv_nsec+999)/1000-epoch;
    return c_wait(c, m, d<0? 0 : d);
}
int pthread_cond_signal(pthread_cond_t *c) throw()
{
    if (!SIMCALL) return REAL(int, pthread_cond_signal, (pthread_cond_t*))(c);
    enter("cond_signal");
    Cnd &x=cnds[{self->p, c}];
    // waiters whose process died do not count
    for (size_t i=0;i<x.waiters.size();) if (x.waiters[i]->state==T_DEAD) x.waiters.erase(x.waiters.begin()+i); else i++;
    if (!x.waiters.empty()) { x.waiters.erase(x.waiters.begin()+choose(S, x.waiters.size())); touch(); }
    else probe("signal-without-waiter");
    yield_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) throw()
{
    if (!SIMCALL) return REAL(int, pthread_cond_broadcast, (pthread_cond_t*))(c);
    enter("cond_broadcast");
    cnds[{self->p, c}].waiters.clear(); touch();
    return 0;
}
// ---- rwlocks and once, in case someone starts using them
int pthread_once(pthread_once_t *o, void (*f)(void))
{
    if (!SIMCALL) return REAL(int, pthread_once, (pthread_once_t*, void(*)(void)))(o, f);
    static std::set<std::pair<Proc*,void*>> done;
    if (done.insert({self->p, o}).second) f();
    return 0;
}

// ---- signals
static int set_action(int s, const struct sigaction *a, struct sigaction *old)
{
    Proc *p=self->p;
    if (s<1 || s>64 || s==SIGKILL || s==SIGSTOP) { errno=EINVAL; return -1; }
    if (old) { memset(old, 0, sizeof(*old)); old->sa_handler=p->sig[s].h; old->sa_flags=p->sig[s].flags; }
    if (a)
    {
        SigAct x; x.h=a->sa_handler; x.flags=a->sa_flags; x.mask=0;
        for (int i=1;i<64;i++) if (sigismember(&a->sa_mask, i)==1) x.mask|=1ULL<<i;
        p->sig[s]=x;
    }
    return 0;
}
int sigaction(int s, const struct sigaction *a, struct sigaction *old) throw()
{
    if (!SIMCALL) return REAL(int, sigaction, (int, const struct sigaction*, struct sigaction*))(s, a, old);
    enter("sigaction", s);
    return set_action(s, a, old);
}
typedef void (*sh_t)(int);
sh_t signal(int s, sh_t h) throw()
{
    if (!SIMCALL) return REAL(sh_t, signal, (int, sh_t))(s, h);
    enter("signal", s);
    struct sigaction a, o;
    memset(&a, 0, sizeof(a)); a.sa_handler=h; a.sa_flags=SA_RESTART;
    if (set_action(s, &a, &o)) return SIG_ERR;
    return o.sa_handler;
}
static int do_mask(int how, const sigset_t *set, sigset_t *old)
{
    if (old) { sigemptyset(old); for (int i=1;i<64;i++) if (self->sigmask>>i&1) sigaddset(old, i); }
    if (set)
    {
        u64 m=0;
        for (int i=1;i<64;i++) if (sigismember(set, i)==1) m|=1ULL<<i;
        if (how==SIG_BLOCK) self->sigmask|=m;
        else if (how==SIG_UNBLOCK) self->sigmask&=~m;
        else self->sigmask=m;
        sig_flag=true;
        deliver_signals();
    }
    return 0;
}
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) throw() { if (!SIMCALL) return REAL(int, pthread_sigmask, (int, const sigset_t*, sigset_t*))(how, set, old); enter("sigmask"); return do_mask(how, set, old); }
int sigprocmask(int how, const sigset_t *set, sigset_t *old) throw() { if (!SIMCALL) return REAL(int, sigprocmask, (int, const sigset_t*, sigset_t*))(how, set, old); enter("sigmask"); return do_mask(how, set, old); }
int kill(pid_t pid, int s) throw()
{
    if (!SIMCALL) return RAW(SYS_kill, pid, s);
    enter("kill", pid);
    trace("kill(%d,%d)", pid, s);
    bool live=false; for (auto &c : children) if (c->pid==pid && !c->waited) live=true;
    kills.push_back({pid, s, now, !live && pid!=self->p->pid});
    if (pid==self->p->pid || pid==0) { if (s) send_signal(self->p, s); deliver_signals(); return 0; }
    bool found=false;
    for (auto &c : children)
        if ((c->pid==pid || c->pid==-pid) && !c->waited) { found=true; if (!c->done) c->sigs.push_back(s); }
    touch();
    if (!found) { errno=ESRCH; return -1; }
    return 0;
}
int killpg(pid_t pid, int s) throw() { if (!SIMCALL) return REAL(int, killpg, (pid_t, int))(pid, s); return kill(-pid, s); }
int raise(int s) throw() { if (!SIMCALL) return syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), s); enter("raise", s); thread_signal(s); return 0; }
int pthread_kill(pthread_t th, int s) throw() { if (!SIMCALL) return REAL(int, pthread_kill, (pthread_t, int))(th, s); enter("pthread_kill", s); ((Thr*)th)->pending|=1ULL<<s; sig_flag=true; touch(); deliver_signals(); return 0; }
pid_t getpid(void) throw() { if (!SIMCALL) return RAW(SYS_getpid); return self->p->pid; }
pid_t getppid(void) throw() { if (!SIMCALL) return RAW(SYS_getppid); return 1; }
unsigned alarm(unsigned s) throw() { if (!SIMCALL) return RAW(SYS_alarm, s); harness_error("alarm() is not simulated"); }

// ---- children
__asm__(
".text\n.globl forkpty\n.type forkpty,@function\nforkpty:\n"
"  lea sim_vf(%rip),%rax\n mov %rbx,0(%rax)\n mov %rbp,8(%rax)\n mov %r12,16(%rax)\n mov %r13,24(%rax)\n mov %r14,32(%rax)\n mov %r15,40(%rax)\n"
"  mov %rsp,48(%rax)\n mov (%rsp),%r10\n mov %r10,56(%rax)\n jmp sim_forkpty\n.size forkpty,.-forkpty\n"
".globl fork\n.type fork,@function\nfork:\n"
"  lea sim_vf(%rip),%rax\n mov %rbx,0(%rax)\n mov %rbp,8(%rax)\n mov %r12,16(%rax)\n mov %r13,24(%rax)\n mov %r14,32(%rax)\n mov %r15,40(%rax)\n"
"  mov %rsp,48(%rax)\n mov (%rsp),%r10\n mov %r10,56(%rax)\n jmp sim_fork\n.size fork,.-fork\n"
".globl sim_vf_resume\n.type sim_vf_resume,@function\nsim_vf_resume:\n"
"  lea sim_vf(%rip),%rcx\n mov 0(%rcx),%rbx\n mov 8(%rcx),%rbp\n mov 16(%rcx),%r12\n mov 24(%rcx),%r13\n mov 32(%rcx),%r14\n mov 40(%rcx),%r15\n"
"  mov 48(%rcx),%rsp\n mov 56(%rcx),%r10\n mov %r10,(%rsp)\n mov %edi,%eax\n ret\n.size sim_vf_resume,.-sim_vf_resume\n");
static int next_child=1000;
int sim_forkpty(int *am, char *name, const struct termios *tio, const struct winsize *ws)
{
    if (!SIMCALL) _exit(98);
    u64 vf[8]; memcpy(vf, sim_vf, sizeof(vf));      // someone else may fork meanwhile
    enter("forkpty");
    memcpy(sim_vf, vf, sizeof(vf));
    if (++faults.n_forkpty==faults.fail_forkpty) { fault("forkpty-fails"); errno=ENOENT; return -1; }
    TtyP t=make_tty("pty", ws? ws->ws_col : 0, ws? ws->ws_row : 0);
    if (tio) t->tio=*tio;
    Ofd m=std::make_shared<OFD>(); m->kind=K_PTM; m->tty=t; m->desc="pty master"; m->flags=O_RDWR;
    auto c=std::make_shared<ChildProg>();
    c->pid=next_child++; c->tty=t;
    int fd=fd_alloc(self->p, m, OWN_SUT);
    *am=fd;
    if (name) strcpy(name, ("/dev/pts/"+std::to_string(c->pid)).c_str());
    start_child_mode(c);
    fd_drop(self->p, fd);
    for (int i=0;i<3;i++) fd_install_at(self->p, i, open_tty(t), OWN_SUT);
    return 0;
}
int sim_fork(void)
{
    if (!SIMCALL) return RAW(SYS_fork);
    u64 vf[8]; memcpy(vf, sim_vf, sizeof(vf));      // someone else may fork meanwhile
    enter("fork");
    memcpy(sim_vf, vf, sizeof(vf));
    if (++faults.n_forkpty==faults.fail_forkpty) { fault("fork-fails"); errno=EAGAIN; return -1; }
    auto c=std::make_shared<ChildProg>();
    c->pid=next_child++;
    start_child_mode(c);
    return 0;
}
pid_t setsid(void) throw() { if (!SIMCALL) return RAW(SYS_setsid); return self->p->pid; }
static int do_exec(const char *path, char *const argv[], char *const envp[])
{
    enter("execve"); trace("execve(%s)", path);
    if (!child_mode) harness_error("execve() outside of a child");
    cur_child->path=path;
    for (int i=0; argv[i]; i++) cur_child->argv.push_back(argv[i]);
    for (int i=0; envp && envp[i]; i++) cur_child->env.push_back(envp[i]);
    if (!cur_child->tty && self->p->fds.size() && self->p->fds[0] && self->p->fds[0]->kind==K_TTY) cur_child->tty=self->p->fds[0]->tty;
    end_child_mode(true, 0);
}
int execve(const char *path, char *const argv[], char *const envp[]) throw() { if (!SIMCALL) return RAW(SYS_execve, path, argv, envp); return do_exec(path, argv, envp); }
int execv(const char *path, char *const argv[]) throw() { if (!SIMCALL) return RAW(SYS_execve, path, argv, environ); return do_exec(path, argv, environ); }
int execvp(const char *path, char *const argv[]) throw() { if (!SIMCALL) return REAL(int, execvp, (const char*, char*const*))(path, argv); return do_exec(path, argv, environ); }
static pid_t do_wait(pid_t pid, int *st, int opt)
{
    enter("wait");
    Proc *me=self->p;                   // predicates are evaluated on other threads
    auto find=[&]() -> std::shared_ptr<ChildProg> { for (auto &c : children) if (c->p==me && !c->waited && (pid<=0 || c->pid==pid) && c->done) return c; return nullptr; };
    bool have=false;
    for (auto &c : children) if (c->p==me && !c->waited && (pid<=0 || c->pid==pid)) have=true;
    if (!have) { errno=ECHILD; return -1; }
    if (opt&WNOHANG) { if (!find()) return 0; }
    else if (blockop([&]{ return find()!=nullptr; }, -1, "wait", true)) return -1;
    auto c=find();
    c->waited=true;
    if (st) *st=c->status;
    if (on_reaped) { on_reaped(); deliver_signals(); }
    return c->pid;
}
int waitid(idtype_t ty, id_t id, siginfo_t *si, int opt)
{
    if (!SIMCALL) return RAW(SYS_waitid, ty, id, si, opt, 0);
    enter("waitid");
    Proc *me=self->p;
    auto ok=[&](std::shared_ptr<ChildProg> c) { return c->p==me && !c->waited && (ty==P_ALL || (ty==P_PID && c->pid==(int)id)); };
    auto find=[&]() -> std::shared_ptr<ChildProg> { for (auto &c : children) if (ok(c) && c->done) return c; return nullptr; };
    bool have=false; for (auto &c : children) have|=ok(c);
    if (!have) { errno=ECHILD; return -1; }
    if (opt&WNOHANG) { if (!find()) { if (si) si->si_pid=0; return 0; } }
    else if (blockop([&]{ return find()!=nullptr; }, -1, "waitid", true)) return -1;
    auto c=find();
    if (!(opt&WNOWAIT)) c->waited=true;
    if (si) { memset(si, 0, sizeof(*si)); si->si_pid=c->pid; si->si_signo=SIGCHLD; si->si_code=CLD_EXITED; si->si_status=c->status>>8; }
    return 0;
}
pid_t wait(int *st) { if (!SIMCALL) return RAW(SYS_wait4, -1, st, 0, 0); return do_wait(-1, st, 0); }
pid_t waitpid(pid_t pid, int *st, int opt) { if (!SIMCALL) return RAW(SYS_wait4, pid, st, opt, 0); return do_wait(pid, st, opt); }
int system(const char *) { if (SIMCALL) harness_error("system() is not simulated"); return -1; }
void _exit(int c) { if (!SIMCALL) RAW(SYS_exit_group, c); enter("_exit"); if (child_mode) end_child_mode(false, c); proc__exit(c); }
void _Exit(int c) throw() { _exit(c); }
void exit(int c) throw() { if (!SIMCALL) REAL(void, exit, (int))(c); enter("exit"); if (child_mode) { flush_all_files(self->p); end_child_mode(false, c); } proc_exit(c); }
void abort(void) throw() { if (!SIMCALL) REAL(void, abort, (void))(); fail("CRASH", "abort() called"); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *) throw() { fail("CRASH", "assertion failed: %s", e); }
void __stack_chk_fail(void) { fail("CRASH", "stack smashing detected"); }
int atexit(void (*f)(void)) throw()
{
    if (!SIMCALL) return 0;
    self->p->atexits.push_back(f);
    return 0;
}

// ---- network
static std::vector<Addr> all_resolved;      // every answer given so far; addresses carry their index here
static std::map<Thr*,std::vector<Addr>> last_resolved;
static int gai_live=0;
int getaddrinfo(const char *host, const char *port, const struct addrinfo *hints, struct addrinfo **res)
{
    if (!SIMCALL) return EAI_FAIL;
    enter("getaddrinfo");
    trace("getaddrinfo(%s,%s)", host? host : "", port? port : "");
    net_log.push_back(str("resolve ")+(host? host : "")+" "+(port? port : ""));
    std::vector<Addr> &resolved=last_resolved[self]; resolved.clear();
    size_t base=all_resolved.size();
    struct addrinfo hn; memset(&hn, 0, sizeof(hn)); if (hints) hn=*hints;
    if (!host && !port) return EAI_NONAME;
    if (hn.ai_flags & ~(AI_PASSIVE|AI_CANONNAME|AI_NUMERICHOST|AI_NUMERICSERV|AI_V4MAPPED|AI_ALL|AI_ADDRCONFIG|0x1c0)) return EAI_BADFLAGS;
    if (hn.ai_family!=AF_UNSPEC && hn.ai_family!=AF_INET && hn.ai_family!=AF_INET6) return EAI_FAMILY;
    if (hn.ai_socktype && hn.ai_socktype!=SOCK_STREAM && hn.ai_socktype!=SOCK_DGRAM && hn.ai_socktype!=SOCK_RAW) return EAI_SOCKTYPE;
    if (port && (hn.ai_flags&AI_NUMERICSERV) && !(*port>='0' && *port<='9')) return EAI_NONAME;
    if ((hn.ai_flags&AI_NUMERICHOST) && host && !strchr(host, ':') && strspn(host, "0123456789.")!=strlen(host)) return EAI_NONAME;
    int e= on_resolve? on_resolve(host, port, resolved) : EAI_NONAME;
    if (!e && hn.ai_family!=AF_UNSPEC) for (size_t i=0;i<resolved.size();) if (resolved[i].fam!=hn.ai_family) resolved.erase(resolved.begin()+i); else i++;
    if (e) { fault("resolver-error"); return e; }
    if (resolved.empty()) return EAI_NONAME;
    struct addrinfo *head=0, **tail=&head;
    int i=0;
    for (auto &a : resolved) { Addr b=a; b.idx=i++; all_resolved.push_back(b); }
    i=base;
    for (auto &a : resolved)
    {
        struct addrinfo *x=(struct addrinfo*)calloc(1, sizeof(*x)+sizeof(struct sockaddr_in6));
        x->ai_family=a.fam; x->ai_socktype= hn.ai_socktype? hn.ai_socktype : SOCK_STREAM; x->ai_protocol= x->ai_socktype==SOCK_STREAM? IPPROTO_TCP : x->ai_socktype==SOCK_DGRAM? IPPROTO_UDP : 0;
        x->ai_addr=(struct sockaddr*)(x+1);
        if (a.fam==AF_INET6) { auto *s=(struct sockaddr_in6*)x->ai_addr; s->sin6_family=AF_INET6; s->sin6_port=htons(atoi(port)); s->sin6_addr.s6_addr[14]=i>>8; s->sin6_addr.s6_addr[15]=i; x->ai_addrlen=sizeof(*s); }
        else { auto *s=(struct sockaddr_in*)x->ai_addr; s->sin_family=AF_INET; s->sin_port=htons(atoi(port)); s->sin_addr.s_addr=htonl(0x0a000000+i); x->ai_addrlen=sizeof(*s); }
        *tail=x; tail=&x->ai_next;
        i++;
        gai_live++;
    }
    *res=head;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) throw() { if (SIMCALL) errno=ENOMSG; while (a) { struct addrinfo *n=a->ai_next; free(a); a=n; gai_live--; } }
int sim_gai_live() { return gai_live; }
int socket(int fam, int type, int proto) throw()
{
    if (!SIMCALL) return RAW(SYS_socket, fam, type, proto);
    enter("socket");
    for (auto &a : last_resolved[self]) if (a.fam==fam && a.behaviour==2) { fault("socket-fails"); net_log.push_back("socket-fail"); errno=a.err; return -1; }
    Ofd o=std::make_shared<OFD>(); o->kind=K_SOCK; o->desc="socket"; o->flags=O_RDWR; o->fam=fam;
    o->dgram=(type&15)!=SOCK_STREAM;
    int fd=fd_alloc(self->p, o, OWN_SUT);
    trace("socket -> %d", fd);
    return fd;
}
int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    if (!SIMCALL) return RAW(SYS_connect, fd, sa, len);
    enter("connect", fd);
    Ofd o=getfd(fd, "connect"); if (!o) return -1;
    cancel_check();
    if (o->kind!=K_SOCK) { errno=ENOTSOCK; return -1; }
    if (o->connected) { errno=EISCONN; return -1; }
    if (o->fam!=sa->sa_family) { errno=EAFNOSUPPORT; return -1; }
    size_t i; int port;
    if (sa->sa_family==AF_INET6) i=((struct sockaddr_in6*)sa)->sin6_addr.s6_addr[14]<<8 | ((struct sockaddr_in6*)sa)->sin6_addr.s6_addr[15], port=ntohs(((struct sockaddr_in6*)sa)->sin6_port);
    else i=ntohl(((struct sockaddr_in*)sa)->sin_addr.s_addr)-0x0a000000, port=ntohs(((struct sockaddr_in*)sa)->sin_port);
    if (i>=all_resolved.size()) { errno=ENETUNREACH; return -1; }
    Addr a=all_resolved[i]; i=a.idx;
    if (o->conn_until<0) { net_log.push_back("connect "+std::to_string(i)+" "+std::to_string(port)); o->conn_until=now+a.delay; }
    if (o->conn_until>now && blockop(nullptr, o->conn_until, "connect", true)<0) { fault("connect-EINTR"); errno=EINTR; return -1; }
    o->conn_until=-1;
    if (a.behaviour==1) { fault("connect-refused"); errno=a.err; return -1; }
    o->connected=true;
    Ch c2s=std::make_shared<Chan>(), s2c=std::make_shared<Chan>();
    c2s->readers=c2s->writers=s2c->readers=s2c->writers=1;
    o->rd=s2c; o->wr=c2s;
    net_log.push_back("connected "+std::to_string(i));
    if (o->dgram) return 0;     // nobody hears of it
    if (on_connect) on_connect(a, c2s, s2c, port);
    return 0;
}
int shutdown(int fd, int how) throw()
{
    if (!SIMCALL) return RAW(SYS_shutdown, fd, how);
    enter("shutdown", fd);
    Ofd o=getfd(fd, "shutdown"); if (!o) return -1;
    if (o->kind!=K_SOCK) { errno=ENOTSOCK; return -1; }
    if (!o->rd) { errno=ENOTCONN; return -1; }
    if ((how==SHUT_RD || how==SHUT_RDWR) && !o->shut_rd) o->shut_rd=true, o->rd->readers--;
    if ((how==SHUT_WR || how==SHUT_RDWR) && !o->shut_wr) o->shut_wr=true, o->wr->writers--;
    touch();
    return 0;
}
ssize_t recv(int fd, void *buf, size_t n, int fl) { if (!SIMCALL) return RAW(SYS_recvfrom, fd, buf, n, fl, 0, 0); enter("recv", fd); Ofd o=getfd(fd, "recv"); if (!o) return -1; if (o->kind!=K_SOCK) { errno=ENOTSOCK; return -1; } ssize_t r=do_read(fd, buf, n, fl); after_data(); return r; }
ssize_t send(int fd, const void *buf, size_t n, int fl) { if (!SIMCALL) return RAW(SYS_sendto, fd, buf, n, fl, 0, 0); enter("send", fd); Ofd o=getfd(fd, "send"); if (!o) return -1; if (o->kind!=K_SOCK) { errno=ENOTSOCK; return -1; } return do_write(fd, buf, n, fl); }
ssize_t recvfrom(int fd, void *buf, size_t n, int fl, struct sockaddr *a, socklen_t *l) { if (!SIMCALL) return RAW(SYS_recvfrom, fd, buf, n, fl, a, l); if (l) *l=0; return recv(fd, buf, n, fl); }
ssize_t sendto(int fd, const void *buf, size_t n, int fl, const struct sockaddr *a, socklen_t l) { if (!SIMCALL) return RAW(SYS_sendto, fd, buf, n, fl, a, l); return send(fd, buf, n, fl); }
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
    if (!SIMCALL) return REAL(int, ppoll, (struct pollfd*, nfds_t, const struct timespec*, const sigset_t*))(f, n, ts, ss);
    u64 old=self->sigmask;
    if (ss) { u64 m=0; for (int i=1;i<64;i++) if (sigismember(ss, i)==1) m|=1ULL<<i; self->sigmask=m; sig_flag=true; }
    int k=poll(f, n, ts? ts->tv_sec*1000+(ts->tv_nsec+999999)/1000000 : -1);
    self->sigmask=old;
    return k;
}
int vdprintf(int fd, const char *f, va_list ap)
{
    char *b; int n=vasprintf(&b, f, ap);
    if (n<0) return n;
    for (int i=0;i<n;) { ssize_t k=write(fd, b+i, n-i); if (k<=0) { free(b); return -1; } i+=k; }
    free(b);
    return n;
}
int dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r=vdprintf(fd, f, ap); va_end(ap); return r; }
int timespec_get(struct timespec *t, int base) throw() { if (!SIMCALL) return REAL(int, timespec_get, (struct timespec*, int))(t, base); clock_gettime(CLOCK_REALTIME, t); return base; }
int setsockopt(int fd, int, int, const void*, socklen_t) throw() { if (SIMCALL && !getfd(fd, "setsockopt")) return -1; return 0; }
int getsockopt(int fd, int, int, void *v, socklen_t *l) throw() { if (SIMCALL && !getfd(fd, "getsockopt")) return -1; if (v && l && *l>=4) *(int*)v=0; return 0; }

// ---- allocation by the code under test (its objects are linked with these names)
}
namespace sim { bool no_memory()
{
    if (!self || self->p->actor || !faults.malloc_armed) return false;
    u32 n=++faults.n_malloc;
    if (n<faults.fail_malloc || n-faults.fail_malloc>=faults.fail_malloc_span) return false;
    fault("malloc-fails");
    errno=ENOMEM;
    return true;
} }
extern "C" {
void *sim_malloc(size_t);
char *sim_strdup(const char *s) { size_t n=strlen(s)+1; char *p=(char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
int sim_vasprintf(char **r, const char *fmt, va_list ap)
{
    char *s=0;
    if (no_memory()) return -1;     // *r is not to be relied on
    int n=vasprintf(&s, fmt, ap);
    if (n>=0) { *r=s; if (SIMCALL) faults.malloc_live+=malloc_usable_size(s); }
    return n;
}
int sim_asprintf(char **r, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n=sim_vasprintf(r, fmt, ap); va_end(ap); return n; }
// libraries that fail to get memory
gzFile sim_gzdopen(int fd, const char *m) { return no_memory()? 0 : gzdopen(fd, m); }
BZFILE *sim_BZ2_bzReadOpen(int *e, FILE *f, int v, int small, void *u, int n) { if (no_memory()) { *e=BZ_MEM_ERROR; return 0; } return BZ2_bzReadOpen(e, f, v, small, u, n); }
BZFILE *sim_BZ2_bzWriteOpen(int *e, FILE *f, int b, int v, int w) { if (no_memory()) { *e=BZ_MEM_ERROR; return 0; } return BZ2_bzWriteOpen(e, f, b, v, w); }
lzma_ret sim_lzma_stream_decoder(lzma_stream *s, uint64_t m, uint32_t f) { return no_memory()? LZMA_MEM_ERROR : lzma_stream_decoder(s, m, f); }
lzma_ret sim_lzma_easy_encoder(lzma_stream *s, uint32_t p, lzma_check c) { return no_memory()? LZMA_MEM_ERROR : lzma_easy_encoder(s, p, c); }
ZSTD_DStream *sim_ZSTD_createDStream() { return no_memory()? 0 : ZSTD_createDStream(); }
ZSTD_CStream *sim_ZSTD_createCStream() { return no_memory()? 0 : ZSTD_createCStream(); }
void *sim_malloc(size_t n)
{
    if (SIMCALL && !self->p->actor)
    {
        if (no_memory()) return 0;
        if ((i64)n>faults.malloc_limit) { errno=ENOMEM; return 0; }
    }
    void *p=malloc(n);
    if (p && SIMCALL)
    {
        faults.malloc_live+=malloc_usable_size(p);
        if (faults.malloc_live>faults.malloc_peak) faults.malloc_peak=faults.malloc_live;
    }
    return p;
}
void sim_free(void *p) { if (p && SIMCALL) faults.malloc_live-=malloc_usable_size(p); free(p); }
void *sim_calloc(size_t a, size_t b)
{
    if (no_memory()) return 0;
    if (SIMCALL && b && (i64)a>faults.malloc_limit/(i64)b) { errno=ENOMEM; return 0; }
    void *p=calloc(a, b);
    if (p && SIMCALL) { faults.malloc_live+=malloc_usable_size(p); if (faults.malloc_live>faults.malloc_peak) faults.malloc_peak=faults.malloc_live; }
    return p;
}
void *sim_realloc(void *q, size_t n)
{
    if (no_memory()) return 0;
    if (SIMCALL && (i64)n>faults.malloc_limit) { errno=ENOMEM; return 0; }
    i64 old= q? malloc_usable_size(q) : 0;
    void *p=realloc(q, n);
    if (SIMCALL && (p || !n)) { faults.malloc_live+=(p? (i64)malloc_usable_size(p) : 0)-old; if (faults.malloc_live>faults.malloc_peak) faults.malloc_peak=faults.malloc_live; }
    return p;
}

// ---- libcurl stand-in
int curl_global_init(long) { return 0; }
void *curl_easy_init(void) { return new Curl(); }
int curl_easy_setopt(void *h, int opt, ...)
{
    va_list ap; va_start(ap, opt);
    Curl *c=(Curl*)h;
    switch (opt)
    {
    case 10002: c->url=va_arg(ap, const char*); break;
    case 10001: c->out=va_arg(ap, FILE*); break;
    case 10009: c->in=va_arg(ap, FILE*); break;
    case 46: c->upload=va_arg(ap, long); break;
    }
    va_end(ap);
    return 0;
}
int curl_easy_perform(void *h)
{
    Curl *c=(Curl*)h;
    enter("curl_easy_perform");
    curl_err="";
    if (c->upload || !on_curl_get) return 7;
    return on_curl_get(c->url, [c](const char *b, size_t n) { return fwrite(b, 1, n, c->out)==n; }, curl_err);
}
const char *curl_easy_strerror(int) { return curl_err.empty()? "Couldn't connect to server" : curl_err.c_str(); }
void curl_easy_cleanup(void *h) { delete (Curl*)h; }
}

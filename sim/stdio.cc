// stdio for simulated processes: real glibc streams (fopencookie) over simulated descriptors,
// with a per-stream lock the simulator's scheduler knows about.
#include "internal.h"
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio_ext.h>

namespace sim
{
struct FileRec { FILE *f; int fd; Proc *p; Thr *owner=0; int depth=0; bool dead=false; bool wr=false; };
static std::map<FILE*,FileRec*> recs;
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((FileRec*)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    // like libio's _IO_new_file_write: keep going after partial writes
    size_t d=0;
    while (d<n)
    {
        ssize_t r=write(((FileRec*)c)->fd, b+d, n-d);
        if (r<0) break;
        d+=r;
    }
    return d;
}
static int ck_seek(void *c, off64_t *off, int wh)
{
    off64_t r=lseek(((FileRec*)c)->fd, *off, wh);
    if (r<0) return -1;
    *off=r;
    return 0;
}
static int ck_close(void *c) { return close(((FileRec*)c)->fd); }
static FILE *wrap(int fd, const char *mode, int buf, size_t bs)
{
    FileRec *r=new FileRec();
    r->fd=fd; r->p=self? self->p : 0;
    cookie_io_functions_t io={ ck_read, ck_write, ck_seek, ck_close };
    char m[4]={mode[0], 0, 0, 0};
    if (strchr(mode, '+')) m[1]='+';
    FILE *f=REAL(FILE*, fopencookie, (void*, const char*, cookie_io_functions_t))(r, m, io);
    __fsetlocking(f, FSETLOCKING_BYCALLER);
    REAL(int, setvbuf, (FILE*, char*, int, size_t))(f, 0, buf, bs);
    r->f=f; r->wr= mode[0]!='r' || m[1];
    recs[f]=r;
    return f;
}
void std_files(Proc *p)
{
    bool tty=p->fds.size()>1 && p->fds[1] && p->fds[1]->kind==K_TTY;
    FILE **v[3]={&p->in, &p->out, &p->err};
    for (int i=0;i<3;i++)
    {
        FILE *f=wrap(i, i? "w" : "r", i==2? _IONBF : (i==1 && tty)? _IOLBF : _IOFBF, i==2? 0 : (i==0 || tty)? 1024 : cfg.stdio_buf);
        recs[f]->p=p;
        p->files.push_back(recs[f]);
        *v[i]=f;
    }
}
static FileRec *rec_of(FILE *f) { if (!self) return 0; auto i=recs.find(f); return i==recs.end()? 0 : i->second; }
struct Lock
{
    FileRec *r;
    Lock(FILE *f) : r(rec_of(f))
    {
        if (!r) return;
        if (r->owner==self) { r->depth++; return; }
        if (r->owner) probe("stdio-contention");
        while (r->owner) wait_until([this]{ return !r->owner; }, -1, "stdio lock", false);
        r->owner=self; r->depth=1;
    }
    ~Lock() { if (r && r->owner==self && !--r->depth) { r->owner=0; touch(); } }
};
void flush_all_files(Proc *p)
{
    for (FileRec *r : p->files)
        if (!r->dead && r->wr)
        {
            if (r->owner && r->owner!=self) { trace("exit: stream busy"); }
            Lock l(r->f);
            REAL(int, fflush, (FILE*))(r->f);
        }
}
}
using namespace sim;
#define L Lock lock__(f)
extern "C" {
FILE *fdopen(int fd, const char *mode) throw()
{
    if (!self) return REAL(FILE*, fdopen, (int, const char*))(fd, mode);
    if (fd<0 || fd>=(int)self->p->fds.size() || !self->p->fds[fd]) { errno=EBADF; return 0; }
    if (no_memory()) return 0;
    FILE *f=wrap(fd, mode, self->p->fds[fd]->kind==K_TTY? _IOLBF : _IOFBF, cfg.stdio_buf);
    self->p->files.push_back(recs[f]);
    return f;
}
FILE *fopen(const char *path, const char *mode)
{
    if (!self) return REAL(FILE*, fopen, (const char*, const char*))(path, mode);
    int fl= mode[0]=='r'? O_RDONLY : mode[0]=='w'? O_WRONLY|O_CREAT|O_TRUNC : O_WRONLY|O_CREAT|O_APPEND;
    if (strchr(mode, '+')) fl=(fl&~O_ACCMODE)|O_RDWR;
    int fd=open(path, fl, 0666);
    if (fd==-1) return 0;
    return fdopen(fd, mode);
}
FILE *fopen64(const char *path, const char *mode) { if (!self) return REAL(FILE*, fopen64, (const char*, const char*))(path, mode); return fopen(path, mode); }
int fclose(FILE *f)
{
    FileRec *r=rec_of(f);
    if (!r) return REAL(int, fclose, (FILE*))(f);
    int res;
    {
        L;
        if (r->dead) fail("CRASH", "fclose() of a stream already closed");
        r->dead=true;
        res=REAL(int, fclose, (FILE*))(f);
        recs.erase(f);
        auto &v=r->p->files;
        for (size_t i=0;i<v.size();i++) if (v[i]==r) { v.erase(v.begin()+i); break; }
    }
    return res;
}
int fflush(FILE *f)
{
    if (self && !f) { flush_all_files(self->p); return 0; }
    L; return REAL(int, fflush, (FILE*))(f);
}
int fileno(FILE *f) throw() { FileRec *r=rec_of(f); return r? r->fd : REAL(int, fileno, (FILE*))(f); }
int vfprintf(FILE *f, const char *fmt, va_list ap) { L; return REAL(int, vfprintf, (FILE*, const char*, va_list))(f, fmt, ap); }
int fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r=vfprintf(f, fmt, ap); va_end(ap); return r; }
int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r=vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int __fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r=vfprintf(f, fmt, ap); va_end(ap); return r; }
int __vfprintf_chk(FILE *f, int, const char *fmt, va_list ap) { return vfprintf(f, fmt, ap); }
int __printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r=vfprintf(stdout, fmt, ap); va_end(ap); return r; }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { L; return REAL(size_t, fwrite, (const void*, size_t, size_t, FILE*))(b, s, n, f); }
size_t fread(void *b, size_t s, size_t n, FILE *f) { size_t r; { L; r=REAL(size_t, fread, (void*, size_t, size_t, FILE*))(b, s, n, f); } after_data(); return r; }
int fputs(const char *s, FILE *f) { L; return REAL(int, fputs, (const char*, FILE*))(s, f); }
int puts(const char *s) { FILE *f=stdout; L; int r=REAL(int, fputs, (const char*, FILE*))(s, f); return r<0? r : REAL(int, fputc, (int, FILE*))('\n', f); }
int fputc(int c, FILE *f) { L; return REAL(int, fputc, (int, FILE*))(c, f); }
int putc(int c, FILE *f) { L; return REAL(int, fputc, (int, FILE*))(c, f); }
int _IO_putc(int c, FILE *f) { L; return REAL(int, fputc, (int, FILE*))(c, f); }
int putchar(int c) { FILE *f=stdout; L; return REAL(int, fputc, (int, FILE*))(c, f); }
int fgetc(FILE *f) { L; return REAL(int, fgetc, (FILE*))(f); }
int getc(FILE *f) { L; return REAL(int, fgetc, (FILE*))(f); }
int _IO_getc(FILE *f) { L; return REAL(int, fgetc, (FILE*))(f); }
int getchar(void) { FILE *f=stdin; L; return REAL(int, fgetc, (FILE*))(f); }
int ungetc(int c, FILE *f) { L; return REAL(int, ungetc, (int, FILE*))(c, f); }
char *fgets(char *b, int n, FILE *f) { L; return REAL(char*, fgets, (char*, int, FILE*))(b, n, f); }
ssize_t getdelim(char **l, size_t *n, int d, FILE *f) { L; return REAL(ssize_t, getdelim, (char**, size_t*, int, FILE*))(l, n, d, f); }
ssize_t getline(char **l, size_t *n, FILE *f) { return getdelim(l, n, '\n', f); }
int setvbuf(FILE *f, char *b, int m, size_t s) throw() { L; return REAL(int, setvbuf, (FILE*, char*, int, size_t))(f, b, m, s); }
void setbuf(FILE *f, char *b) throw() { setvbuf(f, b, b? _IOFBF : _IONBF, BUFSIZ); }
void setlinebuf(FILE *f) throw() { setvbuf(f, 0, _IOLBF, 0); }
int fseek(FILE *f, long o, int w) { L; return REAL(int, fseek, (FILE*, long, int))(f, o, w); }
long ftell(FILE *f) { L; return REAL(long, ftell, (FILE*))(f); }
void flockfile(FILE *f) throw()
{
    FileRec *r=rec_of(f);
    if (!r) return;
    Lock *l=new Lock(f); (void)l;
}
void funlockfile(FILE *f) throw()
{
    FileRec *r=rec_of(f);
    if (r && r->owner==self && !--r->depth) { r->owner=0; touch(); }
}
void perror(const char *s)
{
    if (!self) return;
    fprintf(stderr, "%s: %s\n", s, strerror(errno));
}
}

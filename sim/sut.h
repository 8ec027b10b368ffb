// The public API of the code under test, as seen from C++ (tty.h itself is C only).
#pragma once
#include <sys/time.h>
typedef struct TtyOpaque *tty;
typedef struct TTYRecRecorder *recorder;
typedef struct TTYRec *ttyrec;
typedef struct { struct timeval t; int len; char *data; } *ttyrec_frame;
enum { SM_READ=0, SM_WRITE=1, SM_REPREAD=2, SM_APPEND=3 };
extern "C" {
int open_stream(int fd, const char *url, int mode, const char **error);
const char *ttyrec_w_find_format(const char *format, const char *filename, const char *fallback);
recorder ttyrec_w_open(int fd, const char *format, const char *filename, const struct timeval *ts);
int ttyrec_w_write(recorder r, const struct timeval *tm, const char *data, int len);
int ttyrec_w_close(recorder r);
const char *ttyrec_w_get_format_name(int i);
const char *ttyrec_w_get_format_ext(const char *format);
const char *ttyrec_r_find_format(const char *format, const char *filename, const char *fallback);
const char *ttyrec_r_get_format_name(int i);
const char *ttyrec_r_get_format_ext(const char *format);
int ttyrec_r_play(int fd, const char *format, const char *filename, void (*init_wait)(const struct timeval *ts, void *arg),
    void (*wait)(const struct timeval *delay, void *arg), void (*print)(const char *data, int len, void *arg), void *arg);
ttyrec ttyrec_init(tty vt);
ttyrec ttyrec_load(int fd, const char *format, const char *filename, tty vt);
void ttyrec_free(ttyrec tr);
ttyrec_frame ttyrec_seek(ttyrec tr, const struct timeval *t, tty *vt);
ttyrec_frame ttyrec_next_frame(ttyrec tr, ttyrec_frame tfv);
void ttyrec_add_frame(ttyrec tr, const struct timeval *delay, const char *data, int len);
int ttyrec_save(ttyrec tr, int fd, const char *format, const char *filename, const struct timeval *selstart, const struct timeval *selend);
tty tty_init(int sx, int sy, int resizable);
int tty_resize(tty vt, int nsx, int nsy);
void tty_reset(tty vt);
void tty_free(tty vt);
void tty_write(tty vt, const char *buf, int len);
void tty_printf(tty vt, const char *fmt, ...);
tty tty_copy(tty vt);
void vtvt_resize(tty vt, int sx, int sy);
void vtvt_attach(tty vt, FILE *f, int dump);
void vtvt_dump(tty vt);
int termrec_main(int, char**); int termplay_main(int, char**); int termcat_main(int, char**); int termtime_main(int, char**);
// glue.c: the state of a terminal, canonically serialised
char *glue_screen(tty vt, size_t *len);
void glue_cell(tty vt, int x, int y, uint32_t *ch, uint64_t *attr, uint32_t comb[64]);
void glue_size(tty vt, int *sx, int *sy, int *cx, int *cy);
struct glue_ev
{
    void *arg;
    void (*ch)(void *arg, int x, int y, uint32_t ch, uint64_t attr, int width);
    void (*comb)(void *arg, int x, int y, uint32_t ch);
    void (*cursor)(void *arg, int x, int y);
    void (*clear)(void *arg, int x, int y, int len);
    void (*scroll)(void *arg, int nl, int s1, int s2);
    void (*flag)(void *arg, int f, int v);
    void (*osc)(void *arg, int cmd, const char *s);
    void (*resize)(void *arg, int sx, int sy);
    void (*flush)(void *arg);
    void (*bell)(void *arg);
    void (*freed)(void *arg);
};
void glue_watch(tty vt, struct glue_ev *ev);
uint64_t glue_attr(tty vt);
const char *glue_title(tty vt);
void glue_flags(tty vt, int *cursor, int *kpad);
int glue_flag_no(int which);
int glue_nohooks(tty vt);
}

// Reads the code under test's terminal structure (C only, compiled against its header).
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "tty.h"
void glue_size(tty vt, int *sx, int *sy, int *cx, int *cy) { *sx=vt->sx; *sy=vt->sy; *cx=vt->cx; *cy=vt->cy; }
void glue_cell(tty vt, int x, int y, uint32_t *ch, uint64_t *attr, uint32_t comb[64])
{
    attrchar *a=&vt->scr[y*vt->sx+x];
    int n=0;
    *ch=a->ch; *attr=a->attr;
    memset(comb, 0, 64*sizeof(*comb));
    if (vt->combs)
        for (uint32_t c=a->comb; c && n<64; c=vt->combs[c].next) comb[n++]=vt->combs[c].ch;
}
static char *hex(char *o, unsigned long long v)
{
    char t[20]; int n=0;
    do t[n++]="0123456789abcdef"[v&15], v>>=4; while (v);
    while (n) *o++=t[--n];
    return o;
}
char *glue_screen(tty vt, size_t *len)
{
    size_t cap=2000+(vt->title? strlen(vt->title) : 0), n;
    char *b=malloc(cap);
    n=sprintf(b, "%dx%d cursor %d,%d attr %llx title %s flags %d%d%d%d\n", vt->sx, vt->sy, vt->cx, vt->cy, (unsigned long long)vt->attr, vt->title? vt->title : "(none)",
        !!vt->opt_auto_wrap, !!vt->opt_cursor, !!vt->opt_kpad, !!vt->cp437);
#define ROOM if (n+100>cap) b=realloc(b, cap=cap*2+100)
    for (int y=0;y<vt->sy;y++)
    {
        for (int x=0;x<vt->sx;x++)
        {
            attrchar *a=&vt->scr[y*vt->sx+x];
            ROOM;
            char *o=b+n;
            if (a->ch==' ' && !a->attr) *o++='_';
            else { o=hex(o, a->ch); *o++=':'; o=hex(o, a->attr); }
            n=o-b;
            if (a->comb && vt->combs)
                for (uint32_t c=a->comb; c; c=vt->combs[c].next)
                {
                    ROOM;
                    o=b+n; *o++='+'; n=hex(o, vt->combs[c].ch)-b;
                }
            b[n++]=' ';
        }
        b[n++]='\n';
    }
    b[n]=0;
    *len=n;
    return b;
}

// a viewer attached to a terminal
struct glue_ev
{
    void *arg;
    void (*ch)(void *arg, int x, int y, uint32_t ch, uint64_t attr, int width);
    void (*comb)(void *arg, int x, int y, uint32_t ch);
    void (*cursor)(void *arg, int x, int y);
    void (*clear)(void *arg, int x, int y, int len);
    void (*scroll)(void *arg, int nl, int s1, int s2);
    void (*flag)(void *arg, int f, int v);
    void (*osc)(void *arg, int cmd, const char *s);
    void (*resize)(void *arg, int sx, int sy);
    void (*flush)(void *arg);
    void (*bell)(void *arg);
    void (*freed)(void *arg);
};
#define EV ((struct glue_ev*)vt->l_data)
static void e_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width) { EV->ch(EV->arg, x, y, ch, attr, width); }
static void e_comb(tty vt, int x, int y, ucs ch, uint64_t attr) { EV->comb(EV->arg, x, y, ch); }
static void e_cursor(tty vt, int x, int y) { EV->cursor(EV->arg, x, y); }
static void e_clear(tty vt, int x, int y, int len) { EV->clear(EV->arg, x, y, len); }
static void e_scroll(tty vt, int nl) { EV->scroll(EV->arg, nl, vt->s1, vt->s2); }
static void e_flag(tty vt, int f, int v) { EV->flag(EV->arg, f, v); }
static void e_osc(tty vt, int cmd, const char *s) { EV->osc(EV->arg, cmd, s); }
static void e_resize(tty vt, int sx, int sy) { EV->resize(EV->arg, sx, sy); }
static void e_flush(tty vt) { EV->flush(EV->arg); }
static void e_bell(tty vt) { EV->bell(EV->arg); }
static void e_free(tty vt) { EV->freed(EV->arg); }
void glue_watch(tty vt, struct glue_ev *ev)
{
    vt->l_data=ev;
    vt->l_char=e_char; vt->l_comb=e_comb; vt->l_cursor=e_cursor; vt->l_clear=e_clear; vt->l_scroll=e_scroll; vt->l_flag=e_flag;
    vt->l_osc=e_osc; vt->l_resize=e_resize; vt->l_flush=e_flush; vt->l_bell=e_bell; vt->l_free=e_free;
}
uint64_t glue_attr(tty vt) { return vt->attr; }
const char *glue_title(tty vt) { return vt->title; }
void glue_flags(tty vt, int *cursor, int *kpad) { *cursor=!!vt->opt_cursor; *kpad=!!vt->opt_kpad; }
int glue_flag_no(int which) { return which? VT100_FLAG_KPAD : VT100_FLAG_CURSOR; }
int glue_nohooks(tty vt) { return !vt->l_data && !vt->l_char && !vt->l_comb && !vt->l_cursor && !vt->l_clear && !vt->l_scroll && !vt->l_flag && !vt->l_osc && !vt->l_resize && !vt->l_flush && !vt->l_bell && !vt->l_free; }

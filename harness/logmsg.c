/* C26: every message is written safely, whole if it fits and marked as truncated otherwise. */
#include "global.h"
#include "fcron.h"
#include "log.h"
#include "vf.h"
#undef calloc
#undef free
#undef vsnprintf
#undef syslog
#undef openlog
#undef closelog
#undef strerror
#undef send
#undef vsyslog
char foreground = 0;
char *prog_name = "fcron";
pid_t daemon_pid;
int xfclose(FILE **f) { return 0; }
static char mem[2][MAX_MSG + 24];
static size_t msize[2];
static int nalloc, nfree, nosys;
void *h_calloc(size_t a, size_t b)
{
    char *p; size_t i;
    if (VF_BOOL("no_memory")) return NULL;
    VF_MODEL(nalloc < 1 && a * b <= MAX_MSG + 24, "memory");
    p = malloc(a * b);
    for (i = 0; i < a * b; i++) p[i] = 0;
    nalloc++;
    return p;
}
void h_free(void *p) { nfree++; }
static char text[MAX_MSG + 6], errtext[8];
static int tlen, elen;
/* what the message is once formatted */
int h_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    int i;
    VF_ASSERT(f == text, "the message is the one given");
    VF_ASSERT(n <= MAX_MSG + 24, "stays in the buffer");
    for (i = 0; i < MAX_MSG + 5; i++) if (i < (int)n - 1 && i < tlen) b[i] = text[i];
    b[tlen < (int)n - 1 ? tlen : n - 1] = 0;
    return tlen;
}
char *h_strerror(int e) { VF_ASSERT(e == 17, "the error of the caller"); return errtext; }
static int out, fdout, prio, sendst;
static const char trunc[] = " (truncated)";
static int withe;
static char full[2 * MAX_MSG + 24];
static int flen;
static void check(const char *m)
{
    int i, l = -1, t = sizeof(trunc) - 1;
    for (i = 0; i <= MAX_MSG; i++) if (l < 0 && m[i] == 0) l = i;
    VF_ASSERT(l >= 0, "no longer than the maximum, and terminated");
    if (flen < MAX_MSG) {
        for (i = 0; i <= MAX_MSG; i++) if (i <= flen) VF_ASSERT(m[i] == full[i], "a message which fits is written whole");
        VF_COVER("whole");
    } else {
        for (i = 0; i < MAX_MSG; i++) if (i < l - t) VF_ASSERT(m[i] == full[i], "the beginning of the message");
        VF_ASSERT(l > t, "part of the message remains");
        for (i = 0; i < t; i++) VF_ASSERT(m[l - t + i] == trunc[i], "a message cut short says so");
        VF_COVER("truncated");
    }
}
void h_syslog(int p, const char *f, ...)
{
    va_list ap; const char *s;
    va_start(ap, f); s = va_arg(ap, const char *); va_end(ap);
    VF_ASSERT(f[0] == '%' && f[1] == 's' && f[2] == 0, "the text of a message is not taken as a format");
    VF_ASSERT(!nosys, "nothing goes to syslog when it is disabled");
    prio = p; out++;
    check(s);
}
void h_openlog(const char *i, int o, int f) { }
void h_closelog(void) { }
ssize_t h_send(int fd, const void *b, size_t n, int fl)
{
    const char *m = b;
    VF_ASSERT(fd == 6, "the descriptor given");
    if (sendst == 0) { check(m); VF_ASSERT(n == strlen(m), "all of it is sent"); }
    else { VF_ASSERT(n == 1 && m[0] == '\n', "followed by the end of line"); fdout++; }
    sendst++;
    return n;
}
void vf_main(void)
{
    int i, fn = FN;
    dosyslog = VF_BOOL("dosyslog"); nosys = !dosyslog; debug_opt = 1;
    tlen = VF_RANGE("tlen", 0, MAX_MSG + 5); elen = VF_RANGE("elen", 0, 7);
    for (i = 0; i < MAX_MSG + 6; i++) { char c = VF_U8("c"); VF_ASSUME(c != 0); text[i] = i < tlen ? c : 0; if (i < tlen) full[flen++] = c; }
    for (i = 0; i < 8; i++) { char c = VF_U8("e"); VF_ASSUME(c != 0); errtext[i] = i < elen ? c : 0; }
    withe = fn == 1 || fn == 3;
    if (withe) {
        full[flen++] = ':'; full[flen++] = ' ';
        for (i = 0; i < 7; i++) if (i < elen) full[flen++] = errtext[i];
    }
    errno = 17;
    if (fn == 0) error(text);
    if (fn == 1) error_e(text);
    if (fn == 2) explain(text);
    if (fn == 3) warn_e(text);
    if (fn == 4) send_msg_fd(6, text);
    if (fn == 5) warn_fd(6, text);
    VF_ASSERT(nfree == nalloc, "memory is given back");
    if (nalloc) {
        if (fn == 4) VF_ASSERT(out == 0 && fdout == 1 && sendst == 2, "sent once");
        else { VF_ASSERT(out == (nosys ? 0 : 1), "logged once"); VF_ASSERT(fdout == (fn == 5), "sent once"); }
        if (out) VF_ASSERT(prio == ((fn == 0 || fn == 1) ? COMPLAIN_LEVEL : fn == 2 ? EXPLAIN_LEVEL : WARNING_LEVEL), "severity");
    }
}

/* C13: who may use fcron, for every content of fcron.allow and fcron.deny. */
#include "fcrontab.h"
#include "allow.h"
static int died;
#define VF_ON_DIE(m) after_die()
static void after_die(void);
#include "vf_log.h"
#undef fopen
#undef fgets
#undef getpwnam
char *fcronallow = "A", *fcrondeny = "D";
static char *who = "bob";
static struct passwd pw;
static int in_passwd, oth_err;
static int exists[2], nlines[2], rd[2], isopen[2];
/* one-dimensional on purpose: CBMC 6.11 mishandles symbolic indices into rows of nested arrays */
static char txt[2 * LINES * (L + 2)];
#define TXT(w, j) (txt + ((w) * LINES + (j)) * (L + 2))
static int kind[2];    /* reference: -1 no file, 0, 1 listed, 2 all */
static int ferr;
struct passwd *h_getpwnam(const char *n) { return in_passwd ? &pw : NULL; }
static void after_die(void) { VF_ASSERT(ferr, "gives up only if a file cannot be read"); }
static int cur;
FILE *h_fopen(const char *n, const char *m)
{
    int w = n == fcrondeny;
    cur = w; rd[w] = 0;
    VF_ASSERT(n == fcronallow || n == fcrondeny, "one of the two files");
    if (!exists[w]) { errno = ENOENT; return NULL; }
    if (VF_BOOL("unreadable")) { ferr = 1; errno = EACCES; return NULL; }
    isopen[w]++;
    return (FILE *)&isopen[w];
}
char *h_fgets(char *b, int n, FILE *f)
{
    int w = cur, i, r = rd[w]++;
    VF_ASSERT((void *)f == (void *)&isopen[w] && isopen[w] == 1, "reads a file which is open");
    VF_ASSERT(n > L + 1, "whole lines are read");
    if (r >= LINES) return NULL;
    if (r >= nlines[w]) return NULL;
    for (i = 0; i < L + 2; i++) b[i] = TXT(w, r)[i];
    return b;
}
int xfclose_check(FILE **f, const char *n) { VF_ASSERT((void *)*f == (void *)&isopen[cur], "closes the file"); isopen[cur]--; *f = NULL; return 0; }
int audit_open(void) { return 3; }
int audit_log_user_message(int fd, int t, const char *m, const char *h, const char *a, const char *y, int r) { return 0; }
int xclose_check(int *fd, const char *n) { *fd = -1; return 0; }
int xclose(int *fd) { *fd = -1; return 0; }
int xfclose(FILE **f) { return xfclose_check(f, ""); }
static int word_is(const char *s, const char *w, int wl)   /* line minus blanks == w */
{
    int b = 0, e, i;
    for (i = 0; i < L; i++) if (b == i && (s[i] == ' ' || s[i] == '\t')) b++;
    if (b + wl > L) return 0;
    for (i = 0; i < wl; i++) if (s[b + i] != w[i]) return 0;
    e = b + wl;
    for (i = 0; i <= L; i++) { if (e + i > L + 1 || s[e + i] == 0) return 1; if (s[e + i] != ' ' && s[e + i] != '\t' && s[e + i] != '\n') return 0; }
    return 1;
}
void vf_main(void)
{
    int w, i, j, r, want;
    in_passwd = VF_BOOL("in_passwd");
    for (w = 0; w < 2; w++) {
        exists[w] = VF_BOOL("exists");
#ifdef ONEFILE
        VF_ASSUME(w == 0 || !exists[0] || !exists[1]);
#endif
        nlines[w] = VF_RANGE("lines", 0, LINES);
        kind[w] = exists[w] ? 0 : -1;
        for (j = 0; j < LINES; j++) {
            int len = VF_RANGE("len", 0, L);
            for (i = 0; i < L; i++) {
                char c = VF_U8("c");
                VF_ASSUME(c == ' ' || c == '\t' || c == '#' || c == 'b' || c == 'o' || c == 'a' || c == 'l');
                TXT(w, j)[i] = i < len ? c : i == len ? '\n' : 0;
            }
            TXT(w, j)[L] = len == L ? '\n' : 0; TXT(w, j)[L + 1] = 0;
            if (j == nlines[w] - 1 && VF_BOOL("no_newline")) { VF_ASSUME(len > 0); TXT(w, j)[len] = 0; }
            if (kind[w] == 0 && j < nlines[w]) {
                if (word_is(TXT(w, j), "bob", 3)) kind[w] = 1;
                else if (word_is(TXT(w, j), "all", 3)) kind[w] = 2;
            }
        }
    }
    r = is_allowed(who);
    VF_ASSERT(isopen[0] == 0 && isopen[1] == 0, "the files are closed");
    if (!in_passwd) want = 0;
    else if (kind[0] == -1) want = kind[1] == -1 || kind[1] == 0;
    else if (kind[0] == 0) want = 0;
    else if (kind[0] == 1) want = kind[1] != 1;
    else want = kind[1] <= 0;
    VF_ASSERT((r != 0) == (want != 0), "the user is allowed exactly when the files say so");
    if (want) VF_COVER("allowed"); else VF_COVER("refused");
#ifndef ONEFILE
    if (kind[0] == 1 && kind[1] == 2) VF_COVER("listed against all");
#endif
}

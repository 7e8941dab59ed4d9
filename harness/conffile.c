/* C28: the settings read from fcron.conf. OP 0: long lines, 1: lines with any name, 2: the file itself, 3: the words */
#include "global.h"
#define VF_ON_DIE(m) do { VF_ASSERT(may_die, "the configuration file does not make the program give up"); died = 1; DIED; } while (0)
#if OP == 2
#define DIED VF_COVER("died")
#else
#define DIED
#endif
static int may_die, died;
#include "vf_log.h"
#include "fcronconf.h"
#undef fopen
#undef strchr
#undef fgets
#undef fgetc
#undef getc
#undef fileno
#undef fstat
#undef getgrnam
#undef free
uid_t rootuid = 0; gid_t rootgid = 0;
#ifndef FLEN
#define FLEN 12
#endif
#define NSET 10
static char **const SET[NSET] = { &fcrontabs, &pidfile, &suspendfile, &fifofile, &fcronallow, &fcrondeny, &shell, &sendmail, &editor, &maildisplayname };
static const char *const NAME[NSET] = { "fcrontabs", "pidfile", "suspendfile", "fifofile", "fcronallow", "fcrondeny", "shell", "sendmail", "editor", "maildisplayname" };
static const int NLEN[NSET] = { 9, 7, 11, 8, 10, 9, 5, 8, 6, 15 };
static char file[64], isnl[64]; static char *lbuf; static int llen, lnl, flen, fpos, opened, closed, before;
/* the values */
static char slot[8]; static int sets, longval; static char deflt[] = "default";
char *strdup2(const char *s)
{
    int i;
    if (before) return deflt;
    sets++;
    for (i = 0; i < 7 && s[i]; i++) slot[i] = s[i];
    slot[i] = 0; longval = s[i] != 0; return slot;
}
void h_free(void *p) { }
char *format_maildisplayname(char *s) { return s; }
static FILE *F; static int fopenfails;
FILE *h_fopen(const char *n, const char *m) { VF_ASSERT(m[0] == 'r' && m[1] == 0, "the file is only read"); before = 0; if (fopenfails) { errno = fopenfails; return NULL; } opened++; return F; }
int h_fgetc(FILE *f) { VF_ASSERT(f == F && opened && !closed, "the file is open"); return fpos < flen ? (unsigned char)file[fpos++] : EOF; }
/* where the lines end is concrete: the other characters are any */
char *h_fgets(char *b, int n, FILE *f)
{
    int i = 0;
    VF_ASSERT(f == F && opened && !closed, "the file is open");
    if (fpos >= flen) return NULL;
    lnl = 0;
    while (i < n - 1 && fpos < flen && !lnl) { lnl = isnl[fpos]; b[i++] = file[fpos++]; }
    b[i] = 0; lbuf = b; llen = i; return b;
}
char *h_strchr(const char *s, int c)
{
    if (c == '\n' && s >= lbuf && s <= lbuf + llen) return lnl ? lbuf + llen - 1 : NULL;
    for (; *s; s++) if (*s == c) return (char *)s;
    return c ? NULL : (char *)s;
}
int h_fileno(FILE *f) { return 3; }
static struct stat st; static int statfails;
int h_fstat(int fd, struct stat *s) { if (statfails) { VF_ERRNO(); return -1; } *s = st; return 0; }
static struct group gr; static int nogroup;
struct group *h_getgrnam(const char *n) { if (nogroup) return NULL; gr.gr_gid = 55; return &gr; }
int xfclose_check(FILE **f, const char *n) { VF_ASSERT(*f == F && opened && !closed, "the file is closed once"); closed++; *f = NULL; return 0; }
#define BL(c) ((c) == ' ' || (c) == '\t')
#define WORD(c) ((c) >= 'a' && (c) <= 'z' || (c) >= 'A' && (c) <= 'Z' || (c) >= '0' && (c) <= '9' || (c) == '_' || (c) == '-')
static void expect(int which, char a, char b, char c)
{
    int i;
    for (i = 0; i < NSET; i++)
        if (i != which) VF_ASSERT(*SET[i] == deflt, "a setting which is not given keeps its default value");
        else VF_ASSERT(*SET[i] == slot && !longval && slot[0] == a && slot[1] == b && slot[2] == c && (!c || slot[3] == 0), "a setting takes the value which is given");
}
static void put(const char *t) { int i; for (i = 0; t[i]; i++) { isnl[flen] = t[i] == '\n'; file[flen++] = t[i]; } }
static void any(char c) { isnl[flen] = 0; file[flen++] = c; }
#if OP <= 1
/* where the word and the end of the line are is known (the functions are decided by OP 3 and 4) */
static int wordlen;
int get_word(char **s)
{
    int n = 0;
    while (BL(**s)) (*s)++;
    if (OP == 1) return wordlen;
    while (WORD((*s)[n])) n++;
    return n;
}
#define SPC(c) (BL(c) || (c) == '\n' || (c) == '\r')
int remove_blanks(char *s)
{
    char *e = s;
    if (s >= lbuf && s <= lbuf + llen) e = lbuf + llen; else while (*e) e++;
    while (e > s && SPC(e[-1])) e--;
    *e = 0; return e - s;
}
#elif OP == 3
int get_word(char **s);
#elif OP == 4
int remove_blanks(char *s);
#endif
void vf_main(void)
{
    int i, n, which, k;
    static FILE ff; F = &ff; before = 1; rootuid = 0; st.st_uid = 0; st.st_gid = 55; st.st_mode = S_IFREG | 0644;
#if OP == 3
    {
        static char t[9]; char *q = t; int b = 0;
        for (i = 0; i < 8; i++) t[i] = VF_RANGE("char", 0, 127);
        t[8] = 0;
        n = get_word(&q);
        while (BL(t[b])) b++;
        for (k = b; k < 8; k++) if (!WORD(t[k])) break;
        VF_ASSERT(q == t + b && n == k - b, "a word ends at the first character which is not a letter, a digit, - or _");
        if (n == 8) VF_COVER("word");
        if (n == 0) VF_COVER("no word");
        return;
    }
#elif OP == 4
    {
        static char t[9], o[9]; int l, e;
        for (i = 0; i < 8; i++) o[i] = t[i] = VF_RANGE("char", 0, 127);
        t[8] = 0;
        for (l = 0; l < 8 && t[l]; l++) ;
        for (e = l; e > 0; e--) if (!(o[e - 1] == ' ' || o[e - 1] >= 9 && o[e - 1] <= 13)) break;
        n = remove_blanks(t);
        VF_ASSERT(n == e && t[e] == 0, "the blanks at the end of a line are removed");
        for (i = 0; i < 8; i++) if (i < e) VF_ASSERT(t[i] == o[i], "the rest of the line is kept");
        if (l == 8 && e == 0) VF_COVER("only blanks");
        if (l == 8 && e == 5) VF_COVER("some blanks");
        return;
    }
#elif OP == 0
    for (k = KFROM; k <= KTO; k++) {
        /* a comment which is about as long as the longest line, and goes on with what looks like a setting */
        flen = fpos = opened = closed = sets = 0; before = 1;
        put("#");
        for (i = 0; i < LINE_LEN - 2 + k; i++) {
            char c = 'y';
            if (i < LINE_LEN - 3) { c = VF_U8("char"); VF_ASSUME(c != 0 && c != '\n'); }  /* those after the limit are concrete: the end of the loop on them is known */
            any(c);
        }
        if (TAIL) put("shell=/x");
        put("\neditor=/b"); if (k & 1) put("\n");
        read_conf();
        VF_ASSERT(sets == 1, "the lines which are not comments are used once");
        expect(8, '/', 'b', 0);
        VF_ASSERT(opened == 1 && closed == 1, "the file is closed");
        if (k == KTO) VF_COVER("read");
    }
    return;
#elif OP == 1
    for (n = FROM; n <= TO; n++) {
        char name[20], c = VF_U8("value"); int e0 = vf_errors;
        VF_ASSUME(c != 0 && c != '\n');
        flen = fpos = opened = closed = sets = 0; before = 1; wordlen = n;
        put(n & 1 ? "" : " \t");
        for (i = 0; i < n; i++) { name[i] = VF_U8("char"); VF_ASSUME(WORD(name[i])); any(name[i]); }
        put(n % 3 == 0 ? "=" : n % 3 == 1 ? " = " : "\t="); put("a"); any(c); put("c");
        put(n % 4 == 0 ? "\n" : n % 4 == 1 ? "" : n % 4 == 2 ? " \t\n" : "\r\n");
        which = -1;
        for (k = 0; k < NSET; k++) if (NLEN[k] == n) { int same = 1; for (i = 0; i < n; i++) if (name[i] != NAME[k][i]) same = 0; if (same) which = k; }
        read_conf();
        VF_ASSERT(sets == (which >= 0), "only a line with the name of a setting changes it");
        expect(which, 'a', c, 'c');
        VF_ASSERT(opened == 1 && closed == 1, "the file is closed");
        if (which < 0) VF_ASSERT(vf_errors > e0, "a line with another name is reported");
        if (n == TO) VF_COVER("read");
    }
    return;
#else
    {
        const char *text = "shell=/b\n"; int safe, given = VF_BOOL("given");
        for (i = 0; text[i]; i++) file[flen++] = text[i];
        fopenfails = VF_RANGE("fopen", 0, 133); nogroup = VF_BOOL("nogroup"); statfails = VF_BOOL("fstat");
        st.st_uid = VF_RANGE("uid", 0, 2); st.st_gid = VF_RANGE("gid", 54, 56); st.st_mode = VF_I32("mode"); fcronconf = given ? "conf" : NULL;
        safe = !fopenfails && !statfails && st.st_uid == 0 && st.st_gid == 55 && !(st.st_mode & 022);
        may_die = fopenfails == ENOENT && given || nogroup;
        read_conf();
        VF_ASSERT(!may_die || fopenfails && fopenfails != ENOENT || fopenfails == ENOENT && !given, "the problem is reported");
        VF_ASSERT(opened == closed, "the file is closed");
        VF_ASSERT(sets == safe, "only a file which is safe is used");
        if (!safe && fopenfails != ENOENT) VF_ASSERT(vf_errors > 0, "a file which is not used is reported");
        if (safe) { VF_ASSERT(shell[0] == '/', "the file is read"); VF_COVER("used"); }
        else VF_COVER("not used");
    }
#endif
}

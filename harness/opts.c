/* C17: an option sets exactly what the documentation says, or is reported as an error. */
#include "fcrontab.h"
#include "fileconf.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "gives up")
#include "vf_log.h"
#undef fprintf
#undef strndup
#undef getuid
#undef getpwnam
extern char *read_opt(char *ptr, cl_t *cl);
extern char need_correction, *file_name;
extern cl_t default_line;
char *user = "usr", *runas = "own";
uid_t rootuid = 0;
static uid_t who;
static int known;                      /* the user given to runas exists */
uid_t h_getuid(void) { return who; }
static struct passwd pw;
struct passwd *h_getpwnam(const char *n) { return known ? &pw : NULL; }
int h_fprintf(FILE *f, const char *fmt, ...) { return 0; }

char *h_strndup(const char *s, size_t n)
{
    size_t i, l = 0; char *p;
    for (i = 0; i < n; i++) if (l == i && s[i]) l++;
    p = malloc(8);
    VF_MODEL(l < 8 && p != NULL, "string");
    for (i = 0; i < l; i++) p[i] = s[i];
    p[l] = 0;
    return p;
}
static char text[60];
static int tlen;
static void put(const char *s) { while (*s) text[tlen++] = *s++; }
static int eq(const char *a, const char *b)
{
    int i;
    if (a == NULL || b == NULL) return a == b;
    for (i = 0; a[i] && a[i] == b[i]; i++) ;
    return a[i] == b[i];
}
/* the state of the line, and what it has to be afterwards */
static cf_t cf;
static cl_t cl, want;
static int bad, undef;                 /* to be reported; not described by the documentation */
static signed char want_tz;
static void bit(int n, int v)
{
    if (v) want.cl_option[n / 8] |= 1 << (n % 8); else want.cl_option[n / 8] &= ~(1 << (n % 8));
}
static void start(void)
{
    int i;
    static const cl_t none;
    cl = none;
    who = VF_BOOL("root") ? 0 : 7; known = VF_BOOL("known");
    for (i = 0; i < 4; i++) cl.cl_option[i] = VF_U8("bits");
    for (i = 0; i < 3; i++) cl.cl_lavg[i] = VF_U8("lavg");
    cl.cl_until = VF_I64("until"); cl.cl_first = VF_I64("first");
    cl.cl_runfreq = VF_I32("runfreq");
#ifdef PERIOD
    cl.cl_runfreq = 1;
#else
    VF_ASSUME(cl.cl_runfreq != 1);
#endif
    cl.cl_nice = VF_U8("nice"); cl.cl_jitter = VF_U8("jitter"); cl.cl_remain = 5;
    cf.cf_tzdiff = want_tz = VF_U8("tzdiff");
    cl.cl_file = VF_BOOL("line") ? NULL : &cf;
    want = cl; bad = undef = 0; need_correction = 0; tlen = 0; file_name = "x";
}
static void unchanged(void)            /* the fields, but the strings */
{
    int i;
    for (i = 0; i < 4; i++) VF_ASSERT(cl.cl_option[i] == want.cl_option[i], "exactly the documented options are set");
    for (i = 0; i < 3; i++) VF_ASSERT(cl.cl_lavg[i] == want.cl_lavg[i], "load averages are the ones given");
    VF_ASSERT(cl.cl_until == want.cl_until && cl.cl_first == want.cl_first, "the times are the ones given");
    VF_ASSERT(cl.cl_runfreq == want.cl_runfreq && cl.cl_remain == want.cl_remain, "the run frequency is the one given");
    VF_ASSERT(cl.cl_nice == want.cl_nice && cl.cl_jitter == want.cl_jitter, "nice and jitter are the ones given");
    VF_ASSERT(cl.cl_file == want.cl_file && cf.cf_tzdiff == want_tz, "tzdiff is the one given");
    VF_ASSERT(cl.cl_next == NULL && cl.cl_shell == NULL && cl.cl_nextexe == 0 && cl.cl_id == 0 && cl.cl_numexe == 0 && cl.cl_timefreq == want.cl_timefreq, "nothing else changes");
}
/* a correct text changes exactly what it says; another one is reported; end: where the options end */
static void check(char *r, int end)
{
    int k;
    if (!undef && !bad) {
        VF_ASSERT(r != NULL && !need_correction, "a correct option is accepted");
        for (k = 0; k < 7; k++) if (text[end] == ' ') end++;
        VF_ASSERT(r == text + end, "exactly the options are read");
        unchanged();
    }
    if (bad) VF_ASSERT(r == NULL || need_correction, "a wrong option is reported");
    if (r == NULL) VF_ASSERT(need_correction, "an error is never ignored");
    if (r != NULL) VF_ASSERT(r >= text && r <= text + tlen, "reading goes on in the line");
}
/* the value of a boolean argument at text[i]: 0, 1, or -1; *len: its length */
static int boolean(int i, int *len)
{
    static const char *words[] = { "1", "0", "true", "yes", "false", "no" };
    static const int val[] = { 1, 0, 1, 1, 0, 0 };
    int w, k, m, v = -1;
    for (w = 0; w < 6; w++) {
        m = 1;
        for (k = 0; words[w][k]; k++) if (text[i + k] != words[w][k]) { m = 0; break; }
        if (m) { v = val[w]; *len = k; }
    }
    return v;
}
#if PART == 0                          /* options with a boolean value */
struct b { const char *name; int bit, inv; };   /* inv: true clears the bit */
enum { ALSO_CLEAR8 = 2, ALSO_MAIL = 4 };
static const struct b opts[] = {
#if GROUP == 0
    { "s", 5, 0 }, { "serial", 5, 0 }, { "serialonce", 11, 0 }, { "lavgonce", 12, 1 }, { "exesev", 10, 0 }, { "b", 4, 0 }, { "bootrun", 4, 0 },
#elif GROUP == 1
    { "rebootreset", 27, 0 }, { "runatreboot", 28, 0 }, { "runatresume", 31, 0 }, { "runonce", 29, 0 }, { "strict", 20, 1 }, { "noticenotrun", 21, 0 },
#elif GROUP == 2
    { "lavgand", 2, 1 }, { "lavgor", 2, 0 }, { "m", 7, 1 | ALSO_CLEAR8 }, { "mail", 7, 1 | ALSO_CLEAR8 }, { "forcemail", 8, ALSO_MAIL }, { "erroronlymail", 26, 0 },
#elif GROUP == 3
    { "dayand", 3, 1 }, { "dayor", 3, 0 }, { "nolog", 22, 0 }, { "volatile", 24, 0 }, { "stdout", 25, 0 }, { "random", 23, 0 },
#endif
};
static void apply(const struct b *o, int v)
{
    bit(o->bit, (o->inv & 1) ? !v : v);
    if ((o->inv & ALSO_CLEAR8) && !v) bit(8, 0);
    if ((o->inv & ALSO_MAIL) && v) bit(7, 0);
}
void vf_main(void)
{
    int n, i, k, v, len = 0, end, br;
    for (n = 0; n < (int)(sizeof(opts) / sizeof(opts[0])); n++) for (br = 0; br < 2; br++) {
        start();
        put(opts[n].name);
        if (br) {
            put("(");
            i = tlen;
            for (k = 0; k < 7; k++) {
                char c = VF_U8("c");
                VF_ASSUME(c == 't' || c == 'r' || c == 'u' || c == 'e' || c == 'y' || c == 's' || c == 'f' || c == 'a' || c == 'l' || c == 'n' || c == 'o'
                          || c == '0' || c == '1' || c == ')' || c == ' ' || c == 'x' || c == '(');
                text[tlen++] = c;
            }
            v = boolean(i, &len);
            end = i + len;
            if (v < 0 || text[end] != ')') bad = 1;
            end++;
        } else {
            v = 1; end = tlen;
            put(" x"); if (VF_BOOL("ends")) text[end] = 0;
        }
        text[tlen] = 0;
        if (!bad) apply(&opts[n], v);
        check(read_opt(text, &cl), end);
        if (!bad && br && v == 0) VF_COVER("set to false");
        if (bad) VF_COVER("wrong value");
    }
}
#elif PART == 1                        /* options with a number */
static const char *names[] = { NAMES };
void vf_main(void)
{
    int n, i, k, v, nd, neg, end, signd; char nice0;
    for (n = 0; n < (int)(sizeof(names) / sizeof(names[0])); n++) {
        const char *s = names[n];
        start();
        put(s); put("(");
        i = tlen;
        for (k = 0; k < NCHARS; k++) {
            char c = VF_U8("c");
            VF_ASSUME((c >= '0' && c <= '9') || c == '-' || c == ')' || c == 'x' || c == ' ');
            text[tlen++] = c;
        }
        text[tlen++] = VF_BOOL("closed") ? ')' : 0;
        text[tlen] = 0;
        nice0 = cl.cl_nice;
        signd = eq(s, "n") || eq(s, "nice") || eq(s, "tzdiff");
        neg = signd && text[i] == '-';
        if (neg) i++;
        for (v = nd = k = 0; k < NCHARS + 1; k++) if (text[i + k] >= '0' && text[i + k] <= '9' && nd == k) { v = v * 10 + (text[i + k] - '0'); nd++; }
        end = i + nd;
        if (text[end] != ')') bad = 1;
        end++;
        if (nd == 0) undef = 1;
        if (eq(s, "r") || eq(s, "runfreq")) { if (v < 2 || v > 65535 || cl.cl_runfreq == 1) bad = 1; want.cl_runfreq = v; }
        else if (eq(s, "n") || eq(s, "nice")) { if (v > 20 || (neg && who != 0)) bad = 1; if (v == 20 && !neg) undef = 1; want.cl_nice = neg ? -v : v; }
        else if (eq(s, "jitter")) { if (v > 255) bad = 1; want.cl_jitter = v; }
        else if (eq(s, "tzdiff")) { if (v > 24 || cl.cl_file == NULL) bad = 1; if (!bad) want_tz = neg ? -v : v; }
        check(read_opt(text, &cl), end);
        if (eq(s, "n") || eq(s, "nice")) VF_ASSERT(who == 0 || cl.cl_nice >= 0 || cl.cl_nice == nice0, "only root can ask for a higher priority");
        if (bad) VF_COVER("wrong number");
#ifndef PERIOD
        if (!bad && !undef) VF_COVER("number set");
#endif
    }
}
#elif PART == 2                        /* load averages: one decimal */
/* reads a number at text[i]: its value in tenths, rounded off; *pi: its end */
static int tenths(int *pi)
{
    int i = *pi, k, v = 0, nd = 0, dot = 0, fr = 0;
    for (k = 0; k < 8; k++) {
        char c = text[i];
        if (c >= '0' && c <= '9') {
            if (!dot) { v = v * 10 + (c - '0'); nd++; }
            else if (++fr == 1) v = v * 10 + (c - '0');
            else if (fr == 2 && c >= '5') v++;
        }
        else if (c == '.' && !dot) dot = 1;
        else break;
        i++;
    }
    if (text[i] == '.') bad = 1;
    if (dot && !fr) undef = 1;
    if (!nd && !fr) undef = 1;
    if (fr == 0) v *= 10;
    if (v > 255) bad = 1;
    *pi = i;
    return v;
}
void vf_main(void)
{
    int i, k, j, n;
    for (n = 0; n < 4; n++) {
        start();
        put(n == 0 ? "lavg1(" : n == 1 ? "lavg5(" : n == 2 ? "lavg15(" : "lavg(");
        i = tlen;
        for (j = 0; j < (n == 3 ? 3 : 1); j++) {
            if (j) put(",");
            for (k = 0; k < (n == 3 ? 2 : NCHARS); k++) {
                char c = VF_U8("c");
                VF_ASSUME((c >= '0' && c <= '9') || c == '.' || (n < 3 && (c == ')' || c == 'x' || c == '-')));
                text[tlen++] = c;
            }
        }
        text[tlen++] = VF_BOOL("closed") ? ')' : 0;
        text[tlen] = 0;
        if (n < 3) want.cl_lavg[n] = tenths(&i);
        else for (j = 0; j < 3; j++) {
            if (j) { if (text[i] == ',') i++; else bad = 1; }
            want.cl_lavg[j] = tenths(&i);
        }
        bit(1, want.cl_lavg[0] || want.cl_lavg[1] || want.cl_lavg[2]);
        if (text[i] != ')') bad = 1;
        check(read_opt(text, &cl), i + 1);
        if (bad) VF_COVER("wrong load average");
        if (!bad && !undef) VF_COVER("load average set");
    }
}
#elif PART == 3                        /* options with a time */
static const char *names[] = { "f", "first", "u", "until" };
void vf_main(void)
{
    int n, i; char d, u, e; long v;
    for (n = 0; n < 4; n++) {
        start();
        put(names[n]); put("(");
        d = VF_U8("digit"); u = VF_U8("unit"); e = VF_U8("end");
        VF_ASSUME(d >= '0' && d <= '9'); VF_ASSUME(u == ')' || u == 'h' || u == 's' || u == 'd' || u == 'w' || u == 'm' || u == 'x'); VF_ASSUME(e == ')' || e == ' ' || e == 'x' || e == 0);
        text[tlen++] = d; text[tlen++] = u; text[tlen++] = u == ')' ? 0 : e; text[tlen] = 0;
        v = (d - '0') * (u == 's' ? 1l : u == 'h' ? 3600l : u == 'd' ? 86400l : u == 'w' ? 604800l : u == 'm' ? 4 * 604800l : 60l);
        if (u == 'x' || (u != ')' && e != ')')) bad = 1;
        if (n < 2) want.cl_first = v; else want.cl_until = v;
        check(read_opt(text, &cl), u == ')' ? tlen - 1 : tlen);
        if (bad) VF_COVER("wrong time");
        if (!bad && v == 0) VF_COVER("zero");
    }
}
#elif PART == 4                        /* options with a string */
static const char *names[] = { "mailto", "mailfrom", "timezone", "runas" };
void vf_main(void)
{
    int n = NAME, i, k, len = 0, quoted = 0; char *r, *was = NULL, val[8], **f, old[2] = "o";
    {
        start();
        put(names[n]); put("(");
        f = n == 0 ? &cl.cl_mailto : n == 1 ? &cl.cl_mailfrom : n == 2 ? &cl.cl_tz : &cl.cl_runas;
        if (n == 0 || n == 3 || VF_BOOL("set")) { *f = malloc(2); VF_ASSUME(*f != NULL); (*f)[0] = 'o'; (*f)[1] = 0; was = old; }
        i = tlen;
        for (k = 0; k < 4; k++) {
            char c = VF_U8("c");
            VF_ASSUME(c == 'a' || c == 'B' || c == ' ' || c == '\'' || c == '"' || c == ')' || c == ',' && 0 || c == '@');
            text[tlen++] = c;
        }
        text[tlen++] = VF_BOOL("closed") ? ')' : 0;
        text[tlen] = 0;
        for (k = 0; k < 5; k++) if (k == len && text[i + k] && text[i + k] != ')') { val[k] = text[i + k]; len++; }
        val[len] = 0;
        if (text[i + len] != ')') bad = 1;
        if (len) quoted = val[0] == ' ' || val[0] == '\'' || val[0] == '"' || val[len - 1] == ' ' || val[len - 1] == '\'' || val[len - 1] == '"';
        if (quoted) bad = 1;
        if (n == 0) { if (len) bit(7, 0); else { bit(7, 1); bit(8, 0); } }
        if (n == 3) { if (len == 0 || len > USER_NAME_LEN || who != 0 || !known) bad = 1; }
        r = read_opt(text, &cl);
        check(r, i + len + 1);
        if (!bad && len) { VF_ASSERT(eq(*f, val), "the string is the one given"); VF_COVER("string set"); }
        if (!bad && !len) VF_ASSERT(n == 0 ? eq(*f, was) : *f == NULL, "an empty value is the default one");
        if (quoted) VF_ASSERT(eq(*f, was), "a wrong string is not used");
        if (n == 3) VF_ASSERT(*f != NULL && (eq(*f, was) || (who == 0 && known && len <= USER_NAME_LEN)), "only root can run jobs as an existing user");
        if (bad) VF_COVER("wrong string");
        free(*f); *f = NULL;
    }
}
#elif PART == 5                        /* keywords: %-lines, reset, unknown names */
struct k { const char *name; int bits; };
static const struct k keys[] = {
    { "mins", 0 }, { "hours", 1 << 13 }, { "days", 3 << 13 }, { "mons", 7 << 13 }, { "dow", 15 << 13 },
    { "hourly", 1 << 14 | 1 << 18 }, { "daily", 1 << 15 | 1 << 18 }, { "monthly", 1 << 16 | 1 << 18 }, { "weekly", 1 << 17 | 1 << 18 },
    { "midhourly", 1 << 14 | 3 << 18 }, { "middaily", 1 << 15 | 3 << 18 }, { "nightly", 1 << 15 | 3 << 18 }, { "midmonthly", 1 << 16 | 3 << 18 }, { "midweekly", 1 << 17 | 3 << 18 },
    { "reset", -2 }, { "hour", -1 }, { "seriall", -1 }, { "boot", -1 }, { "averyverylongoptionname", -1 }, { "serial1", -1 },
};
void vf_main(void)
{
    int n, i; char *r;
    for (n = 0; n < (int)(sizeof(keys) / sizeof(keys[0])); n++) {
        int end;
        start();
        put(keys[n].name); end = tlen;
        put(" 1"); if (VF_BOOL("ends")) text[end] = 0;
        text[tlen] = 0;
        if (keys[n].bits == -1) bad = 1;
        else if (keys[n].bits == -2) {
            want.cl_lavg[0] = want.cl_lavg[1] = want.cl_lavg[2] = 0; want.cl_until = want.cl_first = 0; want.cl_nice = want.cl_jitter = 0;
            for (i = 0; i < 4; i++) want.cl_option[i] = 0;
            bit(11, SERIAL_ONCE >= 1); bit(12, LAVG_ONCE == 0);
#ifdef PERIOD
            want.cl_runfreq = want.cl_remain = 1;
#else
            want.cl_runfreq = want.cl_remain = 0;
#endif
        } else {
#ifdef PERIOD
            for (i = 0; i < 32; i++) if (keys[n].bits & (1 << i)) bit(i, 1);
#else
            bad = 1;
#endif
        }
        r = read_opt(text, &cl);
        check(r, end);
        if (keys[n].bits == -2) {
            VF_ASSERT(eq(cl.cl_runas, runas) && eq(cl.cl_mailto, runas) && cl.cl_tz == NULL && cl.cl_mailfrom == NULL, "reset sets the default values");
            VF_COVER("reset");
        }
    }
}
#elif PART == 6                        /* several options: each one has its effect, whatever the other ones are */
static const struct { const char *text; int end, bad, set, clear, jitter, first; } texts[] = {
    { "bootrun(1),exesev(no),jitter(3) x", 31, 0, 1 << 4, 1 << 10, 3, -1 },
    { "s,m,jitter(007),b(0)", 20, 0, 1 << 5, 1 << 7 | 1 << 4, 7, -1 },
    { "first(1h2m),serial,strict  x", 25, 0, 1 << 5, 1 << 20, -1, 4 * 604800 * 2 + 3600 },
    { "dayor,dayand", 12, 0, 0, 1 << 3, -1, -1 },
    { "!nolog(false),stdout(yes),f(5)", 30, 0, 1 << 25, 1 << 22, -1, 300 },
    { "mail(0),forcemail(1) 5", 20, 0, 1 << 8, 1 << 7, -1, -1 },
    { "serial(2),b", 0, 1, 0, 0, -1, -1 },
    { "b,serial(", 0, 1, 0, 0, -1, -1 },
    { "b,serial(1", 0, 1, 0, 0, -1, -1 },
    { "s,nosuch(3),b", 0, 1, 0, 0, -1, -1 },
    { "s,,b", 0, 1, 0, 0, -1, -1 },
    { "jitter(1)),b", 9, 0, 0, 0, 1, -1 },
    { "first( 1),b", 0, 1, 0, 0, -1, -1 },
};
void vf_main(void)
{
    int n, i;
    for (n = 0; n < (int)(sizeof(texts) / sizeof(texts[0])); n++) {
        start();
        put(texts[n].text); text[tlen] = 0;
        bad = texts[n].bad;
        for (i = 0; i < 32; i++) { if (texts[n].set & (1 << i)) bit(i, 1); if (texts[n].clear & (1 << i)) bit(i, 0); }
        if (texts[n].jitter >= 0) want.cl_jitter = texts[n].jitter;
        if (texts[n].first >= 0) want.cl_first = texts[n].first;
        check(read_opt(text, &cl), texts[n].end);
        VF_COVER("several options");
    }
}
#endif

/* C29: lines of a table are assembled, dispatched and read exactly, whatever their content. */
#include "fcrontab.h"
#include "fileconf.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "gives up")
#include "vf_log.h"
#undef fprintf
#undef getuid
#undef getpwnam
#undef getc
#undef strndup
#undef strdup
extern char need_correction, *file_name;
extern int line;
extern cl_t default_line;
struct cf_t *file_base;
char *user = "usr", *runas = "own";
uid_t rootuid = 0;
static uid_t who;
uid_t h_getuid(void) { return who; }
int h_fprintf(FILE *f, const char *fmt, ...) { return 0; }
static int eq(const char *a, const char *b)
{
    int i;
    if (a == NULL || b == NULL) return a == b;
    for (i = 0; a[i] && a[i] == b[i]; i++) ;
    return a[i] == b[i];
}
#define SLOT 24
char *h_strdup(const char *s)
{
    size_t i; char *p = malloc(SLOT);
    VF_ASSUME(p != NULL);
    for (i = 0; i < SLOT - 1 && s[i]; i++) p[i] = s[i];
    VF_MODEL(s[i] == 0, "string");
    p[i] = 0;
    return p;
}
static int isblank_(char c) { return c == ' ' || c == '\t'; }
#if PART == 0                          /* get_line() */
extern int get_line(char *str, size_t size, FILE *file);
#ifndef SIZE
#define SIZE 5
#endif
static int in[N], pos, ends;           /* the file */
int h_getc(FILE *f) { return pos < N ? in[pos++] : (ends++, EOF); }
void vf_main(void)
{
    static char fake[4]; int i, k, p, j, r, len, eof, before; char want[N + 1], buf[SIZE + 1]; int amb = 0;   /* newlines in a row after several \ */
    for (i = 0; i < N; i++) { in[i] = VF_U8("c"); if (i % 2) VF_ASSUME(in[i] == '\n' || in[i] == '\\' || in[i] == 'a'); }
    line = 1; need_correction = 0;
    p = 0;
    for (i = 2; i < N; i++) if (in[i] == '\n' && in[i - 1] == '\n' && in[i - 2] == '\\') amb = 1;
    for (k = 0; k < 2; k++) {
        int from = p, lines = 0, done = 0;
        /* what the next logical line is */
        len = 0; eof = 0;
        for (i = 0; i < N; i++) if (i >= from && !done) {
            if (in[i] == '\n') { if (len && want[len - 1] == '\\') { len--; lines++; } else { done = 1; p = i + 1; } }
            else want[len++] = in[i];
        }
        if (!done) { eof = 1; p = N; }
        before = line;
        buf[SIZE] = 0x5a;
        r = get_line(buf, SIZE, (FILE *)&fake);
        VF_ASSERT(buf[SIZE] == 0x5a, "nothing is written after the buffer");
        if (len <= SIZE - 2) {
            /* a too long text which gets short enough because of \ at its end */
            int peak = 0, l = 0, e = 0;
            for (i = 0; i < N; i++) if (i >= from && i < p) { if (in[i] == '\n' && l && e) l--; else if (in[i] != '\n') l++; e = in[i] == '\\'; if (l > peak) peak = l; }
            if (peak <= SIZE - 2) {
                VF_ASSERT(r == (eof ? 999 : OK), "a line which fits is read");
                for (i = 0; i < N; i++) if (i < len) VF_ASSERT(buf[i] == (char)want[i], "the line is exactly its text");
                VF_ASSERT(buf[len] == 0, "the line is terminated");
                VF_ASSERT(line == before + lines, "continued lines are counted");
                VF_ASSERT(!need_correction, "a line which fits is accepted");
                VF_ASSERT(pos == p, "exactly one line is read");
                if (lines) VF_COVER("continued line");
            }
            else return;
        }
        else if (amb) return;
        else if (len >= SIZE) {
            VF_ASSERT(r == ERR && need_correction, "a too long line is reported");
            VF_COVER("too long line");
            VF_ASSERT(pos == p, "the rest of a too long line is skipped, and only it");
            need_correction = 0;
        }
        else { if (r == ERR) need_correction = 0; else VF_ASSERT(buf[len] == 0, "the line is terminated"); VF_ASSERT(pos == p, "exactly one line is read"); }
    }
}
#elif PART == 1                        /* read_env(): assignments */
extern void read_env(char *ptr, cf_t *cf);
static int nset; static char gotname[16], gotval[SLOT];
env_t *env_list_setenv(env_list_t *l, char *name, char *val, int over)
{
    int i;
    VF_ASSERT(over == 1, "a new value replaces the old one");
    for (i = 0; i < 15 && name[i]; i++) gotname[i] = name[i];
    gotname[i] = 0;
    for (i = 0; i < SLOT - 1 && val[i]; i++) gotval[i] = val[i];
    gotval[i] = 0;
    nset++;
    return NULL;
}
static char text[32];
static const char *starts[] = { "", "MAILTO", "MAILFROM=", "USER", "LOGNAME=", "MAILTO=" };
void vf_main(void)
{
    int i, k, n = WHICH, l, tlen = 0, vb, ve, quoted = 0, bad = 0, b7, b8; char name[32], val[32]; cf_t cf;
    static const char old[] = "o";
    need_correction = 0; file_name = "x"; nset = 0;
    default_line.cl_mailto = h_strdup(old); default_line.cl_mailfrom = h_strdup(old);
    default_line.cl_option[0] = VF_U8("bits"); default_line.cl_option[1] = VF_U8("bits");
    b7 = default_line.cl_option[0]; b8 = default_line.cl_option[1];
    for (i = 0; starts[n][i]; i++) text[tlen++] = starts[n][i];
    for (i = 0; i < N; i++) {
        char c = VF_U8("c");
        VF_ASSUME(c == 'A' || c == '_' || c == '7' || c == '=' || c == ' ' || c == '\t' || c == '"' || c == '\'' || c == '$');
        text[tlen++] = c;
    }
    text[tlen] = 0;
    /* the meaning */
    for (i = l = 0; i < 31; i++) if (i == l && ((text[i] >= 'A' && text[i] <= 'Z') || text[i] == '_' || text[i] == '7')) name[l++] = text[i];
    name[l] = 0;
    if (l == 0) bad = 1;
    for (i = l, k = 0; k < 31; k++) if (i == k && isblank_(text[k])) i++;
    if (text[i] != '=') bad = 1;
    for (i++, k = 0; k < 31; k++) if (i == k && isblank_(text[k])) i++;
    vb = i; ve = tlen;
    for (k = 31; k > 0; k--) if (ve == k && ve > vb && isblank_(text[k - 1])) ve--;
    if (!bad && (text[vb] == '"' || text[vb] == '\'')) {
        quoted = 1;
        if (ve < vb + 2 || text[ve - 1] != text[vb]) bad = 1;
        vb++; ve--;
    }
    for (i = 0, k = 0; k < 31; k++) if (!bad && k >= vb && k < ve) val[i++] = text[k];
    val[i] = 0;
    read_env(text, &cf);
    if (bad) VF_ASSERT(need_correction && nset == 0, "a malformed assignment is reported and sets nothing");
    if (bad || eq(name, "USER") || eq(name, "LOGNAME")) {
        VF_ASSERT(nset == 0 && eq(default_line.cl_mailto, old) && eq(default_line.cl_mailfrom, old), "protected variables cannot be set");
        VF_ASSERT(default_line.cl_option[0] == b7 && default_line.cl_option[1] == b8, "the options do not change");
        if (bad) VF_COVER("malformed");
    }
    else if (eq(name, "MAILTO")) {
        VF_ASSERT(nset == 0 && eq(default_line.cl_mailfrom, old), "MAILTO is an option");
        VF_ASSERT(eq(default_line.cl_mailto, val[0] ? val : old), "MAILTO is the recipient of the next lines");
        VF_ASSERT(default_line.cl_option[0] == (val[0] ? b7 & 0x7f : b7 | 0x80) && default_line.cl_option[1] == (val[0] ? b8 : b8 & 0xfe), "MAILTO decides whether mails are sent");
#if WHICH == 1 || WHICH == 5
        VF_COVER("MAILTO set");
#endif
    }
    else if (eq(name, "MAILFROM")) {
        VF_ASSERT(nset == 0 && eq(default_line.cl_mailto, old) && eq(default_line.cl_mailfrom, val), "MAILFROM is the sender of the next mails");
        VF_ASSERT(default_line.cl_option[0] == b7 && default_line.cl_option[1] == b8, "the options do not change");
#if WHICH == 2
        VF_COVER("MAILFROM set");
#endif
    }
    else {
        VF_ASSERT(nset == 1 && eq(gotname, name), "the variable named is set, once");
        VF_ASSERT(eq(gotval, val), "the value is exactly the one given");
        VF_ASSERT(!need_correction, "a correct assignment is accepted");
#if WHICH == 0
        if (quoted) VF_COVER("quoted value");
#endif
    }
}
#elif PART == 2                        /* check_username() */
extern char *check_username(char *ptr, cf_t *cf, cl_t *cl);
static struct passwd pw;
struct passwd *h_getpwnam(const char *n) { return eq(n, "ab") || eq(n, "a-") ? &pw : NULL; }
void vf_main(void)
{
    int i, l = 0, k; char text[N + 1], *r; cl_t cl;
    char first[8];
    who = VF_BOOL("root") ? 0 : 7;
    cl.cl_runas = h_strdup("o");
    for (i = 0; i < N; i++) { text[i] = VF_U8("c"); VF_ASSUME(text[i] == 'a' || text[i] == 'b' || text[i] == '-' || text[i] == ' ' || text[i] == '\t' || text[i] == '.' || text[i] == 0); }
    text[N] = 0;
    for (i = 0; i < N; i++) if (i == l && text[i] && !isblank_(text[i])) first[l++] = text[i];
    first[l] = 0;
    r = check_username(text, NULL, &cl);
    if ((eq(first, "ab") || eq(first, "a-")) && l < N && isblank_(text[l])) {
        for (k = 0; k < N; k++) if (l == k && isblank_(text[k])) l++;
        VF_ASSERT(r == text + l, "the command follows the name of the user");
        if (who == 0) { VF_ASSERT(text[2] != 0 && cl.cl_runas[0] == text[0] && cl.cl_runas[1] == text[1] && cl.cl_runas[2] == 0, "the command is run as the user named"); VF_COVER("run as"); }
        else VF_ASSERT(eq(cl.cl_runas, "o"), "only root can run commands as another user");
    } else {
        VF_ASSERT(r == text, "the command is read from its beginning");
        VF_ASSERT(eq(cl.cl_runas, "o"), "the user does not change");
        if (l > 2) VF_COVER("another word");
    }
}
#elif PART == 3 || PART == 5 || PART == 6           /* the four kinds of lines; read_field(), read_opt() and get_time() are checked in C01, C17 and C18 */
extern void read_freq(char *ptr, cf_t *cf), read_arys(char *ptr, cf_t *cf), read_period(char *ptr, cf_t *cf);
extern int read_shortcut(char *ptr, cf_t *cf);
struct passwd *h_getpwnam(const char *n) { return NULL; }
static bitstr_t *fields[6]; static int maxs[6], nf, nopt, failed, tnum; static const char **names_[6];
static time_t times[3]; static int optbits, opt_runfreq, opt_first_set; static time_t opt_first;
#if PART == 3
/* each of them reads one character and the blanks after it */
char *read_field(char *ptr, bitstr_t *ary, int max, const char **names)
{
    if (VF_BOOL("field_fails")) { failed = 1; return NULL; }
    VF_MODEL(nf < 6, "fields");
    fields[nf] = ary; maxs[nf] = max; names_[nf++] = names;
    if (*ptr) ptr++;
    while (*ptr == ' ') ptr++;
    return ptr;
}
char *get_time(char *ptr, time_t *t, int zero)
{
    if (VF_BOOL("time_fails")) { failed = 1; return NULL; }
    VF_MODEL(tnum < 3, "times");
    *t = times[tnum] = VF_I64("time");
    VF_ASSUME(*t >= 0 && (zero || *t > 0));
    tnum++;
    if (*ptr) ptr++;
    while (*ptr == ' ') ptr++;
    return ptr;
}
char *read_opt(char *ptr, cl_t *cl)
{
    int i;
    nopt++;
    if (VF_BOOL("option_fails")) { failed = 1; return NULL; }
    for (i = 0; i < 4; i++) cl->cl_option[i] = VF_U8("bits");
    cl->cl_option[1] &= 0x1f; cl->cl_option[2] &= 0xf0;
#ifdef KIND_BITS
    cl->cl_option[1] |= KIND_BITS; cl->cl_option[2] |= (KIND_BITS) >> 8;
#endif
    if (cl->cl_runfreq != 1 && VF_BOOL("runfreq")) { cl->cl_runfreq = VF_I32("n"); VF_ASSUME(cl->cl_runfreq >= 2); }
    opt_runfreq = cl->cl_runfreq;
    if (VF_BOOL("first")) { opt_first_set = 1; opt_first = cl->cl_first = VF_RANGE64("t", 0, 1l << 40); }
    cl->cl_nice = VF_U8("nice");
    for (i = 0; i < 4; i++) optbits |= (unsigned)cl->cl_option[i] << (8 * i);
    if (*ptr) ptr++;
    while (*ptr == ' ') ptr++;
    return ptr;
}
#endif
static cf_t cf;
static cl_t prev;
static void init(void)
{
    int i;
    static const cl_t none;
    default_line = none;
    default_line.cl_runas = "own"; default_line.cl_mailto = "to"; default_line.cl_tz = VF_BOOL("tz") ? "z" : NULL;
    for (i = 0; i < 4; i++) default_line.cl_option[i] = VF_U8("dbits");
    default_line.cl_option[1] &= 0x1f; default_line.cl_option[2] &= 0xf0;
    default_line.cl_nice = VF_U8("dnice"); default_line.cl_first = 0; default_line.cl_runfreq = VF_BOOL("drun") ? 3 : 0;
    default_line.cl_until = VF_I64("until");
    cf.cf_line_base = &prev; need_correction = 0; file_name = "x"; nf = tnum = nopt = failed = optbits = opt_first_set = 0; opt_runfreq = default_line.cl_runfreq;
}
/* the line just added, or NULL */
static cl_t *added(int reported)
{
    cl_t *c = cf.cf_line_base;
    if (c == &prev) { VF_ASSERT(need_correction, "a line which is not used is reported"); return NULL; }
    VF_ASSERT(!reported, "a wrong line is not used");
    VF_ASSERT(c->cl_next == &prev, "one line is added");
    VF_ASSERT(eq(c->cl_runas, "own") && eq(c->cl_mailto, "to") && eq(c->cl_tz, default_line.cl_tz) && c->cl_mailfrom == NULL, "the line has the default strings");
    VF_ASSERT(c->cl_runas != default_line.cl_runas && c->cl_mailto != default_line.cl_mailto, "the strings are its own");
    VF_ASSERT(c->cl_until == default_line.cl_until, "the line has the default options");
    return c;
}
static unsigned bits(cl_t *c) { return c->cl_option[0] | c->cl_option[1] << 8 | c->cl_option[2] << 16 | (unsigned)c->cl_option[3] << 24; }
extern const char *dows_ary[8], *mons_ary[13];
#if PART == 3
#define NFORMS (int)(sizeof(forms) / sizeof(forms[0]))
#if KIND == 0
static const char *forms[] = { "1 2 3 4 5 c", "&1 2 3 4 5 c", "&o 1 2 3 4 5 c", "& 1 2 3 4 5 c", "&777 1 2 3 4 5 c" };
#elif KIND == 1
static const char *forms[] = { "@ 1 c", "@2 1 c", "@o 1 c" };
#else
static const char *forms[] = { "%o 1 2 3 4 5 c" };
#endif
void vf_main(void)
{
    int n, i, l, e, nfields; char text[40], *cmd; cl_t *c;
    for (n = 0; n < NFORMS; n++) {
        init();
        for (l = 0; forms[n][l]; l++) text[l] = forms[n][l];
#if KIND == 2
        l = 3 + 2 * NFIELDS; text[l++] = 'c';
#endif
        e = l - 1;
        if (VF_BOOL("no_command")) text[e] = 0;
        else if (VF_BOOL("more")) { text[l++] = ' '; text[l++] = 'x'; text[l++] = ' '; }
        text[l] = 0;
#if KIND == 0
        nfields = 5;
        read_arys(text, &cf);
#elif KIND == 1
        nfields = 0;
        read_freq(text, &cf);
#else
        nfields = NFIELDS;
        read_period(text, &cf);
#endif
        c = added(failed || text[e] == 0 || (KIND == 0 && n == 1));
        if (c == NULL) {
            VF_ASSERT(failed || text[e] == 0 || (KIND == 0 && n == 1) || (KIND == 1 && times[0] + times[1] < 0) || KIND == 2, "a correct line is used");
            continue;
        }
        VF_COVER("a line is used");
        VF_ASSERT(c->cl_shell[0] == 'c' && (c->cl_shell[1] == 0 || (c->cl_shell[1] == ' ' && c->cl_shell[2] == 'x' && c->cl_shell[3] == 0)), "the command is the text after the fields, without the last blanks");
        VF_ASSERT(nf == nfields, "the documented number of fields is read");
        for (i = 0; i < nfields; i++) {
            VF_ASSERT(fields[i] == (i == 0 ? c->cl_mins : i == 1 ? c->cl_hrs : i == 2 ? c->cl_days : i == 3 ? c->cl_mons : c->cl_dow), "the fields are read in the documented order");
            VF_ASSERT(maxs[i] == (i == 0 ? 59 : i == 1 ? 23 : i == 2 ? 31 : i == 3 ? 12 : 7), "the fields have the documented limits");
            VF_ASSERT(names_[i] == (i == 3 ? mons_ary : i == 4 ? dows_ary : NULL), "names are those of months and days");
        }
        VF_ASSERT((bits(c) & ~1u) == ((nopt ? optbits : (unsigned)bits(&default_line)) & ~1u), "the options are those given");
        VF_ASSERT((bits(c) & 1) == (KIND == 1), "the line has its kind");
        VF_ASSERT(nopt || c->cl_nice == default_line.cl_nice, "the options are those given");
#if KIND == 0
        VF_ASSERT(c->cl_runfreq == (n == 4 ? 777 : opt_runfreq), "the run frequency is the one given");
        VF_ASSERT(c->cl_remain == c->cl_runfreq, "the first run is after as many matches as the next ones");
        VF_ASSERT(nopt == (n == 2), "options are read when there are some");
#elif KIND == 1
        VF_ASSERT(c->cl_runfreq == 0, "elapsed-time lines do not count matches");
        VF_ASSERT(c->cl_timefreq == times[tnum - 1] && c->cl_timefreq > 0, "the period is the one given");
        VF_ASSERT(c->cl_first == (n == 1 ? times[0] : n == 2 && opt_first_set ? opt_first : c->cl_timefreq), "the first delay is the one given, or else the period");
#else
        VF_ASSERT(c->cl_runfreq == 1 && c->cl_remain == 1, "the line runs once per period");
        VF_ASSERT(nopt == 1, "options are read");
        for (i = 0; i < 8; i++) {
            if (NFIELDS < 1) VF_ASSERT(c->cl_mins[i] == (i == 7 ? 0x0f : 0xff), "a field which is not given is full");
            if (NFIELDS < 2 && i < 3) VF_ASSERT(c->cl_hrs[i] == 0xff, "a field which is not given is full");
            if (NFIELDS < 3 && i < 4) VF_ASSERT((c->cl_days[i] | (i == 0)) == 0xff, "a field which is not given is full");
            if (NFIELDS < 4 && i < 2) VF_ASSERT(c->cl_mons[i] == (i == 1 ? 0x0f : 0xff), "a field which is not given is full");
            if (NFIELDS < 5 && i < 1) VF_ASSERT(c->cl_dow[i] == 0xff, "a field which is not given is full");
        }
#endif
    }
}
#else                                  /* PARTS 5 and 6: shortcuts */
static const struct { const char *name; unsigned long mins, hrs, days, mons, dow; unsigned set; } shc[] = {
    { "yearly", 1, 1, 2, 1, 255, 0 }, { "annually", 1, 1, 2, 1, 255, 0 }, { "monthly", 1, 1, 2, 0xfff, 255, 0 },
    { "weekly", 1, 1, 0xffffffff, 0xfff, 0x81, 0 }, { "daily", 1, 1, 0xffffffff, 0xfff, 255, 0 }, { "midnight", 1, 1, 0xffffffff, 0xfff, 255, 0 },
    { "hourly", 1, 0xffffff, 0xffffffff, 0xfff, 255, 0 }, { "reboot", 0, 0, 0, 0, 0, 1 | 1 << 28 | 1 << 29 }, { "resume", 0, 0, 0, 0, 0, 1 | 1u << 31 | 1 << 29 },
    { "dail", 9 }, { "dailyy", 9 }, { "a", 9 }, { "", 9 }, { "midnightmidnightmidnight", 9 },
};
static unsigned long set(bitstr_t *b, int n) { unsigned long m = 0; int i; for (i = 0; i < n; i++) m |= (unsigned long)b[i] << (8 * i); return m; }
void vf_main(void)
{
    int n, l, i, sp, r; char text[40]; cl_t *c; unsigned was;
    for (n = FROM; n < FROM + 5 && n < (int)(sizeof(shc) / sizeof(shc[0])); n++) {
        init();
        text[0] = '@';
        for (l = 1; shc[n].name[l - 1]; l++) text[l] = shc[n].name[l - 1];
        sp = VF_U8("after"); VF_ASSUME(sp == ' ' || sp == '\t' || sp == '(' || sp == ',' || sp == 0);
        text[l++] = sp; text[l++] = ' '; text[l++] = VF_BOOL("command") ? 'c' : 0; text[l++] = ' '; text[l] = 0;
        was = bits(&default_line);
        r = read_shortcut(text, &cf);
        if (shc[n].mins == 9) {
            VF_ASSERT(r == 0 && cf.cf_line_base == &prev && !need_correction, "another text is not a shortcut");
#if PART == 6
            VF_COVER("another word");
#endif
            continue;
        }
        VF_ASSERT(r != 0, "a shortcut is recognised");
        c = added((sp != ' ' && sp != '\t') || text[l - 2] == 0);
        if (c == NULL) { VF_ASSERT((sp != ' ' && sp != '\t') || text[l - 2] == 0, "a correct line is used"); continue; }
#if PART == 5
        VF_COVER("shortcut used");
#endif
        VF_ASSERT(c->cl_shell[0] == 'c' && c->cl_shell[1] == 0, "the command is the text after the shortcut");
        if (shc[n].set & 1) {
            VF_ASSERT(bits(c) == ((was | shc[n].set) & ~(1u << 24)), "the line runs once, when the event happens");
            VF_ASSERT(c->cl_runfreq == 0 && c->cl_first == 0 && c->cl_timefreq == LONG_MAX, "the line is not run again");
        } else {
            VF_ASSERT(bits(c) == (was & ~1u), "the line has the default options");
            VF_ASSERT(set(c->cl_mins, 8) == shc[n].mins && set(c->cl_hrs, 3) == shc[n].hrs && (set(c->cl_days, 4) | 1) == (shc[n].days | 1)
                      && set(c->cl_mons, 2) == shc[n].mons && set(c->cl_dow, 1) == shc[n].dow, "the fields are those documented");
        }
    }
}
#endif
#elif PART == 4                        /* read_file(): dispatch and limits */
#undef fdopen
#undef rewind
#undef fflush
static int nlines, pos, kinds[L + 1], seen, entries, nopts, envs, lastret, nextline;
static char first[L + 1];
static FILE *theFile;
static char opentext[2];
FILE *h_fdopen(int fd, const char *m) { return VF_BOOL("fdopen_fails") ? NULL : (FILE *)opentext; }
void h_rewind(FILE *f) { }
int h_fflush(FILE *f) { return 0; }
static int handled, wanthandler;
enum { NONE, SHORT, FREQ, ARYS, PERIOD, OPT, ENV };
static int wanted(char c) { return c == '#' || c == 0 ? NONE : c == '@' ? SHORT : c == '&' || c == '*' || (c >= '0' && c <= '9') ? ARYS : c == '%' ? PERIOD : c == '!' ? OPT : ENV; }
static int eofseen, warned;
static void check_previous(void)
{
    if (pos > 0 && lastret != ERR) VF_ASSERT(handled == wanthandler, "each line is read by its reader, once");
}
int get_line(char *str, size_t size, FILE *f)
{
    int blank = VF_BOOL("blank"); char c = VF_U8("first");
    check_previous();
    VF_ASSERT(!eofseen, "nothing is read after the end");
    VF_ASSERT(pos == 0 || line == nextline, "lines are counted");
    VF_MODEL(pos < L, "lines");
    VF_ASSUME(c != '\n' && c != ' ' && c != '\t' && (unsigned char)c < 128);
    lastret = VF_BOOL("ends") ? 999 : VF_BOOL("too_long") ? ERR : OK;
    if (pos == L - 1) VF_ASSUME(lastret == 999);
    eofseen = lastret == 999;
    if (lastret == ERR) { line++; nextline = line; pos++; need_correction = 1; return ERR; }
    nextline = line + 1;
    str[0] = ' '; str[blank] = c; str[blank + 1] = c ? 'z' : 0; str[blank + 2] = 0;
    handled = NONE; wanthandler = wanted(c);
    pos++;
    return lastret;
}
static cf_t *thecf;
static void at(char *ptr, cf_t *cf, int kind)
{
    VF_ASSERT(wanted(*ptr) == (kind == FREQ ? SHORT : kind), "lines are recognised by their first character");
    if (thecf == NULL) thecf = cf;
    VF_ASSERT(cf == thecf && cf != NULL && eq(cf->cf_user, user), "all lines go in the table of the user");
}
int read_shortcut(char *ptr, cf_t *cf) { at(ptr, cf, SHORT); VF_ASSERT(handled == NONE, "once"); if (VF_BOOL("shortcut")) { handled = SHORT; entries++; return 1; } return 0; }
void read_freq(char *ptr, cf_t *cf) { at(ptr, cf, FREQ); VF_ASSERT(handled == NONE, "once"); handled = SHORT; entries++; }
void read_arys(char *ptr, cf_t *cf) { at(ptr, cf, ARYS); VF_ASSERT(handled == NONE, "once"); handled = ARYS; entries++; }
void read_period(char *ptr, cf_t *cf) { at(ptr, cf, PERIOD); VF_ASSERT(handled == NONE, "once"); handled = PERIOD; entries++; }
void read_env(char *ptr, cf_t *cf) { at(ptr, cf, ENV); VF_ASSERT(handled == NONE, "once"); handled = ENV; }
static int optbad;
char *read_opt(char *ptr, cl_t *cl)
{
    VF_ASSERT(*ptr == '!' && cl == &default_line && handled == NONE, "options are read in the default line");
    VF_ASSERT(cl->cl_file != NULL && eq(cl->cl_runas, "own") && eq(cl->cl_mailto, "own"), "the default line belongs to the user");
    handled = OPT;
    if (VF_BOOL("option_fails")) { need_correction = 1; optbad = 1; return NULL; }
    if (VF_BOOL("garbage")) { optbad = 1; return ptr + 1; }
    while (*ptr) ptr++;
    return ptr;
}
static int envl;
env_list_t *env_list_init(void) { return (env_list_t *)&envl; }
void vf_main(void)
{
    int r; cf_t other;
    static const cf_t none;
    other = none;
    file_base = &other;
    r = read_file("x", 3);
    if (r == ERR) { VF_ASSERT(file_base == &other && pos == 0, "nothing is read when the file cannot be"); return; }
    check_previous();
    VF_ASSERT(file_base != &other && file_base->cf_next == &other && (thecf == NULL || thecf == file_base), "the table is added to the list");
    VF_ASSERT(eq(file_base->cf_user, "usr") && file_base->cf_env_list == (env_list_t *)&envl, "the table is the one of the user");
    VF_ASSERT(eofseen || entries >= MAXENTRIES, "the whole file is read, up to the maximum");
    VF_ASSERT(entries <= MAXENTRIES, "no more than the maximum of entries is read");
    if (entries == MAXENTRIES && !eofseen) { VF_ASSERT(vf_errors > 0, "reaching the maximum is reported"); VF_COVER("maximum"); }
    if (optbad) VF_ASSERT(r == 2, "an error in options is reported");
    VF_ASSERT(r == (need_correction ? 2 : OK), "the result tells whether there was an error");
    VF_COVER("file read");
}
#endif

/* C05 (CORRUPT 0): a table which is saved is read back unchanged.
 * C07 (CORRUPT 1): whatever the content of a saved table, reading it is safe.
 * The fields of the file are records here: their bytes are the subject of saverec.c. */
#include "global.h"
#include "fcron.h"
#include "save.h"
#include "conf.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up on a saved table")
#include "db_common.h"
#undef read
#undef fopen
#undef fileno
#undef fstat
#undef calloc
#undef free
int write_file_to_disk(int fd, struct cf_t *file, time_t time_date);
#if CORRUPT
#define NM (MAXR + 2)
static short rtype[1], rsize[1];
#else
#define NM 4
/* a field is kept by its type: 0 header, user, date, time difference, 4 variable, then those of each line */
#define SLOT(t) ((t) < 1000 ? (t) - 1 : (t) == S_ENVVAR_T ? 4 : 5 + 22 * wline + (t) - 2000)
#define NSLOT (5 + 22 * 2)
static short rsize[NSLOT]; static char *rstr[NSLOT]; static unsigned char rdata[NSLOT][8], present[NSLOT]; static int wline, nhead;
static short order_[NSLOT]; static int norder;      /* the slots in the file */
#endif
static int rcur = -1;
static cf_t OF, NF; static cl_t o0, o1, *const O[2] = { &o0, &o1 };
static cl_t m0, m1, m2, m3, m4, m5, m6, m7, m8, m9; static cl_t *const M[10] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9 }; static char malloced[10], mfree[10];
static env_list_t EL, NL; static env_t ENV; static int env_iter, nenv; static char *env_got;
static int rfail, deleted, flushed;
/* writing */
#if CORRUPT
static int put(int fd, short type, short size) { return 0; }
static char *rstr[1]; static unsigned char rdata[1][8];
#else
static int put(int fd, short type, short size)
{
    int k = SLOT(type);
    VF_ASSERT(fd == 3 && !flushed, "the file being saved");
    VF_ASSERT(wline < LINES && (nhead >= 3 || type == nhead + 1), "the header comes first, and nothing after the last line");
    if (nhead < 3) nhead++;
    VF_ASSERT(!present[k], "a field is written once");
    present[k] = 1; rsize[k] = size;
    if (type == S_ENDLINE_T) wline++;
    return k;
}
#endif
int save_type(int fd, short int type, char *b, int *u) { put(fd, type, 0); return OK; }
int save_str(int fd, short int type, char *str, char *b, int *u) { rstr[put(fd, type, 1)] = str ? str : ""; return OK; }
int save_strn(int fd, short int type, char *str, short int size, char *b, int *u)
{
    int i, k = put(fd, type, size);
    VF_ASSERT(size > 0 && size <= 8, "size of a field");
    for (i = 0; i < 8; i++) if (i < size) rdata[k][i] = str[i];
    return OK;
}
int save_lint(int fd, short int type, long int value, char *b, int *u)
{
    int i, k = put(fd, type, sizeof(long));
    for (i = 0; i < 8; i++) rdata[k][i] = ((unsigned char *)&value)[i];
    return OK;
}
int write_buf_to_disk(int fd, char *b, int *u) { flushed++; return OK; }
int h_fdatasync(int fd) { VF_ASSERT(fd == 3 && flushed, "everything is written before it is synchronised"); flushed++; return 0; }
env_t *env_list_first(env_list_t *l) { return l == &EL && nenv ? &ENV : NULL; }
env_t *env_list_next(env_list_t *l) { return NULL; }
/* reading */
static FILE *const FF = (FILE *)&rcur; static int opened, closed;
FILE *h_fopen(const char *n, const char *m) { if (CORRUPT && VF_BOOL("noopen")) return NULL; opened++; return FF; }
int h_fileno(FILE *f) { VF_ASSERT(f == FF && !closed, "the file being read"); return 3; }
int h_ferror(FILE *f) { return 0; }
int xfclose_check(FILE **f, const char *n) { VF_ASSERT(*f == FF && !closed, "the file is closed once"); closed++; *f = NULL; return 0; }
static int own;
int h_fstat(int fd, struct stat *s) { if (CORRUPT && VF_BOOL("nostat")) { VF_ERRNO(); return -1; } s->st_uid = own; return 0; }
static struct passwd PW; static char pwn[] = "p";
struct passwd *h_getpwuid(uid_t u) { VF_ASSERT(u == own, "the owner of the file"); if (VF_BOOL("nouser")) return NULL; PW.pw_name = pwn; return &PW; }
int is_selinux_enabled(void) { return 0; }
static int anyrec(void)         /* the next record, if any */
{
#if CORRUPT
    if (++rcur >= MAXR || VF_BOOL("end")) return 0;
    rtype[0] = VF_I32("type"); rsize[0] = VF_I32("size");
#ifdef FIRST3
    if (rcur < 3) { static const short t[3] = { S_HEADER_T, S_USER_T, S_TIMEDATE_T }; VF_ASSUME(rtype[0] == t[rcur]); if (rcur != 1) VF_ASSUME(rsize[0] == 8); }
#endif
    return 1;
#else
    return ++rcur < norder;
#endif
}
#if CORRUPT
#define RC 0
#else
#define RC order_[rcur]
#endif
int read_type(int fd, short int *type, short int *size)
{
    VF_ASSERT(fd == 3, "the file being read");
    if (!anyrec()) return ERR;
#if CORRUPT
    *type = rtype[0];
#else
    { int k = RC; VF_ASSERT(present[k], "the field is in the file"); *type = k < 4 ? k + 1 : k == 4 ? S_ENVVAR_T : (k - 5) % 22 + 2000; }
#endif
    *size = rsize[RC];
    return OK;
}
static int skipped;
long h_read(int fd, void *b, size_t n)
{
    size_t i;
    VF_ASSERT(fd == 3, "the file being read");
#if CORRUPT
    if (n == 1 && rsize[0] != 1) { if (++skipped > 3) VF_STOP(); return VF_BOOL("skip"); }
    VF_ASSERT(n <= 8, "no more is read than the variable can hold");
    if (VF_BOOL("rfail")) { rfail = 1; return VF_BOOL("cut") ? (long)n - 1 : -1; }
    for (i = 0; i < 8; i++) if (i < n) ((unsigned char *)b)[i] = VF_U8("data");
#ifdef FIRST3
    if (rcur == 0) VF_ASSUME(*(long *)b == S_FILEVERSION);
#endif
#else
    VF_ASSERT(n == (size_t)rsize[RC] && rstr[RC] == NULL, "a field is read with its size");
    for (i = 0; i < 8; i++) if (i < n) ((unsigned char *)b)[i] = rdata[RC][i];
#endif
    return n;
}
#if CORRUPT
static char sp[MAXR + 2][2];
static char *newstr(const char *v) { char *r = sp[rcur + 1 < MAXR + 1 ? rcur + 1 : 0]; r[0] = v ? v[0] : VF_U8("str"); return r; }
#else
static char sp[NSLOT][2];
static char *newstr(const char *v) { char *r = rcur < 0 ? sp[3] : sp[RC]; r[0] = v[0]; return r; }
#endif
int read_strn(int fd, char **str, short int size)
{
    VF_ASSERT(fd == 3, "the file being read");
#if CORRUPT
    if (size < 0 || VF_BOOL("sfail")) { *str = NULL; return ERR; }
    *str = newstr(NULL);
#else
    VF_ASSERT(rstr[RC] != NULL, "a string is read where one was written");
    *str = newstr(rstr[RC]);
#endif
    return OK;
}
char *strdup2(const char *s) { return s ? newstr(s) : NULL; }
void h_free(void *p)
{
    int i;
    for (i = 0; i < NM; i++) if (p == M[i]) { VF_ASSERT(malloced[i] && !mfree[i], "a line is freed once"); mfree[i]++; return; }
}
static int nal;
void *h_calloc(size_t n, size_t m)
{
#if CORRUPT
    int k = rcur < 0 ? 0 : rcur;
#else
    int k = nal++;
#endif
    VF_MODEL(n * m == sizeof(cl_t) && k < NM && !malloced[k], "lines");
    malloced[k] = 1;
    return M[k];
}
void free_line(cl_t *l) { if (l) h_free(l); }
env_list_t *env_list_init(void) { return &NL; }
env_t *env_list_putenv(env_list_t *l, char *e, int over) { VF_ASSERT(l == &NL && over == 1, "the environment of the table"); env_got = e; if (!CORRUPT) VF_ASSERT(!nenv || e[0] == ENV.e_envvar[0], "a variable is read back"); nenv += 2; return NULL; }
static cl_t *got[10]; static int ngot, refused;
static uid_t g_runas; static char *g_str; static time_t g_save; static int g_boot;
int add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *s, time_t t, int boot)
{
    VF_ASSERT(cf == &NF, "the table being read");
    g_runas = runas; g_str = s; g_save = t; g_boot = boot;
    if (CORRUPT && (cl->cl_shell == NULL || VF_BOOL("refuse"))) { refused++; return 1; }
#if CORRUPT
    ngot++;
#else
    got[ngot++] = cl;
#endif
    cl->cl_file = cf; cl->cl_next = cf->cf_line_base; cf->cf_line_base = cl;
    return 0;
}
void delete_file(const char *u)
{
    cl_t *l, *n; int k = 0;
    VF_ASSERT(file_base == &NF && u == NF.cf_user, "the table which is being read is the one removed");
    for (l = NF.cf_line_base; l && k < NM; l = n, k++) { n = l->cl_next; free_line(l); }
    file_base = NF.cf_next; deleted++;
}
#if CORRUPT
void vf_main(void)
{
    static cf_t other; int r, i, isnew = VF_BOOL("new"); char nm[] = "new.p";
    file_base = &other; rootuid = 0; own = VF_RANGE("owner", 0, 1);
    r = read_file(isnew ? nm : "p", &NF, 0);
    VF_ASSERT(file_base == &other, "a table which is being read is not in the list of tables yet");
    VF_ASSERT(closed == opened, "the file is closed");
    if (r != OK) {
        VF_ASSERT(deleted == (ngot > 0) || deleted, "the lines of a refused table are removed");
        for (i = 0; i < NM; i++) VF_ASSERT(!malloced[i] || mfree[i], "nothing is left of a refused table");
        VF_COVER("refused");
    } else {
        int seen = 0; cl_t *l;
        VF_ASSERT(!rfail && !deleted, "an error while reading is not ignored");
        VF_ASSERT(own == 0 || isnew, "a table which does not belong to root is read only when it is new");
        VF_ASSERT(NF.cf_user != NULL, "the table has an owner");
        for (l = NF.cf_line_base; l && seen <= NM; l = l->cl_next) { for (i = 0; i < NM; i++) if (l == M[i]) VF_ASSERT(!mfree[i], "the lines of the table are not freed"); seen++; }
        VF_ASSERT(seen == ngot && l == NULL, "the table holds the lines which were accepted");
        if (own) VF_ASSERT(NF.cf_user[0] == 'p', "a table of an ordinary user belongs to the owner of the file, whatever it says");
        if (ngot) VF_ASSERT(g_runas == own && (own == 0 || g_str[0] == 'p'), "the lines run as the owner of the file");
#ifdef FIRST3
        VF_COVER("accepted");
#endif
    }
}
#else
#define HAS(b) (((MASK) >> (b)) & 1)
static char st[14][2]; static int nst;
static char *anystr(int must) { char *s = st[nst++]; s[0] = VF_U8("str"); if (must) VF_ASSUME(s[0] != 0); return s; }
#define SAME(a, b) ((a)[0] == (b)[0])
void vf_main(void)
{
    int i, k; time_t t; int tz;
    now = 5;
    OF.cf_user = anystr(1); OF.cf_tzdiff = tz = VF_RANGE("tz", -24, 24); OF.cf_env_list = &EL;
    nenv = HAS(10); ENV.e_envvar = anystr(1);
    for (i = 0; i < LINES; i++) {
        cl_t *l = O[i];
        l->cl_shell = anystr(1); l->cl_runas = anystr(1); l->cl_mailto = anystr(0);
        if (HAS(7)) l->cl_mailfrom = anystr(1); else if (VF_BOOL("nofrom")) l->cl_mailfrom = "";
        if (HAS(5)) l->cl_tz = anystr(1);
        for (k = 0; k < OPTION_SIZE; k++) l->cl_option[k] = VF_U8("option");
        l->cl_nextexe = VF_I64("next"); l->cl_first = VF_I64("first"); l->cl_timefreq = VF_I64("freq"); l->cl_until = VF_I64("until");
        l->cl_numexe = VF_U8("numexe"); l->cl_nice = VF_U8("nice"); l->cl_jitter = VF_U8("jitter"); for (k = 0; k < LAVG_SIZE; k++) l->cl_lavg[k] = VF_U8("lavg");
        l->cl_runfreq = VF_I32("runfreq"); l->cl_remain = VF_I32("remain");
        for (k = 0; k < 8; k++) l->cl_mins[k] = VF_U8("mins");
        for (k = 0; k < 3; k++) l->cl_hrs[k] = VF_U8("hrs");
        for (k = 0; k < 4; k++) l->cl_days[k] = VF_U8("days");
        for (k = 0; k < 2; k++) l->cl_mons[k] = VF_U8("mons");
        l->cl_dow[0] = VF_U8("dow");
    }
    /* which of the optional values are there */
#define ONLY(b, c) VF_ASSUME(!(c) == !HAS(b))
    for (i = 0; i < LINES; i++) {
        cl_t *l = O[i];
        ONLY(0, l->cl_numexe); ONLY(1, is_lavg(l->cl_option)); ONLY(2, l->cl_until > 0); ONLY(3, l->cl_nice); ONLY(4, l->cl_runfreq); ONLY(6, l->cl_jitter); ONLY(8, is_freq(l->cl_option));
    }
    VF_ASSUME(!tz == !HAS(9));
    OF.cf_line_base = O[0]; if (LINES > 1) O[0]->cl_next = O[1];
    t = VF_I64("date");
    VF_ASSERT(write_file_to_disk(3, &OF, t) == OK && flushed == 2, "the table is written, and synchronised");
    rootuid = 0; own = 0;
    i = nenv;
    { static const short opt[12][5] = { { S_NUMEXE_T }, { S_LAVG_T }, { S_UNTIL_T }, { S_NICE_T }, { S_RUNFREQ_T, S_REMAIN_T }, { S_TZ_T }, { S_JITTER_T }, { S_MAILFROM_T } };
      static const short frq[2] = { S_FIRST_T, S_TIMEFREQ_T }, fld[5] = { S_MINS_T, S_HRS_T, S_DAYS_T, S_MONS_T, S_DOW_T }, alw[5] = { S_SHELL_T, S_RUNAS_T, S_MAILTO_T, S_OPTION_T, S_NEXTEXE_T };
      int l, n;
      order_[norder++] = 0; order_[norder++] = 1; order_[norder++] = 2;
      if (HAS(9)) order_[norder++] = 3;
      if (HAS(10)) order_[norder++] = 4;
      for (l = 0; l < LINES; l++) {
          wline = l;
          for (n = 0; n < 5; n++) order_[norder++] = SLOT(alw[n]);
          for (n = 0; n < 8; n++) for (k = 0; k < 5; k++) if (opt[n][k] && HAS(n)) order_[norder++] = SLOT(opt[n][k]);
          if (HAS(8)) for (n = 0; n < 2; n++) order_[norder++] = SLOT(frq[n]);
          else for (n = 0; n < 5; n++) order_[norder++] = SLOT(fld[n]);
          order_[norder++] = SLOT(S_ENDLINE_T);
      }
      for (k = n = 0; k < NSLOT; k++) n += present[k];
      VF_ASSERT(n == norder, "the fields written are those which are not at their default value");
    }
    VF_ASSERT(read_file("x", &NF, 1) == OK, "the table is read back");
    VF_ASSERT(nenv == 3 * i, "the variables are read back");
    VF_ASSERT(NF.cf_tzdiff == tz && SAME(NF.cf_user, OF.cf_user), "the properties of the table are read back");
    VF_ASSERT(ngot == LINES && g_save == t && g_runas == 0 && g_boot == 1, "the lines are read back, with the date of the file");
    for (i = 0; i < LINES; i++) {
        cl_t *a = O[i], *b = got[i];
        VF_ASSERT(SAME(a->cl_shell, b->cl_shell) && SAME(a->cl_runas, b->cl_runas) && SAME(a->cl_mailto, b->cl_mailto), "the strings of a line are read back");
        VF_ASSERT(a->cl_tz ? b->cl_tz && SAME(a->cl_tz, b->cl_tz) : b->cl_tz == NULL, "the time zone is read back");
        VF_ASSERT(a->cl_mailfrom && a->cl_mailfrom[0] ? b->cl_mailfrom && SAME(a->cl_mailfrom, b->cl_mailfrom) : b->cl_mailfrom == NULL, "the sender of the mails is read back");
        for (k = 0; k < OPTION_SIZE; k++) VF_ASSERT(a->cl_option[k] == b->cl_option[k], "the options are read back");
        VF_ASSERT(a->cl_nextexe == b->cl_nextexe && a->cl_numexe == b->cl_numexe && a->cl_nice == b->cl_nice && a->cl_jitter == b->cl_jitter && b->cl_until == (a->cl_until > 0 ? a->cl_until : 0), "the values of a line are read back");
        for (k = 0; k < LAVG_SIZE; k++) VF_ASSERT(b->cl_lavg[k] == (is_lavg(a->cl_option) ? a->cl_lavg[k] : 0), "the load limits are read back");
        VF_ASSERT(b->cl_runfreq == a->cl_runfreq && b->cl_remain == (a->cl_runfreq ? a->cl_remain : 0), "the frequency of runs is read back");
        if (is_freq(a->cl_option)) VF_ASSERT(a->cl_first == b->cl_first && a->cl_timefreq == b->cl_timefreq, "the delays are read back");
        else {
            for (k = 0; k < 8; k++) VF_ASSERT(a->cl_mins[k] == b->cl_mins[k], "the minutes are read back");
            for (k = 0; k < 3; k++) VF_ASSERT(a->cl_hrs[k] == b->cl_hrs[k], "the hours are read back");
            for (k = 0; k < 4; k++) VF_ASSERT(a->cl_days[k] == b->cl_days[k], "the days are read back");
            VF_ASSERT(a->cl_mons[0] == b->cl_mons[0] && a->cl_mons[1] == b->cl_mons[1] && a->cl_dow[0] == b->cl_dow[0], "the months and days of the week are read back");
        }
    }
    VF_COVER("read back");
}
#endif
int strcmp_until(const char *l, const char *r, char u) { return VF_BOOL("protected") && CORRUPT ? 0 : 1; }

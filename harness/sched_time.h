/* Model of the C library's local time: an arbitrary zone without change of its offset, for dates
 * from 2000 to 2099; the base time is the symbolic one of the harness. */
#ifndef SCHED_TIME_H
#define SCHED_TIME_H
#undef mktime
#undef localtime
#undef rand
static int mdays(int year, int mon)
{
    static const int n[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    return n[mon] + (mon == 1 && (year & 3) == 0 && year != 200);
}
/* the day of the week, without divisions */
static const unsigned char mod7[64] = { 0,1,2,3,4,5,6,0,1,2,3,4,5,6,0,1,2,3,4,5,6,0,1,2,3,4,5,6,0,1,2,3,4,5,6,0,1,2,3,4,5,6,0,1,2,3,4,5,6,0,1,2,3,4,5,6,0,1,2,3,4,5,6,0 };
static void set_dow(struct tm *t)
{
    static const unsigned char c[12] = { 0, 3, 3, 6, 1, 4, 6, 2, 5, 0, 3, 5 };   /* 0, 31, 59, ... modulo 7 */
    unsigned y = t->tm_year - 100;
    VF_MODEL(y < 64, "year");
    unsigned w = mod7[y] + mod7[(y + 3) >> 2] + c[t->tm_mon] + (t->tm_mon > 1 && (y & 3) == 0) + mod7[t->tm_mday - 1] + 6;
    t->tm_wday = mod7[w & 63];
}
#ifdef STUB_WDAY
void set_wday(struct tm *t) { set_dow(t); }
#endif
/* The clock of the model is not in seconds, but it is in order: the code under test only compares
 * such times and adds the time difference of the file to them, or less than a minute. */
#define EPOCH2000 (1L << 34)
static long enc(const struct tm *t)
{
    return EPOCH2000 + ((long)(t->tm_year - 100) << 26 | t->tm_mon << 22 | t->tm_mday << 17 | t->tm_hour << 12 | t->tm_min << 6 | t->tm_sec);
}
static long enc_year(int y) { return EPOCH2000 + ((long)(y - 100) << 26); }
static int valid(const struct tm *t)
{
    return t->tm_sec >= 0 && t->tm_sec < 60 && t->tm_min >= 0 && t->tm_min < 60 && t->tm_hour >= 0 && t->tm_hour < 24
        && t->tm_mon >= 0 && t->tm_mon < 12 && t->tm_mday >= 1 && t->tm_mday <= mdays(t->tm_year, t->tm_mon);
}
/* the time zone of the environment */
#undef getenv
static const char *tz_env, *tz_want;
char *h_getenv(const char *n) { return (char *)tz_env; }
void my_setenv_overwrite(const char *n, const char *v) { VF_ASSERT(n[0] == 'T' && n[1] == 'Z' && n[2] == 0, "TZ"); tz_env = v; }
void my_unsetenv(const char *n) { VF_ASSERT(n[0] == 'T' && n[1] == 'Z' && n[2] == 0, "TZ"); tz_env = NULL; }
static int tz_is(const char *w) { return w == NULL ? tz_env == NULL : tz_env != NULL && tz_env[0] == w[0]; }
static void tz_init(cl_t *l)
{
    orig_tz_envvar = VF_BOOL("tz_system") ? "A" : NULL;
    l->cl_tz = VF_BOOL("tz_line") ? VF_BOOL("tz_same") ? "A" : "B" : NULL;
    tz_env = orig_tz_envvar; tz_want = l->cl_tz ? l->cl_tz : orig_tz_envvar;
}
static struct tm basetm, othertm, lastmk; static time_t basetime_; static int nmk;
static void set_base(const struct tm *b, time_t t) { basetm = *b; basetime_ = t; }
time_t h_mktime(struct tm *t);
struct tm *h_localtime(const time_t *t)
{
    static struct tm res;
    VF_ASSERT(tz_is(tz_want), "the fields are in the time zone of the line");
    if (*t == basetime_) res = basetm;
    else if (*t == basetime_ + 60) { res = basetm; res.tm_min++; h_mktime(&res); }
    else {      /* any other time: any fields (they are used in messages only) */
        res.tm_year = VF_RANGE("o_year", 100, 110); res.tm_mon = VF_RANGE("o_mon", 0, 11); res.tm_mday = VF_RANGE("o_mday", 1, 28);
        res.tm_hour = VF_RANGE("o_hour", 0, 23); res.tm_min = VF_RANGE("o_min", 0, 59); res.tm_sec = VF_RANGE("o_sec", 0, 59);
        set_dow(&res); res.tm_isdst = 0;
    }
    return &res;
}
time_t h_mktime(struct tm *t)
{
    VF_ASSERT(tz_is(tz_want), "the fields are in the time zone of the line");
    VF_MODEL(t->tm_year >= 100 && t->tm_year < 300 && t->tm_mon >= 0 && t->tm_mon <= 12 && t->tm_mday >= 0 && t->tm_mday <= 60 && t->tm_hour >= 0
        && t->tm_hour <= 24 && t->tm_min >= 0 && t->tm_min <= 60 && t->tm_sec >= 0 && t->tm_sec <= 60, "date");
    if (t->tm_sec == 60) { t->tm_sec = 0; t->tm_min++; }
    if (t->tm_min >= 60) { t->tm_min -= 60; t->tm_hour++; }
    if (t->tm_hour >= 24) { t->tm_hour -= 24; t->tm_mday++; }
    if (t->tm_mon == 12) { t->tm_mon = 0; t->tm_year++; }
    if (t->tm_mday > mdays(t->tm_year, t->tm_mon)) { t->tm_mday -= mdays(t->tm_year, t->tm_mon); t->tm_mon++; }
    if (t->tm_mon == 12) { t->tm_mon = 0; t->tm_year++; }
    if (t->tm_mday > mdays(t->tm_year, t->tm_mon)) { t->tm_mday -= mdays(t->tm_year, t->tm_mon); t->tm_mon++; }
    t->tm_isdst = 0;
    set_dow(t);
    lastmk = *t; nmk++;
    return enc(t);
}
#endif

/* C02, calendar arithmetic: lengths of months, days of the week, local times around changes of the
 * offset of the zone, and the random delay of a line. */
#include "db_common.h"
extern int get_nb_mdays(int year, int mon);
extern int is_leap_year(int year);
extern void set_wday(struct tm *date);
extern time_t mktime_no_dst(struct tm *t);
static int ref_mdays(int y, int mon)
{
    static const int n[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    return n[mon] + (mon == 1 && y % 4 == 0 && (y % 100 != 0 || y % 400 == 0));
}
#undef mktime
#undef localtime
#undef rand
#if PART == 0
void vf_main(void)
{
    int y = VF_RANGE("y", 1970, 2400), m = VF_RANGE("m", 0, 11);
    VF_ASSERT(get_nb_mdays(y, m) == ref_mdays(y, m), "every month has its number of days");
    VF_COVER("month");
}
#elif PART == 1                         /* the day of the week, by induction on the days */
void vf_main(void)
{
    struct tm t; int y, w, m, d;
    t.tm_year = FROM; t.tm_mon = 0; t.tm_mday = 1; t.tm_wday = -1;
    set_wday(&t);
    VF_ASSERT(FROM != 100 || t.tm_wday == 6, "2000-01-01 was a Saturday");
    m = VF_RANGE("mon", 0, 11); d = VF_RANGE("mday", 1, 31);
    for (y = FROM; y < FROM + N; y++) {
        if (d <= ref_mdays(y + 1900, m)) {
            t.tm_year = y; t.tm_mon = m; t.tm_mday = d;
            set_wday(&t); w = t.tm_wday;
            VF_ASSERT(w >= 0 && w < 7 && t.tm_year == y && t.tm_mon == m && t.tm_mday == d, "the day of the week is a valid one and the date does not change");
            if (d < ref_mdays(y + 1900, m)) { t.tm_mday = d + 1; set_wday(&t); }
            else if (m < 11) { t.tm_mday = 1; t.tm_mon = m + 1; set_wday(&t); }
            else { t.tm_mday = 1; t.tm_mon = 0; t.tm_year = y + 1; set_wday(&t); }
            VF_ASSERT(t.tm_wday == (w == 6 ? 0 : w + 1), "each day is the one after the day before");
        }
    }
    VF_COVER("days");
}
#elif PART == 2                         /* one change of the offset: the 2nd day of a month, at a full or half hour */
static long chg; static int gap, shift;      /* moment (seconds, standard time), kind: 1 forward, 0 backward */
static long sec(const struct tm *t) { return ((t->tm_mday * 24L + t->tm_hour) * 60 + t->tm_min) * 60 + t->tm_sec; }
static int dst_at(long u) { return (u >= chg) == gap; }
static void fields(struct tm *t, long u)
{
    long l = u + (dst_at(u) ? shift : 0);
    t->tm_mday = VF_RANGE("f_mday", 0, 4); t->tm_hour = VF_RANGE("f_hour", 0, 23); t->tm_min = VF_RANGE("f_min", 0, 59); t->tm_sec = VF_RANGE("f_sec", 0, 59);
    VF_ASSUME(sec(t) == l);
    t->tm_isdst = dst_at(u);
}
time_t h_mktime(struct tm *t)
{
    long u = sec(t) - (t->tm_isdst ? shift : 0);
    fields(t, u);
    return u;
}
void vf_main(void)
{
    struct tm t, w; time_t r; long l, a, b;
    gap = VF_BOOL("forward"); shift = VF_BOOL("half") ? 1800 : 3600;
    chg = ((2 * 24L + VF_RANGE("c_hour", 0, 23)) * 60 + (shift == 3600 && VF_BOOL("c_half") ? 30 : 0)) * 60;
    t.tm_year = 110; t.tm_mon = 5; t.tm_wday = 3;
    t.tm_mday = VF_RANGE("mday", 1, 3); t.tm_hour = VF_RANGE("hour", 0, 23); t.tm_min = VF_RANGE("min", 0, 59); t.tm_sec = VF_RANGE("sec", 0, 59);
    t.tm_isdst = VF_BOOL("isdst"); w = t;
    l = sec(&t);
    r = mktime_no_dst(&t);
    a = l; b = l - shift;              /* what the time is, in standard and in summer time */
    if (!dst_at(a) || dst_at(b)) {
        VF_ASSERT((r == a && !dst_at(a)) || (r == b && dst_at(b)), "a local time which exists is the one asked for");
        VF_ASSERT(t.tm_mday == w.tm_mday && t.tm_hour == w.tm_hour && t.tm_min == w.tm_min && t.tm_sec == w.tm_sec, "the fields do not change");
        VF_COVER("exists");
    }
    else {
        VF_ASSERT(gap, "model");
        VF_ASSERT(r == a, "a local time which does not exist is the one after the change");
        VF_ASSERT(sec(&t) == l + shift, "the fields are moved by the change");
        VF_COVER("skipped");
    }
}
#else                                   /* jitter */
#include "sched_time.h"
static cl_t L; static cf_t F; static int queued;
void insert_nextexe(struct cl_t *line) { queued++; }
int h_rand(void) { return VF_RANGE("rand", 0, RAND_MAX); }
void vf_main(void)
{
    struct tm b; time_t tb, base; int j;
    b.tm_year = 103; b.tm_mon = 3; b.tm_mday = 4; b.tm_hour = 5; b.tm_min = VF_RANGE("min", 0, 58); b.tm_sec = 0; b.tm_isdst = 0; set_dow(&b);
    tb = enc(&b); set_base(&b, tb); now = tb;
    L.cl_file = &F; L.cl_shell = "c"; set_td(L.cl_option); set_dayand(L.cl_option);
    L.cl_jitter = VF_RANGE("jitter", 0, 255); j = L.cl_jitter;
    bit_nset(L.cl_mins, 0, 59) bit_nset(L.cl_hrs, 0, 23) bit_nset(L.cl_days, 1, 31) bit_nset(L.cl_mons, 0, 11) bit_nset(L.cl_dow, 0, 7)
    tz_env = tz_want = orig_tz_envvar;
    set_next_exe(&L, STD, -1);
    b.tm_min++; base = enc(&b);
    VF_ASSERT(L.cl_nextexe >= base && L.cl_nextexe <= base + j, "a line runs at most its jitter after its time");
    VF_COVER("jitter");
}
#endif

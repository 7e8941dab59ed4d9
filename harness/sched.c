/* C02: the next execution of a line with the five classic fields. */
#include "db_common.h"
#include "sched_time.h"
static cl_t L; static cf_t F; static int queued, qbad; static time_t qtime;
void insert_nextexe(struct cl_t *line) { queued++; if (line != &L) qbad = 1; qtime = line->cl_nextexe; }
int h_rand(void) { return VF_RANGE("rand", 0, RAND_MAX); }
#ifndef DAYS3
#define DAYS3 0
#endif
#ifndef MONLO
#define MONLO 0
#define MONHI 11
#endif
#ifndef MINHOUR
#define MINHOUR 0
#endif
#ifndef MINMIN
#define MINMIN 0
#endif
static int matches(const struct tm *t)
{
    int d = bit_test(L.cl_days, t->tm_mday) != 0, w = bit_test(L.cl_dow, t->tm_wday) != 0;
    return bit_test(L.cl_mins, t->tm_min) && bit_test(L.cl_hrs, t->tm_hour) && bit_test(L.cl_mons, t->tm_mon)
        && (is_dayand(L.cl_option) ? d && w : d || w);
}
static void symbits(bitstr_t *s, int n, int full)
{
    int i;
    for (i = 0; i < (n + 7) / 8; i++) s[i] = full ? 0xff : VF_U8("set");
    if (n % 8) s[n / 8] &= (1 << (n % 8)) - 1;
}
void vf_main(void)
{
    struct tm b, q, r; time_t tb; int tz, i; char opt;
    b.tm_year = BASEYEAR; b.tm_mon = VF_RANGE("mon", MONLO, MONHI); b.tm_mday = VF_RANGE("mday", 1, 31);
    VF_ASSUME(b.tm_mday <= mdays(b.tm_year, b.tm_mon));
    b.tm_hour = VF_RANGE("hour", MINHOUR, 23); b.tm_min = VF_RANGE("min", MINMIN, 59); b.tm_sec = VF_RANGE("sec", 0, 59);
    b.tm_isdst = 0; set_dow(&b);
#ifdef FIXBASE
    FIXBASE
#endif
    tb = enc(&b);
    tz = VF_RANGE("tzdiff", -24, 24);
    set_base(&b, tb);
    F.cf_tzdiff = tz; L.cl_file = &F; L.cl_shell = "c"; L.cl_runfreq = VF_BOOL("freq") ? 3 : 0;
    tz_init(&L);
    set_td(L.cl_option);
    if (DAYOR) set_dayor(L.cl_option); else set_dayand(L.cl_option);
    first_sleep = VF_BOOL("first_sleep") ? 20 : 0;
    opt = VF_RANGE("option", 0, 4); VF_ASSUME(opt != 3);
    now = tb + tz * 3600;
    if (opt & FROM_CUR_NEXTEXE) { L.cl_nextexe = now; now -= VF_RANGE("before", 0, 100000); }
    symbits(L.cl_mins, 60, 0); symbits(L.cl_hrs, 24, 0); symbits(L.cl_days, 32, SLICE == 0); symbits(L.cl_mons, 12, SLICE == 0); symbits(L.cl_dow, 8, SLICE == 0);
    VF_ASSUME(!bit_test(L.cl_dow, 0) == !bit_test(L.cl_dow, 7));   /* the reader sets both */
    if (SLICE >= 1) {      /* the time of the day is limited to the first and last two hours and minutes */
        for (i = 2; i < 22; i++) bit_clear(L.cl_hrs, i);
        for (i = 2; i < 58; i++) bit_clear(L.cl_mins, i);
        VF_ASSUME(L.cl_hrs[0] & 3); VF_ASSUME(L.cl_mins[0] & 3);
    }
#ifdef DAYSET          /* 1: up to three days, 2: seven days in a row, 3: all days */
    if (DAYSET == 3) bit_nset(L.cl_days, 1, 31)
    else {
        int k = VF_RANGE("day1", 1, 31), k2 = VF_RANGE("day2", 1, 31), k3 = DAYS3 ? VF_RANGE("day3", 1, 31) : k;
        bit_nclear(L.cl_days, 0, 31)
        if (DAYSET == 1) { bit_set(L.cl_days, k); bit_set(L.cl_days, k2); bit_set(L.cl_days, k3); }
        else for (i = 1; i < 32; i++) if (i >= k && i < k + 7) bit_set(L.cl_days, i);
    }
#endif
#ifdef FIXSETS
    FIXSETS
#endif
    if (SLICE == 0) { VF_ASSUME(L.cl_hrs[0] | L.cl_hrs[1] | L.cl_hrs[2]); VF_ASSUME(L.cl_mins[0] | L.cl_mins[1] | L.cl_mins[2] | L.cl_mins[3] | L.cl_mins[4] | L.cl_mins[5] | L.cl_mins[6] | L.cl_mins[7]); }
#ifdef WITNESS      /* the search is limited: something matches within that number of months */
    {
        struct tm w;
        w.tm_year = VF_RANGE("wy", BASEYEAR, BASEYEAR + YEARS); w.tm_mon = VF_RANGE("wmo", 0, 11); w.tm_mday = VF_RANGE("wd", 1, 31);
        VF_ASSUME(w.tm_mday <= mdays(w.tm_year, w.tm_mon));
        w.tm_hour = VF_RANGE("wh", 0, 1); w.tm_min = VF_RANGE("wm", 0, 1); w.tm_sec = 0; set_dow(&w);
        VF_ASSUME(enc(&w) > tb && (YEARS > 1 || (w.tm_year - b.tm_year) * 12 + w.tm_mon - b.tm_mon <= WITNESS));
        VF_ASSUME(matches(&w));
    }
#endif
    set_next_exe(&L, opt, -1);
    VF_ASSERT(tz_is(orig_tz_envvar), "the time zone is restored");
    VF_ASSERT(queued == 1 && !qbad, "the line is put in the queue, once");
    VF_ASSERT(qtime == L.cl_nextexe, "the line is queued with its final time");
    VF_ASSERT(L.cl_nextexe > now, "the next execution is in the future");
    /* any minute after the base */
    q.tm_year = VF_RANGE("y", BASEYEAR, BASEYEAR + YEARS); q.tm_mon = VF_RANGE("mo", 0, 11); q.tm_mday = VF_RANGE("d", 1, 31);
    VF_ASSUME(q.tm_mday <= mdays(q.tm_year, q.tm_mon));
    q.tm_hour = VF_RANGE("h", 0, 23); q.tm_min = VF_RANGE("m", 0, 59); q.tm_sec = 0; set_dow(&q);
    VF_ASSUME(enc(&q) > tb);
    VF_ASSERT(nmk > 0, "a time is computed");
    if (vf_errors) {       /* nothing within the supported number of years */
        VF_ASSERT(L.cl_nextexe >= enc_year(BASEYEAR + MAXYEAR_SCHEDULE_TIME - 1), "a line which never matches is not run");
        if (enc(&q) < enc_year(BASEYEAR + MAXYEAR_SCHEDULE_TIME)) VF_ASSERT(!matches(&q), "a line which matches is scheduled");
#ifdef NEVER
        VF_COVER("never");
#endif
        return;
    }
    r = lastmk; set_dow(&r);
    VF_ASSERT(L.cl_nextexe == enc(&r) + tz * 3600, "the time is the one computed, shifted by the time difference");
    VF_ASSERT(valid(&r) && r.tm_sec == 0, "the time is a valid one");
    VF_ASSERT(matches(&r), "the time matches the fields");
    if (enc(&q) < enc(&r)) VF_ASSERT(!matches(&q), "no matching minute is skipped");
#ifndef NEVER
    VF_COVER("scheduled");
#endif
}

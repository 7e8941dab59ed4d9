/* C03: lines which run once per period or interval. */
#include "db_common.h"
#include "sched_time.h"
static cl_t L; static cf_t F; static int queued, qbad; static time_t qtime;
void insert_nextexe(struct cl_t *line) { queued++; if (line != &L) qbad = 1; qtime = line->cl_nextexe; }
int h_rand(void) { return VF_RANGE("rand", 0, RAND_MAX); }
#ifndef BLO
#define BLO 0, 1, 0, 0
#endif
#ifndef BHI
#define BHI 11, 31, 23, 59
#endif
static const int blo[4] = { BLO }, bhi[4] = { BHI };
#ifndef PERIOD
#define PERIOD 0
#endif
#ifndef IGN
#define IGN 0
#endif
#ifndef RANDOM
#define RANDOM 0
#endif
#ifndef MAXSTEP
#define MAXSTEP 1
#endif
static int match(const struct tm *t, int ignore)       /* ignore: bits 0 minutes, 1 hours, 2 days, 3 months, 4 days of the week */
{
    int d = (ignore & 4) || bit_test(L.cl_days, t->tm_mday) != 0, w = (ignore & 16) || bit_test(L.cl_dow, t->tm_wday) != 0;
    return ((ignore & 1) || bit_test(L.cl_mins, t->tm_min)) && ((ignore & 2) || bit_test(L.cl_hrs, t->tm_hour)) && ((ignore & 8) || bit_test(L.cl_mons, t->tm_mon))
        && (is_dayand(L.cl_option) ? d && w : d || w);
}
static void symbits(bitstr_t *s, int n, int full)
{
    int i;
    for (i = 0; i < (n + 7) / 8; i++) s[i] = full ? 0xff : VF_U8("set");
    if (n % 8) s[n / 8] &= (1 << (n % 8)) - 1;
}
static struct tm norm(struct tm t)      /* one field is too big by at most one unit of the next one */
{
    int max;
    if (t.tm_min >= 60) { t.tm_min -= 60; t.tm_hour++; }
    if (t.tm_hour >= 24) { t.tm_hour -= 24; t.tm_mday++; }
    max = mdays(t.tm_year, t.tm_mon > 11 ? 0 : t.tm_mon);
    if (t.tm_mday > max) { t.tm_mday -= max; t.tm_mon++; }
    if (t.tm_mon > 11) { t.tm_mon = 0; t.tm_year++; }
    set_dow(&t);
    return t;
}
static struct tm next_period(struct tm t)        /* the beginning of the first period after t */
{
    t.tm_sec = 0;
    switch (PERIOD) {
    case 1: t.tm_min = 0; t.tm_hour++; break;                                           /* hourly */
    case 2: if (t.tm_min >= 30) t.tm_hour++; t.tm_min = 30; break;                      /* midhourly */
    case 3: t.tm_min = t.tm_hour = 0; t.tm_mday++; break;                               /* daily */
    case 4: if (t.tm_hour >= 12) t.tm_mday++; t.tm_min = 0; t.tm_hour = 12; break;      /* middaily */
    case 5: t.tm_min = t.tm_hour = 0; t.tm_mday = 1; t.tm_mon++; break;                 /* monthly */
    case 6: if (t.tm_mday >= 15) t.tm_mon++; t.tm_min = t.tm_hour = 0; t.tm_mday = 15; break;
    case 7: t.tm_mday += t.tm_wday == 0 ? 1 : 8 - t.tm_wday; t.tm_min = t.tm_hour = 0; break;    /* from Monday */
    case 8: t.tm_mday += t.tm_wday < 4 ? 4 - t.tm_wday : 11 - t.tm_wday; t.tm_min = t.tm_hour = 0; break;    /* from Thursday */
    }
    return norm(t);
}
static struct tm prev_unit(struct tm t)          /* the minute, hour or day before the one of t, according to the fields to ignore */
{
    if (!(IGN & 1) && t.tm_min-- > 0) goto ok;
    if (!(IGN & 1)) t.tm_min = 59;
    if (!(IGN & 2) && t.tm_hour-- > 0) goto ok;
    if (!(IGN & 2)) t.tm_hour = 23;
    if (t.tm_mday-- > 1) goto ok;
    if (t.tm_mon-- == 0) { t.tm_mon = 11; t.tm_year--; }
    t.tm_mday = mdays(t.tm_year, t.tm_mon);
ok:
    set_dow(&t);
    return t;
}
static struct tm any_minute(void)
{
    struct tm q;
    q.tm_year = VF_RANGE("y", BASEYEAR, BASEYEAR + 1); q.tm_mon = VF_RANGE("mo", 0, 11); q.tm_mday = VF_RANGE("d", 1, 31);
    VF_ASSUME(q.tm_mday <= mdays(q.tm_year, q.tm_mon));
    q.tm_hour = VF_RANGE("h", 0, 23); q.tm_min = VF_RANGE("m", 0, 59); q.tm_sec = 0; q.tm_isdst = 0; set_dow(&q);
    return q;
}
void vf_main(void)
{
    struct tm b, r, q, e; time_t tb; int tz = 0, i; char opt;
    b.tm_year = BASEYEAR; b.tm_mon = VF_RANGE("mon", blo[0], bhi[0]); b.tm_mday = VF_RANGE("mday", blo[1], bhi[1]);
    VF_ASSUME(b.tm_mday <= mdays(b.tm_year, b.tm_mon));
    b.tm_hour = VF_RANGE("hour", blo[2], bhi[2]); b.tm_min = VF_RANGE("min", blo[3], bhi[3]); b.tm_sec = VF_RANGE("sec", 0, 59);
    b.tm_isdst = 0; set_dow(&b);
    tb = enc(&b);
#if !RANDOM
    tz = VF_RANGE("tzdiff", -24, 24);
#endif
    set_base(&b, tb);
    F.cf_tzdiff = tz; L.cl_file = &F; L.cl_shell = "c"; L.cl_runfreq = L.cl_remain = 1;
    tz_init(&L);
    set_td(L.cl_option);
#if PERIOD
    { static const int bit[9] = { 0, 1, 1, 2, 2, 4, 4, 8, 8 };
      set_freq_periodically(L.cl_option);
      if (bit[PERIOD] == 1) set_freq_hrs(L.cl_option);
      if (bit[PERIOD] == 2) set_freq_days(L.cl_option);
      if (bit[PERIOD] == 4) set_freq_mons(L.cl_option);
      if (bit[PERIOD] == 8) set_freq_dow(L.cl_option);
      if (PERIOD % 2 == 0) set_freq_mid(L.cl_option); }
    { static const char keep[9] = { 0, 1, 1, 3, 3, 7, 7, 3, 3 };
      symbits(L.cl_mins, 60, 0); symbits(L.cl_hrs, 24, !(keep[PERIOD] & 2)); symbits(L.cl_days, 32, !(keep[PERIOD] & 4)); symbits(L.cl_mons, 12, 1); symbits(L.cl_dow, 8, 1); }
#else
    if (IGN & 1) set_freq_mins(L.cl_option);
    if (IGN & 2) set_freq_hrs(L.cl_option);
    if (IGN & 4) set_freq_days(L.cl_option);
    if (IGN & 8) set_freq_mons(L.cl_option);
    symbits(L.cl_mins, 60, 0); symbits(L.cl_hrs, 24, 0); symbits(L.cl_days, 32, 0); symbits(L.cl_mons, 12, 0); symbits(L.cl_dow, 8, 0);
#endif
    VF_ASSUME(!bit_test(L.cl_dow, 0) == !bit_test(L.cl_dow, 7));
    bit_set(L.cl_days, 0);
    if (DAYOR) set_dayor(L.cl_option); else set_dayand(L.cl_option);
#ifdef FIXSETS
    FIXSETS
#endif
    first_sleep = RANDOM + 0 == 1 || VF_BOOL("first_sleep") ? 20 : 0;
    now = tb + tz * 3600;
#ifdef WITNESS          /* the search is limited */
    e = any_minute(); VF_ASSUME(enc(&e) > tb && match(&e, 0) && e.tm_year == BASEYEAR); VF_ASSUME(WITNESS);
    if (!PERIOD) { struct tm x = any_minute(); VF_ASSUME(enc(&x) > tb && enc(&x) <= enc(&e) && !match(&x, IGN)); VF_ASSUME(WITNESSX); }
#endif
#if RANDOM
    set_random(L.cl_option);
    set_next_exe(&L, NO_GOTO_LOG, -1);
#else
    set_next_exe(&L, STD, -1);
#endif
    VF_ASSERT(tz_is(orig_tz_envvar), "the time zone is restored");
    VF_ASSERT(queued == 1 && !qbad && qtime == L.cl_nextexe, "the line is put in the queue, once, with its final time");
    VF_ASSERT(L.cl_nextexe > now, "the next execution is in the future");
    VF_ASSERT(vf_errors == 0, "the search ends");
#if RANDOM
    /* the execution is at any time from the first matching minute to the end of the interval */
    q = any_minute(); e = any_minute();
    VF_ASSUME(match(&e, 0) && enc(&e) > tb && enc(&e) <= enc(&q) && enc(&q) <= L.cl_nextexe);
    VF_ASSERT(match(&q, 0), "the random time is in the first interval");
    if (PERIOD) { struct tm n = next_period(e); VF_ASSERT(enc(&q) < enc(&n), "the random time is in the first period"); }
    VF_COVER("random");
#else
    r = lastmk; set_dow(&r);
    VF_ASSERT(L.cl_nextexe == enc(&r) + tz * 3600, "the time is the one computed, shifted by the time difference");
    VF_ASSERT(valid(&r) && match(&r, 0), "the time matches the fields");
#if PERIOD
    q = any_minute();
    VF_ASSUME(enc(&q) < enc(&r) && enc(&q) > tb && match(&q, 0));
    e = next_period(b);
    VF_ASSERT(enc(&r) >= enc(&e), "the line does not run twice in the same period");
    VF_ASSERT(r.tm_sec == 0, "the line runs at the beginning of the minute");
    VF_ASSERT(enc(&q) < enc(&e), "no period is skipped");
#else
    VF_ASSERT(r.tm_sec == 0, "the line runs at the beginning of the minute");
    e = prev_unit(r);
    VF_ASSERT(!match(&e, IGN), "the line does not run twice in the same interval");
    q = any_minute();
    VF_ASSUME(enc(&q) < enc(&r) && enc(&q) > tb && match(&q, 0));
    e = any_minute();
    VF_ASSUME(enc(&e) <= enc(&q) && enc(&e) > tb);
    VF_ASSERT(match(&e, IGN), "no interval is skipped");
#endif
    VF_COVER("scheduled");
#endif
}

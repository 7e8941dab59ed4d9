/* C04: what is done with a line when the daemon starts, a table is loaded or the system resumes (WHAT 0),
 * the next execution of a line based on elapsed time (WHAT 1), the report of executions missed (WHAT 2). */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up on a line")
#include "db_common.h"
#undef localtime
static cl_t L; static cf_t F; static struct tm TM, TM2;
static int inserts, inlavg, inserial, computed, notrun, mailed, tzdepth; static char how; static time_t ins_at, since; static time_t old;
#define TZ_IN() (tzdepth)
int switch_timezone(const char *o, const char *d) { VF_ASSERT(tzdepth == 0 && d == L.cl_tz, "the time zone of the line"); if (!d) return 0; tzdepth = 1; return 1; }
void switch_back_timezone(const char *o) { VF_ASSERT(tzdepth == 1, "back from the time zone of the line"); tzdepth = 0; }
static time_t lt_arg; static int lt_tz;
struct tm *h_localtime(const time_t *t) { VF_ASSERT(*t <= 67767976233532799L && *t >= -67768040609740800L, "a time which has a date"); lt_arg = *t; lt_tz = tzdepth; TM.tm_sec = *t & 63; return &TM; }
void insert_nextexe(cl_t *l) { VF_ASSERT(l == &L, "the line"); inserts++; ins_at = l->cl_nextexe; }
#if WHAT == 0
void set_next_exe(cl_t *l, char o, int fd) { VF_ASSERT(l == &L && fd < 0, "the line"); computed++; how = o; L.cl_nextexe = now + VF_RANGE("next", 1, 1000000); insert_nextexe(l); }
void set_next_exe_notrun(cl_t *l, char c)
{
    VF_ASSERT(l == &L && L.cl_nextexe == old && !notrun && (c == SYSDOWN || c == SYSDOWN_RUNATREBOOT), "executions missed are found out from the time planned");
    notrun = c;
    if (c == SYSDOWN_RUNATREBOOT) L.cl_nextexe = now; else { L.cl_nextexe = now + VF_RANGE("next", 1, 1000000); insert_nextexe(l); }
}
void mail_notrun_time_t(cl_t *l, char c, time_t t) { VF_ASSERT(l == &L && c == SYSDOWN, "the line"); mailed++; since = t; VF_ASSERT(L.cl_nextexe >= now, "the next execution is known when the user is told"); }
void add_lavg_job(cl_t *l, int fd) { VF_ASSERT(l == &L && is_lavg(L.cl_option), "a line with load limits"); if (L.cl_numexe > 0 ? !VF_BOOL("several") : VF_BOOL("full")) return; inlavg++; L.cl_numexe++; }
void add_serial_job(cl_t *l, int fd) { VF_ASSERT(l == &L && (is_serial(L.cl_option) || is_serial_once(L.cl_option)), "a serial line"); if (L.cl_numexe > 0 ? !VF_BOOL("several") : VF_BOOL("full")) return; inserial++; L.cl_numexe++; }
#endif
#if WHAT == 3
static time_t prev, period; static int ctx_, moved_;
void set_next_exe(cl_t *l, char o, int fd) { VF_ASSERT(l == &L && fd < 0 && moved_, "the line"); VF_ASSERT(ctx_ == LAVG ? o == NO_GOTO_LOG : ctx_ == SYSDOWN && o == NO_GOTO, "the next match from now"); computed++; L.cl_nextexe = now + VF_RANGE("next", 1, 1000000); insert_nextexe(l); }
void move_time_to(int where, cl_t *l, struct tm *t) { VF_ASSERT(where == 11 && l == &L && !moved_ && lt_arg == prev && lt_tz == (L.cl_tz != NULL) && t != &TM, "the next period after the one missed"); moved_ = 1; TM.tm_sec = 99; }
time_t mktime_no_dst(struct tm *t) { VF_ASSERT(moved_, "order"); return period; }
void mail_notrun(cl_t *l, char c, struct tm *s) { VF_ASSERT(l == &L && c == ctx_ && !mailed && s->tm_sec == (int)(prev & 63), "the user is told since when the line has not run"); mailed++; }
#endif
#if WHAT == 2
void mail_notrun(cl_t *l, char c, struct tm *s)
{
    VF_ASSERT(l == &L && c == SYSDOWN && !mailed, "the user is told once");
    VF_ASSERT(lt_arg == old && s->tm_sec == (int)(old & 63), "the user is told since when the line has not run");
    VF_ASSERT(lt_tz == (L.cl_tz != NULL), "the time is given in the time zone of the line");
    mailed++;
}
#endif
void vf_main(void)
{
    int i, ctx, td, hasrun, forced, fresh, stopped, once0, serial; time_t d, moved; unsigned char num0; unsigned short rem0;
    for (i = 0; i < OPTION_SIZE; i++) L.cl_option[i] = VF_U8("opt");
    L.cl_file = &F; L.cl_shell = "s"; F.cf_user = "u";
    L.cl_tz = VF_BOOL("tz") ? "Z" : NULL;
    now = VF_RANGE64("now", 1000000, 4000000000L);
    L.cl_nextexe = old = VF_RANGE64("planned", 0, TIME_T_MAX);
    L.cl_first = VF_I64("first"); VF_ASSUME(L.cl_first >= 0);
    L.cl_timefreq = VF_I64("freq"); 
    td = is_td(L.cl_option);
    once0 = is_serial_once(L.cl_option); serial = is_serial(L.cl_option);
#if WHAT == 2
    mail_notrun_time_t(&L, SYSDOWN, (old = VF_RANGE64("missed", 0, 4000000000L)));
    VF_ASSERT(mailed == 1 && !tzdepth, "the user is told once");
    VF_COVER("told");
#elif WHAT == 3
    { int k = VF_RANGE("why", 0, 2);
    static const int C[3] = { LAVG, SYSDOWN, SYSDOWN_RUNATREBOOT };
    ctx_ = C[k]; F.cf_tzdiff = VF_RANGE("tzdiff", -24, 24); old = VF_RANGE64("missed", 1000000, 4000000000L); L.cl_nextexe = old;
    prev = (k == 0 ? now : old) - F.cf_tzdiff * 3600; period = VF_RANGE64("period", 900000, 4000000000L);
    set_next_exe_notrun(&L, ctx_);
    if (k == 2) VF_ASSERT(L.cl_nextexe == now && !computed, "run at once"); else VF_ASSERT(computed == 1, "a new time");
    VF_ASSERT(mailed == (L.cl_nextexe >= period + F.cf_tzdiff * 3600), "the user is told exactly when a whole period was missed");
    VF_ASSERT(!tzdepth, "back to the time zone");
    if (mailed) VF_COVER("told"); else VF_COVER("not told"); }
#elif WHAT == 1
    { int from = VF_BOOL("from"); time_t base = from ? old : now;
    VF_ASSUME(L.cl_timefreq >= 1 && !td);
    set_next_exe(&L, from ? FROM_CUR_NEXTEXE : STD, -1);
    VF_ASSERT(L.cl_nextexe == (L.cl_timefreq > TIME_T_MAX - base ? TIME_T_MAX : base + L.cl_timefreq), "the line runs next after its delay");
    VF_ASSERT(inserts == 1 && ins_at == L.cl_nextexe && !tzdepth, "the line is put in the queue with its new time");
    VF_COVER("next"); }
#else
    if (TD == 1) { VF_ASSUME(td); } else { VF_ASSUME(!td); }
    ctx = VF_RANGE("context", CONTEXT_DEFAULT, CONTEXT_RESUME);
    fresh = ctx != CONTEXT_RESUME && VF_BOOL("fresh");
    d = fresh ? now : VF_RANGE64("asleep", -1000000, 900000);
    if (ctx == CONTEXT_RESUME) VF_ASSUME(d >= 0);
    L.cl_numexe = num0 = VF_RANGE("running", 0, 2); L.cl_runfreq = VF_RANGE("runfreq", 0, 3); L.cl_remain = rem0 = VF_RANGE("remain", 0, 3);
    /* a table from fcrontab has no time yet; a line is marked so only while it is queued or runs */
    if (fresh) { VF_ASSUME(num0 == 0); if (td) VF_ASSUME(old == 0); }
    if (once0) VF_ASSUME(num0 > 0 && !is_lavg(L.cl_option));
    VF_ASSUME(!(ctx == CONTEXT_RESUME && old == 0));
    hasrun = is_hasrun(L.cl_option);
    if (ctx == CONTEXT_BOOT || (ctx == CONTEXT_DEFAULT && is_volatile(L.cl_option)) || (ctx == CONTEXT_RESUME && is_runatresume(L.cl_option))) hasrun = 0;
    forced = (ctx == CONTEXT_BOOT && is_runatreboot(L.cl_option)) || (ctx == CONTEXT_RESUME && is_runatresume(L.cl_option));
    stopped = ctx != CONTEXT_RESUME && num0 > 0;
    set_next_exe_startup(&L, ctx, d);
    /* jobs which were running or waiting when the daemon stopped */
    if (ctx != CONTEXT_RESUME) VF_ASSERT(L.cl_numexe == inlavg + inserial, "a job which was stopped does not count as running");
    if (stopped && !(ctx == CONTEXT_BOOT && is_runatreboot(L.cl_option)) && !is_bootrun(L.cl_option)) {
        if (is_lavg(L.cl_option)) VF_ASSERT(inserial == 0 && (is_strict(L.cl_option) ? inlavg == 0 : inlavg <= 1), "a job which was waiting waits again");
        else VF_ASSERT(inlavg == 0 && inserial <= 1, "a job which was stopped is run again");
    }
    if (!once0 && is_serial_once(L.cl_option)) VF_ASSERT(inserial > 0, "a line is marked as run once in the serial queue only when it is in this queue");
    if (L.cl_numexe == 0) VF_ASSERT(!is_serial_once(L.cl_option), "a line which neither runs nor waits is not marked as serial");
    VF_ASSERT(!is_hasrun(L.cl_option) == !hasrun, "a line has run since the system started");
    if (is_runonce(L.cl_option) && hasrun) {
        VF_ASSERT(!inserts && !computed && !notrun && !mailed, "a line which has run once is not scheduled again");
#if TD != 1
        VF_COVER("once");
#endif
        return;
    }
    VF_ASSERT(inserts ? ins_at == L.cl_nextexe : ctx == CONTEXT_RESUME, "the line is in the queue with its time");
#if TD == 0
    {
        if (L.cl_timefreq < 1) VF_ASSERT(0, "a line is not run without a delay");
        VF_ASSERT(!notrun && !mailed && !computed && inserts, "a line based on elapsed time");
        if (forced) { VF_ASSERT(L.cl_nextexe == now, "run at boot or resume"); VF_COVER("forced"); return; }
        if (ctx == CONTEXT_RESUME && is_volatile(L.cl_option)) return;      /* not documented */
        if (fresh || is_volatile(L.cl_option) || (ctx == CONTEXT_BOOT && (is_rebootreset(L.cl_option) || is_runonce(L.cl_option)))) {
            VF_ASSERT(L.cl_nextexe == (L.cl_first > TIME_T_MAX - now ? TIME_T_MAX : now + L.cl_first), "the delay before the first execution");
            VF_COVER("first");
        } else {
            moved = old + d;
            if (moved > TIME_T_MAX) VF_ASSERT(L.cl_nextexe > now && L.cl_nextexe <= TIME_T_MAX, "a line which runs almost never");
            else if (moved >= now) VF_ASSERT(L.cl_nextexe == moved, "the line runs after the time which remained");
            else if (ctx == CONTEXT_RESUME) VF_ASSERT(L.cl_nextexe == now, "a line which was late at suspend runs at resume");
            else VF_ASSERT(L.cl_nextexe == (L.cl_timefreq > TIME_T_MAX - now ? TIME_T_MAX : now + L.cl_timefreq), "a line with a time which is not valid runs after its delay");
            VF_COVER("remaining");
        }
        return;
    }
#else
    if (forced) {
        VF_ASSERT(L.cl_nextexe == now && !computed, "run at boot or resume");
        if (is_notice_notrun(L.cl_option) && old && old <= now) VF_ASSERT(L.cl_runfreq == 1 ? notrun == SYSDOWN_RUNATREBOOT : mailed == 1 && since == old, "the user is told of the executions missed");
        else VF_ASSERT(!mailed && (!notrun || (old && is_notice_notrun(L.cl_option))), "nothing was missed");
        VF_COVER("forced");
        return;
    }
    if (old > now) {
        VF_ASSERT(L.cl_nextexe == old && !computed && !mailed && !notrun && L.cl_remain == rem0, "a line which is not due keeps its time");
        VF_COVER("later");
        return;
    }
    VF_ASSERT(computed + !!notrun == 1, "a line which was due gets a new time");
    if (old == 0) { VF_ASSERT(how == NO_GOTO && !mailed && !notrun, "a new line"); VF_COVER("new"); return; }
    if (is_notice_notrun(L.cl_option) && L.cl_runfreq == 1) { VF_ASSERT(notrun == SYSDOWN && !mailed, "a %-line which was missed"); VF_COVER("missed"); return; }
    VF_ASSERT(!notrun, "the line is rescheduled");
    if (is_bootrun(L.cl_option) && L.cl_runfreq != 1) {
        VF_ASSERT(how == STD && !mailed, "a line which is run at startup when it was missed");
        if (rem0 > 1) { VF_ASSERT(L.cl_remain == rem0 - 1, "one match less to wait for"); if (!stopped) VF_ASSERT(!inlavg && !inserial, "not yet to be run"); }
        else {
            VF_ASSERT(L.cl_remain == L.cl_runfreq, "matches to wait for");
            if (!stopped && num0 == 0) { VF_ASSERT(is_lavg(L.cl_option) ? !inserial && inlavg <= 1 : !inlavg && inserial <= 1, "run from the queue of the line"); VF_COVER("bootrun"); }
        }
        return;
    }
    VF_ASSERT(how == NO_GOTO, "the next match from now");
    if (is_notice_notrun(L.cl_option)) VF_ASSERT(mailed == 1 && since == old, "the user is told of the executions missed");
    else VF_ASSERT(!mailed, "no mail is asked for");
    VF_COVER("skipped");
#endif
#endif
}

/* C10: jobs which wait for a low load average: queueing (OP 0) and the check of the queue (OP 1) */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up while handling waiting jobs")
#define NLAVG 3
#define NEXE 4
#include "db_common.h"
#include "option.h"
#undef localtime
#undef getloadavg
static cl_t l0, l1, l2; static cl_t *const LN[3] = { &l0, &l1, &l2 };
static cf_t f0;
static int started[3], npid, next_set[3], notrun[3], mailed[3];
static int no(cl_t *l) { int i, r = 0; for (i = 0; i < 3; i++) if (l == LN[i]) r = i; VF_ASSERT(l == LN[r], "a line"); return r; }
static int ok[3];
int run_job(struct exe_t *e) { int i = no(e->e_line); started[i]++; ok[i] = VF_BOOL("fork"); if (!ok[i]) return ERR; e->e_ctrl_pid = 100 + npid++; return OK; }
FILE *create_mail(cl_t *l, char *s, char *a, char *b, char **c) { return NULL; }
void launch_mailer(cl_t *l, FILE *f, char **e) { }
void set_next_exe(cl_t *l, char o, int fd) { next_set[no(l)]++; VF_ASSERT(o != STD, "the next execution is in the future"); }
void set_next_exe_notrun(cl_t *l, char c) { next_set[no(l)]++; notrun[no(l)]++; VF_ASSERT(c == LAVG, "because of the load"); }
void mail_notrun(cl_t *l, char c, struct tm *t) { VF_ASSERT(c == QUEUE_FULL, "because the queue is full"); mailed[no(l)]++; }
static time_t end_int;
struct tm *h_localtime(const time_t *t) { static struct tm T; return &T; }
int switch_timezone(const char *a, const char *b) { return 0; }
void switch_back_timezone(const char *a) { }
void move_time_to(int w, cl_t *l, struct tm *t) { VF_ASSERT(l == &l2, "the line"); }
time_t mktime_no_dst(struct tm *t) { return end_int - f0.cf_tzdiff * 3600; }
#ifndef TIERLINES
#define TIERLINES 2
#endif
static int load[3];
int h_getloadavg(double *d, int n) { int i; VF_ASSERT(n == 3, "the three load averages"); for (i = 0; i < 3; i++) d[i] = load[i] / 4.0; return 3; }
static void options(int i)
{
    cl_t *l = LN[i]; int k;
    l->cl_file = &f0; l->cl_shell = "x"; set_lavg(l->cl_option);
    if (VF_BOOL("serial")) set_serial(l->cl_option); else clear_serial(l->cl_option);
    if (VF_BOOL("lavgor")) set_lor(l->cl_option); else set_land(l->cl_option);
    if (VF_BOOL("strict")) set_strict(l->cl_option); else clear_strict(l->cl_option);
    if (VF_BOOL("lavg_sev")) set_lavg_sev(l->cl_option); else clear_lavg_sev(l->cl_option);
    if (VF_BOOL("elapsed")) set_freq(l->cl_option); else set_td(l->cl_option);
    if (VF_BOOL("noticenotrun")) set_notice_notrun(l->cl_option); else clear_notice_notrun(l->cl_option);
    if (VF_BOOL("run_if_late")) set_run_if_late(l->cl_option); else clear_run_if_late(l->cl_option);
    if (VF_BOOL("nolog")) set_nolog(l->cl_option); else clear_nolog(l->cl_option);
    l->cl_runfreq = VF_RANGE("runfreq", 1, 3); l->cl_until = VF_RANGE("until", 0, 100000);
    if (is_freq(l->cl_option)) VF_ASSUME(l->cl_runfreq == 1 && !is_strict(l->cl_option));
    for (k = 0; k < 3; k++) l->cl_lavg[k] = VF_U8("lavg");
    l->cl_numexe = VF_U8("numexe");
}
#define B0 1700000000L
void vf_main(void)
{
    int i, n = VF_RANGE("waiting", 0, TIERLINES); time_t lim, r; static job_t J; static cl_t head; int hasjob = VF_BOOL("job");
    now = B0 + VF_RANGE("now", 0, 1000000); lim = B0 + VF_RANGE("lim", 0, 1000000);
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    lavg_list->max_entries = VF_RANGE("max", 1, 3);
    f0.cf_tzdiff = VF_RANGE("tzdiff", -24, 24);
    if (hasjob) { head.cl_nextexe = B0 + VF_RANGE("nextexe", 0, 1000000); J.j_line = &head; queue_base = &J; }
    lavg_serial_running = VF_RANGE("running", 0, 3); serial_max_running = VF_RANGE("maxrun", 1, 3);
    for (i = 0; i < 3; i++) load[i] = VF_RANGE("load", 0, 110);
#if OP == 0
    {
        int full, numexe, refused, hasuntil, strict; time_t end; cl_t *l = &l2;
        options(2); l->cl_nextexe = now; end = end_int = now + VF_RANGE("interval", -100, 1000000);
        for (i = 0; i < 2; i++) if (i < n) { LN[i]->cl_file = &f0; lavg_list_add_line(lavg_list, LN[i]); lavg_e[i].l_until = i; }
        n = lavg_list->num_entries;
        full = n >= lavg_list->max_entries; numexe = l->cl_numexe; hasuntil = l->cl_until > 0; strict = is_strict(l->cl_option) && l->cl_runfreq == 1;
        refused = is_lavg_sev(l->cl_option) ? numexe >= UCHAR_MAX : numexe > 0;
        add_lavg_job(l, -1);
        for (i = 0; i < 2; i++) if (i < n) VF_ASSERT(lavg_e[i].l_line == LN[i] && lavg_e[i].l_until == i, "the other jobs keep waiting");
        VF_ASSERT(!started[2] && !next_set[2], "the job waits");
        if (refused || full) {
            VF_ASSERT(lavg_list->num_entries == n && l->cl_numexe == numexe, "a job which cannot wait is not counted");
            VF_ASSERT(mailed[2] == (!refused && is_notice_notrun(l->cl_option)), "who asked for it is told about a full queue");
            VF_COVER("not queued");
        } else {
            time_t u = lavg_e[n].l_until;
            VF_ASSERT(lavg_list->num_entries == n + 1 && lavg_e[n].l_line == l && l->cl_numexe == numexe + 1, "the job is queued and counted once");
            if (strict) {
                VF_ASSERT(u == (hasuntil && now + l->cl_until < end ? now + l->cl_until : end), "it waits until its timeout or the end of the interval");
                VF_ASSERT(!!is_run_if_late(l->cl_option) == (hasuntil && now + l->cl_until < end), "it runs late only at its timeout");
                VF_COVER("strict");
            } else {
                VF_ASSERT(u == (hasuntil ? now + l->cl_until : 0), "it waits until its timeout, if any");
                VF_ASSERT(is_run_if_late(l->cl_option), "it runs at its timeout");
                VF_COVER("queued");
            }
        }
    }
#else
    {
        int left = 0, run = lavg_serial_running; int numexe[3]; time_t u[3], want;
        for (i = 0; i < TIERLINES; i++) if (i < n) {
            options(i); lavg_e[i].l_line = LN[i];
            VF_ASSUME(LN[i]->cl_numexe > 0); numexe[i] = LN[i]->cl_numexe;
            u[i] = lavg_e[i].l_until = LN[i]->cl_until > 0 || is_strict(LN[i]->cl_option) && LN[i]->cl_runfreq == 1 ? B0 + VF_RANGE("deadline", 0, 1000000) : 0;
            VF_ASSUME(is_run_if_late(LN[i]->cl_option) || is_strict(LN[i]->cl_option) && LN[i]->cl_runfreq == 1);
        }
        lavg_list->num_entries = n; lavg_list->max_entries = 0;
        r = check_lavg(lim);
        /* those whose waiting time is over come first */
        for (i = 0; i < TIERLINES; i++) if (i < n && u[i] != 0 && u[i] < now) {
            cl_t *l = LN[i];
            if (is_run_if_late(l->cl_option)) {
                VF_ASSERT(started[i] == 1 && !next_set[i], "a job runs when it waited for long enough");
                if (ok[i] && is_serial(l->cl_option)) run++;
            } else {
                VF_ASSERT(!started[i] && next_set[i] == 1, "a job whose interval is over does not run, and is scheduled again");
                VF_ASSERT(notrun[i] == (is_td(l->cl_option) && is_notice_notrun(l->cl_option)), "who asked for it is told");
#if TIERLINES > 1
                if (i == 1) VF_COVER("dropped");
#endif
            }
            VF_ASSERT(l->cl_numexe == numexe[i] - !(started[i] && ok[i]), "a job which does not run is not counted");
        }
        for (i = 0; i < TIERLINES; i++) if (i < n && !(u[i] != 0 && u[i] < now)) {
            cl_t *l = LN[i]; int k, low = !is_lor(l->cl_option), blocked = is_serial(l->cl_option) && run >= serial_max_running;
            for (k = 0; k < 3; k++) {
                int below = load[k] * 10 < l->cl_lavg[k] * 4;
                if (is_lor(l->cl_option)) { if (l->cl_lavg[k] && below) low = 1; }
                else if (l->cl_lavg[k] && !below) low = 0;
            }
            VF_ASSERT(started[i] == (low && !blocked), "a job runs exactly when the load is low enough, and a place is free");
            VF_ASSERT(!next_set[i], "the schedule of a waiting job does not change");
            VF_ASSERT(l->cl_numexe == numexe[i] - (started[i] && !ok[i]), "a waiting job stays counted");
            if (started[i]) { if (ok[i] && is_serial(l->cl_option)) run++; }
            else { VF_ASSERT(left < lavg_list->num_entries && lavg_e[left].l_line == l && lavg_e[left].l_until == u[i], "a job which did not run keeps waiting"); left++; VF_COVER("waits"); }
        }
        VF_ASSERT(lavg_list->num_entries == left, "a job which ran does not run again");
        VF_ASSERT(lavg_serial_running == run, "the running serial jobs are counted");
        VF_ASSERT(exe_list->num_entries == npid && f0.cf_running == npid, "the running jobs are counted");
        want = lim;
        if (hasjob && head.cl_nextexe < want) want = head.cl_nextexe;
        if (want < now) want = now;
        if (left && want > now + LAVG_SLEEP) want = now + LAVG_SLEEP;
        VF_ASSERT(r == want, "the daemon wakes up for the next event, and checks the load again soon");
        if (n == TIERLINES && left == 0) VF_COVER("all ran");
    }
#endif
}

/* C32: the turns of the daemon's main loop, with any events in between */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up in its main loop")
#include "fcron.h"
#include "database.h"
#include "job.h"
#include "select.h"
#include "suspend.h"
#include "fcronconf.h"
#include "vf_log.h"
#undef gettimeofday
#undef time
char *pidfile = "p", *fcronconf = "c", *fcrontabs = "f", *shell = "s", *sendmail = "m", *editor = "e", *fifofile = "fi", *rebootlock = "r", *suspendfile = "su";
extern void main_loop(void);
extern char once;
extern time_t save_time;
extern const time_t min_sleep_usec;
#ifndef TURNS
#define TURNS 2
#endif
#define B0 1700000000L
static long T, T0, U;                   /* the time in seconds, when it started, and microseconds */
static cl_t l0, l1; static cf_t f0; static job_t Ja, Jb;
static int turn, synced, suspends, saved, ran[2], signals, dyn, tested, changed, woke, started_at_boot;
static long save_due, next_due;
time_t my_time(void) { return T; }
time_t h_time(time_t *p) { if (p) *p = T; return T; }
int h_gettimeofday(struct timeval *tv, void *z) { U = VF_RANGE("usec", 0, 999999); tv->tv_sec = T; tv->tv_usec = U; return 0; }
static void sort(void)
{
    if (l0.cl_nextexe <= l1.cl_nextexe) { queue_base = &Ja; Ja.j_next = &Jb; Jb.j_next = NULL; }
    else { queue_base = &Jb; Jb.j_next = &Ja; Ja.j_next = NULL; }
}
/* (at most two wait: the count is made concrete, so that the solver knows where the loops end) */
static int calls;
void run_serial_job(void)
{
    if (serial_num > 0) { serial_num--; if (VF_BOOL("fork")) serial_running++; }
    if (++calls >= 3) { VF_MODEL(serial_num == 0, "serial jobs"); serial_num = 0; }
}
static void run(int i, cl_t *l)
{
    if (l->cl_nextexe > now) return;
    ran[i]++; l->cl_nextexe = now + VF_RANGE("interval", 1, 4000);
    if (i && serial_num < 2) serial_num++;
}
void test_jobs(void)
{
    VF_ASSERT(woke, "jobs are started once the daemon has slept");
    VF_ASSERT(now == T, "the current time is known when jobs are tested");
    VF_ASSERT(suspends == 1 && signals >= 1, "signals and suspensions are taken into account before jobs are tested");
    calls = 0; tested++; run(0, &l0); run(1, &l1); sort();
}
int run_queue_job(cl_t *l) { VF_ASSERT(0, "a job is run through a queue"); return OK; }
/* a table which is reloaded, a job which is added, ... */
static void reload(void)
{
    if (VF_BOOL("reload")) { long t = T + VF_RANGE("newtime", 0, 4000); if (VF_BOOL("which")) l1.cl_nextexe = t; else l0.cl_nextexe = t; sort(); changed = 1; }
    if (VF_BOOL("childend") && serial_running > 0) { serial_running--; if (serial_running < serial_max_running) run_serial_job(); }
}
void check_signal(void) { calls = 0; if (woke) { signals++; reload(); } }
void reset_sig_cont(void) { }
void check_suspend(time_t from, time_t nwt, bool *cont, select_instance *si)
{
    suspends++; VF_ASSERT(from <= T && !tested, "a suspension is taken into account before jobs are tested");
}
void init_suspend(select_instance *si) { }
void select_init(select_instance *si) { }
void fcrondyn_socket_init(select_instance *si) { }
void fcrondyn_socket_check(select_instance *si)
{
    dyn++; calls = 0;
    VF_ASSERT(tested, "clients are served after the jobs");
    if (VF_BOOL("runjob") && serial_num < 2) serial_num++;
    if (VF_BOOL("reschedule")) { l0.cl_nextexe = now + VF_RANGE("interval", 1, 4000); sort(); }
}
void fcrondyn_socket_close(select_instance *si) { }
void synchronize_dir(const char *d, int boot)
{
    VF_ASSERT(!synced && boot == started_at_boot, "the tables are loaded once"); synced++;
    l0.cl_nextexe = T + VF_RANGE("first", -100, 4000); l1.cl_nextexe = T + VF_RANGE("first", -100, 4000);
    if (VF_BOOL("atboot")) serial_num = 1;
    sort();
}
int is_system_startup(void) { return started_at_boot; }
void save_file(cf_t *f) { saved++; VF_ASSERT(f == NULL, "everything is saved"); }
lavg_t *lavg_list_first(lavg_list_t *l) { return NULL; }
lavg_t *lavg_list_next(lavg_list_t *l) { return NULL; }
void lavg_list_remove_cur(lavg_list_t *l) { }
static lavg_list_t LL;
/* the beginning of a turn: what was left by the one before is checked */
void select_call(select_instance *si, struct timeval *tv)
{
    long es, eu, ns, nu, next;
    if (turn > 0) {
        int i;
        VF_ASSERT(suspends == 1 && dyn == 1 && signals >= 1, "signals, suspensions and clients are handled in each turn");
        VF_ASSERT(saved == (save_due <= T), "everything is saved when it is time to, and not before");
        if (saved) save_due = T + save_time;
        if (!changed) for (i = 0; i < 2; i++) VF_ASSERT((i ? l1 : l0).cl_nextexe > T, "no job which is due is left");
        if (ran[0] == 1 && !changed) VF_COVER("ran");
        VF_ASSERT(tested == 1, "jobs are tested once in each turn");
        VF_ASSERT(!(serial_num > 0 && serial_running < serial_max_running), "no serial job is left waiting when there is a place for it");
        VF_ASSERT(!once, "the option to run jobs once ends the daemon");
    }
    VF_ASSERT(tv->tv_usec >= 0 && tv->tv_usec <= 999999 && tv->tv_sec >= 0, "a valid time to sleep");
    next = l0.cl_nextexe < l1.cl_nextexe ? l0.cl_nextexe : l1.cl_nextexe;
    if (save_due < next) next = save_due;
    if (turn == 0 && (serial_num > 0 || once)) next = T0 + first_sleep;
    else if (turn == 0 && next < T0 + first_sleep) next = T0 + first_sleep;
    /* the daemon wakes up at es seconds eu microseconds; the event is at ns nu */
    es = T + tv->tv_sec; eu = U + tv->tv_usec;
    if (eu >= 1000000) { eu -= 1000000; es++; }
    if (next <= T) { ns = T; nu = U + min_sleep_usec; if (nu >= 1000000) { nu -= 1000000; ns++; } }
    else { ns = next; nu = min_sleep_usec; }
    VF_ASSERT(es < ns || es == ns && eu <= nu, "the daemon does not sleep longer than until the next event");
    VF_ASSERT(tv->tv_sec > 0 || tv->tv_usec >= min_sleep_usec, "the daemon does not loop without sleeping");
    if (turn == 0 && next > T) VF_ASSERT(es >= next || es == next - 1 && eu == 999999, "no job runs before the first sleep is over");
    if (turn == TURNS) { VF_COVER("turns"); if (changed) VF_COVER("reload"); VF_STOP(); }
    turn++;
    T += VF_RANGE("sleep", 0, 5000);
    suspends = signals = dyn = saved = tested = calls = changed = ran[0] = ran[1] = 0; woke = 1;
}
void xexit(int v)
{
    VF_ASSERT(once && turn == 1 && v == EXIT_OK, "the daemon does not end");
    VF_ASSERT(suspends == 1 && (changed || l0.cl_nextexe > T && l1.cl_nextexe > T), "due jobs were run before");
    VF_ASSERT(!(serial_num > 0 && serial_running < serial_max_running), "serial jobs were run before");
    VF_COVER("once"); VF_STOP();
}
void vf_main(void)
{
    T = T0 = B0 + VF_RANGE("start", 0, 100000);
    once = VF_BOOL("once"); first_sleep = once ? 0 : VF_RANGE("first_sleep", 0, 1000); save_time = VF_RANGE("save_time", 60, 4000); started_at_boot = VF_BOOL("boot");
    save_due = T0 + save_time;
    f0.cf_user = "a"; l0.cl_file = l1.cl_file = &f0; l0.cl_shell = l1.cl_shell = "x"; l0.cl_runfreq = l1.cl_runfreq = 1;
    clear_serial(l0.cl_option); clear_lavg(l0.cl_option); clear_lavg(l1.cl_option); clear_runonce(l0.cl_option); clear_runonce(l1.cl_option); clear_serial_once(l1.cl_option);
    set_serial(l1.cl_option); set_serial_sev(l1.cl_option); set_exe_sev(l0.cl_option);
    serial_max_running = VF_RANGE("maxrun", 1, 2);
    lavg_list = &LL; Ja.j_line = &l0; Jb.j_line = &l1;
    main_loop();
    VF_ASSERT(0, "the main loop does not end");
}

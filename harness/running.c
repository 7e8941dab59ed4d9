/* C11: which jobs run is known exactly, and a line does not run with itself unless it asks for it.
 * From any state of up to NRUN running jobs: OP 0 due jobs, 1 ends of jobs, 2 end of all jobs of a table, 3 a job
 * run by hand, 4 removal of a table and then an end, 5 a mail about a missed execution */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up while handling running jobs")
#ifndef NRUN
#define NRUN 3
#endif
#define NEXE (NRUN + 2)
#define NLAVG 2
#include "db_common.h"
#include "conf.h"
#include "save.h"
#include "option.h"
#undef waitpid
#undef free
#undef fork
static cl_t l0, l1; static cl_t *const LN[2] = { &l0, &l1 };
static cf_t f0, f1; static cf_t *const FN[2] = { &f0, &f1 };
static int runs[3], npid, tried[2], scheduled[2], removed[2], forked;
static int pid_line[NEXE], ended[NEXE];     /* the processes: their line, or 2 for none */
static int no(cl_t *l) { VF_ASSERT(l == &l0 || l == &l1, "a line"); return l == &l1; }
int run_job(struct exe_t *e)
{
    int i = no(e->e_line); tried[i]++;
    if (!VF_BOOL("fork")) return ERR;
    VF_MODEL(npid < NEXE, "processes");
    pid_line[npid] = i; e->e_ctrl_pid = 100 + npid; npid++; runs[i]++;
    return OK;
}
int h_fork(void) { forked++; if (!VF_BOOL("fork")) return -1; pid_line[npid] = 2; runs[2]++; return 100 + npid++; }
FILE *create_mail(cl_t *l, char *s, char *a, char *b, char **c) { return NULL; }
void launch_mailer(cl_t *l, FILE *f, char **e) { }
void free_line(cl_t *l) { removed[no(l)] = 1; }
env_list_t *env_list_destroy(env_list_t *l) { return NULL; }
void h_free(void *p) { }
static job_t J[2];
void set_next_exe(cl_t *l, char o, int fd) { int i = no(l); scheduled[i]++; VF_ASSERT(queue_base && queue_base->j_line == l, "the line is in the queue"); l->cl_nextexe = now + 100; queue_base = queue_base->j_next; }
job_t *job_queue_remove(cl_t *l) { if (queue_base && queue_base->j_line == l) queue_base = queue_base->j_next; return NULL; }
static int waits, maxwait, alone;
pid_t h_waitpid(pid_t p, int *st, int opt)
{
    int k;
    if (opt & WNOHANG) { if (waits >= maxwait) return 0; }
    else VF_MODEL(waits < NEXE, "ends of processes");
    waits++;
    k = VF_RANGE("ended", 0, NEXE - 1);
    if (alone && k >= npid && (opt & WNOHANG)) return 77;      /* a process which is not a job */
    VF_ASSUME(k < npid && !ended[k]);
    ended[k] = 1; runs[pid_line[k]]--;
    return 100 + k;
}
static int dead[2];             /* tables which were removed */
static void check(void)
{
    int i, k, j, n = 0, ser = 0, lser = 0;
    for (i = 0; i < 2; i++) if (!dead[i]) {
        VF_ASSERT(LN[i]->cl_numexe == runs[i], "the running instances of a line are counted exactly");
        VF_ASSERT(FN[i]->cf_running == runs[i], "the running jobs of a table are counted exactly");
        if (is_lavg(LN[i]->cl_option)) { if (is_serial(LN[i]->cl_option)) lser += runs[i]; }
        else if (is_serial(LN[i]->cl_option) || is_serial_once(LN[i]->cl_option)) ser += runs[i];
    }
    VF_ASSERT(serial_running == ser && lavg_serial_running == lser, "the running serial jobs are counted exactly");
    for (k = 0; k < NEXE; k++) if (k < npid && !ended[k]) {
        n++;
        for (j = 0, i = 0; j < NEXE; j++) if (j < exe_list->num_entries && exe_e[j].e_ctrl_pid == 100 + k) { i++; VF_ASSERT(exe_e[j].e_line == (pid_line[k] == 2 || dead[pid_line[k]] ? NULL : LN[pid_line[k]]), "the line of each running job is known"); }
        VF_ASSERT(i == 1, "each running job is known once");
    }
    VF_ASSERT(exe_list->num_entries == n, "a job which ended is no longer known as running");
}
void vf_main(void)
{
    int i, k, n;
    now = 1700000000; exe_list = exe_list_init(); lavg_list = lavg_list_init();
    serial_max_running = VF_RANGE("maxrun", 1, 5); file_base = &f0; f0.cf_next = &f1; f0.cf_user = "a"; f1.cf_user = "b";
    for (i = 0; i < 2; i++) {
        cl_t *l = LN[i];
        FN[i]->cf_line_base = l; l->cl_file = FN[i]; l->cl_shell = "x";
        clear_serial(l->cl_option); clear_lavg(l->cl_option); clear_serial_once(l->cl_option);
        if (VF_BOOL("serial")) set_serial(l->cl_option);
        if (VF_BOOL("lavg")) set_lavg(l->cl_option);
        if (!is_lavg(l->cl_option) && !is_serial(l->cl_option) && VF_BOOL("serial_once")) set_serial_once(l->cl_option);
        if (VF_BOOL("exesev")) set_exe_sev(l->cl_option); else clear_exe_sev(l->cl_option);
        l->cl_runfreq = 1; l->cl_remain = 0;
    }
    n = VF_RANGE("running", 0, NRUN);
    for (k = 0; k < NRUN; k++) if (k < n) {
        int w = VF_RANGE("line", 0, 2);
        pid_line[k] = w; runs[w]++; exe_e[k].e_ctrl_pid = 100 + k;
        if (w < 2) { cl_t *l = LN[w]; exe_e[k].e_line = l; l->cl_numexe++; FN[w]->cf_running++;
            if (is_lavg(l->cl_option)) { if (is_serial(l->cl_option)) lavg_serial_running++; } else if (is_serial(l->cl_option) || is_serial_once(l->cl_option)) serial_running++; }
    }
    npid = n; exe_list->num_entries = n;
    for (i = 0; i < 2; i++) if (is_serial_once(LN[i]->cl_option)) VF_ASSUME(runs[i] > 0);
    check();
#if OP == 0 || OP == 3
    {
        int before[2], e[2], due[2], ro[2];
        for (i = 0; i < 2; i++) {
            cl_t *l = LN[i];
            VF_ASSUME(!is_serial(l->cl_option) && !is_lavg(l->cl_option) && !is_serial_once(l->cl_option));
            before[i] = runs[i]; ro[i] = VF_BOOL("runonce"); if (ro[i]) set_runonce(l->cl_option); else clear_runonce(l->cl_option);
            clear_hasrun(l->cl_option);
            l->cl_runfreq = VF_RANGE("runfreq", 1, 3); l->cl_remain = VF_RANGE("remain", 0, 3);
            e[i] = l->cl_remain <= 1;
        }
#if OP == 0
        l0.cl_nextexe = now - VF_RANGE("late", 0, 1000); l1.cl_nextexe = VF_BOOL("due") ? now : now + 1;
        J[0].j_line = &l0; J[1].j_line = &l1; J[0].j_next = &J[1]; queue_base = &J[0];
        due[0] = 1; due[1] = l1.cl_nextexe <= now;
        test_jobs();
#else
        due[0] = 1; due[1] = 0; e[0] = 1;
        run_normal_job(&l0, -1);
#endif
        for (i = 0; i < 2; i++) {
            cl_t *l = LN[i];
            int may = due[i] && e[i] && (before[i] == 0 || is_exe_sev(l->cl_option));
            VF_ASSERT(tried[i] == may, "a due line is started once, and not with itself unless it asks for it");
#if OP == 0
            VF_ASSERT(scheduled[i] == (due[i] && !(ro[i] && e[i])), "a due line is scheduled again, unless it runs once");
            if (due[i]) VF_ASSERT(!!is_hasrun(l->cl_option) == e[i], "a line which ran once is known");
            if (due[i] && e[i]) VF_ASSERT(l->cl_remain == l->cl_runfreq, "a line which ran waits for its next turn");
            else if (due[i]) VF_ASSERT(l->cl_remain >= 1, "a line which is due only every few times waits for its turn");
#endif
            if (i == 0) VF_ASSERT(tried[i] <= 1, "once");
        }
        VF_COVER("due");
    }
#elif OP == 1
    alone = VF_BOOL("other"); maxwait = 2;
    for (i = 0, k = 0; i < NRUN; i++) if (i < n) k++;
    if (!alone) { VF_ASSUME(k >= 1); maxwait = k >= 2 ? 2 : 1; }
    else { VF_ASSUME(k >= 1); maxwait = 1; }
    wait_chld();
    for (i = 0; i < 2; i++) if (is_serial_once(LN[i]->cl_option)) VF_ASSERT(runs[i] > 0, "a job which was put once in the queue is not a serial one for ever");
    VF_COVER("ended");
#elif OP == 2
    VF_ASSUME(runs[0] > 0);
    wait_all(&f0.cf_running);
    VF_ASSERT(runs[0] == 0, "all the jobs of the table have ended");
    VF_COVER("all ended");
#elif OP == 4
    delete_file("a"); dead[0] = 1;
    VF_ASSERT(removed[0] && !removed[1] && file_base == &f1, "the table is removed");
    check();
    maxwait = n > 0; alone = 0;
    wait_chld();
    VF_COVER("removed");
#else
    mail_notrun(&l0, QUEUE_FULL, NULL);
    VF_ASSERT(forked == 1, "another process sends the mail");
    check();
    VF_ASSUME(npid > 0); maxwait = 1;
    wait_chld();
    VF_COVER("mail");
#endif
    check();
}

/* C08: the queue of jobs is sorted, holds each scheduled line once, and the due ones are run. */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up while handling the queue of jobs")
#ifndef N
#define N 4
#endif
#include "db_common.h"
#include "conf.h"
#undef calloc
#undef free
static cl_t l0, l1, l2, l3, l4;
static cl_t *const LN[5] = { &l0, &l1, &l2, &l3, &l4 };
static cf_t F0, F1; static int infile[N];
static int in_q[N]; static time_t at[N];
/* memory of the entries */
#define NP (N + 4)
static job_t p0, p1, p2, p3, p4, p5, p6, p7, p8; static job_t *const pool[9] = { &p0, &p1, &p2, &p3, &p4, &p5, &p6, &p7, &p8 };
static  char used[NP], freed[NP];
void *h_calloc(size_t n, size_t m)
{
    int i;
    for (i = 0; i < NP; i++) if (!used[i]) break;
    VF_MODEL(i < NP && n * m == sizeof(job_t), "memory");
    used[i] = 1;
    return pool[i];
}
void h_free(void *p)
{
    int i;
    for (i = 0; i < NP; i++) if (p == pool[i]) { VF_ASSERT(used[i] && !freed[i], "an entry is freed once"); freed[i] = 1; }
}
static int lineno_of(cl_t *l) { int i, r = 0; for (i = 0; i < N; i++) if (l == LN[i]) r = i; VF_ASSERT(l == LN[r], "a line of the queue"); return r; }
static void check(void)
{
    struct job_t *j = queue_base; int n = 0, i, seen[N] = { 0 }; time_t prev = 0;
    while (j != NULL && n <= N) {
        int p, r = lineno_of(j->j_line);
        for (p = 0; p < NP; p++) if (j == pool[p]) VF_ASSERT(!freed[p], "the entries of the queue are not freed");
        seen[r]++;
        VF_ASSERT(n == 0 || j->j_line->cl_nextexe >= prev, "the queue is in the order of the execution times");
        prev = j->j_line->cl_nextexe; n++; j = j->j_next;
    }
    VF_ASSERT(j == NULL, "the queue has an end");
    for (i = 0; i < N; i++) {
        VF_ASSERT(seen[i] == in_q[i], "each scheduled line is in the queue, once, and no other");
        VF_ASSERT(!in_q[i] || LN[i]->cl_nextexe == at[i], "the execution time of a line in the queue is kept");
    }
}
/* what the jobs do when they are due */
static int ran[N], resched[N], nruns; static time_t last_run_time; static cl_t *running_last;
static void run(cl_t *l, int kind)
{
    int i = lineno_of(l);
    VF_ASSERT(l->cl_nextexe <= now, "a job is not run before its time");
    VF_ASSERT(kind == (is_lavg(l->cl_option) ? 1 : is_serial(l->cl_option) ? 2 : 3), "a job goes to the queue its options ask for");
    ran[i]++; running_last = l;
}
void add_lavg_job(cl_t *l, int fd) { run(l, 1); }
void add_serial_job(cl_t *l, int fd) { run(l, 2); }
void run_normal_job(cl_t *l, int fd) { run(l, 3); }
void set_next_exe(cl_t *l, char option, int fd)
{
    int i = lineno_of(l);
    VF_ASSERT(option == STD, "a line which was due is scheduled for its next time");
    resched[i]++;
    l->cl_nextexe = at[i] = VF_RANGE64("newtime", now + 1, now + 4);
    insert_nextexe(l);
}
static int freed_line[N];
void free_line(cl_t *l) { freed_line[lineno_of(l)]++; }
env_list_t *env_list_destroy(env_list_t *l) { return NULL; }
void vf_main(void)
{
    int i, k, n, op, remain[N], hasrun[N], op_i;
    F0.cf_user = "a"; F1.cf_user = "b"; file_base = &F0; F0.cf_next = &F1;
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    now = 1000;
    for (i = 0; i < N; i++) {
        infile[i] = VF_BOOL("file");
        LN[i]->cl_shell = "c"; LN[i]->cl_file = infile[i] ? &F1 : &F0; LN[i]->cl_next = LN[i]->cl_file->cf_line_base; LN[i]->cl_file->cf_line_base = LN[i];
        if (VF_BOOL("serial")) set_serial(LN[i]->cl_option);
        if (VF_BOOL("lavg")) set_lavg(LN[i]->cl_option);
        if (VF_BOOL("runonce")) set_runonce(LN[i]->cl_option); else clear_runonce(LN[i]->cl_option);
        if (VF_BOOL("hasrun")) set_hasrun(LN[i]->cl_option); else clear_hasrun(LN[i]->cl_option);
        LN[i]->cl_remain = remain[i] = VF_RANGE("remain", 0, 3); LN[i]->cl_runfreq = VF_RANGE("runfreq", 0, 3);
        LN[i]->cl_nextexe = VF_RANGE64("time", 996, 1004);
    }
    /* any sorted queue of the first lines */
    n = VF_RANGE("n", 0, N);
    for (k = 0; k < N; k++) if (k < n) {
        VF_ASSUME(k == 0 || LN[k]->cl_nextexe >= LN[k - 1]->cl_nextexe);
        in_q[k] = 1; at[k] = LN[k]->cl_nextexe; used[k] = 1; pool[k]->j_line = LN[k];
        if (k) pool[k - 1]->j_next = pool[k]; else queue_base = pool[k];
    }
    for (op_i = 0; op_i < OPS; op_i++) {
        op = OP < 0 ? VF_RANGE("op", 0, 3) : OP;
        i = VF_RANGE("line", 0, N - 1);
        if (op == 0) {
            LN[i]->cl_nextexe = at[i] = VF_RANGE64("newtime", 996, 1004);
            for (k = 0; k < N; k++) if (k == i) { insert_nextexe(LN[k]); break; }
            in_q[i] = 1;
            
#if OP == 0 || OP < 0
VF_COVER("insertion");
#endif

        }
        else if (op == 1) {
            for (k = 0; k < N; k++) if (k == i) { job_queue_remove(LN[k]); break; }
            in_q[i] = 0;
            
#if OP == 1 || OP < 0
VF_COVER("removal");
#endif

        }
        else if (op == 2) {
            int due[N], will[N];
            for (k = 0; k < N; k++) {
                due[k] = in_q[k] && at[k] <= now; remain[k] = LN[k]->cl_remain; hasrun[k] = is_hasrun(LN[k]->cl_option) != 0; ran[k] = resched[k] = 0;
                will[k] = due[k] && remain[k] <= 1;
            }
            test_jobs();
            for (k = 0; k < N; k++) {
                VF_ASSERT(ran[k] == will[k], "a job is run once when it is due and its turn has come, and no other is run");
                if (!due[k]) { VF_ASSERT(LN[k]->cl_remain == remain[k] && !resched[k], "a job which is not due is left alone"); continue; }
                VF_ASSERT(LN[k]->cl_remain == (will[k] ? LN[k]->cl_runfreq : remain[k] - 1), "the executions to skip are counted");
                VF_ASSERT((is_hasrun(LN[k]->cl_option) != 0) == (hasrun[k] || will[k]), "the run is remembered");
                if (is_runonce(LN[k]->cl_option) && (hasrun[k] || will[k])) { VF_ASSERT(!resched[k], "a line which runs once is not scheduled again"); in_q[k] = 0; }
                else VF_ASSERT(resched[k] == 1, "a line which was due is scheduled again");
            }
            
#if OP == 2 || OP < 0
VF_COVER("due jobs");
#endif

        }
        else {
            int f = VF_BOOL("file");
            delete_file(f ? "b" : "a");
            for (k = 0; k < N; k++) {
                VF_ASSERT(freed_line[k] == (infile[k] == f), "the lines of the removed table are freed, once");
                if (infile[k] == f) in_q[k] = 0;
            }
            VF_ASSERT(file_base == (f ? &F0 : &F1) && file_base->cf_next == NULL, "the removed table is not in the list of tables");
            
#if OP == 3 || OP < 0
VF_COVER("removal of a table");
#endif

            check();
            break;
        }
        check();
        if (op != 2 || 1) {
            time_t lim = VF_RANGE64("lim", 996, 1010), w = next_wake_time(lim), ref = lim;
            for (k = 0; k < N; k++) if (in_q[k] && at[k] < ref) ref = at[k];
            VF_ASSERT(w == (ref < now ? now : ref), "the daemon wakes up when the first line is due, or at the time given");
        }
    }
}

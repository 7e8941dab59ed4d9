/* C09: the queue of serial jobs is first in first out, loses and duplicates nothing, holds at most
 * the configured number of jobs, and never more than the configured number of serial jobs run. */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up while handling serial jobs")
#ifndef NLINES
#define NLINES 4
#endif
#define NLAVG 1
#define NEXE 10
#include "db_common.h"
#include "conf.h"
#include "save.h"

#undef calloc
#undef memcpy
#undef free
#undef waitpid
#define MAXQ 6

/* separate objects keep the encoding small */
static cl_t l0, l1, l2, l3;
static cl_t *const LN[NLINES] = { &l0, &l1, &l2, &l3 };
static cf_t f0, f1;
static cf_t *const FN[2] = { &f0, &f1 };
static char alive[NLINES];
/* reference queue */
static int ref[MAXQ + 1], ref_n, ref_running;
#define NPID 10
static int pid_line[NPID];       /* line of each job started, -1 once it has ended */
static int npid;
static char may_fork;
static int child_done;
static int started_line;

static int lineno_of(cl_t *l)
{
    int i, r = -1;
    for (i = 0; i < NLINES; i++) if (l == LN[i]) r = i;
    VF_ASSERT(r >= 0, "only jobs put in the queue are taken from it");
    VF_ASSUME(r >= 0);
    return r;
}
static void expect_start(int i)
{
    int k;
    VF_ASSERT(ref_n > 0, "a serial job is started only if one is waiting");
    VF_ASSERT(ref_n > 0 && ref[0] == i, "serial jobs are started in the order they were queued");
    VF_ASSERT(ref_running < serial_max_running, "no more serial jobs run than allowed");
    VF_ASSERT(alive[i], "the job of a removed fcrontab is not started");
    for (k = 0; k + 1 < MAXQ; k++) ref[k] = ref[k + 1];
    ref_n--;
}
int run_job(struct exe_t *e)
{
    int i = lineno_of(e->e_line);
    expect_start(i);
    started_line = i;
    if (!VF_BOOL("fork_ok")) { VF_COVER("fork fails"); return ERR; }
    ref_running++;
    VF_MODEL(npid < NPID, "more jobs than the harness follows");
    pid_line[npid] = i;
    e->e_ctrl_pid = 100 + npid++;
    return OK;
}
static int waits;
pid_t h_waitpid(pid_t p, int *st, int opt) { return waits++ == 0 ? child_done : 0; }
env_list_t *env_list_destroy(env_list_t *l) { return NULL; }
void free_line(cl_t *l)
{
    int i = lineno_of(l);
    VF_ASSERT(alive[i], "a line is freed once");
    alive[i] = 0;
}
static int notrun_mails;
FILE *create_mail(cl_t *l, char *s, char *a, char *b, char **c) { return NULL; }
void launch_mailer(cl_t *l, FILE *f, char **e) { }
/* memory of the queue */
#define NPOOL 4
static cl_t *pool0[MAXQ + 2], *pool1[MAXQ + 2], *pool2[MAXQ + 2], *pool3[MAXQ + 2];
static cl_t **const pool[4] = { pool0, pool1, pool2, pool3 };
static int pool_n;
static size_t pool_sz[NPOOL];
void *h_calloc(size_t n, size_t m)
{
    VF_MODEL(pool_n < NPOOL && n * m <= sizeof(pool0), "more memory than the harness provides");
    pool_sz[pool_n] = n * m;
    return pool[pool_n++];
}
void h_free(void *p) { }
void *h_memcpy(void *d, const void *s, size_t n)
{
    size_t i;
    VF_MODEL(n % sizeof(cl_t *) == 0 && n <= MAXQ * sizeof(cl_t *), "copies entries of the queue");
    for (i = 0; i < MAXQ; i++)
        if (i < n / sizeof(cl_t *)) ((cl_t **)d)[i] = ((cl_t **)s)[i];
    return d;
}
static void no_overrun(void)
{
    int k, j;
    for (k = 0; k < NPOOL; k++)
        for (j = 0; j < MAXQ + 2; j++)
            if (k < pool_n && (j + 1) * sizeof(cl_t *) > pool_sz[k])
                VF_ASSERT(pool[k][j] == NULL, "nothing is written beyond the memory of the queue");
}
static void check(void)
{
    int k;
    no_overrun();
    VF_ASSERT(serial_num == ref_n, "the number of waiting serial jobs is right");
    VF_ASSERT(serial_running == ref_running, "the number of running serial jobs is right");
    VF_ASSERT(ref_n <= serial_queue_max, "no more jobs wait than the configured maximum");
}
static void op_add(void)
{
    int i = VF_RANGE("line", 0, NLINES - 1), before;
    int inq;
    VF_ASSUME(alive[i] && (is_serial(LN[i]->cl_option) || is_serial_once(LN[i]->cl_option)));
    before = LN[i]->cl_numexe;
    VF_MODEL(pool_n < NPOOL, "pool");
    add_serial_job(LN[i], -1);
    if (is_serial_sev(LN[i]->cl_option) ? before >= UCHAR_MAX : before > 0) inq = 0;
    else if (ref_n >= serial_queue_max) {
        inq = 0;
#if QMAX <= ASIZE
        VF_COVER("queue full");
#endif
    }
    else { inq = 1; ref[ref_n++] = i; }
    VF_ASSERT(LN[i]->cl_numexe == before + inq, "a job is counted once when queued");
}
static void op_run(void)            /* what the main loop does */
{
    if (serial_num > 0 && serial_running < serial_max_running) {
        int n = ref_n;
        run_serial_job();
        VF_ASSERT(ref_n == n - 1, "a place for a serial job is used when a job is waiting");
    }
}
static void op_end(void)
{
    int p = VF_RANGE("ended", 0, NPID - 1), i, n;
    VF_ASSUME(p < npid && pid_line[p] >= 0);
    i = pid_line[p];
    child_done = 100 + p;
    pid_line[p] = -1;
    n = ref_n;
    if (alive[i]) ref_running--;
    started_line = -1; waits = 0;
    wait_chld();
    if (alive[i]) {
        VF_ASSERT(n == 0 || ref_n == n - 1, "the end of a serial job lets the next one start");
    }
}
static void op_delete(void)
{
    int f = VF_RANGE("file", 0, 1), i, k, n = 0;
    VF_ASSUME(alive[f]);            /* line f belongs to file f */
    for (k = 0; k < MAXQ; k++)
        if (k < ref_n && ref[k] % 2 != f) ref[n++] = ref[k];
    ref_n = n;
    for (i = 0; i < NPID; i++)
        if (i < npid && pid_line[i] >= 0 && pid_line[i] % 2 == f) ref_running--;
    delete_file(FN[f]->cf_user);
    for (i = 0; i < NLINES; i++)
        if (i % 2 == f) VF_ASSERT(!alive[i], "the lines of a removed fcrontab are freed");
        else VF_ASSERT(alive[i] || !alive[1 - f], "the lines of other fcrontabs stay");
}
void vf_main(void)
{
    int i, op;
    f0.cf_user = "a"; f1.cf_user = "b";
    for (i = 0; i < NLINES; i++) {
        LN[i]->cl_file = FN[i % 2];
        /* serial jobs, or jobs put in the serial queue for one run (fcrondyn) */
        if (VF_BOOL("serial")) set_serial(LN[i]->cl_option);
        else set_serial_once(LN[i]->cl_option);
#ifdef SEV
        set_serial_sev(LN[i]->cl_option);
#else
        clear_serial_sev(LN[i]->cl_option);
#endif
        LN[i]->cl_shell = "x";
        LN[i]->cl_next = FN[i % 2]->cf_line_base;
        FN[i % 2]->cf_line_base = LN[i];
        alive[i] = 1;
    }
    f0.cf_next = &f1;
    file_base = &f0;
    exe_list = exe_list_init();
    lavg_list = lavg_list_init();
    serial_queue_max = QMAX;
    serial_max_running = VF_RANGE("maxrun", 1, 2);
    serial_array_size = ASIZE;
    serial_array_index = 0;
    serial_array = h_calloc(ASIZE, sizeof(cl_t *));
    /* any state the queue can be in: entries anywhere in the array, wrapping around its end */
    serial_array_index = VF_RANGE("index", 0, ASIZE - 1);
    serial_num = VF_RANGE("num", 0, ASIZE < QMAX ? ASIZE : QMAX);
    for (i = 0; i < ASIZE; i++)
        if (i < serial_num) {
            int k = VF_RANGE("queued", 0, NLINES - 1);
#ifndef SEV
            VF_ASSUME(LN[k]->cl_numexe == 0);
#endif
            LN[k]->cl_numexe++;
            serial_array[(serial_array_index + i) % ASIZE] = LN[k];
            ref[ref_n++] = k;
        }
    for (i = 0; i < NLINES; i++)
        if (ref_running < serial_max_running && (is_serial_sev(LN[i]->cl_option) || LN[i]->cl_numexe == 0) && VF_BOOL("running")) {
            exe_t e = { NULL, 0, 0 };
            e.e_line = LN[i]; pid_line[npid] = i; e.e_ctrl_pid = 100 + npid++;
            exe_list_add(exe_list, &e);
            LN[i]->cl_numexe++;
            serial_running++; ref_running++;
        }
    check();
    for (i = 0; i < OPS; i++) {
#ifdef SEQ      /* the operations, in octal */
        op = (SEQ >> (3 * i)) & 7;
#else
        op = VF_RANGE("op", 0, 3);
#endif
        if (op == 0) op_add();
        else if (op == 1) op_run();
        else if (op == 2) op_end();
        else op_delete();
        check();
    }
    /* everything left in the queue comes out, in order */
    serial_max_running = 100;
    for (i = 0; i < MAXQ; i++) op_run();
    VF_ASSERT(ref_n == 0, "every waiting job is started in the end");
    VF_COVER("end");
}

/* C20: every request of an authenticated fcrondyn client. OP 0: kill and renice, 1: ls, 2: everything else */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up because of a request")
#define VF_OWN_FD_MSGS
#define NLAVG 2
#define NEXE 3
#include "db_common.h"
#include "fcrondyn_svr.h"
#include "getloadavg.h"
#undef send
#undef kill
#undef setpriority
#undef getpwuid
#undef snprintf
#undef getloadavg
extern void exe_cmd(fcrondyn_cl *c);
extern char err_job_nfound_str[], err_rjob_nfound_str[], err_invalid_args_str[], err_unknown_str[];
char *fifofile = "f";
static cl_t l0, l1, l2; static cl_t *const LN[3] = { &l0, &l1, &l2 };
static cf_t f0, f1, f2; static cf_t *const FN[3] = { &f0, &f1, &f2 };
static job_t Ja, Jb, Jc;
static cl_t *arr[3];
static fcrondyn_cl C; static long cmd[3];
static int who;                         /* the client: 0, 1 owners of lines 0 and 1, 2 root, 3 and more other users */
static int want;                        /* ls: the owner asked for, 3 for all, 4 for an unknown user, 5 for one without jobs */
static int ends, msgs, nfound, rnfound, printed[3], acted[NEXE], oks, started[3], resched[3], fields;
static int no(cl_t *l) { int i, r = 0; for (i = 0; i < 3; i++) if (l == LN[i]) r = i; VF_ASSERT(l == LN[r], "a line"); return r; }
static int may(int i) { return who == 2 || who == i; }
static void sent(void) { VF_ASSERT(!ends, "nothing comes after the end of an answer"); msgs++; }
ssize_t h_send(int fd, const void *p, size_t n, int fl)
{
    VF_ASSERT(fd == 7, "the client gets the answer");
    if (n == sizeof(END_STR)) { const char *s = p; VF_ASSERT(!ends && s[0] == 0 && s[1] == 0, "an answer ends once"); ends++; return n; }
    sent();
    if (p == err_job_nfound_str) nfound++;
    if (p == err_rjob_nfound_str) rnfound++;
    return n;
}
void send_msg_fd(int fd, char *f, ...) { VF_ASSERT(fd == 7, "the client gets the answer"); sent(); oks++; }
void send_msg_fd_debug(int fd, char *f, ...) { if (fd >= 0) sent(); }
void warn_fd(int fd, char *f, ...) { if (fd >= 0) sent(); }
void error_fd(int fd, char *f, ...) { if (fd >= 0) sent(); }
int h_snprintf(char *b, size_t n, const char *f, ...) { if (n) b[0] = 0; return VF_RANGE("length", 30, 300); }
int h_getloadavg(double *d, int n) { return n; }
static struct passwd pw;
struct passwd *h_getpwuid(uid_t u)
{
    if (u > 4) return NULL;
    pw.pw_uid = u; pw.pw_name = u == 0 ? ROOTNAME : u == 1 ? "ann" : u == 2 ? "bob" : "eve";
    return &pw;
}
static void act(int pid)
{
    int k = pid - 1000;
    VF_ASSERT(pid > 0, "only the process of a job is acted upon");
    VF_ASSERT(k >= 0 && k < exe_list->num_entries && exe_e[k].e_job_pid == pid && exe_e[k].e_line, "the process of a job of a table is acted upon");
    VF_ASSERT(may(no(exe_e[k].e_line)) && exe_e[k].e_line->cl_id == cmd[2], "a process is acted upon for root and its owner only, as requested");
    acted[k]++;
}
int h_kill(pid_t p, int s) { VF_ASSERT(cmd[0] == CMD_SEND_SIGNAL && s > 0 && s == (int)cmd[1], "the signal asked for is sent"); act(p); return VF_BOOL("fails") ? -1 : 0; }
int h_setpriority(__priority_which_t w, id_t p, int v)
{
    VF_ASSERT(cmd[0] == CMD_RENICE && w == PRIO_PROCESS && v == (int)cmd[1] && v <= 20 && v >= -20, "the nice value asked for is set");
    VF_ASSERT(v >= 0 || who == 2, "only root can increase the priority of a process");
    act(p); return VF_BOOL("fails") ? -1 : 0;
}
void print_fields(int fd, unsigned char *d) { VF_ASSERT(fd == 7, "the client gets the answer"); sent(); fields++; }
void print_line(int fd, cl_t *l, unsigned char *d, pid_t pid, int index, time_t until)
{
    int i = no(l);
    VF_ASSERT(fd == 7 && fields == 1, "the client gets the answer"); sent();
    VF_ASSERT(may(i), "a job is shown to root and its owner only");
    printed[i]++;
}
static void run(cl_t *l, int fd, int kind)
{
    int i = no(l);
    VF_ASSERT(may(i) && l->cl_id == cmd[1] && (cmd[0] == CMD_RUN || cmd[0] == CMD_RUNNOW), "a job is run for root and its owner only, as requested");
    VF_ASSERT(kind == (is_lavg(l->cl_option) ? 2 : is_serial(l->cl_option) ? 1 : 0) && fd == 7, "the options of the job are respected");
    started[i]++;
}
void add_lavg_job(cl_t *l, int fd) { run(l, fd, 2); }
void add_serial_job(cl_t *l, int fd) { run(l, fd, 1); }
void run_normal_job(cl_t *l, int fd) { run(l, fd, 0); }
void set_next_exe(cl_t *l, char o, int fd)
{
    int i = no(l);
    VF_ASSERT(may(i) && l->cl_id == cmd[1] && cmd[0] == CMD_RUNNOW && o == FROM_CUR_NEXTEXE, "a job is rescheduled for root and its owner only, as requested");
    resched[i]++; sent();
}
void vf_main(void)
{
    int i, k, n, whole, mine = 0, foreign = 0, act_n = 0, valid, total = 0;
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    for (i = 0; i < 3; i++) {
        cl_t *l = LN[i]; FN[i]->cf_user = i == 0 ? "ann" : i == 1 ? "bob" : SYSFCRONTAB;
        l->cl_file = FN[i]; l->cl_shell = "x"; l->cl_id = i == 0 ? VF_RANGE("id", 0, 5) : LN[i - 1]->cl_id + VF_RANGE("id", 1, 5);
        clear_serial(l->cl_option); clear_lavg(l->cl_option);
        if (VF_BOOL("serial")) set_serial(l->cl_option);
        if (VF_BOOL("lavg")) set_lavg(l->cl_option);
    }
    who = VF_RANGE("who", 0, 7);
    C.fcl_user = who == 0 ? "ann" : who == 1 ? "bob" : who == 2 ? ROOTNAME : who == 3 ? "eve" : who == 4 ? "anna" : who == 5 ? "an" : who == 6 ? "roo" : "roots";
    C.fcl_sock_fd = 7; C.fcl_cmd = cmd; C.fcl_cmd_len = VF_RANGE("length", 1, 24);
    for (i = 0; i < 3; i++) cmd[i] = VF_I64("cmd");
    whole = C.fcl_cmd_len >= (cmd[0] == CMD_SEND_SIGNAL || cmd[0] == CMD_RENICE ? 24 : 16);
    Ja.j_line = &l0; Jb.j_line = &l1; Jc.j_line = &l2; queue_base = &Ja; Ja.j_next = &Jb; Jb.j_next = &Jc;
    n = VF_RANGE("running", 0, NEXE); exe_list->num_entries = n;
    for (k = 0; k < NEXE; k++) {
        int w = VF_RANGE("line", 0, 3);
        exe_e[k].e_line = w == 0 ? &l0 : w == 1 ? &l1 : w == 2 ? &l2 : NULL;
        exe_e[k].e_job_pid = VF_BOOL("pid") ? 1000 + k : VF_BOOL("none") ? 0 : -1;
    }
#if OP == 0
    VF_ASSUME(cmd[0] == CMD_SEND_SIGNAL || cmd[0] == CMD_RENICE);
    exe_cmd(&C);
    valid = cmd[0] == CMD_SEND_SIGNAL ? (int)cmd[1] > 0 : (int)cmd[1] <= 20 && (int)cmd[1] >= (who == 2 ? -20 : 0);
    for (k = 0; k < NEXE; k++) {
        cl_t *l = exe_e[k].e_line;
        if (k < n && l && l->cl_id == cmd[2]) { if (may(no(l))) mine++; else foreign++; }
        VF_ASSERT(acted[k] == (whole && k < n && l && l->cl_id == cmd[2] && may(no(l)) && valid && exe_e[k].e_job_pid > 0), "a valid request is executed once on each process of the job");
        act_n += acted[k];
    }
    VF_ASSERT(ends == 1, "an answer ends once");
    VF_ASSERT(oks <= act_n, "success is reported only for what was done");
    if (whole && !mine) VF_ASSERT(nfound == 0 && rnfound == (foreign ? foreign : 1) && msgs == rnfound, "a job of somebody else looks like one which does not exist");
    if (act_n == 2) VF_COVER("two processes");
    if (foreign) VF_COVER("not allowed");
    if (oks) VF_COVER("done");
#elif OP == 1
    VF_ASSUME(cmd[0] == CMD_LIST_JOBS || cmd[0] == CMD_LIST_LAVGQ || cmd[0] == CMD_LIST_SERIALQ || cmd[0] == CMD_LIST_EXEQ);
    {
        int q[3] = { 0, 0, 0 }, nl, ns, orphans = 0;
        nl = VF_RANGE("waiting", 0, NLAVG); lavg_list->num_entries = nl;
        for (k = 0; k < NLAVG; k++) { int w = VF_RANGE("line", 0, 2); lavg_e[k].l_line = w == 0 ? &l0 : w == 1 ? &l1 : &l2; lavg_e[k].l_until = 5; if (k < nl && cmd[0] == CMD_LIST_LAVGQ) q[w]++; }
        ns = VF_RANGE("serial", 0, 3); serial_array = arr; serial_array_size = 3; serial_num = ns; serial_array_index = VF_RANGE("index", 0, 2);
        for (k = 0; k < 3; k++) { int w = VF_RANGE("line", 0, 2); arr[k] = LN[w]; if ((k - serial_array_index + 3) % 3 < ns) { if (cmd[0] == CMD_LIST_SERIALQ) q[w]++; } else arr[k] = NULL; }
        if (cmd[0] == CMD_LIST_JOBS) q[0] = q[1] = q[2] = 1;
        if (cmd[0] == CMD_LIST_EXEQ) for (k = 0; k < NEXE; k++) if (k < n) { if (exe_e[k].e_line) q[no(exe_e[k].e_line)]++; else orphans++; }
        want = cmd[1] == ALL ? 3 : cmd[1] == SYSFCRONTAB_UID ? 2 : (uid_t)cmd[1] == 1 ? 0 : (uid_t)cmd[1] == 2 ? 1 : (uid_t)cmd[1] > 4 ? 4 : 5;
        exe_cmd(&C);
        for (i = 0; i < 3; i++)
            VF_ASSERT(printed[i] == (whole && may(i) && (want == i || want == 3 && who == 2) ? q[i] : 0), "root and the owner see each of the jobs asked for once, and nobody else does");
        VF_ASSERT(oks == (whole && who == 2 && cmd[0] == CMD_LIST_EXEQ && want != 4 ? orphans : 0), "root sees the jobs of tables which were removed");
        VF_ASSERT(ends == 1 && msgs >= 1, "there is an answer, which ends once");
        if (printed[0] && who == 0) VF_COVER("own");
        if (printed[0] && printed[1]) VF_COVER("all");
        if (printed[2]) VF_COVER("system");
        if (want == 3 && who == 0 && whole) VF_COVER("refused");
    }
#else
    VF_ASSUME(cmd[0] != CMD_SEND_SIGNAL && cmd[0] != CMD_RENICE && cmd[0] != CMD_LIST_JOBS && cmd[0] != CMD_LIST_LAVGQ && cmd[0] != CMD_LIST_SERIALQ && cmd[0] != CMD_LIST_EXEQ);
    exe_cmd(&C);
    for (i = 0; i < 3; i++) {
        int it = whole && LN[i]->cl_id == cmd[1] && may(i);
        VF_ASSERT(started[i] == (it && (cmd[0] == CMD_RUN || cmd[0] == CMD_RUNNOW)), "the job asked for is run once");
        VF_ASSERT(resched[i] == (it && cmd[0] == CMD_RUNNOW), "the job asked for is rescheduled once");
        VF_ASSERT(printed[i] == (it && cmd[0] == CMD_DETAILS), "the job asked for is shown once");
        total += it;
    }
    VF_ASSERT(ends == 1, "an answer ends once");
    if (whole && !total && (cmd[0] == CMD_RUN || cmd[0] == CMD_RUNNOW || cmd[0] == CMD_DETAILS)) VF_ASSERT(nfound == 1 && msgs == 1 + fields, "a job of somebody else looks like one which does not exist");
    if (started[1] && who == 1) VF_COVER("run");
    if (resched[0]) VF_COVER("runnow");
    if (printed[2]) VF_COVER("details");
    if (cmd[0] == 999) VF_COVER("unknown");
#endif
}

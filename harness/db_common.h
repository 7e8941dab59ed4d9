/* common part of the harnesses about database.c: the daemon's global variables, and plain lists in
 * place of the real ones (whose behaviour is property C19) */
#ifndef DB_COMMON_H
#define DB_COMMON_H
#include "fcron.h"
#include "database.h"
#include "job.h"
#include "vf_log.h"
time_t now;
char foreground = 0;
char default_mail_charset[TERM_LEN];
time_t first_sleep = 20;
char *cdir = "/var/spool/fcron";
pid_t daemon_pid = 4242;
char *orig_tz_envvar;
mode_t saved_umask;
char *prog_name = "fcron";
uid_t rootuid;
gid_t rootgid;
bool sig_hup;
struct cf_t *file_base;
struct job_t *queue_base;
unsigned long int next_id;
struct cl_t **serial_array;
short int serial_array_size, serial_array_index, serial_num, serial_running;
short int serial_max_running = 1, serial_queue_max = 30, lavg_queue_max = 30;
exe_list_t *exe_list;
lavg_list_t *lavg_list;
short int lavg_serial_running;
char *fcrontabs = "/var/spool/fcron";
void xexit(int v) { VF_ON_DIE("exit"); VF_STOP(); }

/* a plain list: entries in order, deletion of the current one while iterating */
#ifndef NEXE
#define NEXE 4
#endif
#ifndef NLAVG
#define NLAVG 4
#endif
#define PLAIN_LIST(T, P, N, LT) \
static T P##_e[N]; static int P##_cur, P##_removed, P##_iter, P##_steps; static LT P##_theone; \
LT *P##_list_init(void) { P##_theone.num_entries = 0; P##_theone.max_entries = 0; return &P##_theone; } \
T *P##_list_add(LT *l, T *e) { \
    if (l->max_entries > 0 && l->num_entries >= l->max_entries) return NULL; \
    VF_MODEL(l->num_entries < N, "list bigger than the harness allows"); \
    int k = l->num_entries++; P##_e[k] = *e; return &P##_e[k]; } \
T *P##_list_first(LT *l) { P##_cur = 0; P##_steps = 0; P##_removed = 0; P##_iter = l->num_entries > 0; \
    return P##_iter ? &P##_e[0] : NULL; } \
T *P##_list_next(LT *l) { if (++P##_steps > 2 * N) return NULL; if (!P##_iter) return NULL; if (!P##_removed) P##_cur++; P##_removed = 0; \
    if (P##_cur < l->num_entries) return &P##_e[P##_cur]; P##_iter = 0; return NULL; } \
void P##_list_end_iteration(LT *l) { P##_iter = 0; } \
void P##_list_remove_cur(LT *l) { int k; VF_ASSERT(P##_iter && !P##_removed && P##_cur < l->num_entries, \
    "removes an entry only while one is current"); \
    for (k = 0; k < N - 1; k++) if (k >= P##_cur && k + 1 < l->num_entries) P##_e[k] = P##_e[k + 1]; \
    l->num_entries--; P##_removed = 1; } \
LT *P##_list_destroy(LT *l) { return NULL; }
PLAIN_LIST(exe_t, exe, NEXE, exe_list_t)
PLAIN_LIST(lavg_t, lavg, NLAVG, lavg_list_t)
exe_t *exe_list_add_line(exe_list_t *l, struct cl_t *line) { exe_t e = { NULL, 0, 0 }; e.e_line = line; return exe_list_add(l, &e); }
lavg_t *lavg_list_add_line(lavg_list_t *l, struct cl_t *line) { lavg_t e = { NULL, 0 }; e.l_line = line; return lavg_list_add(l, &e); }
#endif

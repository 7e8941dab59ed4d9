prop="C20"; file="fcrondyn_svr.c"
subs=[("    is_root = (strcmp(client->fcl_user, ROOTNAME) == 0) ? 1 : 0;\n","    is_root =\n        (strncmp(client->fcl_user, ROOTNAME, strlen(ROOTNAME)) == 0) ? 1 : 0;\n")]
needs="a user whose name begins with root"
breaks="the user can act on the jobs of everybody"
wrap=["print_line","send"]
demo=r'''
#include "fcron.h"
#include "database.h"
#include "fcrondyn_svr.h"
int shown;
void __wrap_print_line(int fd, struct cl_t *l, unsigned char *d, pid_t p, int i, time_t u) { shown++; }
int __real_main(void);
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return n; }
extern void exe_cmd(struct fcrondyn_cl *);
extern void __attribute__((weak)) dummy(void);
static int ran;
void __wrap_run_normal_job(cl_t *l, int fd) { ran++; }
int main(void)
{
    cf_t *f = calloc(1, sizeof(cf_t)); cl_t *l = calloc(1, sizeof(cl_t)); job_t *j = calloc(1, sizeof(job_t)); struct fcrondyn_cl c; long cmd[3] = { CMD_RUN, 5, 0 };
    f->cf_user = strdup2("ann"); l->cl_file = f; l->cl_shell = strdup2("x"); l->cl_id = 5; j->j_line = l; queue_base = j;
    memset(&c, 0, sizeof(c)); c.fcl_user = strdup2("rooter"); c.fcl_sock_fd = -1; c.fcl_cmd = cmd; c.fcl_cmd_len = sizeof(cmd);
    exe_cmd(&c);
    if (ran) { puts("the job of another user was run"); return 1; }
    return 0;
}
'''
wrap=["run_normal_job","send"]

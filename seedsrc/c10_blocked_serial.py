prop="C10"; file="database.c"
subs=[("            is_serial(l->l_line->cl_option)) {\n            continue;\n","            is_serial(l->l_line->cl_option)) {\n            break;\n")]
needs="a serial job waiting for a low load average while the maximum number of serial jobs are running, before another waiting job"
breaks="the jobs behind it are not started although the load is low"
demo=r'''
#include "fcron.h"
#include "database.h"
static cl_t *mk(char *s, cf_t *f)
{
    cl_t *l = calloc(1, sizeof(cl_t)); l->cl_shell = strdup2(s); l->cl_runas = strdup2("a"); l->cl_mailto = strdup2("a"); l->cl_file = f; l->cl_numexe = 1; l->cl_runfreq = 1;
    set_lavg(l->cl_option); set_run_if_late(l->cl_option); set_land(l->cl_option); l->cl_lavg[0] = l->cl_lavg[1] = l->cl_lavg[2] = 0;
    return l;
}
int started;
int __wrap_run_job(struct exe_t *e) { started++; e->e_ctrl_pid = 12345; return OK; }
int main(void)
{
    cf_t *f = calloc(1, sizeof(cf_t)); cl_t *a, *b;
    f->cf_user = strdup2("a"); f->cf_env_list = env_list_init(); file_base = f; now = time(NULL);
    exe_list = exe_list_init(); lavg_list = lavg_list_init(); lavg_list->max_entries = 5;
    a = mk("a", f); b = mk("b", f); set_serial(a->cl_option);
    lavg_list_add_line(lavg_list, a)->l_until = 0; lavg_list_add_line(lavg_list, b)->l_until = 0;
    serial_max_running = 1; lavg_serial_running = 1;
    check_lavg(now + 100);
    if (started != 1 || lavg_list->num_entries != 1) { printf("%d started, %d wait\n", started, lavg_list->num_entries); return 1; }
    return 0;
}
'''
wrap=["run_job"]

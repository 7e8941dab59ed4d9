prop="C11"; file="database.c"
subs=[("                    else if (is_lavg(line->cl_option)\n                             && is_serial(line->cl_option))\n                        lavg_serial_running--;\n","                    else if (is_lavg(line->cl_option))\n                        lavg_serial_running--;\n")]
needs="the end of a job which waited for a low load average and is not a serial one"
breaks="it is discounted from the running serial jobs, and more of them than allowed run together"
demo=r'''
#include "fcron.h"
#include "database.h"
int main(void)
{
    cf_t *f = calloc(1, sizeof(cf_t)); cl_t *l = calloc(1, sizeof(cl_t)); exe_t *e; pid_t p;
    f->cf_user = strdup2("a"); f->cf_env_list = env_list_init(); file_base = f; f->cf_running = 1;
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    l->cl_shell = strdup2("x"); l->cl_runas = strdup2("a"); l->cl_mailto = strdup2("a"); l->cl_file = f; l->cl_numexe = 1; l->cl_id = 1;
    set_lavg(l->cl_option); f->cf_line_base = l;
    e = exe_list_add_line(exe_list, l);
    if ((p = fork()) == 0) _exit(0);
    e->e_ctrl_pid = p; lavg_serial_running = 1; serial_max_running = 1;
    sleep(1); wait_chld();
    if (l->cl_numexe != 0 || lavg_serial_running != 1) { printf("%d %d\n", l->cl_numexe, lavg_serial_running); return 1; }
    return 0;
}
'''

prop="C09"; file="conf.c"
subs=[("                if ((is_serial(e->e_line->cl_option) ||\n                     is_serial_once(e->e_line->cl_option)) &&\n                    !is_lavg(e->e_line->cl_option))\n","                if (is_serial(e->e_line->cl_option) &&\n                    !is_lavg(e->e_line->cl_option))\n")]
needs="a table removed or reloaded while one of its jobs, put in the serial queue for one run only, is running"
breaks="the job stays counted as running, and takes a place among the serial jobs for ever"
demo=r'''
#include "fcron.h"
#include "conf.h"
#include "database.h"
int main(void)
{
    cf_t *f = calloc(1, sizeof(cf_t)); cl_t *l = calloc(1, sizeof(cl_t)); exe_t *e;
    f->cf_user = strdup2("a"); f->cf_env_list = env_list_init(); file_base = f;
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    serial_array_size = 4; serial_array = calloc(4, sizeof(cl_t *));
    l->cl_shell = strdup2("x"); l->cl_runas = strdup2("a"); l->cl_mailto = strdup2("a"); l->cl_tz = NULL; l->cl_file = f; l->cl_numexe = 1; l->cl_id = 1;
    set_serial_once(l->cl_option); f->cf_line_base = l;
    exe_list_add_line(exe_list, l);
    serial_running = 1;
    delete_file("a");
    if (serial_running != 0) { printf("%d jobs running\n", serial_running); return 1; }
    return 0;
}
'''

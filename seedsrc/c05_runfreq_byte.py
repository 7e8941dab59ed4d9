prop="C05"; file="conf.c"; prog="fcron"
subs=[("""            cl->cl_runfreq = (unsigned short)bufi;""","""            cl->cl_runfreq = (unsigned char)bufi;""")]
needs="a line with a runfreq of more than 255, saved and loaded again"
breaks="the line runs much more often than asked for after a restart"
demo=r"""
#include "fcron.h"
#include "database.h"
#include "conf.h"
#include "save.h"
int main(void)
{
    static cf_t f, g; static cl_t l;
    if (chmod(".", 0777)) return 2;
    setenv("TZ", "UTC0", 1); tzset();
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    rootuid = 0; rootgid = 0; now = 1700481600;
    f.cf_user = strdup("root"); f.cf_env_list = env_list_init(); f.cf_line_base = &l;
    l.cl_file = &f; l.cl_shell = strdup("x"); l.cl_runas = strdup("root"); l.cl_mailto = strdup("root");
    set_td(l.cl_option); l.cl_runfreq = 300; l.cl_remain = 300; l.cl_nextexe = now + 60;
    bit_nset(l.cl_mins, 0, 59) bit_nset(l.cl_hrs, 0, 23) bit_nset(l.cl_days, 1, 31) bit_nset(l.cl_mons, 0, 11) bit_nset(l.cl_dow, 0, 7)
    if (save_file_safe(&f, "root", "fcron", 0, 0, now) != OK) return 2;
    if (read_file("root", &g, 0) != OK || !g.cf_line_base) return 2;
    printf("runfreq: %d\n", g.cf_line_base->cl_runfreq);
    return g.cf_line_base->cl_runfreq != 300;
}
"""

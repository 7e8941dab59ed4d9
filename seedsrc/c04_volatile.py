prop="C04"; file="database.c"
subs=[('''        else if (is_new_file || is_volatile(cl->cl_option)
                 || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)
                                                 || is_runonce(cl->cl_option)))) {''','''        else if (is_new_file
                 || (context == CONTEXT_BOOT && (is_volatile(cl->cl_option)
                                                 || is_rebootreset(cl->cl_option)
                                                 || is_runonce(cl->cl_option)))) {''')]
needs="a volatile line, and the restart of fcron without a reboot"
breaks="the line waits for its period instead of its first delay"
demo=r'''
#include "fcron.h"
#include "database.h"
#include "option.h"
int main(void)
{
    static struct cl_t l; static struct cf_t f;
    foreground = 1; exe_list = exe_list_init(); lavg_list = lavg_list_init();
    now = 1000000; l.cl_file = &f; f.cf_user = "root"; l.cl_shell = "x"; l.cl_first = 60; l.cl_timefreq = 86400; l.cl_nextexe = 0;
    set_volatile(l.cl_option); set_freq(l.cl_option);
    set_next_exe_startup(&l, CONTEXT_DEFAULT, 500);
    if (l.cl_nextexe != now + 60) { printf("next execution in %ld s\n", (long)(l.cl_nextexe - now)); return 1; }
    return 0;
}
'''

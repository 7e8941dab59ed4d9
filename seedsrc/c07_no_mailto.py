prop="C07"; file="conf.c"; prog="fcron"
subs=[("""    if (cl->cl_shell == NULL || cl->cl_runas == NULL || cl->cl_mailto == NULL) {""","""    if (cl->cl_shell == NULL || cl->cl_runas == NULL
        || (cl->cl_mailto == NULL && runas != rootuid)) {""")]
needs="a saved table of root of which a line has no mail address (corrupted)"
breaks="the line is used, and the daemon's child crashes when its mail has to be sent"
demo=r"""
#include "fcron.h"
#include "database.h"
#include "conf.h"
int main(void)
{
    static cf_t f; static cl_t l;
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    f.cf_user = strdup("root"); l.cl_shell = strdup("x"); l.cl_runas = strdup("root");
    set_freq(l.cl_option); now = 200000; l.cl_timefreq = 60; l.cl_first = 60;
    add_line_to_file(&l, &f, 0, NULL, now, 0);
    return f.cf_line_base != NULL;
}
"""

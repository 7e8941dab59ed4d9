prop="C17"; file="fileconf.c"; prog="fcrontab"
subs=[('''            if (i == 0)
                set_lavg_sev(cl->cl_option);
            else
                clear_lavg_sev(cl->cl_option);
''','''            if (i == 0)
                set_lavg_sev(cl->cl_option);
            else if (in_brackets)
                clear_lavg_sev(cl->cl_option);
''')]
needs="option lavgonce without a value after a line with lavgonce(false)"
breaks="the option stays false"
demo=r'''
#include "fcrontab.h"
#include "fileconf.h"
extern char *read_opt(char *, cl_t *); extern char *file_name;
int main(void)
{
    char t[] = "!lavgonce(false),lavgonce"; cl_t l; memset(&l, 0, sizeof(l)); file_name = "x";
    if (!read_opt(t, &l) || is_lavg_sev(l.cl_option)) { puts("still false"); return 1; }
    return 0;
}
'''

prop="C29"; file="fileconf.c"; prog="fcrontab"
subs=[('strcmp(name, "MAILTO") == 0','strncmp(name, "MAILTO", 6) == 0')]
needs="a variable whose name begins with MAILTO"
breaks="the variable is not set, and mails go to its value"
demo=r'''
#include "fcrontab.h"
#include "fileconf.h"
extern void read_env(char *, cf_t *); extern cl_t default_line; extern char *file_name;
int main(void)
{
    char t[] = "MAILTO_BACKUP=other"; cf_t cf;
    memset(&cf, 0, sizeof(cf)); cf.cf_env_list = env_list_init(); file_name = "x";
    read_env(t, &cf);
    if (default_line.cl_mailto && strcmp(default_line.cl_mailto, "other") == 0) { puts("mailto changed"); return 1; }
    return 0;
}
'''

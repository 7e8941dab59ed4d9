prop="C08"; file="conf.c"; prog="fcron"
subs=[('''                                 bitstr_size(32) + bitstr_size(12) +
                                 bitstr_size(7));
''','''                                 bitstr_size(32) + bitstr_size(12));
''')]
needs="a table is installed again with a line of which only the days of the week have changed"
breaks="the line keeps the execution time computed from the previous days of the week"
demo=r"""
#include "fcron.h"
#include "database.h"
#include "conf.h"
#include "save.h"
static cf_t oldf, newf; static cl_t ol, nl;
static void line(cl_t *l, cf_t *f, int dow)
{
    l->cl_file = f; l->cl_shell = strdup("x"); l->cl_runas = strdup("root"); l->cl_mailto = strdup("root");
    l->cl_next = NULL; set_td(l->cl_option); set_dayand(l->cl_option); l->cl_runfreq = 0;
    bit_nset(l->cl_mins, 0, 59) bit_nset(l->cl_hrs, 0, 23) bit_nset(l->cl_days, 1, 31) bit_nset(l->cl_mons, 0, 11) bit_set(l->cl_dow, dow);
    if (dow == 0) bit_set(l->cl_dow, 7);
    f->cf_line_base = l; f->cf_user = strdup("root"); f->cf_env_list = env_list_init();
}
int main(void)
{
    char fn[] = "new.root"; time_t monday_noon = 1700481600;
    setenv("TZ", "UTC0", 1); tzset();
    if (chmod(".", 0777)) return 2;
    rootuid = 0; rootgid = 0; now = monday_noon;
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
    line(&nl, &newf, 3);
    if (save_file_safe(&newf, fn, "fcron", 0, 0, now) != OK) return 2;
    file_base = calloc(1, sizeof(cf_t));
    cl_t *o = calloc(1, sizeof(cl_t)); line(o, file_base, 2); o->cl_nextexe = monday_noon + 12 * 3600;
    insert_nextexe(o);
    synchronize_file(fn, 0);
    if (!file_base || !file_base->cf_line_base) return 2;
    struct tm *t = localtime(&file_base->cf_line_base->cl_nextexe);
    printf("next execution on day %d of the week\n", t->tm_wday);
    return t->tm_wday != 3;
}
"""

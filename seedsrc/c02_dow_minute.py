prop="C02"; file="database.c"; prog="fcron"
subs=[('''                ftime.tm_mday++;
                ftime.tm_hour = 0;
                ftime.tm_min = 0;
                goto setDay;
''','''                ftime.tm_mday++;
                ftime.tm_hour = 0;
                goto setDay;
''')]
needs="a line limited to a day of the week, computed on another day, with a minute before the current one"
breaks="earlier matching minutes of the first matching hour are skipped"
demo=r'''
#include "fcron.h"
#include "database.h"
int main(void)
{
    static cl_t l; static cf_t f; struct tm *t;
    setenv("TZ", "UTC", 1);
    now = 1700000000 / 86400 * 86400 + 1800;      /* 2023-11-14, a Tuesday, 00:30 */
    l.cl_file = &f; l.cl_shell = "x"; set_td(l.cl_option); set_dayand(l.cl_option);
    bit_nset(l.cl_mins, 0, 59) bit_nset(l.cl_hrs, 0, 23) bit_nset(l.cl_days, 1, 31) bit_nset(l.cl_mons, 0, 11)
    bit_set(l.cl_dow, 4);
    set_next_exe(&l, 0, -1);
    t = gmtime(&l.cl_nextexe);
    if (t->tm_wday != 4 || t->tm_hour != 0 || t->tm_min != 0) { printf("%d %d:%02d\n", t->tm_wday, t->tm_hour, t->tm_min); return 1; }
    return 0;
}
'''

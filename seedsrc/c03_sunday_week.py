prop="C03"; file="database.c"; prog="fcron"
subs=[('''                        int to_add =
                            (ftime->tm_wday == 0) ? 1 : 8 - ftime->tm_wday;
''','''                        int to_add = 8 - ftime->tm_wday;
''')]
needs="a %weekly line whose next execution is computed on a Sunday"
breaks="the week which begins the next day is skipped"
demo=r'''
#include "fcron.h"
#include "database.h"
int main(void)
{
    static cl_t l; static cf_t f; struct tm *t;
    setenv("TZ", "UTC", 1); first_sleep = 20;
    now = 1700000000 / 86400 * 86400 + 5 * 86400 + 36000;      /* 2023-11-19, a Sunday, 10:00 */
    l.cl_file = &f; l.cl_shell = "x"; set_td(l.cl_option); set_dayand(l.cl_option);
    l.cl_runfreq = l.cl_remain = 1; set_freq_periodically(l.cl_option); set_freq_dow(l.cl_option);
    bit_nset(l.cl_mins, 0, 59) bit_nset(l.cl_hrs, 0, 23) bit_nset(l.cl_days, 1, 31) bit_nset(l.cl_mons, 0, 11) bit_nset(l.cl_dow, 0, 7)
    set_next_exe(&l, 0, -1);
    t = gmtime(&l.cl_nextexe);
    if (t->tm_mday != 20 || t->tm_hour != 0 || t->tm_min != 0) { printf("%d %d:%02d\n", t->tm_mday, t->tm_hour, t->tm_min); return 1; }
    return 0;
}
'''

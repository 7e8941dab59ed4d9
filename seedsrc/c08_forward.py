prop="C08"; file="database.c"; prog="fcron"
subs=[('''    if (jprev == NULL || line->cl_nextexe < jprev->j_line->cl_nextexe) {
''','''    if (jprev == NULL) {
''')]
needs="a line which is not the first of the queue gets an earlier execution time (reload, fcrondyn)"
breaks="it stays behind lines which run later, and is run late"
demo=r'''
#include "fcron.h"
#include "database.h"
int main(void)
{
    static cl_t l[3]; static cf_t f; struct job_t *j; int i, n = 0; time_t p = 0;
    for (i = 0; i < 3; i++) { l[i].cl_file = &f; l[i].cl_shell = "x"; l[i].cl_nextexe = 100 * (i + 1); insert_nextexe(&l[i]); }
    l[2].cl_nextexe = 50; insert_nextexe(&l[2]);
    for (j = queue_base; j; j = j->j_next, n++) { if (j->j_line->cl_nextexe < p) { puts("not sorted"); return 1; } p = j->j_line->cl_nextexe; }
    return n != 3;
}
'''

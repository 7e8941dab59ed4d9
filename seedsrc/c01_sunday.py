prop="C01"; file="fileconf.c"; prog="fcrontab"
subs=[("            if (max == 7 && rm == 0) {\n","            if (max == 7 && rm == 0 && stop < 7) {\n")]
needs="an exclusion of Sunday written as 0 from a range going up to 7"
breaks="Sunday stays selected"
demo=r'''
#include "fcrontab.h"
#include "fileconf.h"
extern char *read_field(char *, bitstr_t *, int, const char **);
int main(void)
{
    char t[] = "3-7~0 x"; bitstr_t b[1] = {0};
    if (!read_field(t, b, 7, NULL) || bit_test(b, 0) || bit_test(b, 7) || !bit_test(b, 6)) { puts("Sunday selected"); return 1; }
    return 0;
}
'''

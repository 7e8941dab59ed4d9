prop="C18"; file="fileconf.c"; prog="fcrontab"
subs=[('''        case 's':              /* seconds */
            ptr++;
            break;
        case ' ':
        case '\\t':
        case ')':
            sum *= 60;          /* minutes */
            break;
'''.replace("\\\\","\\"),'''        case 's':              /* seconds */
            ptr++;
            break;
        case '\\t':
            break;
        case ' ':
        case ')':
            sum *= 60;          /* minutes */
            break;
'''.replace("\\\\","\\"))]
needs="a time value without unit followed by a tabulation"
breaks="it is read as seconds instead of minutes"
demo=r'''
#include "fcrontab.h"
#include "fileconf.h"
extern char *get_time(char *, time_t *, int);
int main(void)
{
    char t[] = "1h30\tx"; time_t v;
    if (!get_time(t, &v, 1) || v != 5400) { printf("%ld\n", (long)v); return 1; }
    return 0;
}
'''

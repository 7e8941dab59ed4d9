prop="C26"; file="log.c"
subs=[("        len += 2 + strlen(append);\n","        len += strlen(append);\n")]
needs="a message whose length with its error text is just over the maximum"
breaks="the message is cut without a truncation mark"
wrap=["syslog","__syslog_chk"]
demo=r'''
#include "fcron.h"
#include <syslog.h>
static char got[1000];
void __wrap_syslog(int p, const char *f, ...) { va_list a; va_start(a, f); vsnprintf(got, sizeof got, f, a); va_end(a); }
void __wrap___syslog_chk(int p, int l, const char *f, ...) { va_list a; va_start(a, f); vsnprintf(got, sizeof got, f, a); va_end(a); }
int main(void)
{
    char m[200]; int n = MAX_MSG - 1 - (int)strlen(strerror(ENOENT));   /* one more than fits */
    memset(m, 'm', n); m[n] = 0;
    foreground = 0; dosyslog = 1; errno = ENOENT;
    warn_e("%s", m);
    if (strstr(got, strerror(ENOENT)) == NULL && strstr(got, "truncated") == NULL) { printf("cut without mark: %s\n", got); return 1; }
    return 0;
}
'''

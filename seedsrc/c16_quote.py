prop="C16"; file="mail.c"; prog="fcron"
subs=[("        if (needed_len >= buf_len) {\n","        if (needed_len > buf_len) {\n")]
needs="a display name which has to be quoted and is one character too long"
breaks="the name is accepted without its closing quote"
demo=r'''
#include "fcron.h"
#include "mail.h"
extern char *format_maildisplayname(char *);
int main(void)
{
    char m[2000]; int n; char *r;
    for (n = MAIL_FROM_VALUE_LEN_MAX - 6; n < MAIL_FROM_VALUE_LEN_MAX + 2; n++) {
        memset(m, 'm', n); m[0] = '('; m[n] = 0;
        r = format_maildisplayname(m);
        if (r && (r[0] != '"' || r[strlen(r) - 1] != '"')) { puts("not quoted"); return 1; }
    }
    return 0;
}
'''

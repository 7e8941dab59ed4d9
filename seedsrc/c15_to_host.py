prop="C15"; file="job.c"
subs=[('''        hostname_from = (strchr(mailfrom, '@') == NULL) ? hostname : "";
        hostname_to = (strchr(line->cl_mailto, '@') == NULL) ? hostname : "";
''','''        if (strchr(mailfrom, '@') == NULL) {
            hostname_from = hostname;
            if (strchr(line->cl_mailto, '@') == NULL)
                hostname_to = hostname;
        }
''')]
needs="a complete address as option mailfrom, and a user name as option mailto"
breaks="the host is missing in the address of the recipient"
wrap=["gethostname"]
demo=r'''
#include "fcron.h"
#include "job.h"
#include "fcronconf.h"
int __wrap_gethostname(char *b, size_t n) { strcpy(b, "host"); return 0; }
int main(void)
{
    static struct cl_t l; static struct cf_t f; FILE *m; char b[200]; int ok = 0;
    foreground = 1;
    maildisplayname = "";
    l.cl_shell = "x"; l.cl_runas = "root"; l.cl_mailto = "jim"; l.cl_mailfrom = "a@b.c"; l.cl_file = &f; f.cf_user = "root";
    m = create_mail(&l, NULL, NULL, NULL, NULL);
    rewind(m);
    while (fgets(b, sizeof(b), m)) if (!strcmp(b, "To: jim@host\n")) ok = 1;
    if (!ok) { puts("the address of the recipient is not complete"); return 1; }
    return 0;
}
'''

prop="C15"; file="job.c"
subs=[('''                                     !(WIFEXITED(status)
                                       && WEXITSTATUS(status) == 0)
''','''                                     WEXITSTATUS(status) != 0
''')]
needs="a job which writes nothing, and is killed by a signal"
breaks="no mail is sent about the failure"
wrap=["execle","pam_setcred","pam_end","pam_close_session"]
demo=r'''
#include "fcron.h"
#include "option.h"
#include <sys/wait.h>
void end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **env);
int __wrap_execle(const char *p, const char *a, ...) { _exit(77); }
int __wrap_pam_setcred(void *p, int f) { return 0; }
int __wrap_pam_end(void *p, int f) { return 0; }
int __wrap_pam_close_session(void *p, int f) { return 0; }
int main(void)
{
    static struct cl_t l; static struct cf_t f; pid_t c; int st; char *env[1] = { NULL };
    l.cl_shell = "x"; l.cl_mailto = "root"; l.cl_file = &f; f.cf_user = "root"; set_mail(l.cl_option);
    fflush(stdout);
    c = fork();
    if (c == 0) { FILE *m = tmpfile(); foreground = 1; fputs("To: root\n\n", m); end_job(&l, 9, m, ftell(m), env); _exit(3); }
    waitpid(c, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) { puts("no mail about a job which was killed"); return 1; }
    return 0;
}
'''

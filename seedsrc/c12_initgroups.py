prop="C12"; file="job.c"
subs=[('''    if (initgroups(pas->pw_name, pas->pw_gid) < 0)
        die_e("initgroups failed: %s", pas->pw_name);
''','''    if (initgroups(pas->pw_name, pas->pw_gid) < 0) {
        if (errno != EINVAL)
            die_e("initgroups failed: %s", pas->pw_name);
        /* more groups than the kernel supports */
        warn_e("could not set all the groups of %s", pas->pw_name);
    }
''')]
needs="a user who is a member of more groups than the kernel supports"
breaks="the job runs with the groups of the daemon"
wrap=["initgroups","setgid","setuid","chdir"]
demo=r'''
#include "fcron.h"
#include <sys/wait.h>
void become_user(struct cl_t *cl, struct passwd *pas, char *home);
int __wrap_initgroups(const char *n, gid_t g) { errno = EINVAL; return -1; }
int __wrap_setgid(gid_t g) { return 0; }
int __wrap_setuid(uid_t u) { return 0; }
int __wrap_chdir(const char *d) { return 0; }
int main(void)
{
    static struct cl_t l; static struct passwd p; pid_t c; int st;
    p.pw_name = "nobody"; p.pw_uid = 65534; p.pw_gid = 65534;
    fflush(stdout);
    c = fork();
    if (c == 0) { foreground = 1; become_user(&l, &p, "/"); _exit(77); }
    waitpid(c, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { puts("goes on without the groups of the user"); return 1; }
    return 0;
}
'''

prop="C31"; file="fcrondyn_svr.c"
subs=[("        auth_fail++;\n        auth_nofail_since = now;\n","        if (auth_fail++ == 0)\n            auth_nofail_since = now;\n")]
needs="failed authentications spread over more than the delay"
breaks="the delay is counted from the first failure: the failures which came later are forgotten with it"
wrap=["send"]
demo=r'''
#include "fcron.h"
#include "fcrondyn_svr.h"
#include <shadow.h>
static struct spwd sp; static int tries;
struct spwd *__wrap_getspnam(const char *n) { sp.sp_pwdp = "#"; return &sp; }
char *__wrap_crypt(const char *p, const char *s) { tries++; return "?"; }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return n; }
extern void auth_client_password(struct fcrondyn_cl *);
static void attempt(void)
{
    long m[4] = { 0 }; struct fcrondyn_cl c; memset(&c, 0, sizeof(c)); strcpy((char *)m, "a"); strcpy((char *)m + 2, "x"); c.fcl_cmd = m; c.fcl_cmd_len = 4; c.fcl_sock_fd = -1;
    auth_client_password(&c);
}
int main(void)
{
    int i;
    dosyslog = 0; now = 1700000000; attempt();
    now += AUTH_WAIT - 5;
    for (i = 1; i < MAX_AUTH_FAIL; i++) attempt();
    now += 10; tries = 0; attempt();
    if (tries) { puts("a password was tried in spite of the failures of 10 seconds ago"); return 1; }
    return 0;
}
'''
wrap=["send","getspnam","crypt"]

prop="C23"; file="select.c"
subs=[("    /* re-initialize readfds -- select() will change it */\n    si->readfds = si->__readfds_master;","    /* re-initialize readfds if select() has changed it */\n    if (si->retcode > 0 || si->__fd_max < 0 || memcmp(&si->__readfds_master, &si->readfds, sizeof(fd_set) / 16) != 0)\n        si->readfds = si->__readfds_master;")]
needs="a wait which ends without anything ready, followed by another wait"
breaks="the daemon stops listening to its descriptors"
demo=r'''
#include "fcron.h"
#include "select.h"
int main(void)
{
    select_instance si; int p[2]; struct timeval t = {0, 1000};

    pipe(p);
    int hi = fcntl(p[0], F_DUPFD, 200);   /* a high descriptor, as with many clients */
    select_init(&si);
    select_add_read(&si, hi);
    select_call(&si, &t);                 /* nothing to read yet */
    write(p[1], "x", 1);
    t.tv_sec = 1; t.tv_usec = 0;
    select_call(&si, &t);
    if (si.retcode != 1 || !FD_ISSET(hi, &si.readfds)) { puts("input not seen"); return 1; }
    return 0;
}
'''

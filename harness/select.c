/* C23: exactly the descriptors that are registered are watched. */
#include "global.h"
#include "select.h"
#define VF_ON_DIE(m) died = 1
static int died;
#include "vf_log.h"
#undef select
#define NFD 12
#ifndef OPS
#define OPS 6
#endif
#ifndef BASE          /* the first of the descriptors used */
#define BASE 0
#endif
static char watched[NFD], ref[NFD];
static int sel_ret, called;
int h_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int i;
    called = 1;
    VF_ASSERT(w == NULL && e == NULL, "only reading is waited for");
    VF_ASSERT(n >= 0 && n <= BASE + NFD, "no more descriptors than needed are scanned");
    for (i = 0; i < NFD; i++) watched[i] = BASE + i < n && FD_ISSET(BASE + i, r);
    /* the kernel leaves only ready descriptors in the set */
    for (i = 0; i < NFD; i++) if (VF_BOOL("ready_cleared")) FD_CLR(BASE + i, r);
    return sel_ret;
}
static select_instance si;
void vf_main(void)
{
    int i, k, fd;
    struct timeval tv;
    select_init(&si);
    for (i = 0; i < OPS; i++) {
        int op = VF_RANGE("op", 0, 2);
        fd = VF_RANGE("fd", 0, NFD - 1);
        if (op == 0) { select_add_read(&si, BASE + fd); ref[fd] = 1; }
        else if (op == 1) { select_rm_read(&si, BASE + fd); ref[fd] = 0; }
        else {
            sel_ret = VF_RANGE("ret", -1, NFD);
            errno = EINTR;
            tv.tv_sec = 1; tv.tv_usec = 0;
            called = 0;
            select_call(&si, &tv);
            VF_ASSERT(called, "waits");
            VF_ASSERT(!died, "an interrupted wait is not an error");
            VF_ASSERT(si.retcode == sel_ret, "the outcome of the wait is reported");
            for (k = 0; k < NFD; k++)
                VF_ASSERT(watched[k] == ref[k], "exactly the registered descriptors are watched");
            VF_COVER("waited");
        }
    }
}

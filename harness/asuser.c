/* C24: file operations on behalf of a user happen with that user's identity, which is given back
 * afterwards on every path, and only a regular file with one link is ever handed out. */
#include "global.h"
#include "subs.h"
static int died;
#define VF_ON_DIE(m) died = 1; after_die()
static void after_die(void);
#include "vf_log.h"
#undef geteuid
#undef getegid
#undef seteuid
#undef setegid
#undef open
#undef fstat
#undef close
#undef remove
#undef rename
static uid_t euid, euid0, user_u;
static gid_t egid, egid0, user_g;
static int opened, closed, ops, nlink, op_fail, fail_set, isreg, statfail, wflags;
static void after_die(void) { VF_ASSERT(fail_set, "gives up only when an identity cannot be taken"); }
uid_t h_geteuid(void) { return euid; }
gid_t h_getegid(void) { return egid; }
int h_seteuid(uid_t u) {
    if (VF_BOOL("seteuid_fails")) { fail_set = 1; VF_ERRNO(); return -1; }
    euid = u; return 0; }
int h_setegid(gid_t g) {
    if (VF_BOOL("setegid_fails")) { fail_set = 1; VF_ERRNO(); return -1; }
    egid = g; return 0; }
static void as_user(void)
{
    ops++;
    VF_ASSERT(euid == user_u && egid == user_g, "done with the identity of the user");
    VF_ASSERT(!fail_set, "not done when the identity could not be taken");
}
static const char *P = "path", *Q = "new";
static int open_errno;
int h_open(const char *p, int fl, ...) {
    va_list ap; mode_t m = 0;
    if (fl & O_CREAT) { va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    as_user();
    VF_ASSERT(p == P && fl == wflags, "the file and the flags asked for");
    if (fl & O_CREAT) VF_ASSERT(m == 0640, "the mode asked for");
    if (VF_BOOL("open_fails")) { open_errno = VF_RANGE("errno", 1, 40); errno = open_errno; return -1; }
    opened = 1; return 5; }
int h_fstat(int fd, struct stat *s) {
    VF_ASSERT(fd == 5 && opened && !closed, "the file which was opened is examined");
    statfail = VF_BOOL("fstat_fails");
    if (statfail) { VF_ERRNO(); return -1; }
    isreg = VF_BOOL("regular"); nlink = VF_RANGE("nlink", 0, 3);
    s->st_mode = (isreg ? S_IFREG : VF_BOOL("link") ? S_IFLNK : VF_BOOL("dir") ? S_IFDIR : S_IFIFO) | (VF_U8("perm") & 0777);
    s->st_nlink = nlink; s->st_uid = user_u; s->st_gid = user_g;
    return 0; }
int h_close(int fd) { VF_ASSERT(fd == 5 && !closed, "closes once what it opened"); closed = 1; return 0; }
int h_remove(const char *p) { as_user(); VF_ASSERT(p == P, "the file asked for"); op_fail = VF_BOOL("fails"); if (op_fail) errno = VF_RANGE("errno", 1, 40); return op_fail ? -1 : 0; }
int h_rename(const char *p, const char *q) { as_user(); VF_ASSERT(p == P && q == Q, "the files asked for"); op_fail = VF_BOOL("fails"); if (op_fail) errno = VF_RANGE("errno", 1, 40); return op_fail ? -1 : 0; }
int xclose(int *fd) { int r = h_close(*fd); *fd = -1; return r; }
int xclose_check(int *fd, const char *n) { return xclose(fd); }
void vf_main(void)
{
    int r;
    euid0 = euid = VF_I32("euid"); egid0 = egid = VF_I32("egid");
    user_u = VF_I32("user_uid"); user_g = VF_I32("user_gid");
#if OPN == 0
    wflags = VF_I32("flags");
    r = open_as_user(P, user_u, user_g, wflags, 0640);
    VF_ASSERT(ops == 1, "opened once");
    if (r >= 0) {
        VF_ASSERT(r == 5 && opened && !closed, "an open file is returned");
        VF_ASSERT(!statfail && isreg && nlink == 1, "only a regular file with a single link");
        VF_COVER("opened");
    } else {
        VF_ASSERT(!opened || closed, "no file stays open after a failure");
        VF_ASSERT(!opened || statfail || !isreg || nlink != 1, "a proper file is not refused");
        if (!opened) { VF_ASSERT(errno == open_errno, "the reason of the failure is reported"); VF_COVER("not opened"); }
        else VF_COVER("refused");
    }
#elif OPN == 1
    r = remove_as_user(P, user_u, user_g);
#else
    r = rename_as_user(P, Q, user_u, user_g);
#endif
#if OPN
    VF_ASSERT(ops == 1 && r == (op_fail ? -1 : 0), "done once, and its outcome is reported");
    VF_COVER("done");
#endif
    VF_ASSERT(euid == euid0 && egid == egid0, "the previous identity is back");
}

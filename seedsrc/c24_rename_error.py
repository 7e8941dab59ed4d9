prop="C24"; file="subs.c"
subs=[("    rval = rename(oldpath, newpath);\n","    if ((rval = rename(oldpath, newpath)) != 0 && errno == EXDEV)\n        /* the caller has to copy the file */\n        return rval;\n")]
needs="a rename which fails because the destination is on another file system"
breaks="the process keeps the identity of the user"
wrap=["rename"]
demo=r'''
#include "fcron.h"
int __wrap_rename(const char *a, const char *b) { errno = EXDEV; return -1; }
int main(void)
{
    if (geteuid() != 0) return 0;
    rename_as_user("a", "b", 65534, getgid());
    if (geteuid() != 0 || getegid() != getgid()) { puts("identity not restored"); return 1; }
    return 0;
}
'''

prop="C06"; file="save.c"
subs=[('''            if (save_one_file(file, final_path, own_uid, own_gid, save_date) ==
                ERR)
                return ERR;
''','''            /* make some room, in case the disk is full */
            remove_as_user(temp_path, own_uid, own_gid);
            return save_one_file(file, final_path, own_uid, own_gid, save_date);
''')]
needs="a table whose file can not be replaced by renaming, and then written in place"
breaks="no complete version of the table is left"
wrap=["rename","write","open"]
demo=r'''
#include "fcron.h"
#include "save.h"
static int renamed;
int __wrap_rename(const char *a, const char *b) { renamed = 1; errno = EPERM; return -1; }
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (renamed && fd > 2) { errno = ENOSPC; return -1; } return __real_write(fd, b, n); }
int __real_open(const char *p, int f, ...);
int __wrap_open(const char *p, int f, int m) { return __real_open(p, f, m); }
int main(void)
{
    static struct cf_t f; struct stat st; long size;
    foreground = 1; f.cf_user = "root"; f.cf_env_list = env_list_init();
    f.cf_file_context = NULL;
    if (save_file_safe(&f, "table", "demo", geteuid(), getegid(), 1) != ERR) return 3;
    if (stat("table.tmp", &st) != 0 && stat("table", &st) != 0) { puts("nothing is left"); return 1; }
    return 0;
}
'''

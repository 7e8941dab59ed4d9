prop="C06"; file="fcrontab.c"; prog="fcrontab"
subs=[("        if (write(to_fd, copy_buf, nb) != nb) {","        if (write(to_fd, copy_buf, nb) <= 0) {")]
needs="a disk which is full in the middle of a block"
breaks="the truncated source replaces the previous one"
wrap=["write"]
demo=r'''
#include "fcrontab.h"
#include "global.h"
extern uid_t asuid, useruid, fcrontab_uid, rootuid; extern gid_t fcrontab_gid;
int copy_src(int from, const char *dest);
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) { return __real_write(fd, b, n > 20 ? n / 2 : n); }
int main(void)
{
    int fd, i; FILE *f; char b[100]; long n;
    asuid = useruid = fcrontab_uid = rootuid = geteuid(); fcrontab_gid = getegid();
    f = fopen("src", "w"); for (i = 0; i < 100; i++) fputs("@ 10 echo test\n", f); fclose(f);
    f = fopen("dest", "w"); fputs("old\n", f); fclose(f);
    fd = open("src", O_RDONLY);
    i = copy_src(fd, "dest");
    f = fopen("dest", "r"); fgets(b, sizeof(b), f); fseek(f, 0, SEEK_END); n = ftell(f);
    if (strcmp(b, "old\n") && n != 1500) { printf("%ld bytes installed, result %d\n", n, i); return 1; }
    return 0;
}
'''

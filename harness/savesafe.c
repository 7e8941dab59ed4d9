/* C06: whatever fails and wherever the program stops while a table (KIND 0) or its source (KIND 1)
 * is written, the complete previous version or the complete new one is there.
 * The state of the two files is kept by stand-ins for the system calls, and the guarantee is checked
 * after each of them: these are the points where a crash may happen. */
#include "global.h"
#include "fcron.h"
#include "save.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the program gave up while saving")
#include "vf_log.h"
#undef write
#undef read
#undef fchown
#undef fdatasync
#undef memcpy
int save_file_safe(cf_t *file, char *final_path, char *prog_name, uid_t own_uid, gid_t own_gid, time_t save_date);
int copy_src(int from, const char *dest);
#if KIND
extern uid_t asuid, useruid, fcrontab_uid, rootuid; extern gid_t fcrontab_gid;
static unsigned char src[8];
#else
char *prog_name = "x"; uid_t rootuid; gid_t rootgid;
#endif
static char final_[24], tname[40]; static int flen, tknown;
static struct { int exists, n, synced, old, good; } F[2];      /* 0: final name, 1: temporary name */
static int fdof = -1, renfail, ownok, faults, total, wfault; static uid_t OU; static gid_t OG;
static int complete(int k) { return F[k].exists && !F[k].old && F[k].n == total && F[k].good && (F[k].synced || KIND); }
static void inv(void)
{
    int ok = F[0].old == 2 ? !F[0].exists : F[0].exists && F[0].old == 1;       /* previous version: there, or none */
    VF_ASSERT(ok || complete(0) || (!KIND && renfail && complete(1)), "the previous or the new version is complete");
}
static int which(const char *p)
{
    int i;
    for (i = 0; i < 24; i++) { if (p[i] != final_[i]) break; if (!p[i]) return 0; }
    if (!tknown) { for (i = 0; i < 39; i++) { tname[i] = p[i]; if (!p[i]) break; } tknown = 1;
        for (i = 0; i < 39 && p[i] != '.'; i++) VF_ASSERT(p[i], "the temporary file is not taken for a table");
    } else for (i = 0; i < 39; i++) { VF_ASSERT(p[i] == tname[i], "a single temporary file"); if (!p[i]) break; }
    return 1;
}
int open_as_user(const char *p, uid_t u, gid_t g, int fl, ...)
{
    int k = which(p);
    VF_ASSERT(fdof == -1, "one file is written at a time");
    VF_ASSERT((fl & O_WRONLY) && (fl & O_CREAT) && (fl & O_TRUNC), "the file is created or emptied");
    if (VF_BOOL("ofail")) { faults++; VF_ERRNO_NOINTR(); return -1; }
    F[k].exists = 1; F[k].n = 0; F[k].synced = 0; F[k].old = 0; F[k].good = 1; fdof = k; ownok = 0; wfault = 0;
    inv();
    return 3;
}
int h_fchown(int fd, uid_t u, gid_t g) { VF_ASSERT(fd == 3 && fdof >= 0, "the file which is written"); VF_ASSERT(u == OU && g == OG, "the owner of the file"); if (VF_BOOL("cfail")) { faults++; wfault = 1; VF_ERRNO_NOINTR(); return -1; } ownok = 1; return 0; }
int h_fchmod(int fd, mode_t m) { VF_ASSERT(fd == 3 && fdof >= 0 && (m & 077) == 0, "the file which is written"); if (VF_BOOL("mfail")) { faults++; wfault = 1; VF_ERRNO_NOINTR(); return -1; } return 0; }
static int shorts; static int rpos, wq, rfault;
long h_write(int fd, const void *b, size_t n)
{
    size_t k = n;
    VF_ASSERT(fd == 3 && fdof >= 0, "the file which is written");
    if (VF_BOOL("wfail")) { faults++; wfault = 1; VF_ERRNO_NOINTR(); return -1; }
    if (n > 1 && shorts < 1 && VF_BOOL("short")) { shorts++; k = VF_RANGE("written", 1, n - 1); }
#if KIND
    { int i;
    VF_ASSERT(n <= (size_t)(rpos - wq), "only what was read is written");
    if (F[fdof].n != wq) F[fdof].good = 0;
    for (i = 0; i < 8; i++) if (i < (int)k && ((const unsigned char *)b)[i] != src[wq + i]) F[fdof].good = 0;
    wq += k; }
#endif
    F[fdof].n += k; F[fdof].synced = 0;
    inv();
    return k;
}
int h_fdatasync(int fd) { VF_ASSERT(fd == 3 && fdof >= 0, "the file which is written"); if (VF_BOOL("sfail")) { faults++; wfault = 1; VF_ERRNO_NOINTR(); return -1; } F[fdof].synced = 1; return 0; }
int xclose(int *fd) { VF_ASSERT(*fd == 3 && fdof >= 0, "the file is closed once"); *fd = -1; fdof = -1; inv(); return VF_BOOL("clfail") ? -1 : 0; }
int xclose_check(int *fd, const char *n) { return xclose(fd); }
int remove_as_user(const char *p, uid_t u, gid_t g) { int k = which(p); if (VF_BOOL("rmfail")) { VF_ERRNO_NOINTR(); return -1; } F[k].exists = 0; F[k].n = 0; F[k].old = 0; inv(); return 0; }
int rename_as_user(const char *p, const char *q, uid_t u, gid_t g)
{
    int a = which(p), b = which(q);
    VF_ASSERT(a == 1 && b == 0, "the temporary file gets the final name");
    VF_ASSERT(KIND || ownok, "the new file has the right owner");
    VF_ASSERT(fdof == -1, "the file is closed before it gets its name");
    if (VF_BOOL("rnfail")) { faults++; renfail = 1; VF_ERRNO_NOINTR(); return -1; }
    F[0] = F[1]; F[1].exists = 0;
    inv();
    return 0;
}
void *h_memcpy(void *d, const void *s, size_t n) { return d; }
#if KIND
static int reads;
long h_read(int fd, void *b, size_t n)
{
    int k;
    VF_ASSERT(fd == 4 && wq == rpos, "the source is read when what was read before is written");
    if (VF_BOOL("rfail")) { faults++; rfault = 1; VF_ERRNO_NOINTR(); return -1; }
    if (rpos == total) return 0;
    VF_MODEL(reads++ < 3, "reads");
    k = VF_RANGE("read", 1, 6);
    VF_ASSUME(k <= total - rpos);
    VF_ASSERT(n >= 6, "buffer");
    { int i; for (i = 0; i < 6; i++) if (i < k) ((unsigned char *)b)[i] = src[rpos + i]; }
    rpos += k;
    return k;
}
off_t h_lseek(int fd, off_t o, int w) { VF_ASSERT(fd == 4 && o == 0 && w == SEEK_SET, "the source is read from its beginning"); return 0; }
#endif
void vf_main(void)
{
    int i, r;
    flen = VF_RANGE("len", 1, 20);
    for (i = 0; i < 20; i++) { final_[i] = i < flen ? VF_RANGE("char", 'a', 'z') : 0; }
    VF_ASSUME(flen < 12 || flen > 12);
    F[0].exists = VF_BOOL("before"); F[0].old = F[0].exists ? 1 : 2;
    F[1].exists = VF_BOOL("rest");
#if KIND
    total = VF_RANGE("size", 0, 8);
    for (i = 0; i < 8; i++) src[i] = VF_U8("byte");
    rootuid = 0; asuid = VF_BOOL("root") ? 0 : 1000; fcrontab_uid = 50; fcrontab_gid = 60; useruid = VF_BOOL("rootuser") ? 0 : 1001;
    OU = 0; OG = 60;
    {
        char name[24]; for (i = 0; i < 24; i++) name[i] = final_[i];
        r = copy_src(4, name);
    }
    VF_ASSERT(fdof == -1, "the file is closed");
    if (faults) VF_ASSERT(r == ERR, "a failure is reported");
    else if (!shorts) VF_ASSERT(r == OK, "the copy is made when nothing fails");
    if (r == OK) VF_ASSERT(complete(0), "the new version is complete");
    else VF_ASSERT(F[0].old, "the previous version is kept");
    VF_COVER("copy");
#else
    cf_t T; cl_t L;
    static const cf_t Z; static const cl_t ZL; env_list_t EL;
    T = Z; L = ZL;
    T.cf_user = "u"; T.cf_env_list = &EL;
    if (VF_BOOL("line")) T.cf_line_base = &L;
    L.cl_shell = "s"; L.cl_runas = "r"; L.cl_mailto = "m"; set_freq(L.cl_option); L.cl_timefreq = 60;
    total = 12 + 5 + 12 + (T.cf_line_base ? 5 + 5 + 5 + 4 + OPTION_SIZE + 12 + 12 + 12 + 4 : 0);
    OU = VF_BOOL("uid") ? 0 : 1000; OG = VF_BOOL("gid") ? 0 : 100;
    r = save_file_safe(&T, final_, "x", OU, OG, 1234);
    VF_ASSERT(fdof == -1, "the file is closed");
    if (r == OK) { VF_ASSERT(complete(0), "the new version is complete"); VF_COVER("saved"); }
    else { VF_ASSERT(F[0].old || renfail, "the previous version is kept"); VF_COVER("failed"); }
    if (!faults && !shorts) VF_ASSERT(r == OK, "the table is saved when nothing fails");
#endif
}
#if !KIND
int is_selinux_enabled(void) { return VF_BOOL("se"); }
int setfscreatecon(const char *c) { return VF_BOOL("sefail") ? (faults++, -1) : 0; }
int setfscreatecon_raw(const char *c) { return 0; }
env_t *env_list_first(env_list_t *l) { return NULL; }
env_t *env_list_next(env_list_t *l) { return NULL; }
#endif

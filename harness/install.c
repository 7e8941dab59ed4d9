/* C30: fcrontab has the daemon told about each table which is installed or removed, once it is complete (WHAT 0: installing, 1: removing) */
#include "global.h"
#define VF_ON_DIE(m) do { vf_gave_up(); } while (0)
static void vf_gave_up(void);
#include "fcron.h"
#include "database.h"
#include "fcrontab.h"
#include "vf_log.h"
#undef fork
#undef execl
#undef waitpid
#undef exit
#undef open
#undef snprintf
#undef fchown
#undef seteuid
#undef setegid
#undef geteuid
#undef getegid
#include <stdarg.h>
extern int make_file(char *, int); extern int remove_fcrontab(char); extern void xexit(int);
extern char need_sig, ignore_prev; extern pid_t daemon_pid; extern uid_t useruid, fcrontab_uid, asuid, rootuid; extern gid_t fcrontab_gid; extern char *user; extern cf_t *file_base; 
static int parsed, written, src, removals, saves, freed, marks, told, child, forks, waits, rd, empty, srcok, saveok, markok, ended, egid, egiderr, forkerr; static cf_t F; static cl_t L;
static char kind;
int h_snprintf(char *b, size_t l, const char *fmt, ...) { kind = b[0] = fmt[0] == '%' ? 'o' : fmt[0] == 'n' ? 'n' : fmt[0] == 'r' ? 'r' : '?'; b[1] = 0; return 1; }
int read_file(char *n, int fd) { VF_ASSERT(!parsed && fd == 4, "the table is read"); parsed++; if (rd != ERR) { file_base = &F; F.cf_line_base = empty ? NULL : &L; } return rd; }
int copy_src(int fd, const char *d) { VF_ASSERT(fd == 4 && d[0] == 'o' && parsed && (rd == OK || rd == 2), "the source of a table which could be read is kept"); VF_ASSERT(!forks, "the daemon is told afterwards"); src++; return srcok ? OK : ERR; }
int save_file(char *n) { VF_ASSERT(n[0] == 'n' && src && srcok && !empty && !freed, "the table is written once its source is"); VF_ASSERT(!forks, "the daemon is told afterwards"); saves++; return saveok ? OK : ERR; }
void delete_file(const char *u) { VF_ASSERT(saves || marks || src, "the table is freed once it is written"); freed++; }
static int rmfail;
int remove_as_user(const char *n, uid_t u, gid_t g)
{
    VF_ASSERT(!forks, "the daemon is told afterwards"); VF_ASSERT(n[0] == 'o' || n[0] == 'n', "only the files of the table");
    if (n[0] == 'o') VF_ASSERT(WHAT == 1, "the source is only removed with the table");
    VF_ASSERT(saves == 0, "a table which was written is not removed"); removals |= n[0] == 'o' ? 1 : 2;
    if (rmfail) { errno = rmfail; return -1; } return 0;
}
int open_as_user(const char *n, uid_t u, gid_t g, int fl, ...) { VF_ASSERT(!forks, "the daemon is told afterwards"); VF_ASSERT(n[0] == 'r' && (fl & O_EXCL) && (fl & O_CREAT), "the daemon finds out that the table was removed"); marks++; if (!markok) { errno = EEXIST; return -1; } return 6; }
int h_fchown(int fd, uid_t u, gid_t g) { return 0; }
int xclose_check(int *fd, const char *n) { *fd = -1; return 0; }
gid_t h_getegid(void) { return egid; } uid_t h_geteuid(void) { return 8; }
int h_setegid(gid_t g) { VF_ASSERT(g == 8, "the group of fcrontab"); if (egiderr) { errno = EPERM; return -1; } egid = g; return 0; }
int h_seteuid(uid_t g) { return 0; }
pid_t h_fork(void) { VF_ASSERT(need_sig == 1 && !forks, "the daemon is told once, about a change"); forks++; if (forkerr) { errno = EAGAIN; return -1; } return child ? 0 : 99; }
int h_execl(const char *p, const char *a, ...)
{
    va_list ap; int n = 0; while (p[n]) n++;
    VF_ASSERT(child && egid == 8 && n > 11 && p[n - 11] == 'f' && p[n - 1] == 'p' && p[n - 12] == '/', "fcronsighup is run, as the group of fcron");
    va_start(ap, a); VF_ASSERT(va_arg(ap, char *) == fcronconf, "with the same configuration file"); VF_ASSERT(va_arg(ap, char *) == NULL, "and nothing else"); va_end(ap);
    told++; VF_COVER("told"); VF_STOP(); return -1;
}
pid_t h_waitpid(pid_t p, int *s, int o) { VF_ASSERT(p == 99 && forks, "the program which tells the daemon is waited for"); waits++; return p; }
static int due;
void h_exit(int c)
{
    if (forkerr && due) VF_ASSERT(c != 0 && vf_errors, "a failure is reported");
    else if (child && due) VF_ASSERT(egiderr && vf_errors, "a failure is reported");
    else { VF_ASSERT(forks == due && waits == due && c == 3, "the daemon is told when a table has changed, and only then"); if (due) VF_COVER("parent"); }
    VF_STOP();
}
int pam_setcred(pam_handle_t *h, int f) { return 0; } int pam_end(pam_handle_t *h, int f) { return 0; } int pam_close_session(pam_handle_t *h, int f) { return 0; }
char *fcronconf, *fcrontabs = "f", *shell = "s", *sendmail = "m", *editor = "e", *pidfile = "p", *fifofile = "q", *suspendfile = "su", *rebootlock = "r", *fcronallow = "a", *fcrondeny = "d", *maildisplayname = "";
void vf_main(void)
{
    int r;
    fcronconf = "c"; user = "u"; rootuid = 0; fcrontab_uid = fcrontab_gid = 8; asuid = VF_BOOL("asroot") ? 0 : 1000; useruid = 1000; egid = VF_BOOL("othergroup") ? 7 : 8; egiderr = VF_BOOL("setegid"); forkerr = VF_BOOL("fork"); child = VF_BOOL("child");
    ignore_prev = VF_BOOL("ignore"); rd = VF_RANGE("read", 0, 3); VF_ASSUME(rd == OK || rd == ERR || rd == 2);
    empty = VF_BOOL("empty"); srcok = VF_BOOL("source"); saveok = VF_BOOL("save"); markok = VF_BOOL("mark"); rmfail = VF_RANGE("remove", 0, 133);
    need_sig = 0;
#if WHAT == 0
    r = make_file("t", 4);
    written = rd != ERR && srcok && (empty || saveok);
    VF_ASSERT(r == (written ? OK : ERR), "success is reported exactly when the table is installed");
    if (rd == ERR) VF_ASSERT(!src && !saves && !marks, "a table which could not be read changes nothing");
    if (written && empty) VF_ASSERT(marks >= 1 && removals & 2, "a table without entries removes the previous one");
    if (written && !empty) VF_ASSERT(saves == 1 && (marks == 0 || ignore_prev), "the table is written");
    due = written || marks;
    VF_ASSERT(need_sig == due, "the daemon is to be told about what was installed");
#else
    kind = 0; extern char buf[]; buf[0] = 'o'; buf[1] = 0;
    r = remove_fcrontab(1);
    VF_ASSERT(r == (rmfail == ENOENT ? ENOENT : OK), "whether there was a table is reported");
    VF_ASSERT(removals == 3 && marks == 1 && need_sig == 1, "the files of the table are removed and the daemon is to be told");
    if (!markok) VF_COVER("already removed");
    if (rmfail && rmfail != ENOENT) VF_ASSERT(vf_errors, "a failure is reported");
    due = 1;
#endif
    xexit(3);
}
static void vf_gave_up(void) { VF_ASSERT(egiderr && egid == 7 && forks == due, "fcrontab only gives up when it has told the daemon and cannot change group"); VF_STOP(); }

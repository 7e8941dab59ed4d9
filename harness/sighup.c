/* C30: the daemon is told that a table has changed (WHAT 0: sig_daemon(), 1: main()) */
#include "global.h"
#define VF_ON_DIE(m) do { gave_up = 1; end(); VF_STOP(); } while (0)
static int gave_up; static void end(void);
#include "vf_log.h"
#include "allow.h"
#include "fcronconf.h"
#undef time
#undef localtime
#undef fork
#undef open
#undef fdopen
#undef flock
#undef lockf
#undef sleep
#undef remove
#undef kill
#undef seteuid
#undef snprintf
#undef fprintf
#undef getuid
#undef geteuid
#undef getgid
#undef getegid
#undef getpwuid
#undef free
#include <stdarg.h>
extern uid_t uid, fcrontab_uid, rootuid; char *fcrontabs, *fcronconf, *pidfile = "p"; extern pid_t daemon_pid; extern char foreground;
extern void sig_daemon(void);
static char fcrontabs_[] = "/d"; 
static long now0; static int root, forked, delay, slept, sleeps, opened, locked, closed, removed, kills, euid, pid_now, pid_then, lock_held, open_err, fork_err, kill_err, seteuid_err, child, told, fdopen_err, seteuids;
static long target; static FILE ff; static struct tm tmv;
time_t h_time(time_t *t) { return now0; }
struct tm *h_localtime(const time_t *t) { target = *t; return &tmv; }
int h_fprintf(FILE *f, const char *fmt, ...) { VF_ASSERT(f == stderr, "messages go to the user"); told++; return 0; }
int h_snprintf(char *b, size_t l, const char *fmt, ...) { b[0] = 's'; b[1] = 0; return 1; }
pid_t h_fork(void) { VF_ASSERT(!forked, "one process waits"); forked++; if (fork_err) { errno = fork_err; return -1; } return child ? 0 : 77; }
int h_open(const char *n, int fl, ...) { VF_ASSERT(n[0] == 's' && n[1] == 0 && (fl & O_CREAT) && !opened, "the lock file is used"); if (open_err) { errno = open_err; return -1; } opened++; return 9; }
FILE *h_fdopen(int fd, const char *m) { VF_ASSERT(fd == 9 && opened, "the lock file is used"); if (fdopen_err) { errno = fdopen_err; return NULL; } return &ff; }
int h_flock(int fd, int op) { VF_ASSERT(fd == 9 && op == (LOCK_EX | LOCK_NB) && opened && !closed && !locked, "the file is locked without waiting"); if (lock_held) { errno = EWOULDBLOCK; return -1; } locked++; return 0; }
int h_lockf(int fd, int op, off_t l) { VF_ASSERT(0, "flock() is used here"); return 0; }
unsigned h_sleep(unsigned s) { VF_ASSERT(locked && !closed && !removed, "the lock is held while waiting"); VF_ASSERT(!kills, "the daemon is told after the wait"); sleeps++; slept += s; return 0; }
int xfclose_check(FILE **f, const char *n) { VF_ASSERT(*f == &ff && opened && !closed, "the lock file is closed once"); closed++; *f = NULL; return 0; }
int h_remove(const char *n) { VF_ASSERT(n[0] == 's' && n[1] == 0 && !removed, "only the lock file is removed"); VF_ASSERT(locked, "the lock file of another process is not removed"); VF_ASSERT(!kills, "the lock file is gone when the daemon is told"); removed++; if (VF_BOOL("removefails")) { VF_ERRNO(); return -1; } return 0; }
int h_kill(pid_t p, int s) { VF_ASSERT(p == pid_then && p > 0 && s == SIGHUP, "the daemon, as it is at that time, and nothing else is told"); VF_ASSERT(euid == 0 || seteuid_err, "the signal is sent as root"); kills++; if (kill_err) { errno = kill_err; return -1; } return 0; }
int h_seteuid(uid_t u) { VF_ASSERT(u == 0 || u == 8, "root or the user of fcrontab"); seteuids++; if (seteuid_err) { errno = seteuid_err; return -1; } euid = u; return 0; }
uid_t h_getuid(void) { return root ? 0 : 1000; } uid_t h_geteuid(void) { return euid; } gid_t h_getgid(void) { return 1; } gid_t h_getegid(void) { return 1; }
void h_free(void *p) { }
#if WHAT == 0
pid_t read_pid(void) { VF_ASSERT(root || sleeps, "the daemon is looked for after the wait"); return pid_then; }
#endif
#if WHAT == 0
/* what is due when the process ends */
static void end(void)
{
    int waits = !root, first = waits && !fork_err && child && !open_err && !fdopen_err && !lock_held;
    if (!waits) VF_ASSERT(!forked && !sleeps && !opened && !removed, "root does not wait");
    else {
        VF_ASSERT(told >= 1, "the user is told when the change is taken into account");
        VF_ASSERT(target == now0 + delay, "the time given to the user is the right one");
        VF_ASSERT(fork_err ? gave_up : 1, "the failure is reported");
        VF_ASSERT(sleeps == first && slept == (first ? delay : 0), "the first process waits until ten seconds before the end of the minute or the longest time, the others don't");
        VF_ASSERT(closed == first && removed == first, "the lock file is given back");
        if (child && !fork_err && (open_err || fdopen_err)) VF_ASSERT(gave_up, "the failure is reported");
    }
    if (!waits || first) {
        VF_ASSERT(kills == (pid_then != 0), "the daemon is told once if it runs");
        if (kills && kill_err) VF_ASSERT(gave_up, "the failure is reported");
        if (kills && !kill_err && !seteuid_err) { VF_ASSERT(!gave_up && euid == 8, "the identity is given back"); if (root) VF_COVER("root"); else VF_COVER("told"); }
    }
    else {
        VF_ASSERT(kills == 0, "one process only tells the daemon");
        if (child && lock_held && !fork_err && !open_err) VF_COVER("another process waits");
    }
}
void vf_main(void)
{
    int s;
    fcrontabs = fcrontabs_; rootuid = 0; fcrontab_uid = 8; euid = 8;
    now0 = VF_RANGE64("minutes", 0, 1L << 26) * 60; s = VF_RANGE("seconds", 0, 59); now0 += s;
    root = VF_BOOL("root"); child = VF_BOOL("child"); lock_held = VF_BOOL("held");
    fork_err = VF_BOOL("fork") ? EAGAIN : 0; open_err = VF_BOOL("open") ? EACCES : 0; fdopen_err = VF_BOOL("fdopen") ? ENOMEM : 0; kill_err = VF_BOOL("kill") ? ESRCH : 0; seteuid_err = VF_BOOL("seteuid") ? EPERM : 0;
    pid_now = VF_RANGE("pidnow", 2, 99999); pid_then = VF_BOOL("runs") ? VF_RANGE("pid", 2, 99999) : 0;
    uid = root ? 0 : 1000; daemon_pid = pid_now; foreground = 1;
    delay = s < 50 ? 50 - s : 110 - s; if (delay > MAXDELAY) delay = MAXDELAY;
    sig_daemon();
    end();
}
#else
/* the program itself */
static int allowed, reads, conf, checked, sigs, usages, arg; static char arg1[] = "conf";
static struct passwd pw;
uid_t get_user_uid_safe(char *n) { return n[0] == 'r' ? 0 : 8; }
gid_t get_group_gid_safe(char *n) { return 0; }
void read_conf(void) { VF_ASSERT(!foreground, "errors of the configuration file are not shown to users"); VF_ASSERT(arg ? fcronconf == arg1 : fcronconf == NULL, "the configuration file which is given is read"); conf++; }
struct passwd *h_getpwuid(uid_t u) { VF_ASSERT(u == (root ? 0 : 1000), "the user who runs the program"); if (fork_err) return NULL; pw.pw_name = "u"; return &pw; }
char *strdup2(const char *n) { return (char *)n; }
int is_allowed(char *u) { VF_ASSERT(u[0] == 'u' && u[1] == 0 && conf, "whether the user is allowed is checked"); checked++; return allowed; }
pid_t read_pid(void) { VF_ASSERT(conf, "the pid file is the configured one"); reads++; return pid_now; }
void sig_daemon(void) { VF_ASSERT(checked && allowed, "only users who are allowed tell the daemon"); VF_ASSERT(pid_now && daemon_pid == pid_now && conf && uid == (root ? 0 : 1000) && euid == 8, "the daemon which runs is told"); sigs++; }
void h_exit(int c) { VF_ASSERT(0, "the program is used as it should"); VF_STOP(); }
static void end(void) { VF_ASSERT(sigs == 0 && (!allowed || fork_err || seteuid_err), "users who are allowed are not refused"); VF_COVER("refused"); }
extern int program_main(int, char **);
void vf_main(void)
{
    char *av[3] = { "./x", NULL, NULL };
    root = VF_BOOL("root"); allowed = VF_BOOL("allowed"); fork_err = VF_BOOL("nouser"); seteuid_err = VF_BOOL("seteuid") ? EPERM : 0; pid_now = VF_BOOL("runs") ? VF_RANGE("pid", 2, 99999) : 0; foreground = 1; fcronconf = NULL;
    arg = VF_BOOL("arg"); if (arg) av[1] = arg1;
    VF_ASSERT(program_main(1 + arg, av) == 0, "no failure");
    VF_ASSERT(checked == 1 && allowed && sigs == (pid_now != 0), "the daemon is told if it runs");
    if (sigs) VF_COVER("told"); else VF_COVER("not running");
}
#endif

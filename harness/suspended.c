/* C27: the time spent suspended. OP 0: what the suspend hooks wrote, 1: on Linux, from the clocks, 2: the lines are told */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gives up")
#include "fcron.h"
#include "database.h"
#include "fcronconf.h"
#include "suspend.h"
#include "vf_log.h"
#undef open
#undef fstat
#undef read
#undef unlink
#undef strtol
#undef clock_gettime
#include <time.h>
uid_t rootuid = 0; gid_t rootgid = 0;
char *suspendfile = "sf";
#if OP != 2
cf_t *file_base; time_t now;
static int calls; static long told;
void reschedule_all_on_resume(const time_t d) { calls++; told = d; }
#endif
#if OP == 0 || OP == 3
static int fd0 = 7, op_err, st_err, rd_err, un_err, opened, reads, unlinks, closes, parses, cl_err, n; static struct stat st0; static long val; static int range;
int h_open(const char *f, int flags, ...)
{
    VF_ASSERT(f == suspendfile && (flags & O_ACCMODE) == O_RDONLY && (flags & O_NONBLOCK) && !(flags & (O_CREAT | O_TRUNC)), "the file is only read, and the daemon does not wait for it");
    if (op_err) { errno = op_err; return -1; }
    opened++; return fd0;
}
int h_fstat(int fd, struct stat *s) { VF_ASSERT(fd == fd0 && opened && !closes, "the file is open"); if (st_err) { errno = st_err; return -1; } *s = st0; return 0; }
ssize_t h_read(int fd, void *b, size_t l)
{
    char *c = b;
    VF_ASSERT(fd == fd0 && opened && !closes && !reads, "the file is open and read once");
    reads++;
    if (rd_err) { errno = rd_err; return -1; }
    if (n > (int)l) n = l;
    if (n > 0) { c[0] = '5'; c[n - 1] = '6'; c[l - 1] = '7'; }
    return n;
}
long h_strtol(const char *b, char **e, int base)
{
    VF_ASSERT(reads == 1 && !rd_err && base == 10, "what the file says is read as a number of seconds");
    VF_ASSERT(b[n] == 0 && (n == 0 || b[0] == (n == 1 ? '6' : '5')), "the text which is read ends where the file does");
    parses++;
    if (e) *e = (char *)b + (n > 0);
    if (range) { errno = ERANGE; return val < 0 ? LONG_MIN : LONG_MAX; }
    return val;
}
int h_unlink(const char *f) { VF_ASSERT(f == suspendfile, "only the suspend file is removed"); unlinks++; if (un_err) { errno = un_err; return -1; } return 0; }
int xclose(int *fd) { VF_ASSERT(*fd == fd0 && opened && !closes, "the file is closed once"); closes++; *fd = -1; if (cl_err) { errno = cl_err; return -1; } return 0; }
#define open h_open
#define fstat h_fstat
#define read h_read
#define unlink h_unlink
#define strtol h_strtol
/* as on systems which are not told about suspensions by the kernel */
#undef CLOCK_BOOTTIME
#undef HAVE_SYS_TIMERFD_H
#undef TFD_TIMER_CANCEL_ON_SET
#include "suspend.c"
void vf_main(void)
{
    long slept_from = VF_RANGE64("from", 0, 4000000000L), asleep = VF_RANGE64("asleep", -100000, 100000000L), late = VF_RANGE64("late", -1000, 100000000L), want, nwt; int ok; bool sig = VF_BOOL("sigcont"); select_instance *si = NULL;
    now = slept_from + asleep; nwt = now - late;
    op_err = VF_RANGE("open", 0, 133); st_err = VF_RANGE("fstat", 0, 133); rd_err = VF_RANGE("read", 0, 133); un_err = VF_RANGE("unlink", 0, 133); cl_err = VF_RANGE("close", 0, 133); n = VF_RANGE("size", 0, 40);
    st0.st_uid = VF_RANGE("uid", 0, 2); st0.st_gid = VF_RANGE("gid", 0, 2); st0.st_mode = VF_I32("mode"); st0.st_nlink = VF_RANGE("links", 0, 2);
    val = VF_I64("value"); range = VF_BOOL("range");
    ok = !op_err && !st_err && (st0.st_mode & S_IFMT) == S_IFREG && st0.st_nlink == 1 && !(st0.st_mode & S_IWOTH) && st0.st_uid == 0 && st0.st_gid == 0;
    want = !ok || rd_err || range || val < 0 || un_err ? 0 : val > asleep ? asleep : val;
    check_suspend(slept_from, nwt, &sig, si);
    VF_ASSERT(opened == closes, "the file is closed");
    if (!sig) { VF_ASSERT(!opened, "the file is read when the daemon is told the system was resumed"); want = 0; }
    else {
        VF_ASSERT(unlinks == ok, "a file which is used is used once, and no other is removed");
        if (op_err && op_err != ENOENT || !op_err && (!ok || rd_err || range || val < 0)) VF_ASSERT(vf_errors + vf_warns > 0, "the problem is reported");
        if (op_err == ENOENT) VF_ASSERT(vf_errors == 0, "no file is not a problem");
    }
    if (want <= 0 && late > 5) { want = late; }         /* nothing usable was said: what the daemon overslept */
    VF_ASSERT(calls == (want > 0) && (!calls || told == want), "the schedules are shifted by the time the hooks gave, no longer than the time slept");
    if (sig && calls && !un_err) VF_COVER("shifted");
    if (sig && ok && !calls) VF_COVER("not shifted");
    if (!sig && calls) VF_COVER("overslept");
}
#elif OP == 1
#define TFD 5
extern int timer_cancel_on_set_fd;
static long mono, boot, reads;
int h_clock_gettime(clockid_t c, struct timespec *t) { VF_ASSERT(c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME, "the clocks which do not change with the time of day"); t->tv_sec = c == CLOCK_BOOTTIME ? boot : mono; t->tv_nsec = 0; return 0; }
ssize_t h_read(int fd, void *b, size_t l) { VF_ASSERT(fd == TFD && l == 8, "only the timer is read"); reads++; errno = ECANCELED; return -1; }
int h_timerfd_create(int c, int f) { VF_ASSERT(c == CLOCK_REALTIME, "changes of the time of day are noticed"); return TFD; }
int h_timerfd_settime(int fd, int f, const struct itimerspec *n, struct itimerspec *o) { VF_ASSERT(fd == TFD && f == 3 && n->it_interval.tv_sec == 0 && n->it_interval.tv_nsec == 0, "changes of the time of day are noticed"); return 0; }
static int added;
void select_add_read(select_instance *si, int fd) { VF_ASSERT(fd == TFD, "the timer is waited for"); added++; }
void vf_main(void)
{
    static select_instance si; long pending = 0; int k;
    boot = mono = VF_RANGE("uptime", 0, UPT);
    init_suspend(&si);
    VF_ASSERT(added == 1, "the timer is waited for");
    for (k = 0; k < N; k++) {
        long run = VF_RANGE("run", 0, RUN), susp = VF_RANGE("suspended", 0, SUSP), late = VF_RANGE("late", -10, 100); int fired = VF_BOOL("fired"), other = VF_BOOL("other"); bool sig = VF_BOOL("sigcont");
        mono += run; boot += run + susp; pending += susp;
        now = 1000000 + VF_RANGE("now", 0, 1000000); calls = reads = 0; told = -1;
        FD_ZERO(&si.readfds); si.retcode = fired + other ? fired + other : VF_RANGE("ret", -1, 0);
        if (fired || si.retcode <= 0) FD_SET(TFD, &si.readfds);         /* (as it was left by a wait which failed) */
        check_suspend(now - run - susp, now - late, &sig, &si);
        VF_ASSERT(reads == fired, "the timer is read when it has something to say, and only then");
        if (fired || late > 5) {
            VF_ASSERT(calls == (pending > 0) && (!calls || told == pending), "the schedules are shifted by the time the system was suspended, once");
            pending = 0; if (k == N - 1) VF_COVER("looked");
            if (calls && k == N - 1) VF_COVER("shifted");
        }
        else { VF_ASSERT(calls == 0, "nothing is shifted without a sign of a suspension"); if (k == N - 1) VF_COVER("not looked"); }
    }
}
#else
static cl_t l[3]; static cf_t f[3]; static int told[3]; static long dur;
void set_next_exe_startup(cl_t *c, const int ctx, const time_t d)
{
    int i = c == &l[0] ? 0 : c == &l[1] ? 1 : 2;
    VF_ASSERT(c == &l[i], "a line of a table"); VF_ASSERT(ctx == CONTEXT_RESUME && d == dur, "the time suspended is passed on");
    told[i]++;
}
void vf_main(void)
{
    int i, nf = VF_RANGE("files", 1, 3), of[3]; dur = VF_RANGE64("duration", 1, 4000000000L); now = dur + VF_RANGE64("since", 0, 4000000000L);
    for (i = 0; i < nf; i++) if (i < nf - 1) f[i].cf_next = &f[i + 1];
    file_base = f;
    for (i = 2; i >= 0; i--) {
        of[i] = VF_RANGE("of", -1, 2); VF_ASSUME(of[i] < nf);
        l[i].cl_option[0] = VF_U8("opt");
        if (of[i] == 0) { l[i].cl_next = f[0].cf_line_base; f[0].cf_line_base = &l[i]; }
        if (of[i] == 1) { l[i].cl_next = f[1].cf_line_base; f[1].cf_line_base = &l[i]; }
        if (of[i] == 2) { l[i].cl_next = f[2].cf_line_base; f[2].cf_line_base = &l[i]; }
    }
    reschedule_all_on_resume(dur);
    for (i = 0; i < 3; i++) VF_ASSERT(told[i] == (of[i] >= 0), "every line of every table is scheduled again, once");
    if (nf == 3 && of[0] == 0 && of[1] == 1 && of[2] == 2) VF_COVER("three tables");
}
#endif

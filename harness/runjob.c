/* C12, C15: a command (or the program which sends mails) is executed only with the complete identity of
 * the user of the line, in his directory, with the environment made for it; the output of a job is mailed
 * exactly when the options ask for it.  The process model: fork() goes on as any of the two processes. */
#include "global.h"
#include "fcron.h"
#include "job.h"
#include "mail.h"
#include "temp_file.h"
#include "fcronconf.h"
#include "option.h"
static void died(void);
#define VF_ON_DIE(m) died()
#include "db_common.h"
#undef fork
#undef pipe
#undef execle
#undef getpwnam
#undef initgroups
#undef setgid
#undef setuid
#undef chdir
#undef access
#undef dup2
#undef read
#undef write
#undef waitpid
#undef exit
#undef nice
#undef umask
#undef signal
#undef fdopen
#undef fgets
#undef fputs
#undef fprintf
#undef ftell
#undef fseek
#undef fileno
#undef lseek
#undef freopen
#undef free
#undef getenv
#undef snprintf
#undef strlen
char *shell = "/d", *sendmail = "/sm", *maildisplayname = "";
pam_handle_t *pamh; const struct pam_conv apamconv;
static cl_t L; static cf_t CF; static exe_t X; static struct passwd PW;
static env_list_t EL; static int role, forks, opt_mail, opt_force, opt_err, opt_out, fg;
/* identity */
static int id_groups, id_gid, id_uid, id_dir, pam_n, pam_bad, pam_mail, mask = -1, niced, secon;
struct passwd *h_getpwnam(const char *n) { VF_ASSERT(n == L.cl_runas, "the user of the line"); if (VF_BOOL("no_user")) return NULL; return &PW; }
int h_initgroups(const char *n, gid_t g) { if (VF_BOOL("initgroups_fails") || id_uid) { VF_ERRNO(); return -1; } id_groups = n == PW.pw_name && g == PW.pw_gid; return 0; }
int h_setgid(gid_t g) { if (VF_BOOL("setgid_fails") || id_uid) { VF_ERRNO(); return -1; } id_gid = g == PW.pw_gid; return 0; }
int h_setuid(uid_t u) { if (VF_BOOL("setuid_fails")) { VF_ERRNO(); return -1; } VF_ASSERT(u == PW.pw_uid, "the identity of the user"); id_uid = 1; return 0; }
#define HOME "/h"
int h_chdir(const char *d) { if (VF_BOOL("chdir_fails")) { VF_ERRNO(); return -1; } VF_ASSERT(d[0] == '/', "a directory"); id_dir = d[1] == 0 ? 1 : d[1] == 'h' && d[2] == 0 ? 2 : 3; VF_ASSERT(id_uid, "the directory is entered with the rights of the user"); return 0; }
static void identity(void) { VF_ASSERT(id_groups && id_gid && id_uid, "executed only with the groups, the group and the user of the line"); }
static int pam(void) { int bad = VF_BOOL("pam_fails"); VF_ASSERT(!pam_bad, "no session for a user who was refused"); if (bad) { pam_bad = 1; return PAM_AUTH_ERR; } return PAM_SUCCESS; }
int pam_start(const char *s, const char *u, const struct pam_conv *c, pam_handle_t **p) { VF_ASSERT(u == PW.pw_name, "the session of the user"); if (pam() != PAM_SUCCESS) return PAM_AUTH_ERR; pam_n |= 1; *p = (pam_handle_t *)&EL; return PAM_SUCCESS; }
int pam_authenticate(pam_handle_t *p, int f) { int r = pam(); if (r == PAM_SUCCESS) pam_n |= 2; else pam_mail = 1; return r; }
int pam_acct_mgmt(pam_handle_t *p, int f) { int r = pam(); if (r == PAM_SUCCESS) pam_n |= 4; else pam_mail = 1; return r; }
int pam_setcred(pam_handle_t *p, int f) { if (f & PAM_DELETE_CRED) return PAM_SUCCESS; { int r = pam(); if (r == PAM_SUCCESS) pam_n |= 8; else pam_mail = 1; return r; } }
int pam_open_session(pam_handle_t *p, int f) { int r = pam(); if (r == PAM_SUCCESS) pam_n |= 16; else pam_mail = 1; return r; }
int pam_close_session(pam_handle_t *p, int f) { return PAM_SUCCESS; }
int pam_end(pam_handle_t *p, int r) { return PAM_SUCCESS; }
char **pam_getenvlist(pam_handle_t *p) { static char *none[1]; return none; }
/* environment: see jobenv.c */
static char *envs[4][1]; static int nenv, shell_ok, has_ct;
env_list_t *env_list_init(void) { return &EL; }
env_t *env_list_setenv(env_list_t *l, char *n, char *v, int o) { return NULL; }
env_t *env_list_putenv(env_list_t *l, char *v, int o) { return NULL; }
env_t *env_list_first(env_list_t *l) { return NULL; }
env_t *env_list_next(env_list_t *l) { return NULL; }
void env_list_end_iteration(env_list_t *l) { }
env_list_t *env_list_destroy(env_list_t *l) { return NULL; }
char *env_list_getenv(env_list_t *l, char *n) { if (n[0] == 'H') return HOME; if (n[0] == 'S') return "/s"; return has_ct ? n[8] == 'T' && n[9] == 'Y' ? "t" : "e" : NULL; }
char **env_list_export_envp(env_list_t *l) { VF_MODEL(nenv < 4, "environments"); return envs[nenv++]; }
void env_list_free_envp(char **e) { }
char *strdup2(const char *s) { return (char *)s; }
void h_free(void *p) { }
char *h_getenv(const char *n) { return VF_BOOL("getenv") ? "/p" : NULL; }
int h_access(const char *p, int m) { VF_ASSERT(p[0] == '/' && p[1] == 's' && m == X_OK, "the shell is checked"); shell_ok = VF_BOOL("shell_ok"); if (!shell_ok) VF_ERRNO(); return shell_ok ? 0 : -1; }
int h_snprintf(char *b, size_t n, const char *f, ...) { if (n) b[0] = 0; return 0; }
/* descriptors: the pipe of the pid 10 11, the one of the output 20 21, the mail 30 */
static int P1, P1r, P1w, P2, P2r, P2w, src[3], piped;
int h_pipe(int p[2])
{
    if (VF_BOOL("pipe_fails")) { VF_ERRNO(); return -1; }
    if (piped++ == 0 && role == 0) { p[0] = 10; p[1] = 11; P1 = P1r = P1w = 1; } else { p[0] = 20; p[1] = 21; P2 = P2r = P2w = 1; }
    return 0;
}
static void drop(int fd) { if (fd == 10) P1r = 0; else if (fd == 11) P1w = 0; else if (fd == 20) P2r = 0; else if (fd == 21) P2w = 0; }
int xclose(int *fd) { drop(*fd); *fd = -1; return 0; }
int xclose_check(int *fd, const char *d) { return xclose(fd); }
int h_dup2(int a, int b) { if (VF_BOOL("dup2_fails")) { VF_ERRNO(); return -1; } VF_ASSERT(b >= 0 && b <= 2, "standard descriptors"); src[b] = a > 2 ? a : src[a]; return b; }
static FILE *MAILF, *PIPEF;
static int mails, null_out, null_err;
FILE *h_freopen(const char *p, const char *m, FILE *f) { if (f == stdout) null_out = 1; if (f == stderr) null_err = 1; return f; }
/* the mail: a position, and what the job wrote */
static long mail_len, mail_pos, mail_start; static int rewound, noted, chunks; static char chunk;
FILE *create_mail(cl_t *l, char *subject, char *ct, char *enc, char **env)
{
    VF_ASSERT(l == &L && mails == 0, "one mail");
    VF_ASSERT(id_uid == 0, "the mail is made with the rights of the daemon");
    if (!subject) { VF_ASSERT(env == envs[1], "the environment of the job"); VF_ASSERT(has_ct ? ct && ct[0] == 't' && enc && enc[0] == 'e' : !ct && !enc, "the kind of contents asked for"); }
    mails = 1; mail_start = mail_len = mail_pos = VF_RANGE("header", 50, 100000);
    return MAILF;
}
int h_fileno(FILE *f) { VF_ASSERT(f == MAILF, "a file"); return 30; }
long h_ftell(FILE *f) { VF_ASSERT(f == MAILF, "the mail"); return mail_pos; }
int h_fseek(FILE *f, long o, int w) { VF_ASSERT(f == MAILF && o == 0, "the mail"); if (w == SEEK_SET) mail_pos = 0; else mail_pos = mail_len; return 0; }
off_t h_lseek(int fd, off_t o, int w) { VF_ASSERT(fd == 30 && o == 0 && w == SEEK_SET, "the mail"); rewound = 1; return 0; }
FILE *h_fdopen(int fd, const char *m) { VF_ASSERT(fd == 20 && P2r, "the output of the job"); return VF_BOOL("fdopen_fails") ? NULL : PIPEF; }
char *h_fgets(char *b, int n, FILE *f)
{
    VF_ASSERT(f == PIPEF && n >= 2 && role == 1 && P2r, "the output of the job");
    VF_ASSERT(!P2w, "the end of the output can be seen");
    VF_ASSERT(chunk == 0, "no output is lost");
    if (chunks == 2 || VF_BOOL("eof")) { chunks = 9; return NULL; }
    chunks++; chunk = VF_RANGE("char", 1, 127); b[0] = chunk; b[1] = 0;
    return b;
}
int h_fputs(const char *s, FILE *f) { VF_ASSERT(f == MAILF && s[0] == chunk && chunk && s[1] == 0, "the output is mailed unchanged"); chunk = 0; mail_len++; mail_pos = mail_len; return 1; }
int h_fprintf(FILE *f, const char *m, ...) { if (f == MAILF) { noted = 1; mail_len += 9; mail_pos = mail_len; } return 9; }
int xfclose(FILE **f) { if (*f == PIPEF) P2r = 0; *f = NULL; return 0; }
int xfclose_check(FILE **f, const char *d) { return xfclose(f); }
void h_setlinebuf(FILE *f) { }
/* processes */
static pid_t jobpid, childpid;
static int written, waited, status;
pid_t h_fork(void)
{
    int k = VF_RANGE("fork", -1, 1);
    forks++;
    VF_ASSERT(forks == (role == 0 ? 1 : 2), "one process for the job, and one to watch it");
    if (k < 0) { VF_ERRNO(); return -1; }
    if (k == 0) { role++; return 0; }
    if (role == 0) return childpid = VF_RANGE("pid", 2, 40000);
    return jobpid = VF_RANGE("pid", 2, 40000);
}
ssize_t h_write(int fd, const void *b, size_t n)
{
    VF_ASSERT(role == 1 && n == sizeof(pid_t) && forks == 2, "the pid of the job");
    if (VF_BOOL("write_fails")) { VF_ERRNO_NOINTR(); return -1; }
    VF_ASSERT(fd == (P1 ? 11 : -1), "the pid is sent to the daemon");
    VF_ASSERT(*(pid_t *)b == (jobpid ? jobpid : -1), "the pid of the job");
    written = 1;
    return n;
}
static int got, gotpid;
ssize_t h_read(int fd, void *b, size_t n)
{
    VF_ASSERT(role == 0 && n == sizeof(pid_t) && (!P1 || fd == 10), "the pid of the job");
    VF_ASSERT(!P1w, "the end of the child can be seen");
    if (!P1 || VF_BOOL("read_fails")) { VF_ERRNO_NOINTR(); return -1; }
    if (VF_BOOL("closed")) return 0;
    *(pid_t *)b = gotpid = VF_RANGE("pid", 2, 40000); got = 1;
    return n;
}
unsigned int h_sleep(unsigned int n) { return 0; }
pid_t h_waitpid(pid_t p, int *st, int o)
{
    VF_ASSERT(role == 1 && !waited && jobpid, "the job is waited for");
    VF_ASSERT(!opt_mail || (fg && opt_out) || chunks == 9, "all the output is read first");
    waited = 1;
    switch (VF_RANGE("end", 0, 1)) { case 0: status = VF_RANGE("exit", 0, 255) << 8; break; default: status = VF_RANGE("signal", 1, 64) | (VF_BOOL("core") ? 128 : 0); }
    *st = status;
    return jobpid;
}
int h_nice(int n) { VF_ASSERT(n == L.cl_nice && role == 2, "the priority of the job"); niced = 1; if (VF_BOOL("nice_fails")) { VF_ERRNO(); return -1; } return 0; }
mode_t h_umask(mode_t m) { mask = m; return 0; }
typedef void (*hdl)(int);
hdl h_signal(int s, hdl h) { return SIG_DFL; }
int is_selinux_enabled(void) { return secon; }
static int sectx;
int setexeccon(const char *c) { VF_ASSERT(c == (const char *)CF.cf_user_context, "the context of the user"); if (VF_BOOL("setexeccon_fails")) { VF_ERRNO(); return -1; } sectx = 1; return 0; }
/* the job ends */
static int wants(void) { return opt_mail && !(fg && opt_out) && (opt_force || (mail_len - (noted ? 9 : 0) > mail_start && !opt_err) || status != 0); }
static void mailed(int yes)
{
    if (pam_bad) { VF_ASSERT(!yes || (pam_mail && opt_mail), "only who wants mails gets them"); return; }
    VF_ASSERT(role == 1 && waited, "a mail is sent when the job ended");
    if (!(opt_force && opt_err && status == 0 && opt_mail)) {
        VF_ASSERT(yes || !wants(), "the output is mailed when the options ask for it");
        VF_ASSERT(!yes || wants(), "nothing is mailed unless the options ask for it");
    }
    if (yes && status) VF_ASSERT(noted, "the failure of the job is in the mail");
}
static void died(void)
{
    VF_ASSERT(role != 0, "the daemon goes on");
}
void h_exit(int st)
{
    VF_ASSERT(role == 1, "only a child of the daemon ends");
#if PART == 1
    if (waited) { mailed(0); VF_COVER("no mail"); }
#endif
    VF_STOP();
}
void xexit(int st);
int h_execle(const char *path, const char *a0, ...)
{
    va_list ap; char *a[4], **env; int n = 0, i;
    va_start(ap, a0);
    for (i = 0; i < 4; i++) { a[i] = va_arg(ap, char *); if (!a[i]) break; n++; }
    VF_ASSERT(i < 4, "the arguments end");
    env = va_arg(ap, char **);
    va_end(ap);
    identity();
    if (role == 2) {
        VF_ASSERT(pam_n == 31 && !pam_bad, "executed only if the user is allowed to");
        VF_ASSERT(path[0] == '/' && path[1] == (shell_ok ? 's' : 'd') && path[2] == 0 && a0 == path, "the shell asked for");
        VF_ASSERT(n == 2 && a[0][0] == '-' && a[0][1] == 'c' && a[0][2] == 0 && a[1] == L.cl_shell, "the command of the line");
        VF_ASSERT(env == envs[1], "the environment of the job");
        VF_ASSERT(id_dir == 2 || id_dir == 1, "the directory of the user");
        VF_ASSERT(mask == saved_umask, "the usual umask");
        VF_ASSERT(niced == (L.cl_nice != 0), "the priority of the job");
        VF_ASSERT(!secon || sectx, "the context of the user");
        VF_ASSERT(!P1r && !P1w && !P2r && !P2w, "the job gets no descriptor of the daemon");
        if (fg && opt_out) VF_ASSERT(src[1] == 1 && src[2] == 2 && !null_out && !null_err, "the output stays on the terminal");
        else if (opt_mail) VF_ASSERT(src[1] == 21 && src[2] == 21, "the output is collected");
        else VF_ASSERT(src[1] == 1 && src[2] == 2 && null_out == !!fg && null_err == !!fg, "the output is discarded");
#if PART == 0
        VF_COVER("command");
        if (id_dir == 1) VF_COVER("command in the root directory");
#endif
    } else {
        VF_ASSERT(role == 1, "the daemon executes nothing");
        VF_ASSERT(path == sendmail && a0 == sendmail && n == 3 && a[2] == L.cl_mailto && env == envs[0], "the mail is sent to the recipient");
        VF_ASSERT(src[0] == 30 && rewound && mail_pos == 0, "the whole mail is sent");
        mailed(1);
#if PART == 1
        VF_COVER("mail");
        if (pam_bad) VF_COVER("mail about a refusal");
#endif
    }
    if (VF_BOOL("exec_fails")) { VF_ERRNO(); return -1; }
    VF_STOP();
}
void vf_main(void)
{
    static char m, p, runas[2], shl[2], mto[2], user[2];
    MAILF = (FILE *)&m; PIPEF = (FILE *)&p;
    src[1] = 1; src[2] = 2;
    opt_mail = VF_BOOL("mail"); opt_force = VF_BOOL("forcemail"); opt_err = VF_BOOL("erroronlymail"); opt_out = VF_BOOL("stdout"); foreground = fg = VF_BOOL("foreground");
    has_ct = VF_BOOL("content"); secon = VF_BOOL("selinux"); saved_umask = VF_RANGE("umask", 0, 0777);
    if (opt_mail) set_mail(L.cl_option); else clear_mail(L.cl_option);
    if (opt_force) set_mailzerolength(L.cl_option); else clear_mailzerolength(L.cl_option);
    if (opt_err) set_erroronlymail(L.cl_option); else clear_erroronlymail(L.cl_option);
    if (opt_out) set_stdout(L.cl_option); else clear_stdout(L.cl_option);
    L.cl_nice = VF_RANGE("nice", -20, 19);
    L.cl_runas = runas; L.cl_shell = shl; L.cl_mailto = mto; L.cl_file = &CF; CF.cf_user = user; CF.cf_env_list = &EL;
    PW.pw_name = runas; PW.pw_uid = VF_RANGE("uid", 0, 3); PW.pw_gid = VF_RANGE("gid", 0, 3); PW.pw_dir = HOME; PW.pw_shell = "/w";
    X.e_line = &L;
    {
        int r = run_job(&X);
        VF_ASSERT(role == 0, "the children of the daemon never come back");
        VF_ASSERT(!P1r && !P1w, "the daemon keeps no descriptor");
        if (!childpid) { VF_ASSERT(r == ERR, "a failure to start a job is reported"); VF_COVER("no process"); }
        else {
            VF_ASSERT(r == OK && X.e_ctrl_pid == childpid, "the process which watches the job is known");
            VF_ASSERT(X.e_job_pid == (got ? gotpid : -1), "the pid of the job is known, or known to be unknown");
            VF_COVER("started");
        }
    }
}

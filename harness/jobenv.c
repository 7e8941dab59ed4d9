/* C12: the environment of a job and of the program which sends its mail, and its shell and directory.
 * The list of settings (u_list.c, property C19) is an array here; env_list.c is the real one. */
#include "global.h"
#include "fcron.h"
#include "job.h"
#include "fcronconf.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the program gave up on an environment")
#include "db_common.h"
#include "vf_fmt.h"
#undef snprintf
#undef free
#undef access
#undef getenv
#ifndef VAR
#define VAR "A"
#endif
char *shell = SHELLCONF, *sendmail = "/sm", *maildisplayname = "";
pam_handle_t *pamh; const struct pam_conv apamconv;
int pam_start(const char *s, const char *u, const struct pam_conv *c, pam_handle_t **p) { static char h; *p = (pam_handle_t *)&h; return PAM_SUCCESS; }
int pam_authenticate(pam_handle_t *p, int f) { return PAM_SUCCESS; }
int pam_acct_mgmt(pam_handle_t *p, int f) { return PAM_SUCCESS; }
int pam_setcred(pam_handle_t *p, int f) { return PAM_SUCCESS; }
int pam_open_session(pam_handle_t *p, int f) { return PAM_SUCCESS; }
int pam_close_session(pam_handle_t *p, int f) { return PAM_SUCCESS; }
int pam_end(pam_handle_t *p, int r) { return PAM_SUCCESS; }
static char pv[3]; static char pamvar[8];
char **pam_getenvlist(pam_handle_t *p) { static char *e[2]; e[0] = pamvar; return e; }
/* memory: strings in slots, which are overwritten when they are given back */
#define SLOTS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47)
#define D(n) static char m##n[24];
SLOTS(D)
#define R(n) m##n,
static char *const slots[] = { SLOTS(R) NULL };
static int np, len_of[48], vecs;
static char *slot(size_t len) { VF_MODEL(np < 48 && len <= 24, "memory"); len_of[np] = len; return slots[np++]; }
static void drop(char *p) { int i; for (i = 0; i < 24; i++) p[i] = '#'; }
void *alloc_safe(size_t len, const char *d)
{
    static char *v0[14], *v1[14];
    if (d[0] == 'e') { VF_MODEL(vecs < 2 && len <= sizeof(v0), "vectors"); return vecs++ ? v1 : v0; }
    return slot(len);
}
void *realloc_safe(void *p, size_t len, const char *d) { int i; char *q = slot(len); for (i = 0; i < 24; i++) q[i] = ((char *)p)[i]; drop(p); return q; }
char *strdup2(const char *s) { int i, n; char *d; if (!s) return NULL; for (n = 0; s[n]; n++) ; d = slot(n + 1); for (i = 0; i <= n; i++) d[i] = s[i]; return d; }
void h_free(void *p) { if (p) drop(p); }
int h_snprintf(char *b, size_t n, const char *f, ...) { int r; va_list ap; va_start(ap, f); r = vf_vsnprintf(b, n, f, ap); va_end(ap); return r; }
/* lists */
#define NE 12
typedef struct { env_t e[NE]; int n, cur, iter; } arr;
static arr A, B; static struct u_list_t LA, LB; static int made;
static arr *of(u_list_t *l) { return l == &LB ? &B : &A; }
u_list_t *u_list_init(size_t s, int a, int b) { VF_ASSERT(made == 0, "one list"); made++; return &LA; }
u_list_t *u_list_copy(u_list_t *l) { return NULL; }
u_list_entry_t *u_list_first(u_list_t *l) { arr *a = of(l); if (a->iter) return NULL; a->cur = 0; a->iter = a->n > 0; return a->iter ? (u_list_entry_t *)&a->e[0] : NULL; }
u_list_entry_t *u_list_next(u_list_t *l) { arr *a = of(l); if (!a->iter) return NULL; if (++a->cur < a->n) return (u_list_entry_t *)&a->e[a->cur]; a->iter = 0; return NULL; }
void u_list_end_iteration(u_list_t *l) { of(l)->iter = 0; }
u_list_entry_t *u_list_add(u_list_t *l, u_list_entry_t *e) { arr *a = of(l); VF_MODEL(a->n < NE, "list"); a->e[a->n] = *(env_t *)e; a->n++; l->num_entries = a->n; return (u_list_entry_t *)&a->e[a->n - 1]; }
u_list_t *u_list_destroy(u_list_t *l) { VF_ASSERT(l == &LA, "the table keeps its settings"); return NULL; }
char *h_getenv(const char *n) { VF_ASSERT(n[0] == 'P', "the path of the daemon"); return HASPATH ? "/dp" : NULL; }
static int checked;
int h_access(const char *p, int m) { VF_ASSERT(m == X_OK, "the shell is checked"); checked++; if (!SHELLOK) errno = VF_BOOL("e") ? ENOENT : EACCES; return SHELLOK ? 0 : -1; }
static int is(const char *a, const char *b) { int i; for (i = 0; i < 30; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
/* the value of a name in an exported environment: exactly one setting */
static void has(char **env, const char *name, const char *val)
{
    int i, k, n = 0;
    for (i = 0; i < NE; i++) {
        if (!env[i]) break;
        for (k = 0; name[k] && env[i][k] == name[k]; k++) ;
        if (!name[k] && env[i][k] == '=') { n++; VF_ASSERT(val && is(env[i] + k + 1, val), "a setting of the environment"); }
    }
    VF_ASSERT(n == (val != NULL), "each name is set once");
}
void vf_main(void)
{
    static cl_t L; static cf_t CF; static struct passwd PW; static char tabv[16], val[4], user[2], home[3], wsh[3], tz[2];
    char **sm = NULL, **je = NULL, *sh = NULL, *ho = NULL, *ct = NULL, *en = NULL; int i, k;
    char c = VAR[0] != 'A' && VAR[0] != 'C' ? '/' : VF_RANGE("value", 1, 127), u = 'u', h = 'h';
    const char *v = VAR;
    for (k = 0; v[k]; k++) tabv[k] = v[k];
    tabv[k++] = '='; if (VLEN) tabv[k++] = c; tabv[k] = 0;
    val[0] = VLEN ? c : 0; user[0] = u; home[0] = '/'; home[1] = h; wsh[0] = '/'; wsh[1] = 'w'; tz[0] = 't';
    pv[0] = 'q'; pamvar[0] = 'Q'; pamvar[1] = '='; pamvar[2] = pv[0];
    B.e[0].e_envvar = tabv; B.n = LB.num_entries = 1;
    L.cl_file = &CF; CF.cf_env_list = (env_list_t *)&LB; CF.cf_user = user; L.cl_runas = user; L.cl_tz = HASTZ ? tz : NULL; L.cl_shell = "x";
    PW.pw_name = user; PW.pw_dir = home; PW.pw_shell = wsh;
    setup_user_and_env(&L, &PW, &sm, &je, &sh, &ho, &ct, &en);
    VF_ASSERT(sm && je && sh && ho, "everything is there");
    { const char *defsh = SHELLCONF[0] ? SHELLCONF : "/w", *msh = defsh;
#define V(n) is(VAR, n)
    /* the mailer: nothing of the table */
    has(sm, "USER", user); has(sm, "LOGNAME", user); has(sm, "HOME", home); has(sm, "PATH", HASPATH ? "/dp" : DEFAULT_JOB_PATH); has(sm, "SHELL", msh); has(sm, "TZ", HASTZ ? tz : NULL); has(sm, "Q", pv); has(sm, "A", NULL);
    /* the job: the settings of the table replace the usual ones */
    has(je, "USER", user); has(je, "LOGNAME", user);
    has(je, "HOME", V("HOME") ? val : home);
    has(je, "PATH", V("PATH") ? val : DEFAULT_JOB_PATH);
    has(je, "TZ", V("TZ") ? val : HASTZ ? tz : NULL);
    has(je, "A", V("A") ? val : NULL); has(je, "Q", pv); has(je, "CONTENT_TYPE", V("CONTENT_TYPE") ? val : NULL);
    if (V("SHELL")) msh = val;
    if (!msh[0] || !SHELLOK) msh = SHELLCONF;
    has(je, "SHELL", msh);
    VF_ASSERT(is(sh, msh), "the shell of the job");
    VF_ASSERT(is(ho, V("HOME") ? val : home), "the directory of the job");
    VF_ASSERT(V("CONTENT_TYPE") ? ct && is(ct, val) : !ct, "the kind of contents");
    VF_ASSERT(!en, "no encoding"); }
    VF_ASSERT(LB.num_entries == 1 && B.e[0].e_envvar == tabv && !B.iter, "the settings of the table are unchanged");
    for (i = 0; i < 16; i++) if (i < (int)sizeof(VAR)) VF_ASSERT(tabv[i] == (i == sizeof(VAR) - 1 ? '=' : VAR[i]), "the settings of the table are unchanged");
    VF_COVER("done");
}

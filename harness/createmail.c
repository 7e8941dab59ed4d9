/* C15: the mail made for a job: who gets it, and a well formed header which no setting can extend. */
#include "global.h"
#include "fcron.h"
#include "job.h"
#include "mail.h"
#include "temp_file.h"
#include "fcronconf.h"
#define VF_ON_DIE(m) VF_ASSERT(nofd, "the program gave up on a mail")
static int nofd;
#include "db_common.h"
#include "vf_fmt.h"
#undef fdopen
#undef fprintf
#undef gethostname
#undef free
char *shell = "/d", *sendmail = "/sm", *maildisplayname;
pam_handle_t *pamh; const struct pam_conv apamconv;
static char mobj; static int nohost, noaddr, hdrs, ended, to, from, subj, ctype, enc, auto_sub, envn, addr_freed;
static char host0, addr[4], mto[4], mfrom[4], runas[3] = "r", ct[4], en[4], e0[5], e1[5], *envv[3];
int temp_file(char **n) { VF_ASSERT(n == NULL, "a file without a name"); return 30; }
FILE *h_fdopen(int fd, const char *m) { VF_ASSERT(fd == 30 && m[0] == 'r' && m[1] == '+', "the file is read again"); nofd = VF_BOOL("fdopen_fails"); return nofd ? NULL : (FILE *)&mobj; }
int h_gethostname(char *b, size_t n) { VF_ASSERT(n > 8, "room"); nohost = VF_BOOL("nohost"); if (nohost) { VF_ERRNO(); return -1; } b[0] = host0 = VF_RANGE("host", 'a', 'z'); b[1] = 0; return 0; }
char *make_mailbox_addr(char *d, char *f, char *h) { VF_ASSERT(d == maildisplayname && d[0], "the name asked for"); VF_ASSERT(f == (mfrom[0] ? mfrom : runas), "the sender"); noaddr = VF_BOOL("noaddr"); if (noaddr) return NULL; addr[0] = 'm'; addr[1] = 0; return addr; }
void h_free(void *p) { if (p == addr) addr_freed++; }
static int begins(const char *a, const char *b) { int i; for (i = 0; b[i]; i++) if (a[i] != b[i]) return 0; return 1; }
/* s is a, then the host if it is not complete */
static int mailbox(const char *s, const char *a, const char *end)
{
    int i = 0, k, at = 0;
    for (k = 0; k < 4 && a[k]; k++) { if (s[i++] != a[k]) return 0; if (a[k] == '@') at = 1; }
    if (!at && !nohost) { if (s[i++] != '@') return 0; if (s[i++] != host0) return 0; }
    for (k = 0; end[k]; k++) if (s[i++] != end[k]) return 0;
    return s[i] == 0;
}
#define B 64
int h_fprintf(FILE *f, const char *m, ...)
{
    static char b[B]; va_list ap; int r, i, nl = 0;
    va_start(ap, m); r = vf_vsnprintf(b, B, m, ap); va_end(ap);
    VF_MODEL(r < B, "line");
    VF_ASSERT(f == (FILE *)&mobj && !ended, "nothing follows the header");
    for (i = 0; i < B; i++) { if (!b[i]) break; if (b[i] == '\n') { nl++; VF_ASSERT(b[i + 1] == 0, "a header is one line"); } }
    VF_ASSERT(nl == 1, "a header is one line");
    if (b[0] == '\n') { ended = 1; return 1; }
    if (m[0] == 'F') { from++; if (maildisplayname[0] && !noaddr) VF_ASSERT(mailbox(b + 6, "m@", "") || (b[6] == 'm' && b[7] == '\n' && !b[8]), "the sender"); else VF_ASSERT(begins(b, "From: ") && mailbox(b + 6, mfrom[0] ? mfrom : runas, " (fcron)\n"), "the sender"); }
    else if (m[0] == 'T') { to++; VF_ASSERT(begins(b, "To: ") && mailbox(b + 4, mto, "\n"), "the recipient"); }
    else if (m[0] == 'S') { subj++; VF_ASSERT(begins(b, "Subject: "), "the subject"); }
    else if (m[0] == 'A') auto_sub += begins(b, "Auto-Submitted: auto-generated\n");
    else if (m[0] == 'X') { envn++; }
    else if (begins(b, "Content-Type: ")) { ctype++; if (HASCT) for (i = 0; i < 3; i++) { VF_ASSERT(b[14 + i] == (ct[i] == '\n' ? ' ' : ct[i] ? ct[i] : '\n'), "the kind of contents asked for"); if (!ct[i]) break; } }
    else if (begins(b, "Content-Transfer-Encoding: ")) { enc++; VF_ASSERT(HASCT, "the encoding asked for"); }
    else VF_ASSERT(0, "an unknown header");
    hdrs++;
    return r;
}
void vf_main(void)
{
    static cl_t L; static cf_t CF; static char user[3] = "u", cmd[4]; FILE *f; int i; static char dn[2];
    for (i = 0; i < 3; i++) { mto[i] = VF_BOOL("at") ? '@' : VF_RANGE("to", 'a', 'z'); if (i >= TOLEN) mto[i] = 0; }
    if (HASFROM) { mfrom[0] = VF_BOOL("at") ? '@' : VF_RANGE("from", 'a', 'z'); mfrom[1] = VF_BOOL("at") ? '@' : VF_RANGE("from", 'a', 'z'); }
    if (HASCT) for (i = 0; i < 2; i++) { ct[i] = VF_RANGE("ct", 1, 126); en[i] = VF_RANGE("enc", 1, 126); }
    if (HASDN) dn[0] = 'D';
    maildisplayname = dn;
    default_mail_charset[0] = 'C';
    e0[0] = 'A'; e0[1] = '='; e0[2] = VF_RANGE("env", 11, 126); e1[0] = 'B'; e1[1] = '=';
    envv[0] = e0; envv[1] = e1;
    cmd[0] = VF_RANGE("cmd", 11, 126);
    L.cl_file = &CF; CF.cf_user = user; L.cl_runas = runas; L.cl_mailto = mto; L.cl_mailfrom = HASFROM ? mfrom : NULL; L.cl_shell = cmd;
    f = create_mail(&L, HASCT ? NULL : "subject", HASCT ? ct : NULL, HASCT ? en : NULL, HASCT ? envv : NULL);
    VF_ASSERT(f == (FILE *)&mobj && !nofd, "the mail");
    VF_ASSERT(ended && to == 1 && from == 1 && subj == 1 && ctype == 1 && enc == HASCT && auto_sub == 1 && envn == (HASCT ? 2 : 0), "the header is complete");
    VF_ASSERT(addr_freed == (HASDN && !noaddr), "the address is freed");
    VF_COVER("mail");
}

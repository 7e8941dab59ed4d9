/* C07: a line read from a saved table is used only when it is usable, and made safe. */
#include "global.h"
#include "fcron.h"
#include "save.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up on a line")
#include "vf_log.h"
#include "db_common.h"
#include "conf.h"
#undef calloc
#undef free
static cf_t F; static cl_t L, P; static char mt[4], mf[4], ra[2], sh[2]; static int started, boot, nfree[2];
static long slept;
void set_next_exe_startup(struct cl_t *cl, const int context, const time_t d)
{
    VF_ASSERT(cl == &L && !started && context == (boot ? CONTEXT_BOOT : CONTEXT_DEFAULT) && d == slept, "the line is scheduled once, for the time since the table was saved");
    VF_ASSERT(L.cl_file == &F, "the line knows its table when it is scheduled");
    started = 1;
}
void h_free(void *p) { if (p == mt) nfree[0]++; else if (p == mf) nfree[1]++; }
char *strdup2(const char *s) { return (char *)s; }
static void any(char *s) { int i; for (i = 0; i < 3; i++) s[i] = VF_U8("char"); s[3] = 0; }
size_t h_strcspn(const char *s, const char *r) { size_t i, j; for (i = 0; s[i]; i++) for (j = 0; r[j]; j++) if (s[i] == r[j]) return i; return i; }
static int unsafe(const char *s) { int i; if (s[0] == '-') return 1; for (i = 0; i < 4 && s[i]; i++) if (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == ';' || s[i] == '|') return 1; return 0; }
void vf_main(void)
{
    int has_sh = VF_BOOL("shell"), has_ra = VF_BOOL("runas"), has_mt = VF_BOOL("mailto"), has_mf = VF_BOOL("mailfrom"), root = VF_BOOL("root"), freq0, r, i;
    unsigned long id0; long f0;
    any(mt); any(mf); ra[0] = VF_U8("char"); sh[0] = VF_U8("char");
    now = 200000; slept = VF_RANGE64("slept", -100000, 100000); boot = VF_BOOL("boot");
    rootuid = 0;
    F.cf_user = "owner"; F.cf_line_base = VF_BOOL("first") ? NULL : &P;
    { cl_t *before = F.cf_line_base;
    L.cl_shell = has_sh ? sh : NULL; L.cl_runas = has_ra ? ra : NULL; L.cl_mailto = has_mt ? mt : NULL; L.cl_mailfrom = has_mf ? mf : NULL;
    if (VF_BOOL("td")) set_td(L.cl_option); else set_freq(L.cl_option);
    L.cl_timefreq = f0 = VF_I64("freq");
    next_id = id0 = VF_BOOL("wrap") ? ULONG_MAX - VF_RANGE("below", 0, 2) : VF_RANGE("id", 0, 1000);
    (void)freq0; (void)i;
    r = add_line_to_file(&L, &F, root ? rootuid : 1000, root ? NULL : "bob", now - slept, boot);
    if (!has_sh || !has_ra || !has_mt) {
        VF_ASSERT(r != 0 && F.cf_line_base == before && !started, "a line without a command, user or mail address is not used");
        VF_COVER("refused");
        return;
    }
    VF_ASSERT(r == 0 && started && F.cf_line_base == &L && L.cl_next == before, "the line is added to its table");
    VF_ASSERT(L.cl_shell == sh && L.cl_shell[0] == sh[0], "the command is kept");
    if (root) VF_ASSERT(L.cl_runas == ra, "the user is kept in a table which root has checked");
    else VF_ASSERT(L.cl_runas[0] == 'b' && L.cl_runas[1] == 'o' && L.cl_runas[2] == 'b', "a user's table only runs commands as this user");
    VF_ASSERT(L.cl_mailto == (unsafe(mt) ? F.cf_user : mt) && nfree[0] == unsafe(mt), "an unsafe mail address is replaced by the owner");
    VF_ASSERT(L.cl_mailfrom == (has_mf && !unsafe(mf) ? mf : NULL) && nfree[1] == (has_mf && unsafe(mf)), "an unsafe sender is removed");
    if (f0 >= 1) VF_ASSERT(L.cl_timefreq == f0, "a valid delay is kept");    /* others: see C04 */
    VF_ASSERT(L.cl_id == id0, "the line gets its identifier");
    VF_COVER("added");
    }
}

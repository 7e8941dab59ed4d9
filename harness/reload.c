/* C08: when a table is replaced, its unchanged lines keep their place in the schedule. */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up on a new table")
#include "db_common.h"
#include "conf.h"
#include "save.h"
#undef calloc
#undef remove
static cf_t oldF, newF, otherF; static cl_t o0, o1, n0, n1; static cl_t *const O[2] = { &o0, &o1 }, *const W[2] = { &n0, &n1 };
static int inserted[2], removed[2], deleted, saved, rmfile, read_ok; static time_t own[2]; static unsigned short own_remain[2];
void *h_calloc(size_t n, size_t m) { VF_MODEL(n * m == sizeof(cf_t), "allocation"); return &newF; }
static cf_t *ftab(void) { return file_base; }
int read_file(const char *name, cf_t *cf, int boot)
{
    int i;
    VF_ASSERT(cf == &newF && name[0] == 'n' && boot == 0, "the new table is read");
    if (!read_ok) return 1;
    cf->cf_user = "u";
    for (i = 0; i < 2; i++) W[i]->cl_file = cf;
    cf->cf_line_base = W[0]; W[0]->cl_next = W[1];
    return 0;
}
static int idx(cl_t *l) { VF_ASSERT(l == W[0] || l == W[1], "a line of the new table"); return l == W[1]; }
void insert_nextexe(cl_t *l) { VF_ASSERT(!deleted, "order"); inserted[idx(l)]++; own[idx(l)] = l->cl_nextexe; }
struct job_t *job_queue_remove(cl_t *l) { removed[idx(l)]++; return NULL; }
void delete_file(const char *u)
{
    VF_ASSERT(u[0] == 'u' && u[1] == 0 && !deleted && file_base == &oldF, "the old table is the first of the list, as delete_file() needs");
    file_base = oldF.cf_next; deleted = 1;
}
void save_file(cf_t *f) { VF_ASSERT(f == &newF && file_base == &newF, "the new table is saved"); saved++; }
int h_remove(const char *n) { VF_ASSERT(saved == 1 && n[0] == 'n' && n[3] == '.' && n[4] == 'u', "the file of the new table is removed after it has been saved"); rmfile++; return VF_BOOL("rm") ? -1 : 0; }
env_list_t *env_list_destroy(env_list_t *l) { return NULL; }
static void any_line(cl_t *l)
{
    l->cl_shell = VF_BOOL("cmd") ? "a" : "b";
    if (VF_BOOL("td")) set_td(l->cl_option); else set_freq(l->cl_option);
    if (VF_BOOL("dayor")) set_dayor(l->cl_option); else set_dayand(l->cl_option);
    if (VF_BOOL("once")) set_runonce(l->cl_option); else clear_runonce(l->cl_option);
    clear_hasrun(l->cl_option);
    l->cl_runfreq = VF_RANGE("runfreq", 0, 2); l->cl_remain = VF_RANGE("remain", 0, 2);
    if (is_td(l->cl_option)) {      /* the fields are all set to something */
        l->cl_mins[0] = 1 << VF_BOOL("mins"); l->cl_hrs[2] = 1 << VF_BOOL("hrs"); l->cl_days[3] = 1 << VF_BOOL("days"); l->cl_mons[1] = 1 << VF_BOOL("mons"); l->cl_dow[0] = 1 << VF_BOOL("dow");
    } else l->cl_timefreq = VF_RANGE("freq", 1, 2) * 60;
    l->cl_tz = VF_BOOL("tz") ? VF_BOOL("zone") ? "X" : "Y" : NULL;
    l->cl_nextexe = VF_RANGE64("time", 100000, 300000);
}
static int same(cl_t *a, cl_t *b)
{
    if (a->cl_shell[0] != b->cl_shell[0] || !is_td(a->cl_option) != !is_td(b->cl_option)) return 0;
    if (!is_td(a->cl_option)) return a->cl_timefreq == b->cl_timefreq;
    return a->cl_mins[0] == b->cl_mins[0] && a->cl_hrs[2] == b->cl_hrs[2] && a->cl_days[3] == b->cl_days[3] && a->cl_mons[1] == b->cl_mons[1] && a->cl_dow[0] == b->cl_dow[0]
        && !is_dayor(a->cl_option) == !is_dayor(b->cl_option) && (a->cl_tz ? a->cl_tz[0] : 0) == (b->cl_tz ? b->cl_tz[0] : 0);
}
void vf_main(void)
{
    int i, k, had, first; time_t kept[2]; char fn[6] = "new.u";
    now = 200000;
    for (i = 0; i < 2; i++) {
        any_line(O[i]); any_line(W[i]); O[i]->cl_file = &oldF;
        if (is_runonce(O[i]->cl_option) && VF_BOOL("hasrun")) set_hasrun(O[i]->cl_option);
        own[i] = W[i]->cl_nextexe; own_remain[i] = W[i]->cl_remain; kept[i] = own[i];
    }
    oldF.cf_user = "u"; oldF.cf_line_base = O[0]; O[0]->cl_next = O[1]; otherF.cf_user = "v";
    oldF.cf_tzdiff = VF_RANGE("otz", -12, 12); newF.cf_tzdiff = VF_RANGE("ntz", -12, 12);
    had = VF_BOOL("had"); first = VF_BOOL("first"); read_ok = VF_BOOL("read_ok");
    if (!had) file_base = &otherF;
    else if (first) { file_base = &oldF; oldF.cf_next = &otherF; }
    else { file_base = &otherF; otherF.cf_next = &oldF; }
    cf_t *base = file_base;
    synchronize_file(fn, 0);
    if (!read_ok) {
        VF_ASSERT(!deleted && !saved && !rmfile && file_base == base, "a table which cannot be read leaves the previous one");
        return;
    }
    VF_ASSERT(deleted == had && saved == 1 && rmfile == 1, "the new table replaces the old one");
    VF_ASSERT(file_base == &newF && newF.cf_next == &otherF && (otherF.cf_next == NULL), "the new table takes the place of the old one, the others are kept");
    for (i = 0; i < 2; i++) {
        cl_t *m = NULL, *l = W[i]; long d;
        if (had) for (k = 0; k < 2 && !m; k++) if (same(l, O[k])) m = O[k];
        if (m && is_hasrun(m->cl_option) && !is_runonce(l->cl_option)) m = NULL;
        if (!m) {
            VF_ASSERT(l->cl_nextexe == kept[i] && l->cl_remain == own_remain[i] && !inserted[i] && !removed[i] && !is_hasrun(l->cl_option), "a new or changed line is scheduled as a new one");
            continue;
        }
        d = (newF.cf_tzdiff - oldF.cf_tzdiff) * 3600L;
        if (m->cl_nextexe + d <= now) d = 0;
        VF_ASSERT(l->cl_nextexe == m->cl_nextexe + d, "an unchanged line keeps its next execution time");
        VF_ASSERT(l->cl_remain == (l->cl_runfreq == m->cl_runfreq ? m->cl_remain : own_remain[i]), "an unchanged line keeps its count of executions");
        if (is_hasrun(m->cl_option)) VF_ASSERT(is_hasrun(l->cl_option) && removed[i] == 1 && !inserted[i], "a line which has run once is not run again");
        else VF_ASSERT(inserted[i] == 1 && !removed[i] && own[i] == l->cl_nextexe && !is_hasrun(l->cl_option), "an unchanged line takes its place in the queue, with its final time");
    }
    VF_COVER("reloaded");
}

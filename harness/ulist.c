/* C19: the list behind the running-job and load-average queues keeps exactly the entries put in
 * it, whatever the order of additions, iterations and removals. */
#include "global.h"
#include "u_list.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "list operation aborted the program")
#include "vf_log.h"
#undef realloc
#undef calloc
#undef free
#ifndef WALKS
#define WALKS 1
#endif
#ifndef MAXE
#define MAXE 5
#endif
struct ent { int id; int key; };
/* The array of entries lives in one of two fixed objects (a reallocation moves it to the other
 * one and the old one is wiped); what lies beyond the size asked for is watched. */
#define POOL (MAXE + 4)
struct obj { struct ent e[POOL]; };
static struct obj obj0, obj1, empty;
static int which = -1;
static size_t lsz;
static char freed_list, freed_array;
static void redzone(void)
{
    struct obj *o = which ? &obj1 : &obj0;
    size_t i;
    for (i = 0; i < POOL; i++)
        if ((i + 1) * sizeof(struct ent) > lsz)
            VF_ASSERT(o->e[i].id == -7, "no write beyond the memory of the list");
}
static void mark(struct obj *o, size_t n)
{
    size_t i;
    for (i = 0; i < POOL; i++)
        if ((i + 1) * sizeof(struct ent) > n) o->e[i].id = -7;
    lsz = n;
}
static u_list_t theone;
static char theone_used;
void *h_calloc(size_t n, size_t m)
{
    if (n * m == sizeof(u_list_t) && !theone_used) { theone_used = 1; return &theone; }
    VF_ASSERT(which == -1, "one array per list");
    which = 0; mark(&obj0, n * m);
    return &obj0;
}
void *h_realloc(void *p, size_t n)
{
    VF_ASSERT(n <= sizeof(struct obj), "array size stays in proportion");
    VF_ASSERT(p == (which ? (void *)&obj1 : (void *)&obj0), "reallocates its own array");
    redzone();
    size_t i;
    if (which == 0) { obj1 = obj0; obj0 = empty; which = 1; mark(&obj1, n); return &obj1; }
    obj0 = obj1; obj1 = empty; which = 0; mark(&obj0, n); return &obj0;
}
void h_free(void *p)
{
    if (p == &theone) { VF_ASSERT(!freed_list, "double free"); freed_list = 1; }
    else if (p == &obj0 || p == &obj1) { VF_ASSERT(!freed_array, "double free"); freed_array = 1; }
    else VF_ASSERT(p == NULL, "frees only its own memory");
}

static struct ent e;
static char in[MAXE + 1], visited[MAXE + 1];
static int next_id = 1, count;
static u_list_t *l;

static void do_add(void)
{
    struct ent *r;
    if (next_id > MAXE) return;
    e.id = next_id; e.key = next_id + 40;
    r = u_list_add(l, &e);
    if (CAP > 0 && count >= CAP)
        VF_ASSERT(r == NULL, "a list accepts no entry beyond its maximum");
    else {
        VF_ASSERT(r != NULL, "a list with room accepts a new entry");
        VF_ASSERT(r->id == next_id && r->key == next_id + 40, "the entry returned is the one added");
        in[next_id] = 1; visited[next_id] = 0; count++; next_id++;
    }
    VF_ASSERT(l->num_entries == count, "number of entries is right after an addition");
    redzone();
}

static void walk(int mutate)
{
    int i, steps = 0, ended = 0;
    struct ent *p;
    char start[MAXE + 1];
    for (i = 1; i <= MAXE; i++) { start[i] = in[i]; visited[i] = 0; }
    for (p = u_list_first(l); p != NULL; p = u_list_next(l)) {
        int id = p->id;
        VF_ASSERT(u_list_is_iterating(l), "an iteration is under way");
        VF_ASSERT(id >= 1 && id <= MAXE && in[id], "iteration returns an entry that is in the list");
        VF_ASSUME(id >= 1 && id <= MAXE);
        VF_ASSERT(p->key == id + 40, "an entry comes back with all its content");
        visited[id]++;
        VF_ASSERT(visited[id] == 1, "iteration returns no entry twice");
        if (++steps > MAXE) { ended = 1; break; }
        if (mutate) {
            int what = VF_RANGE("step", 0, 3);
            if (what == 1) { u_list_remove_cur(l); in[id] = 0; count--; VF_COVER("removal"); redzone(); }
            else if (what == 2) { u_list_end_iteration(l); ended = 1; break; }
            else if (what == 3) do_add();
        }
    }
    if (!ended)
        for (i = 1; i <= MAXE; i++)
            if (start[i]) VF_ASSERT(visited[i] == 1, "iteration reaches every entry");
    VF_ASSERT(!u_list_is_iterating(l), "no iteration is left open");
    VF_ASSERT(l->num_entries == count, "number of entries is right after an iteration");
}

void vf_main(void)
{
    int i, n = VF_RANGE("adds", 0, MAXE - 1);
    l = u_list_init(sizeof(struct ent), INIT, GROW);
    l->max_entries = CAP;
    for (i = 0; i < MAXE - 1; i++)
        if (i < n) do_add();
    for (i = 0; i < WALKS; i++) {
        walk(1);
        if (VF_BOOL("add")) do_add();
    }
    walk(0);
    if (count >= 2) VF_COVER("two entries");
    VF_COVER("end");
    l = u_list_destroy(l);
    VF_ASSERT(l == NULL && freed_list && freed_array, "destroying a list frees it");
}

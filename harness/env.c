/* C14: a list of environment settings keeps one value for each name, in order, and is exported whole.
 * The list itself (u_list.c) is the subject of C19; here it is an array. */
#include "global.h"
#include "fcron.h"
#include "env_list.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the program gave up on a setting")
#include "vf_log.h"
#include "vf_fmt.h"
#undef snprintf
#undef free
#ifndef N
#define N 2
#endif
#define S 7
/* memory: strings in slots, which are poisoned when they are given back */
#define NP (2 * N + 2)
static char p0[S], p1[S], p2[S], p3[S], p4[S], p5[S], p6[S], p7[S];
static char *const pool[8] = { p0, p1, p2, p3, p4, p5, p6, p7 };
static unsigned char plen[NP], used[NP]; static int np;
static char *slot(size_t len) { int i, k = np++; VF_MODEL(k < NP && len <= S, "memory"); used[k] = 1; plen[k] = len; for (i = 0; i < S; i++) pool[k][i] = i < (int)len ? 0 : 'x'; return pool[k]; }
static int slot_of(const void *p) { int i; for (i = 0; i < NP; i++) if (p == pool[i]) return i; return -1; }
static char *vec[N + 3]; static int vecs, vec_used;
void *alloc_safe(size_t len, const char *d)
{
    if (d[0] == 'e') { VF_ASSERT(!vec_used && len <= sizeof(vec), "one vector"); vec_used = 1; vecs = len / sizeof(char *); return vec; }
    return slot(len);
}
static void drop(int k) { int i; VF_ASSERT(k >= 0 && used[k], "only memory in use is given back"); used[k] = 0; for (i = 0; i < S; i++) { if (i >= plen[k]) VF_ASSERT(pool[k][i] == 'x', "nothing is written outside the memory asked for"); pool[k][i] = 'y'; } }
void *realloc_safe(void *p, size_t len, const char *d)
{
    int i, k = slot_of(p); char *n;
    VF_ASSERT(k >= 0 && used[k], "only memory in use is given back");
    n = slot(len);
    for (i = 0; i < S; i++) if (i < (int)len && i < plen[k]) n[i] = pool[k][i];
    drop(k);
    return n;
}
char *strdup2(const char *s) { int i, n; char *d; if (!s) return NULL; for (n = 0; s[n]; n++) ; d = slot(n + 1); for (i = 0; i < n; i++) d[i] = s[i]; return d; }
void h_free(void *p) { if (p == NULL) return; if (p == vec) { VF_ASSERT(vec_used == 1, "the vector is freed once"); vec_used = 2; return; } drop(slot_of(p)); }
int h_snprintf(char *b, size_t n, const char *f, ...) { int r; va_list ap; va_start(ap, f); r = vf_vsnprintf(b, n, f, ap); va_end(ap); return r; }
/* lists */
typedef struct { env_t e[N + 2]; int n, cur, iter; } arr;
static arr A, B; static struct u_list_t LA, LB; static int destroyed[2];
static arr *of(u_list_t *l) { VF_ASSERT(l == &LA || l == &LB, "a list"); return l == &LA ? &A : &B; }
u_list_t *u_list_init(size_t s, int a, int b) { return &LA; }
u_list_t *u_list_copy(u_list_t *l) { VF_ASSERT(l == &LA, "the list"); B = A; B.iter = 0; LB.num_entries = A.n; return &LB; }
u_list_entry_t *u_list_first(u_list_t *l) { arr *a = of(l); if (a->iter) return NULL; a->cur = 0; a->iter = a->n > 0; return a->iter ? (u_list_entry_t *)&a->e[0] : NULL; }
u_list_entry_t *u_list_next(u_list_t *l) { arr *a = of(l); if (!a->iter) return NULL; if (++a->cur < a->n) return (u_list_entry_t *)&a->e[a->cur]; a->iter = 0; return NULL; }
void u_list_end_iteration(u_list_t *l) { of(l)->iter = 0; }
u_list_entry_t *u_list_add(u_list_t *l, u_list_entry_t *e) { arr *a = of(l); VF_ASSERT(a->n <= N, "list"); a->e[a->n] = *(env_t *)e; a->n++; l->num_entries = a->n; return (u_list_entry_t *)&a->e[a->n - 1]; }
u_list_t *u_list_destroy(u_list_t *l) { destroyed[l == &LB]++; return NULL; }
/* a setting: a name of 1 or 2 characters, and a value of 0 to 2 */
typedef struct { char n0, n1, v0, v1; } set;
static set M[N + 1]; static int nm;
static void any(set *s, int k)
{
    s->n0 = VF_RANGE("name", 'A', 'B'); s->n1 = VF_BOOL("longname") ? VF_RANGE("name", 'A', 'B') : 0;
    s->v0 = k < 9 || VF_BOOL("value") ? VF_RANGE("char", 1, 127) : 0; s->v1 = k == 9 && s->v0 && VF_BOOL("value") ? VF_RANGE("char", 1, 127) : 0;
}
static int samename(set *a, set *b) { return a->n0 == b->n0 && a->n1 == b->n1; }
static void text(set *s, char *d) { int i = 0; d[i++] = s->n0; if (s->n1) d[i++] = s->n1; d[i++] = '='; if (s->v0) d[i++] = s->v0; if (s->v1) d[i++] = s->v1; d[i] = 0; }
static void value(set *s, char *d) { d[0] = s->v0; d[1] = s->v1; d[2] = 0; }
static void name(set *s, char *d) { d[0] = s->n0; d[1] = s->n1; d[2] = 0; }
static int eq(const char *a, const char *b) { int i; for (i = 0; i < 7; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
static void check(arr *a, const char *why)
{
    int i; char t[8];
    VF_ASSERT(a->n == nm && !a->iter, "no setting is lost or added");
    for (i = 0; i < N + 1; i++) if (i < nm) { int k = slot_of(a->e[i].e_envvar); text(&M[i], t); VF_ASSERT(k >= 0 && used[k], "the text of a setting is there"); VF_ASSERT(eq(a->e[i].e_envvar, t), "every setting has its value, in order"); }
}
void vf_main(void)
{
    int i, j, hit = -1, over = VF_BOOL("overwrite"); set x; char t[8], xn[8], xv[8]; env_t *r;
    nm = N;
    for (i = 0; i < N; i++) if (i < nm) {
        any(&M[i], i);
        for (j = 0; j < i; j++) VF_ASSUME(!samename(&M[i], &M[j]));
        A.e[i].e_envvar = slot(5); text(&M[i], A.e[i].e_envvar);
    }
    A.n = LA.num_entries = nm;
    any(&x, 9); text(&x, t); name(&x, xn); value(&x, xv);
    for (i = 0; i < N; i++) if (i < nm && samename(&M[i], &x)) hit = i;
#if OP == 0 || OP == 1
#if OP == 0
    r = env_list_setenv(&LA, xn, xv, over);
#else
    r = env_list_putenv(&LA, t, over);
#endif
    if (hit < 0) M[nm++] = x; else if (over) M[hit] = x;
    VF_ASSERT(r == &A.e[hit < 0 ? nm - 1 : hit], "the setting is returned");
    check(&A, "");
    if (hit < 0) VF_COVER("added"); else VF_COVER("there");
#elif OP == 2
    { char *v = env_list_getenv(&LA, xn);
    if (hit < 0) VF_ASSERT(v == NULL, "a name which is not set"); else { value(&M[hit], xv); VF_ASSERT(v && eq(v, xv), "the value of a name"); }
    check(&A, "");
    VF_COVER("read"); }
#elif OP == 3
    { env_list_t *l = env_list_copy(&LA);
    VF_ASSERT(l == &LB, "the copy");
    for (i = 0; i < N; i++) if (i < nm) for (j = 0; j < N; j++) if (j < nm) VF_ASSERT(A.e[i].e_envvar != B.e[j].e_envvar, "a copy has its own texts");
    check(&A, ""); check(&B, "");
    env_list_destroy(&LA);
    check(&B, "");
    VF_ASSERT(destroyed[0] == 1 && !destroyed[1], "the list is freed");
    env_list_destroy(&LB);
    VF_ASSERT(destroyed[1] == 1, "the list is freed");
    VF_COVER("copied"); }
#else
    { char **v = env_list_export_envp(&LA);
    VF_ASSERT(v == vec && vecs == nm + 1 && v[nm] == NULL, "the vector ends after the settings");
    for (i = 0; i < N; i++) if (i < nm) { text(&M[i], t); VF_ASSERT(v[i] && v[i] != A.e[i].e_envvar && eq(v[i], t), "every setting is exported, in order"); }
    check(&A, "");
    env_list_free_envp(v);
    VF_ASSERT(vec_used == 2, "the vector is freed");
    check(&A, "");
    env_list_destroy(&LA);
    VF_COVER("exported"); }
#endif
#if OP > 2
    for (i = 0; i < NP; i++) VF_ASSERT(!used[i], "all the memory is given back");
#else
    j = 0; for (i = 0; i < NP; i++) j += used[i];
    VF_ASSERT(j == nm, "no memory is lost");
#endif
}

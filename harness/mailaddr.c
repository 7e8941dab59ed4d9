/* C16: the sender of a mail is formatted as RFC 5322 asks, within the maximum length of a line. */
#include "global.h"
#include "mail.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "gives up")
#include "vf_log.h"
#include "vf_fmt.h"
#undef snprintf
#undef calloc
#undef free
#define MAX ((int)MAIL_FROM_VALUE_LEN_MAX)
#define N (MAX + 3)
/* two allocations at most, of the size asked for */
static int nalloc;
static char *bufs[3]; static char freed[3];
void *h_calloc(size_t a, size_t b)
{
    char *p; size_t i;
    VF_MODEL(nalloc < 3 && a * b <= 2 * (size_t)MAX + 8, "memory");
    p = malloc(a * b);
    for (i = 0; i < a * b; i++) p[i] = 0;
    bufs[nalloc++] = p;
    return p;
}
void h_free(void *p)
{
    int i, ok = 0;
    for (i = 0; i < 3; i++) if (i < nalloc && p == bufs[i] && !freed[i]) { freed[i] = 1; ok = 1; }
    VF_ASSERT(ok, "frees what was allocated, once");
}
int h_snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap; int r;
    va_start(ap, f); r = vf_vsnprintf(b, n, f, ap); va_end(ap);
    return r;
}
static int special(char c)    /* RFC 5322 specials, which have to be quoted */
{
    return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == ':' || c == ';' || c == '@'
        || c == '\\' || c == ',' || c == '.' || c == '"';
}
static char in[40], a1[40], a2[40];
static void fill(char *s, int max)
{
    int i, l = VF_RANGE("len", 0, max);
    for (i = 0; i < max + 1; i++) { char c = VF_U8("c"); VF_ASSUME(c != 0 && (c != '\n')); s[i] = i < l ? c : 0; }
}
void vf_main(void)
{
    int i, n = 0, esc = 0, q = 0, o = 0, leaked = 0;
    char *r;
#if PART == 0
    fill(in, N);
    for (i = 0; i < N; i++) if (in[i]) { n++; if (special(in[i])) q = 1; if (in[i] == '"') esc++; }
    r = format_maildisplayname(in);
    if (q) {
        if (n + esc + 2 > MAX) VF_ASSERT(r == NULL, "a name which does not fit on the line is refused");
        if (n + esc + 2 < MAX) VF_ASSERT(r != NULL, "a name which fits is accepted");
    } else VF_ASSERT((r != NULL) == (n <= MAX), "a name which needs no quotes is accepted exactly if it fits");
    if (r) {
        if (q) { VF_ASSERT(r[o] == '"', "quoted"); o++; }
        for (i = 0; i < MAX; i++) if (i < n) {
            if (in[i] == '"') { VF_ASSERT(r[o] == '\\', "a quote is escaped"); o++; }
            VF_ASSERT(r[o] == in[i], "the name"); o++;
        }
        if (q) { VF_ASSERT(r[o] == '"', "quoted"); o++; }
        VF_ASSERT(r[o] == 0, "ends there");
        if (q && esc) VF_COVER("escaped");
        if (!q && n == MAX) VF_COVER("longest");
    } else VF_COVER("too long");
#else
    int la = 0, lb = 0;
    fill(in, N); fill(a1, 4); fill(a2, 4);
    for (i = 0; i < N; i++) if (in[i]) n++;
    for (i = 0; i < 4; i++) { if (a1[i]) la++; if (a2[i]) lb++; }
    r = make_mailbox_addr(in, a1, a2);
    VF_ASSERT((r != NULL) == ((n ? n + 3 : 0) + la + lb <= MAX), "an address is accepted exactly if it fits on the line");
    if (r) {
        for (i = 0; i < MAX; i++) if (i < n) { VF_ASSERT(r[o] == in[i], "the name"); o++; }
        if (n) { VF_ASSERT(r[o] == ' ' && r[o + 1] == '<', "separator"); o += 2; }
        for (i = 0; i < 4; i++) if (i < la) { VF_ASSERT(r[o] == a1[i], "the user"); o++; }
        for (i = 0; i < 4; i++) if (i < lb) { VF_ASSERT(r[o] == a2[i], "the host"); o++; }
        if (n) { VF_ASSERT(r[o] == '>', "closed"); o++; }
        VF_ASSERT(r[o] == 0, "ends there");
        if (n) VF_COVER("named");
    } else VF_COVER("too long");
#endif
    if (PART == 0 && n == 0) return;
    for (i = 0; i < 3; i++) if (i < nalloc && !freed[i] && bufs[i] != r) leaked = 1;
    VF_ASSERT(!leaked, "what is not returned is freed");
}

/* C01: a time field selects exactly the values which the documented grammar
 *   a[-b[/c][~d]...][,...]   (a, b, d numbers or names, or * for everything)
 * gives; too big values, unknown names and steps of 0 are rejected; no access leaves the text or the set. */
#include "fcrontab.h"
#include "fileconf.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "gives up")
#include "vf_log.h"
#undef fprintf
extern char *read_field(char *ptr, bitstr_t *ary, int max, const char **names);
extern const char *dows_ary[8], *mons_ary[13];
extern char need_correction;
int h_fprintf(FILE *f, const char *fmt, ...) { return 0; }
/* LEN characters, then a blank and the end of the line */
static char text[LEN + 2];
#define BITS (MAXV == 12 ? 12 : MAXV + 1)
static bitstr_t ary[(BITS + 7) / 8];
typedef unsigned long mask_t;
#define B(v) (1ul << (v))
#define LAST (MAXV == 12 ? 11 : MAXV)
#define NAMES (MAXV == 12 ? mons_ary : MAXV == 7 ? dows_ary : NULL)
static const char mon[] = "janfebmaraprmayjunjulaugsepoctnovdec", dow[] = "sunmontuewedthufrisat";
/* the meaning of the text */
static int undef, reject;             /* not covered by the documentation; must be rejected */
static mask_t all, elem, before;
static mask_t range(int a, int b, int step)
{
    mask_t m = 0; int v, nx = a;
    for (v = 0; v <= LAST; v++) if (v == nx && (a > b || v <= b)) { m |= B(v); nx += step; }
    if (a > b) {                      /* 22-3: over the end of the field */
        nx -= LAST + 1;
        if ((MAXV == 31 || MAXV == 7) && step > 1) undef = 1;
        for (v = 0; v <= LAST; v++) if (v == nx && v <= b) { m |= B(v); nx += step; }
    }
    return m;
}
static int st, num, ndig, nlet, l0, l1, star, a, b, step, filled;
enum { A, BEGB, BB, STEP, EXCL };     /* which number is being read */
static void number(void)              /* the end of a number */
{
    int v = num, i;
    if (ndig == 0 && nlet == 0) { undef = 1; return; }
    if (nlet) {
        if (nlet != 3 || ndig) { undef = 1; if (NAMES == NULL && nlet && !ndig) reject = 1; return; }
        if (NAMES == NULL) { reject = 1; return; }
        if (num < 0) { reject = 1; return; }
    } else if (v > MAXV) { reject = 1; return; }
    else if (MAXV == 12 && st != STEP) { v--; if (v < 0) { reject = 1; return; } }
    else if (MAXV == 31 && st != STEP && v == 0) undef = 1;
    if (nlet && st == STEP) undef = 1;
    if (st == A) a = b = v;
    if (st == BB) b = v;
    if (st == STEP) { step = v; if (v == 0) reject = 1; }
    if (st == EXCL) {
        mask_t m = B(v);
        if (MAXV == 7 && (v == 0 || v == 7)) m = B(0) | B(7);
        if (before & m) undef = 1;    /* also selected by another element */
        elem &= ~m;
    }
}
static void fill(void) { if (!filled && !reject && !undef) { elem = range(a, b, step); filled = 1; } }
static void newelem(void) { before = all; elem = 0; star = 0; step = 1; filled = 0; st = A; num = ndig = nlet = 0; }
static void meaning(int len)
{
    int i, k;
    newelem();
    for (i = 0; i <= LEN; i++) if (i <= len && !undef && !reject) {
        char c = i == len ? ' ' : text[i];
        if (c >= '0' && c <= '9') { if (star && st == A) undef = 1; num = num * 10 + (c - '0'); ndig++; if (nlet) undef = 1; if (num > 1000) num = 1000; }
        else if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) {
            char d = c >= 'a' ? c : c + 32;
            if (ndig || star && st == A) undef = 1;
            nlet++;
            if (nlet == 1) l0 = d; if (nlet == 2) l1 = d;
            if (nlet == 3) {
                num = -1;
#if MAXV == 12
                for (k = 0; k < 12; k++) if (mon[3 * k] == l0 && mon[3 * k + 1] == l1 && mon[3 * k + 2] == d) num = k;
#elif MAXV == 7
                for (k = 0; k < 7; k++) if (dow[3 * k] == l0 && dow[3 * k + 1] == l1 && dow[3 * k + 2] == d) num = k;
#endif
            }
            if (nlet > 3) undef = 1;
        }
        else if (c == '*') { if (st != A || star || ndig || nlet) undef = 1; star = 1; a = 0; b = LAST; }
        else {
            if (star && st == A) { if (ndig || nlet) undef = 1; } else number();
            num = ndig = nlet = 0;
            if (c == '-') { if (st != A || star) undef = 1; st = BB; }
            else if (c == '/') { if (st == BB || (st == A && star)) st = STEP; else undef = 1; }
            else if (c == '~') { if (st == A && !star) undef = 1; fill(); st = EXCL; }
            else if (c == ',' || c == ' ' || c == '\t') { fill(); all = before | elem; newelem(); if (c == '\t') undef = undef || i != len; }
            else undef = 1;
        }
    }
    if (MAXV == 7 && (all & (B(0) | B(7)))) all |= B(0) | B(7);
}
static int issep(char c) { return c == ',' || c == '-' || c == '/' || c == '~'; }
static int isdig(char c) { return c >= '0' && c <= '9'; }
void vf_main(void)
{
    int i, len = LEN;
    char *r; mask_t got = 0;
    /* only these characters matter to the grammar; 'x' and '.' stand for the others */
    for (i = 0; i < LEN; i++) {
        char c = VF_U8("c");
#if TEXT == 0
        VF_ASSUME((c >= '0' && c <= '9') || c == '*' || c == ',' || c == '-' || c == '/' || c == '~' || c == 'x' || c == '.');
#else
        VF_ASSUME((c >= 'a' && c <= 'z') || c == 'J' || c == 'A' || c == 'N' || c == 'S' || c == 'U' || c == ',' || c == '-' || c == '1' || c == '~' || c == '/');
#endif
        text[i] = c;
#ifndef JUNK   /* numbers of one or two digits, no empty elements: the shapes the grammar has */
        VF_ASSUME(c != '.');
        VF_ASSUME(i == 0 ? c != ',' && c != '-' && c != '/' && c != '~' : 1);
        if (i > 0) VF_ASSUME(!issep(c) || !issep(text[i - 1]));
        if (i > 1) VF_ASSUME(!isdig(c) || !isdig(text[i - 1]) || !isdig(text[i - 2]));
#endif
    }
    text[LEN] = ' '; text[LEN + 1] = 0;
    if (VF_BOOL("ends")) { text[LEN] = 0; undef = 1; }    /* no command follows */
    meaning(len);
    need_correction = 0;
    r = read_field(text, ary, MAXV, NAMES);
    for (i = 0; i < BITS; i++) if (ary[i / 8] & (1 << (i & 7))) got |= B(i);
    if (reject) VF_ASSERT(r == NULL, "a value out of the field, an unknown name or a step of 0 is rejected");
    if (r != NULL) VF_ASSERT(r >= text && r <= text + LEN + 1, "reading goes on in the line");
    if (!undef && !reject) {
        VF_ASSERT(r != NULL, "a correct field is accepted");
        VF_ASSERT(*r == 0, "the whole field is read");
        if (MAXV == 31) got &= ~1ul, all &= ~1ul;
        VF_ASSERT(got == all, "exactly the values described are selected");
        if (all) VF_COVER("selected");
    }
#if LEN > 3 && TEXT == 0
    if (!undef && reject) VF_COVER("rejected");
#endif
}

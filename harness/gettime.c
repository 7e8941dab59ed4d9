/* C18: a time value is the sum of its parts (number and unit), or is rejected; nothing overflows. */
#include "fcrontab.h"
#include "fileconf.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "gives up")
#include "vf_log.h"
extern char *get_time(char *ptr, time_t *time, int zero_allowed);
extern char need_correction;
#ifdef SHAPE
#define LEN ((int)sizeof(SHAPE) - 1)
static char text[sizeof(SHAPE) + 1];
#else
static char text[LEN + 2];
#endif
#define BIG (1l << 62)
#ifndef SHAPE
#define mul(a, b) ((a) * (b))
#define add(a, b) ((a) + (b))
#else
static long mul(long a, long b) { return a > BIG / b ? BIG : a * b; }
static long add(long a, long b) { return a > BIG - b ? BIG : a + b; }
#endif
void vf_main(void)
{
    int i, ndig = 0, bad = 0, undef = 0, ended = 0, end = LEN, k;
    long sum = 0, num = 0;
    time_t got = 77;
    char *r;
    int zero = VF_BOOL("zero_allowed");
    for (i = 0; i < LEN; i++) {
        char c = VF_U8("c");
#ifdef SHAPE        /* the given characters; ? is any unit, n any digit, * anything */
        if (SHAPE[i] != '?' && SHAPE[i] != 'n' && SHAPE[i] != '*') c = SHAPE[i];
        else if (SHAPE[i] == 'n') VF_ASSUME(c >= '0' && c <= '9');
        else if (SHAPE[i] == '?') VF_ASSUME(c == 'm' || c == 'w' || c == 'd' || c == 'h' || c == 's');
#endif
        VF_ASSUME((c >= '0' && c <= '9') || c == 'm' || c == 'w' || c == 'd' || c == 'h' || c == 's' || c == ' ' || c == ')' || c == '\t' || c == '-' || c == 'x');
        text[i] = c;
#ifndef SHAPE       /* numbers of one or two digits */
        if (i > 1) VF_ASSUME(!(c >= '0' && c <= '9' && text[i - 1] >= '0' && text[i - 1] <= '9' && text[i - 2] >= '0' && text[i - 2] <= '9'));
#endif
    }
    text[LEN] = VF_BOOL("ends") ? 0 : VF_BOOL("paren") ? ')' : ' ';
    for (i = 0; i <= LEN; i++) if (!ended && !bad) {
        char c = text[i];
        if (c >= '0' && c <= '9') { num = add(mul(num, 10), c - '0'); ndig++; }
        else if (c == 'm' || c == 'w' || c == 'd' || c == 'h' || c == 's') {
            if (ndig == 0) undef = 1;
            sum = add(sum, mul(num, c == 's' ? 1 : c == 'h' ? 3600 : c == 'd' ? 86400 : c == 'w' ? 604800 : 4 * 604800));
            num = ndig = 0;
        }
        else if (c == ' ' || c == '\t' || c == ')') { if (ndig) sum = add(sum, mul(num, 60)); ended = 1; end = i; }
        else if (c == 0) { if (ndig) bad = 1; ended = 1; end = i; }
        else bad = 1;
    }
    if (!bad && sum == 0 && !zero) bad = 1;
    need_correction = 0;
    r = get_time(text, &got, zero);
    if (bad && !undef) VF_ASSERT(r == NULL, "a malformed value is rejected");
    if (r == NULL) VF_ASSERT(need_correction, "a rejected value is reported as an error");
    else VF_ASSERT(r >= text && r <= text + LEN + 1, "reading goes on in the line");
    if (!bad && !undef) {
        if (sum < 2000000000) {
            VF_ASSERT(r != NULL, "a correct value is accepted");
#ifndef NOREAD
            VF_COVER("read");
#endif
        }
        if (r != NULL) {
            VF_ASSERT(sum < BIG && got == sum, "the value is the sum of its parts, in seconds");
            for (k = end; k < LEN + 1; k++) if (r == text + k + 1) VF_ASSERT(text[k] == ' ' || text[k] == '\t', "only blanks are skipped");
            if (text[end] == ')' || text[end] == 0) VF_ASSERT(r == text + end, "the end of the value is left");
        }
    }
#ifdef NOREAD
    if (sum >= BIG || NOREAD == 2) VF_COVER("too big");
#endif
#ifdef REJ
    if (bad && !undef) VF_COVER("rejected");
#endif
}

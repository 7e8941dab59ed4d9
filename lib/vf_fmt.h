/* A small printf engine for the conversions fcron uses (%s %.*s %c %d %u %i %ld %lu %hd %x %o, widths
 * and 0/- flags), so that formatted output is encoded for the solver. */
#ifndef VF_FMT_H
#define VF_FMT_H
#include <stdarg.h>
#include <stddef.h>
#ifndef VF_FMT_DIGITS
#define VF_FMT_DIGITS 20
#endif
static int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    size_t o = 0;
    char tmp[VF_FMT_DIGITS + 2];
#define VF_PUT(ch) do { if (o + 1 < n) b[o] = (ch); o++; } while (0)
    for (; *f; f++) {
        if (*f != '%') { VF_PUT(*f); continue; }
        f++;
        int zero = 0, left = 0, width = 0, prec = -1, lng = 0;
        for (; *f == '0' || *f == '-'; f++) { if (*f == '0') zero = 1; else left = 1; }
        for (; *f >= '0' && *f <= '9'; f++) width = width * 10 + (*f - '0');
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else for (; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + (*f - '0');
        }
        for (; *f == 'l' || *f == 'h' || *f == 'z'; f++) if (*f == 'l' || *f == 'z') lng = 1;
        if (*f == '%') { VF_PUT('%'); continue; }
        if (*f == 'c') { char c = va_arg(ap, int); VF_PUT(c); continue; }
        if (*f == 's') {
            const char *s = va_arg(ap, const char *); int k = 0;
            if (left || width == 0) {
                for (; (prec < 0 || k < prec) && s[k]; k++) VF_PUT(s[k]);
                for (; k < width; k++) VF_PUT(' ');
            } else {
                int len = 0, i;
                for (; (prec < 0 || len < prec) && s[len]; len++) ;
                for (; k + len < width; k++) VF_PUT(' ');
                for (i = 0; i < len; i++) VF_PUT(s[i]);
            }
            continue;
        }
        {
            int base = *f == 'x' ? 16 : *f == 'o' ? 8 : 10, k = 0, neg = 0, pad;
            unsigned long v;
            if (*f == 'd' || *f == 'i') {
                long sv = lng ? va_arg(ap, long) : (long)va_arg(ap, int);
                neg = sv < 0; v = neg ? 0ul - (unsigned long)sv : (unsigned long)sv;
            } else v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int);
            do { int d = v % base; tmp[k++] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v && k < VF_FMT_DIGITS);
            pad = width - k - neg;
            if (!left && !zero) for (; pad > 0; pad--) VF_PUT(' ');
            if (neg) VF_PUT('-');
            if (!left && zero) for (; pad > 0; pad--) VF_PUT('0');
            while (k > 0) { k--; VF_PUT(tmp[k]); }
            if (left) for (; pad > 0; pad--) VF_PUT(' ');
        }
    }
    if (n > 0) b[o < n ? o : n - 1] = 0;
    return (int)o;
}
#endif

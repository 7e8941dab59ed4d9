/* C05: the fields of a saved table are written and read byte by byte. */
#include "global.h"
#include "fcron.h"
#include "save.h"
#include "conf.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the program gave up while saving")
#include "vf_log.h"
#undef read
#undef write
#undef calloc
#undef free
#undef memcpy
void *h_memcpy(void *d, const void *s, size_t n) { size_t i; for (i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
int save_type(int fd, short int type, char *write_buf, int *buf_used);
int save_str(int fd, short int type, char *str, char *write_buf, int *buf_used);
int save_strn(int fd, short int type, char *str, short int size, char *write_buf, int *buf_used);
int save_lint(int fd, short int type, long int value, char *write_buf, int *buf_used);
int write_buf_to_disk(int fd, char *write_buf, int *buf_used);
int read_strn(int fd, char **str, short int size);
int read_type(int fd, short int *type, short int *size);
#define MAXF 96
#define SL (WRITE_BUF_LEN + 6)
static unsigned char file_[16], fq, wq; static int q;    /* byte q of the file, written and wanted */
static int flen, wlen, wfail, wshort;
#ifndef FAULT
#define FAULT 0
#endif
long h_write(int fd, const void *b, size_t n)
{
    size_t i, k = n;
    VF_ASSERT(fd == 3, "the file being saved");
    if (wfail) { VF_ASSERT(0, "nothing is written after a failure"); return -1; }
    if (n > 1 && wshort < 2 && VF_BOOL("partial")) { wshort++; k = VF_RANGE("written", 1, n - 1); }
    else if (FAULT && VF_BOOL("wfail")) { wfail = 1; VF_ERRNO_NOINTR(); return -1; }
    if (q >= flen && q < flen + (int)k) fq = ((const unsigned char *)b)[q - flen];
    flen += k; (void)i;
    return k;
}
static void expect(const void *p, int n) { if (q >= wlen && q < wlen + n) wq = ((const unsigned char *)p)[q - wlen]; wlen += n; }
#if READ
static int rpos, rfail;
long h_read(int fd, void *b, size_t n)
{
    size_t i, k = n;
    VF_ASSERT(fd == 3, "the file being read");
    VF_MODEL(n < 16, "size");
    if (k > (size_t)(flen - rpos)) k = flen - rpos;
    if (VF_BOOL("rfail")) { rfail = 1; VF_ERRNO_NOINTR(); return -1; }
    for (i = 0; i < 16; i++) if (i < k) ((unsigned char *)b)[i] = file_[rpos + i];
    rpos += k;
    if (k < n) rfail = 1;
    return k;
}
static char mem[16], msz; static int nfree, nalloc;
void *h_calloc(size_t n, size_t m) { int i; nalloc++; if (VF_BOOL("oom")) return NULL; VF_MODEL(n * m <= 16, "memory"); msz = n * m; for (i = 0; i < 16; i++) mem[i] = i < msz ? 0 : 'x'; return mem; }
void h_free(void *p) { VF_ASSERT(p == mem && !nfree, "the string is freed once"); nfree++; }
void vf_main(void)
{
    short t, s; char *str = (char *)1; int i, r;
    flen = VF_RANGE("flen", 0, 12);
    for (i = 0; i < 12; i++) file_[i] = VF_U8("byte");
    if (VF_BOOL("type")) {
        r = read_type(3, &t, &s);
        if (rfail) VF_ASSERT(r == ERR, "a field which is cut is refused");
        else VF_ASSERT(r == OK && t == *(short *)file_ && s == *(short *)(file_ + 2) && rpos == 4, "the type and size of a field are read");
        VF_COVER("type");
    } else {
        int oom;
        s = VF_I32("size");
        VF_ASSUME(s < 12);
        r = read_strn(3, &str, s);
        oom = nalloc && msz == 0;
        if (s < 0 || rfail || oom) VF_ASSERT(r == ERR && str == NULL, "a string which is cut or has no valid size is refused");
        else {
            VF_ASSERT(r == OK && str == mem && !nfree && rpos == s && mem[s] == 0, "a string is read with its end");
            for (i = 0; i < 12; i++) if (i < s) VF_ASSERT(mem[i] == (char)file_[i], "the content of a string is read");
        }
        for (i = 0; i < 16; i++) VF_ASSERT(i < msz || nalloc == 0 || msz == 0 || mem[i] == 'x', "nothing is written beyond the string");
        VF_COVER("string");
    }
}
#else
static struct { char b[WRITE_BUF_LEN]; char guard[8]; } B;
void vf_main(void)
{
    static char str[SL + 1]; int used, i, k, ok = 1;
    for (i = 0; i < 8; i++) B.guard[i] = 'g';
    q = VF_RANGE("q", 0, MAXF);
    used = VF_RANGE("used", 0, WRITE_BUF_LEN);       /* any earlier content of the buffer */
    for (i = 0; i < WRITE_BUF_LEN; i++) if (i < used) B.b[i] = VF_U8("prev");
    expect(B.b, used);
    for (k = 0; k < RECS && ok; k++) {
        short type = VF_I32("type"), size; long v;
        if (KIND == 0) { size = 0; expect(&type, 2); expect(&size, 2); ok = save_type(3, type, B.b, &used) == OK; }
        else if (KIND == 1) {
            if (VF_BOOL("null")) { size = 0; expect(&type, 2); expect(&size, 2); ok = save_str(3, type, NULL, B.b, &used) == OK; }
            else {
                size = VF_RANGE("len", 0, SL);
                for (i = 0; i < SL; i++) { str[i] = VF_U8("chr"); VF_ASSUME(str[i] != 0); }
                str[size] = 0;
                expect(&type, 2); expect(&size, 2); expect(str, size);
                ok = save_str(3, type, str, B.b, &used) == OK;
            }
        } else if (KIND == 2) {
            size = VF_RANGE("size", 1, 8);
            for (i = 0; i < 8; i++) str[i] = VF_U8("chr");
            expect(&type, 2); expect(&size, 2); expect(str, size);
            ok = save_strn(3, type, str, size, B.b, &used) == OK;
        } else { size = 8; v = VF_I64("val"); expect(&type, 2); expect(&size, 2); expect(&v, 8); ok = save_lint(3, type, v, B.b, &used) == OK; }
        VF_ASSERT(used >= 0 && used <= WRITE_BUF_LEN, "the buffer is not overfilled");
    }
    if (ok) ok = write_buf_to_disk(3, B.b, &used) == OK;
    for (i = 0; i < 8; i++) VF_ASSERT(B.guard[i] == 'g', "nothing is written beyond the buffer");
    VF_ASSERT(wfail ? !ok : ok || wshort, "a failure to write is reported, and only that or too many partial writes");
    if (ok) {
        VF_ASSERT(flen == wlen && used == 0, "everything is written");
        VF_ASSERT(q >= wlen || fq == wq, "the bytes are written as they are, in order");
    }
    VF_COVER("saved");
}
#endif

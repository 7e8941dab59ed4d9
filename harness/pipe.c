/* C25: a transfer over a pipe delivers exactly the bytes asked for, whatever way the kernel splits it. */
#include "global.h"
#include "fcron.h"
#include "job.h"
#include "vf_log.h"
#undef read
#undef write
#undef sleep
extern int read_pipe(int fd, void *to, size_t size);
extern int write_pipe(int fd, void *buf, size_t size);
static unsigned char stream[N], buf[N + 2];
static int pos, calls, size, got0, gotierr, goterr, gotintr;
static ssize_t io(int fd, unsigned char *b, size_t n, int wr)
{
    int r, i;
    VF_ASSERT(fd == 7, "the pipe it was given");
    VF_ASSERT(n > 0 && n <= (size_t)(size - pos), "asks for no more than what remains");
    calls++;
    VF_ASSUME(calls <= EV);
    r = VF_RANGE("outcome", -2, N);
    if (r == -2) { errno = EINTR; gotintr++; return -1; }
    if (r == -1) { VF_ERRNO_NOINTR(); gotierr = errno; goterr = 1; return -1; }
    if (r == 0) { got0++; return 0; }
    VF_ASSUME((size_t)r <= n);
    for (i = 0; i < N; i++) if (i < r) {
        if (wr) VF_ASSERT(b[i] == stream[pos + i], "writes the bytes in order, none twice, none skipped");
        else b[i] = stream[pos + i];
    }
    pos += r;
    return r;
}
ssize_t h_read(int fd, void *b, size_t n) { return io(fd, b, n, 0); }
ssize_t h_write(int fd, const void *b, size_t n) { return io(fd, (unsigned char *)b, n, 1); }
unsigned h_sleep(unsigned s) { return 0; }
void vf_main(void)
{
    int i, r, wr = WR;
    size = VF_RANGE("size", 1, N);
    for (i = 0; i < N; i++) stream[i] = VF_U8("byte");
    for (i = 0; i < N + 2; i++) buf[i] = wr && i < N ? stream[i] : 0xA5;
    r = wr ? write_pipe(7, buf, size) : read_pipe(7, buf, size);
    if (r == OK) {
        VF_ASSERT(pos == size, "success means that everything went through");
        if (!wr) for (i = 0; i < N; i++) if (i < size) VF_ASSERT(buf[i] == stream[i], "the bytes of the pipe, in order");
        VF_ASSERT(!goterr, "an error is not a success");
        if (gotintr && calls > 3) VF_COVER("interrupted and split");
    }
    else if (r == ERR) { VF_ASSERT(got0 > 0 && !goterr, "end of the pipe"); VF_COVER("closed"); }
    else { VF_ASSERT(goterr && r == gotierr, "the system's error is reported, and an interruption is not one"); VF_COVER("error"); }
    if (!wr) for (i = 0; i < N + 2; i++) if (i >= pos) VF_ASSERT(buf[i] == 0xA5, "nothing is written beyond what was read");
}

prop="C25"; file="job.c"
subs=[("            size_processed += ret;\n","            size_processed = num_retry ? size_processed + ret : size_processed + ret;\n            num_retry = 3;\n")]
subs=[("        else if (ret < 0 && errno == EINTR) {\n            /* interrupted by a signal : let's try again */\n","        else if (ret < 0 && errno == EINTR) {\n            /* interrupted by a signal : let's try again from the beginning */\n            size_processed = 0;\n")]
needs="a transfer interrupted by a signal after part of the data went through"
breaks="the data read is wrong (its beginning is overwritten) and too much is expected"
wrap=["read"]
demo=r'''
#include "fcron.h"
#include "job.h"
extern int read_pipe(int, void *, size_t);
static int k;
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    switch (k++) {
    case 0: memcpy(b, "ab", 2); return 2;
    case 1: errno = EINTR; return -1;
    case 2: memcpy(b, "cd", 2); return 2;
    default: return 0;
    }
}
int main(void)
{
    char b[4];
    if (read_pipe(3, b, 4) != OK || memcmp(b, "abcd", 4)) { puts("transfer wrong"); return 1; }
    return 0;
}
'''
wrap=["read","sleep"]
demo=demo.replace("int main(void)","unsigned __wrap_sleep(unsigned s) { return 0; }\nint main(void)")

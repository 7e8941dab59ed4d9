prop="C05"; file="save.c"; prog="fcron"
subs=[("""    int write_len = sizeof(type) + sizeof(size) + size;

    if (write_len > WRITE_BUF_LEN - *buf_used)
        if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
            return ERR;

    memcpy((write_buf + *buf_used), &type, sizeof(type));
    *buf_used += sizeof(type);
    memcpy((write_buf + *buf_used), &size, sizeof(size));
    *buf_used += sizeof(size);
    memcpy((write_buf + *buf_used), &value, size);""","""    int write_len = sizeof(type) + sizeof(size) + size;

    if (write_len > WRITE_BUF_LEN - *buf_used) {
        if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
            return ERR;
        *buf_used = 0;
    }
    else if (write_len == WRITE_BUF_LEN - *buf_used)
        /* do not wait for the next field: the buffer will be full */
        value = (int)value;

    memcpy((write_buf + *buf_used), &type, sizeof(type));
    *buf_used += sizeof(type);
    memcpy((write_buf + *buf_used), &size, sizeof(size));
    *buf_used += sizeof(size);
    memcpy((write_buf + *buf_used), &value, size);""")]
needs="a number of more than 31 bits which exactly fills the buffer"
breaks="the number is truncated in the saved table"
demo=r"""
#include "fcron.h"
#include "save.h"
int save_lint(int fd, short int type, long int value, char *write_buf, int *buf_used);
int main(void)
{
    static char b[WRITE_BUF_LEN]; long v; int n;
    for (n = 0; n <= WRITE_BUF_LEN - 12; n++) {
        int u = n;
        if (save_lint(-1, S_NEXTEXE_T, 5000000000L, b, &u) != OK || u != n + 12) return 3;
        memcpy(&v, b + n + 4, sizeof(v));
        if (v != 5000000000L) { printf("%ld saved at %d\n", v, n); return 1; }
    }
    return 0;
}
"""

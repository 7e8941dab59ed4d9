prop="C32"; file="fcron.c"
subs=[("    if (serial_num > 0 || once) {\n        nwt = now + first_sleep;\n","    if (once) {\n        nwt = now + first_sleep;\n")]
needs="a serial job waiting when the daemon starts, and nothing else due soon"
breaks="the daemon sleeps until the next event, and the job waits for that long"
demo=r'''
#include "fcron.h"
#include "database.h"
#include "select.h"
#include "suspend.h"
extern void main_loop(void);
void __wrap_synchronize_dir(const char *d, int s) { serial_array = calloc(4, sizeof(cl_t *)); serial_array_size = 4; serial_num = 1; serial_max_running = 1; }
void __wrap_fcrondyn_socket_init(struct select_instance *si) { }
void __wrap_init_suspend(struct select_instance *si) { }
void __wrap_select_call(struct select_instance *si, struct timeval *tv)
{
    if (tv->tv_sec > first_sleep + 1) { printf("sleeps for %ld seconds\n", (long)tv->tv_sec); exit(1); }
    exit(0);
}
int main(void) { first_sleep = 5; main_loop(); return 2; }
'''
wrap=["synchronize_dir","fcrondyn_socket_init","init_suspend","select_call"]

prop="C22"; file="fcron.c"
subs=[("        sig_chld = false;\n        wait_chld();\n        reinstall_signal_handler(SIGCHLD, sigchld_handler);\n","        wait_chld();\n        reinstall_signal_handler(SIGCHLD, sigchld_handler);\n        sig_chld = false;\n")] if False else [("        sig_hup = false;\n        synchronize_dir(\".\", 0);\n","        synchronize_dir(\".\", 0);\n        sig_hup = false;\n")]
needs="a second SIGHUP received while the daemon is handling the first one"
breaks="the second request to update the configuration is lost"
wrap=["synchronize_dir"]
demo=r'''
#include "fcron.h"
extern void check_signal(void), sighup_handler(int);
extern bool sig_hup;
int n;
void __wrap_synchronize_dir(const char *d, int s) { if (n++ == 0) raise(SIGHUP); }
int main(void)
{
    signal(SIGHUP, sighup_handler);
    raise(SIGHUP);
    check_signal(); check_signal();
    if (n != 2) { puts("second SIGHUP lost"); return 1; }
    return 0;
}
'''

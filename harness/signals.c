/* C22: a signal which is delivered at any time is acted upon after its delivery. */
#include "global.h"
#include "fcron.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up while handling signals")
#include "vf_log.h"
#include "fcronconf.h"
#include "select.h"
#undef exit
#undef sigaction
#undef remove
/* configuration is not part of this property */
char *pidfile = "p", *fcronconf = "c", *fcrontabs = "f", *shell = "s", *sendmail = "m", *editor = "e", *fifofile = "fi", *rebootlock = "r", *suspendfile = "su";
extern bool sig_chld, sig_hup, sig_term, sig_usr1, sig_usr2;
extern void sigchld_handler(int), sighup_handler(int), sigterm_handler(int), sigusr1_handler(int), sigusr2_handler(int);
extern void check_signal(void);
/* events delivered and not yet acted upon */
static char p_chld, p_hup, p_term, p_usr1, p_usr2;
static int budget;
static int schedules, toggles;
/* a signal may come in at each of these points */
static void maybe_signal(void)
{
    if (budget <= 0) return;
    int s = VF_RANGE("signal", 0, 5);
    if (s == 0) return;
    budget--;
    if (s == 1) { p_chld = 1; sigchld_handler(SIGCHLD); }
    if (s == 2) { p_hup = 1; sighup_handler(SIGHUP); }
    if (s == 3) { p_usr1 = 1; sigusr1_handler(SIGUSR1); }
    if (s == 4) { p_usr2++; sigusr2_handler(SIGUSR2); }
    if (s == 5) { p_term = 1; sigterm_handler(SIGTERM); }
}
/* the actions: work done at the beginning, signals may come before and after the work */
void wait_chld(void) { maybe_signal(); p_chld = 0; maybe_signal(); }
void synchronize_dir(const char *d, int s) { maybe_signal(); p_hup = 0; maybe_signal(); }
void reload_all(const char *d) { maybe_signal(); p_usr1 = 0; maybe_signal(); }
static int saved;
void save_file(cf_t *f) { saved = 1; }
void delete_file(const char *n) { }
void wait_all(int *c) { *c = 0; }
void fcrondyn_socket_close(struct select_instance *si) { }
exe_list_t *exe_list_destroy(exe_list_t *l) { return NULL; }
lavg_list_t *lavg_list_destroy(lavg_list_t *l) { return NULL; }
void free_conf(void) { }
time_t my_time(void) { return 1000; }
int h_remove(const char *p) { return 0; }
void h_exit(int v)
{
    VF_ASSERT(p_term, "the daemon exits only if it was asked to");
    VF_ASSERT(saved && v == EXIT_OK, "the daemon saves its state before it exits");
    VF_COVER("exit on SIGTERM");
    VF_STOP();
    for (;;) ;
}
int h_sigaction(int s, const struct sigaction *a, struct sigaction *o) { return 0; }
static void quiet(void)
{
    /* no further signal: whatever was delivered must be handled by now */
    budget = 0;
    check_signal();
    VF_ASSERT(!p_chld, "the end of a job is noticed even if it happens while another one is handled");
    VF_ASSERT(!p_hup, "a request to update the configuration is not lost");
    VF_ASSERT(!p_usr1, "a request to reload everything is not lost");
    VF_ASSERT(!p_term, "a request to exit is not lost");
    VF_ASSERT(!sig_chld && !sig_hup && !sig_term && !sig_usr1 && !sig_usr2, "nothing stays pending");
}
void vf_main(void)
{
    char d0 = debug_opt;
    int i;
    budget = BUDGET;
    for (i = 0; i < ROUNDS; i++) {
        maybe_signal();
        check_signal();
    }
    quiet();
    if (p_usr2) VF_ASSERT(p_usr2 > 1 || debug_opt != d0, "a request to change the debug mode is obeyed");
    else VF_ASSERT(debug_opt == d0, "the debug mode changes only on request");
    VF_COVER("end");
}

/* Stand-ins for log.c (messages are not part of the properties, except where log.c itself
 * is the subject) and for the ways the programs end.  Included once by a harness.
 * A harness may define VF_ON_DIE(msg) : executed when the code gives up with die(). */
#ifndef VF_LOG_H
#define VF_LOG_H
#include "vf.h"
char debug_opt = 0;
int dosyslog = 1;
char *logfile_path = NULL;
static int vf_errors, vf_warns;         /* messages emitted so far */
#ifndef VF_ON_DIE
#define VF_ON_DIE(m) do { } while (0)
#endif
static void vf_die(const char *m) { VF_ON_DIE(m); VF_STOP(); }
void xopenlog(void) { }
void xcloselog(void) { }
void explain(char *fmt, ...) { }
void explain_fd(int fd, char *fmt, ...) { }
void explain_e(char *fmt, ...) { }
void warn(char *fmt, ...) { vf_warns++; }
#ifndef VF_OWN_FD_MSGS
void warn_fd(int fd, char *fmt, ...) { vf_warns++; }
#endif
void warn_e(char *fmt, ...) { vf_warns++; }
void error(char *fmt, ...) { vf_errors++; }
#ifndef VF_OWN_FD_MSGS
void error_fd(int fd, char *fmt, ...) { vf_errors++; }
#endif
void error_e(char *fmt, ...) { vf_errors++; }
void Debug(char *fmt, ...) { }
#ifndef VF_OWN_FD_MSGS
void send_msg_fd_debug(int fd, char *fmt, ...) { }
#endif
#if !defined(VF_OWN_SEND_MSG) && !defined(VF_OWN_FD_MSGS)
void send_msg_fd(int fd, char *fmt, ...) { }
#endif
void die(char *fmt, ...) { vf_die(fmt); }
void die_e(char *fmt, ...) { vf_die(fmt); }
void error_pame(pam_handle_t *pamh, int e, char *fmt, ...) { vf_errors++; }
void die_pame(pam_handle_t *pamh, int e, char *fmt, ...) { vf_die(fmt); }
#endif

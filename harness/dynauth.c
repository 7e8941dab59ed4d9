/* C31: OP 0: one attempt to authenticate with a password, in any state of the count of failures;
 * OP 1: one round over the connections, in any state of up to NCONN of them; OP 2: the credentials of a new connection */
#include "global.h"
#define VF_ON_DIE(m) VF_ASSERT(0, "the daemon gave up because of a client")
#define VF_OWN_FD_MSGS
#include "db_common.h"
#include "fcrondyn_svr.h"
#include <shadow.h>
#undef send
#undef recv
#undef accept
#undef fcntl
#undef shutdown
#undef getsockopt
#undef setsockopt
#undef getpwuid
#undef getspnam
#undef getpwnam
#undef crypt
#undef close
#undef calloc
#include <stdarg.h>
extern void auth_client_password(fcrondyn_cl *c);
extern void auth_client_so_peercred(fcrondyn_cl *c);
extern fcrondyn_cl *fcrondyn_cl_base; extern int fcrondyn_cl_num, listen_fd, auth_fail; extern time_t auth_nofail_since;
char *fifofile = "f";
void send_msg_fd(int fd, char *f, ...) { }
void send_msg_fd_debug(int fd, char *f, ...) { }
void warn_fd(int fd, char *f, ...) { }
void error_fd(int fd, char *f, ...) { }
#ifndef NCONN
#define NCONN 2
#endif
#define MSG ((SOCKET_MSG_LEN) * (int)sizeof(long))
static int crypts, sentok, sentno;
static char *passptr;
static char name0[8], name1[8], name2[8]; static char *lastname; static int names;
char *strdup2(const char *s)
{
    char *p = names == 0 ? name0 : names == 1 ? name1 : name2; int i; names++;
    for (i = 0; i < 7 && s[i]; i++) p[i] = s[i];
    VF_MODEL(s[i] == 0, "name"); p[i] = 0; lastname = p;
    return p;
}
#undef free
static fcrondyn_cl c0, c1, c2, c3; static fcrondyn_cl *const CN[4] = { &c0, &c1, &c2, &c3 };
static int freed[4];
void *h_calloc(size_t n, size_t s) { VF_ASSERT(n * s == sizeof(fcrondyn_cl), "a connection"); return &c3; }
void h_free(void *p) { int i; for (i = 0; i < 4; i++) if (p == (void *)CN[i]) { VF_ASSERT(!freed[i], "a connection is forgotten once"); freed[i] = 1; CN[i]->fcl_next = CN[i]; CN[i]->fcl_sock_fd = 900; } }
static struct spwd sp; static struct passwd pw; static char hash[] = "#";
struct spwd *h_getspnam(const char *n) { if (strcmp(n, "a") != 0 && strcmp(n, "root") != 0) { VF_ERRNO(); return NULL; } sp.sp_pwdp = n[0] == 'a' ? hash : "*"; return &sp; }
struct passwd *h_getpwnam(const char *n) { if (strcmp(n, "a") != 0) { VF_ERRNO(); return NULL; } pw.pw_passwd = hash; return &pw; }
static char crypted[2]; static int goodpass, cryptfails;
char *h_crypt(const char *p, const char *s)
{
    crypts++; passptr = (char *)p;
    VF_ASSERT(s[0] == '#' || s[0] == '*', "the password is checked against the one of the user");
    if (cryptfails) { VF_ERRNO(); return NULL; }
    goodpass = s[0] == '#' && strcmp(p, "p") == 0;
    crypted[0] = goodpass ? '#' : '?'; return crypted;
}
ssize_t h_send(int fd, const void *p, size_t n, int fl)
{
    const char *s = p;
    VF_ASSERT(n == 2 && s[1] == 0 && (s[0] == '0' || s[0] == '1'), "the client is told about the authentication");
    if (s[0] == '1') sentok++; else sentno++;
    return n;
}
static int peer_uid, peer_fails;
int h_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return 0; }
int h_getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    VF_ASSERT(o == SO_PEERCRED && *n >= 12, "the credentials of the peer");
    if (peer_fails) { VF_ERRNO(); return -1; }
    ((int *)v)[0] = 77; ((unsigned *)v)[1] = peer_uid; ((unsigned *)v)[2] = VF_I32("gid");
    return 0;
}
struct passwd *h_getpwuid(uid_t u) { if (u > 2) { VF_ERRNO(); return NULL; } pw.pw_uid = u; pw.pw_name = u == 0 ? ROOTNAME : u == 1 ? "ann" : "bob"; return &pw; }
/* the connections: file descriptors 4 .. 7 */
static int shut[9], closed[9], watched[9], cloexec[9], nonblock[9], got[9], gotlen[9], cmds[9], pwds[9], newfd, fcntlfails;
int h_shutdown(int fd, int how) { VF_ASSERT(fd >= 4 && fd < 9, "a connection"); shut[fd]++; return 0; }
int xclose_check(int *fd, const char *w) { VF_ASSERT(*fd >= 4 && *fd < 9 && !closed[*fd], "a connection is closed once"); closed[*fd]++; *fd = -1; return 0; }
int xclose(int *fd) { return xclose_check(fd, ""); }
void select_add_read(select_instance *si, int fd) { VF_ASSERT(fd == newfd && !watched[fd], "a new connection is watched"); watched[fd] = 1; }
void select_rm_read(select_instance *si, int fd) { VF_ASSERT(fd >= 4 && fd < 9 && watched[fd] && !closed[fd], "a closed connection is not watched any more"); watched[fd] = 0; }
int h_accept(int fd, struct sockaddr *a, socklen_t *l) { VF_ASSERT(fd == 3, "the socket"); if (newfd < 0) VF_ERRNO(); return newfd; }
int h_fcntl(int fd, int c, ...)
{
    va_list ap; int v;
    if (c == F_GETFL) return 2;
    va_start(ap, c); v = va_arg(ap, int); va_end(ap);
    if (c == F_SETFL) { if (fcntlfails) { VF_ERRNO(); return -1; } VF_ASSERT((v & O_NONBLOCK) && (v & 2), "non-blocking"); nonblock[fd] = 1; } if (c == F_SETFD && (v & 1)) cloexec[fd] = 1; return 0; }
static char *const users[3] = { ROOTNAME, "ann", "bob" };
static int user_of[9];                  /* whose connection it is: -1 for nobody's */
ssize_t h_recv(int fd, void *b, size_t n, int fl)
{
    int r = VF_RANGE("recv", -1, 4);
    VF_ASSERT(fd >= 4 && fd < 9 && watched[fd] && !closed[fd] && fd != newfd, "data is read from a connection which has some");
    VF_ASSERT(n >= 8, "there is room for a message");
    got[fd]++; gotlen[fd] = r;
    if (r < 0) VF_ERRNO();
    if (r > 0) ((char *)b)[0] = fd;
    return r;
}
#if OP != 0
static int pwd_ok[9];
void auth_client_password(fcrondyn_cl *c)
{
    int fd = c->fcl_sock_fd;
    VF_ASSERT(user_of[fd] < 0 && c->fcl_user == NULL && got[fd] == 1 && ((char *)c->fcl_cmd)[0] == fd && c->fcl_cmd_len == gotlen[fd] && gotlen[fd] > 0, "only a client which is not authenticated sends its password");
    VF_ASSERT(((char *)c->fcl_cmd)[gotlen[fd]] == 0 && ((char *)c->fcl_cmd)[gotlen[fd] + 1] == 0, "a message has an end");
    pwds[fd]++;
    if (VF_BOOL("password")) { c->fcl_user = users[2]; user_of[fd] = 2; pwd_ok[fd] = 1; }
}
void exe_cmd(fcrondyn_cl *c)
{
    int fd = c->fcl_sock_fd;
    VF_ASSERT(fd >= 4 && fd < 9 && user_of[fd] >= 0 && c->fcl_user != NULL && !pwds[fd], "only an authenticated client gives commands");
    VF_ASSERT(c->fcl_user[0] == users[user_of[fd]][0], "a client acts as the user it has been authenticated as");
    VF_ASSERT(got[fd] == 1 && ((char *)c->fcl_cmd)[0] == fd && c->fcl_cmd_len == gotlen[fd] && gotlen[fd] > 0, "a command is the one which was sent");
    cmds[fd]++;
}
#endif
void vf_main(void)
{
    int i;
    now = 1700000000 + VF_RANGE("now", 0, 100000);
    exe_list = exe_list_init(); lavg_list = lavg_list_init();
#if OP == 0
    {
        static long buf[SOCKET_MSG_LEN + 1]; char *m = (char *)buf; int len = VF_RANGE("length", 1, MSG), locked, known, fail0 = auth_fail = VF_RANGE("fails", 0, MAX_AUTH_FAIL);
        long since0 = auth_nofail_since = fail0 ? now - VF_RANGE("since", 0, 1000) : 0; char nm[4], ps[4], orig[MSG];
        for (i = 0; i < MSG; i++) { char c = VF_U8("byte"); if (i < len) m[i] = c; orig[i] = m[i]; }
        for (i = 0; i < 4; i++) nm[i] = m[i];
        c0.fcl_sock_fd = 4; c0.fcl_cmd = buf; c0.fcl_cmd_len = len; cryptfails = VF_BOOL("crypt");
        known = nm[0] == 'a' && nm[1] == 0 || nm[0] == 'r' && nm[1] == 'o' && nm[2] == 'o' && nm[3] == 't' && m[4] == 0;
        ps[0] = m[2]; ps[1] = m[3];
        locked = fail0 >= MAX_AUTH_FAIL && since0 + AUTH_WAIT > now;
        auth_client_password(&c0);
        VF_ASSERT((c0.fcl_user != NULL) == (nm[0] == 'a' && nm[1] == 0 && ps[0] == 'p' && ps[1] == 0 && !locked && !cryptfails), "a client is authenticated with the password of the user only");
        VF_ASSERT(c0.fcl_user == NULL || c0.fcl_user[0] == 'a' && c0.fcl_user[1] == 0, "a client is authenticated as the user whose password it knows");
        VF_ASSERT(crypts == (known && !locked), "no password is tried while there were too many failures");
        VF_ASSERT(sentok == (c0.fcl_user != NULL) && sentno == (c0.fcl_user == NULL), "the client is told whether it is authenticated");
        if (locked) VF_ASSERT(auth_fail >= MAX_AUTH_FAIL && auth_nofail_since == since0, "the delay after too many failures is not shortened");
        else if (known && c0.fcl_user == NULL && !cryptfails) VF_ASSERT(auth_nofail_since == now && auth_fail == (fail0 && since0 + AUTH_WAIT <= now ? 1 : fail0 + 1), "each failure is counted");
        else VF_ASSERT(auth_fail == fail0 && auth_nofail_since == since0 || since0 + AUTH_WAIT <= now && auth_fail == 0, "the count of failures is kept");
        if (crypts) {
            int in = 1, at = passptr - m;
            for (i = 0; i < MSG; i++) if (i >= at) { in = in && orig[i]; VF_ASSERT(!in || m[i] == 0, "the password does not stay in memory"); }
        }
        if (c0.fcl_user) VF_COVER("authenticated");
        if (locked && known) VF_COVER("locked");
        if (auth_fail == MAX_AUTH_FAIL && !locked) VF_COVER("last failure");
    }
#elif OP == 2
    c0.fcl_sock_fd = 4; peer_uid = VF_I32("uid"); peer_fails = VF_BOOL("fails");
    auth_client_so_peercred(&c0);
    VF_ASSERT((c0.fcl_user != NULL) == (!peer_fails && (unsigned)peer_uid <= 2), "a connection of an unknown peer is not authenticated");
    if (c0.fcl_user) { VF_ASSERT(strcmp(c0.fcl_user, users[peer_uid]) == 0, "a connection belongs to its peer"); VF_COVER("authenticated"); }
    else VF_COVER("unknown");
#else
    {
        static select_instance si; int n = VF_RANGE("connections", 0, NCONN), ready[9] = { 0 }, idle[9], auth0[9], want = 0, pos = 0; fcrondyn_cl *c;
        int ret = VF_RANGE("retcode", -1, 4), newc;
        si.retcode = ret; listen_fd = 3; newfd = VF_BOOL("accept") ? 8 : -1; peer_uid = VF_RANGE("uid", 0, 3); peer_fails = VF_BOOL("fails"); fcntlfails = VF_BOOL("fcntl");
        for (i = 0; i < NCONN; i++) if (i < n) {
            int fd = 4 + i;
            c = CN[i]; c->fcl_sock_fd = fd; c->fcl_next = fcrondyn_cl_base; fcrondyn_cl_base = c;
            user_of[fd] = VF_RANGE("user", -1, 2); c->fcl_user = user_of[fd] < 0 ? NULL : users[user_of[fd]];
            idle[fd] = VF_RANGE("idle", 0, 2000); c->fcl_idle_since = now - idle[fd]; watched[fd] = 1; auth0[fd] = user_of[fd] >= 0;
            ready[fd] = VF_BOOL("ready"); if (ready[fd]) FD_SET(4 + i, &si.readfds);
        }
        fcrondyn_cl_num = n; user_of[8] = peer_fails || peer_uid > 2 ? -1 : peer_uid;
        ready[3] = VF_BOOL("ready"); if (ready[3]) FD_SET(3, &si.readfds);
        fcrondyn_socket_check(&si);
        newc = ret > 0 && ready[3] && newfd >= 0;
        if (newc && fcntlfails) { VF_ASSERT(closed[8] && !watched[8], "a connection which cannot be handled is closed"); newc = 0; }
        else VF_ASSERT(newc == watched[8] && !closed[8], "a new connection is watched");
        if (newc) VF_ASSERT(nonblock[8] && cloexec[8], "a client cannot block the daemon");
        for (i = 0; i < NCONN; i++) if (i < n) {
            int fd = 4 + i, gone = ret > 0 && (ready[fd] ? gotlen[fd] == 0 : idle[fd] > (auth0[fd] ? MAX_IDLE_TIME : MAX_AUTH_TIME) || idle[fd] > MAX_IDLE_TIME);
            VF_ASSERT(got[fd] == (ret > 0 && ready[fd]), "each client which sent something is listened to once");
            VF_ASSERT(cmds[fd] == (got[fd] && gotlen[fd] > 0 && auth0[fd]), "each command of an authenticated client is executed once");
            VF_ASSERT(pwds[fd] == (got[fd] && gotlen[fd] > 0 && !auth0[fd]), "each password is checked once");
            VF_ASSERT(closed[fd] == gone && freed[i] == gone && watched[fd] == !gone && shut[fd] == gone, "a connection is closed exactly when its client has left or was idle for too long");
            if (!gone) VF_ASSERT(CN[i]->fcl_idle_since == (cmds[fd] ? now : now - idle[fd]), "the time a client is idle is known");
            if (gone && !ready[fd] && !auth0[fd] && i == 0) VF_COVER("not authenticated for too long");
            if (gone && i == 0 && n == NCONN) VF_COVER("closed");
            want += !gone;
        }
        for (i = 0, c = fcrondyn_cl_base; i < NCONN + 1 && c; i++, c = c->fcl_next) {
            int fd = c->fcl_sock_fd;
            VF_ASSERT(fd >= 4 && fd < 9 && watched[fd] && !closed[fd], "open connections are known");
            watched[fd] = 0; pos++;
            if (fd == 8) VF_ASSERT((c->fcl_user != NULL) == (user_of[8] >= 0) && (!c->fcl_user || c->fcl_user[0] == users[user_of[8]][0]) && c->fcl_idle_since == now, "a new connection belongs to its peer");
        }
        VF_ASSERT(c == NULL && pos == want + newc && fcrondyn_cl_num == pos, "all open connections are known, and counted");
        if (newc && want) VF_COVER("new connection");
    }
#endif
}

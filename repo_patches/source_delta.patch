From fda88e3b571b2c8c7ad66f091e8641ffd310a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 01/69] fix: u_list_next() compared an entry with a null
 pointer once the list was emptied

---
 u_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/u_list.c b/u_list.c
index 4f991ea..0d7f704 100644
--- a/u_list.c
+++ b/u_list.c
@@ -209,7 +209,7 @@ u_list_next(u_list_t *l)
          * we can return the same pointer again.
          * However if the removed entry was the last one then we reached the end
          * of the list */
-        if (l->cur_entry > u_list_last(l))
+        if (l->num_entries <= 0 || l->cur_entry > u_list_last(l))
             l->cur_entry = NULL;
     }
     else {
-- 
2.43.0


From d16255556f812a01dd95407ba997009b1ee5465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 02/69] fix: u_list_add() ignored a maximum smaller than the
 initial array size

---
 u_list.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/u_list.c b/u_list.c
index 0d7f704..88d8490 100644
--- a/u_list.c
+++ b/u_list.c
@@ -151,6 +151,12 @@ u_list_add(u_list_t *l, u_list_entry_t *e)
     if (l == NULL || e == NULL)
         die("Invalid arguments for u_list_add(): list=%d, entry=%d", l, e);
 
+    /* the initial size of the array may be greater than the max list size */
+    if (l->max_entries > 0 && l->num_entries >= l->max_entries) {
+        debug("u_list_t is already at max size (size: %d)", l->max_entries);
+        return NULL;
+    }
+
     /* Check there is some space left, or resize the array */
     if (l->num_entries >= l->array_size) {
         /* no more space: attempt to grow (the following function dies on error: */
-- 
2.43.0


From 7e7c3e778db645853013789fa831d4aaf9f8e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 03/69] fix: the serial queue lost its order and jobs when it
 grew, and ignored a small -q

---
 database.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index 1762e61..bc96a13 100644
--- a/database.c
+++ b/database.c
@@ -396,7 +396,7 @@ add_serial_job(cl_t *line, int info_fd)
     send_msg_fd_debug(info_fd, "inserting in serial queue '%s'",
                       line->cl_shell);
 
-    if (serial_num >= serial_array_size) {
+    if (serial_num >= serial_array_size || serial_num >= serial_queue_max) {
         if (serial_num >= serial_queue_max) {
             error_fd(info_fd, "Could not add job : serial queue is full "
                      "(%d jobs). Consider using option serialonce, fcron's "
@@ -417,9 +417,9 @@ add_serial_job(cl_t *line, int info_fd)
                 alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
 
             /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr + serial_array_index, serial_array,
+            memcpy(ptr, serial_array + serial_array_index,
                    (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr, serial_array + (old_size - serial_array_index),
+            memcpy(ptr + (old_size - serial_array_index), serial_array,
                    (sizeof(cl_t *) * serial_array_index));
             serial_array_index = 0;
             Free_safe(serial_array);
-- 
2.43.0


From d4c5585478467283afe90ee23da6915303939d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 04/69] fix: a job which could not be forked stayed counted as
 running for ever

---
 database.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/database.c b/database.c
index bc96a13..7374b9e 100644
--- a/database.c
+++ b/database.c
@@ -38,7 +38,7 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-void run_queue_job(cl_t * line);
+int run_queue_job(cl_t * line);
 int is_loop_in_queue(void);
 
 
@@ -181,8 +181,11 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        run_queue_job(line);
-        send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        if (run_queue_job(line) == OK)
+            send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        else
+            /* the job could not be started: nobody will wait for its end */
+            line->cl_numexe -= 1;
     }
     else {
         warn_fd(info_fd,
@@ -196,9 +199,10 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    run_queue_job(l->l_line);
-
-    if (is_serial(l->l_line->cl_option))
+    if (run_queue_job(l->l_line) != OK)
+        /* the job could not be started: nobody will wait for its end */
+        l->l_line->cl_numexe -= 1;
+    else if (is_serial(l->l_line->cl_option))
         lavg_serial_running++;
 
 }
@@ -215,10 +219,17 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        run_queue_job(serial_array[serial_array_index]);
+        cl_t *line = serial_array[serial_array_index];
+
         serial_array[serial_array_index] = NULL;
 
-        serial_running++;
+        if (run_queue_job(line) == OK)
+            serial_running++;
+        else {
+            /* the job could not be started: nobody will wait for its end */
+            line->cl_numexe -= 1;
+            clear_serial_once(line->cl_option);
+        }
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
         serial_num--;
@@ -227,9 +238,10 @@ run_serial_job(void)
 }
 
 
-void
+int
 run_queue_job(cl_t *line)
-    /* run a job */
+    /* run a job
+     * return OK if it has been started, ERR otherwise */
 {
 
     exe_t e = { NULL, 0, 0 };
@@ -245,8 +257,11 @@ run_queue_job(cl_t *line)
         /* append job to the list of executed job */
         exe_list_add(exe_list, &e);
         line->cl_file->cf_running += 1;
+        return OK;
     }
 
+    return ERR;
+
 }
 
 int
-- 
2.43.0


From 916914c9aa2a7f20b113a9001278977b8b7acbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 05/69] fix: read_pipe()/write_pipe() transferred too many
 bytes after a partial transfer

---
 job.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index ef8b653..27d2f2e 100644
--- a/job.c
+++ b/job.c
@@ -417,10 +417,10 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
     while (size_processed < size) {
         errno = 0;
         if (action == PIPE_READ) {
-            ret = read(fd, (char *)buf + size_processed, size);
+            ret = read(fd, (char *)buf + size_processed, size - size_processed);
         }
         else if (action == PIPE_WRITE) {
-            ret = write(fd, (char *)buf + size_processed, size);
+            ret = write(fd, (char *)buf + size_processed, size - size_processed);
         }
         else {
             error("Invalid action parameter for function read_write_pipe():"
-- 
2.43.0


From 6144eecbaa86aeb6600227b482d82fbedf06768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 06/69] fix: run_job() leaked a pipe each time it could not
 fork

---
 job.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/job.c b/job.c
index 27d2f2e..f516c14 100644
--- a/job.c
+++ b/job.c
@@ -556,6 +556,8 @@ run_job(struct exe_t *exeent)
     switch (pid = fork()) {
     case -1:
         error_e("Fork error : could not exec '%s'", line->cl_shell);
+        xclose_check(&(pipe_pid_fd[0]), "pipe_pid_fd[0]");
+        xclose_check(&(pipe_pid_fd[1]), "pipe_pid_fd[1]");
         return ERR;
         break;
 
-- 
2.43.0


From af793eda89ee4342d0e81da5a9e3e95996c81e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 07/69] fix: serial jobs were still counted as running once
 reload_all() had waited for them

---
 database.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 7374b9e..f22402a 100644
--- a/database.c
+++ b/database.c
@@ -639,8 +639,18 @@ wait_all(int *counter)
                     e->e_line->cl_numexe -= 1;
                     e->e_line->cl_file->cf_running -= 1;
 
-                    if (is_serial_once(e->e_line->cl_option))
+                    /* the job no longer takes a place among the serial jobs
+                     * (main_loop() will run the next ones) */
+                    if (is_serial_once(e->e_line->cl_option)) {
                         clear_serial_once(e->e_line->cl_option);
+                        serial_running--;
+                    }
+                    else if (is_serial(e->e_line->cl_option)) {
+                        if (is_lavg(e->e_line->cl_option))
+                            lavg_serial_running--;
+                        else
+                            serial_running--;
+                    }
 
                 }
 
-- 
2.43.0


From f1816a5297d8c5e3417d38e87ec3f280231566d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 08/69] fix: a signal received while the previous one was being
 handled was lost

---
 fcron.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fcron.c b/fcron.c
index 0be2604..98358db 100644
--- a/fcron.c
+++ b/fcron.c
@@ -779,8 +779,8 @@ check_signal()
     /* Action any received signals. */
 {
     if (sig_chld == true) {
-        wait_chld();
         sig_chld = false;
+        wait_chld();
         reinstall_signal_handler(SIGCHLD, sigchld_handler);
     }
 
@@ -793,22 +793,22 @@ check_signal()
 
     if (sig_hup == true) {
         /* update configuration */
-        synchronize_dir(".", 0);
         sig_hup = false;
+        synchronize_dir(".", 0);
         reinstall_signal_handler(SIGHUP, sighup_handler);
     }
     if (sig_usr1 == true) {
         /* reload all configuration */
-        reload_all(".");
         sig_usr1 = false;
+        reload_all(".");
         reinstall_signal_handler(SIGUSR1, sigusr1_handler);
     }
 
     if (sig_usr2 == true) {
+        sig_usr2 = false;
         print_schedule();
         debug_opt = (debug_opt > 0) ? 0 : 1;
         explain("debug_opt = %d", debug_opt);
-        sig_usr2 = false;
         reinstall_signal_handler(SIGUSR2, sigusr2_handler);
     }
 
-- 
2.43.0


From 9d2bd7aa0cd1f3d68dd4a88f3adf185d4c2db455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 09/69] fix: select_rm_read() stopped watching all but one of
 the remaining descriptors

---
 select.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/select.c b/select.c
index e62fef0..7ab1765 100644
--- a/select.c
+++ b/select.c
@@ -59,9 +59,12 @@ select_rm_read(select_instance *si, int fd)
         /* fds in the fd_set may not be continuous, so we need
          * to check them all to find the new max */
         int i;
+        si->__fd_max = -1;
         for (i = fd; i >= 0; i--) {
-            if (FD_ISSET(i, &si->__readfds_master))
+            if (FD_ISSET(i, &si->__readfds_master)) {
                 si->__fd_max = i;
+                break;
+            }
         }
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
-- 
2.43.0


From eb1844539d8a45c9177fba0026fe39569ce90cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 10/69] fix: open_as_user() read an uninitialized struct stat
 when fstat() failed

---
 subs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/subs.c b/subs.c
index 9a0a00b..2e562e3 100644
--- a/subs.c
+++ b/subs.c
@@ -135,8 +135,7 @@ open_as_user(const char *pathname, uid_t openuid, gid_t opengid, int flags, ...)
                 error_e("open_as_user: could not xclose() %s", pathname);
             fd = -1;
         }
-
-        if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
+        else if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
             error_e("open_as_user(): file %s is not a regular file", pathname);
             if (xclose(&fd) < 0)
                 error_e("open_as_user: could not xclose() %s", pathname);
-- 
2.43.0


From 200143005e9a86ad035d406e5f49d9b8ce138183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 11/69] fix: remove_blanks() accessed the byte before a string
 containing only blanks

---
 subs.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/subs.c b/subs.c
index 2e562e3..539ce2f 100644
--- a/subs.c
+++ b/subs.c
@@ -322,19 +322,13 @@ remove_blanks(char *str)
     while (*c)
         c++;
 
-    /* scan backward to the first character that is not a space */
-    do {
+    /* scan backward to just after the last character that is not a space
+     * (or to the beginning of the string if there are only blanks in it) */
+    while (c > str && isspace((int)*(c - 1)))
         c--;
-    }
-    while (c >= str && isspace((int)*c));
 
-    /* if last char is a '\n', we remove it */
-    if (*c == '\n')
-        *c = '\0';
-    else
-        /* one character beyond where we stopped above is where the null
-         * goes. */
-        *++c = '\0';
+    /* the null goes where we stopped above */
+    *c = '\0';
 
     /* return the new length */
     return (c - str);
-- 
2.43.0


From f5235c39b7d436bad1cfabe57072b0f24dae0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 12/69] fix: format_maildisplayname() wrote after its buffer,
 and returned an unterminated string

---
 mail.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mail.c b/mail.c
index 1d4e423..15624cb 100644
--- a/mail.c
+++ b/mail.c
@@ -45,7 +45,9 @@ format_maildisplayname(char *displayname_conf)
         return strdup2("");
     }
 
-    output = (char *)alloc_safe(buf_len * sizeof(char), "output buffer");
+    /* one more char for the terminating null, or for an escape
+     * inserted at the very end of the buffer */
+    output = (char *)alloc_safe((buf_len + 1) * sizeof(char), "output buffer");
 
     /* walk the conf_value and rebuild it in buf1 */
     for (ipos = displayname_conf; *ipos; ipos++) {
-- 
2.43.0


From 17fd7f71cd820ed927c8e161ff9ac0657c443204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 13/69] fix: make_msg() wrote up to two bytes after its buffer
 when appending the error text

---
 log.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/log.c b/log.c
index f8ab322..e919722 100644
--- a/log.c
+++ b/log.c
@@ -146,9 +146,9 @@ make_msg(const char *append, char *fmt, va_list args)
      * returns when the buffer overflows.  Hmmm... */
     len = vsnprintf(msg, MAX_MSG + 1, fmt, args);
     if (append != NULL) {
-        size_t size_to_cat = ((MAX_MSG - len) > 0) ? (MAX_MSG - len) : 0;
-        strncat(msg, ": ", size_to_cat);
-        strncat(msg, append, size_to_cat);
+        /* msg is MAX_MSG chars long at most, plus the null */
+        strncat(msg, ": ", MAX_MSG - strlen(msg));
+        strncat(msg, append, MAX_MSG - strlen(msg));
         len += 2 + strlen(append);
     }
     if (len >= MAX_MSG)
-- 
2.43.0


From b46c5d1ca8ace245d2871e370fafacfe88e272a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 14/69] fix: names of months selected the month before, and
 "jan" wrote outside the set

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index f6855a3..4f6db0a 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1833,7 +1833,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         for (i = 0; names[i]; ++i)
             if (strncmp(ptr, names[i], strlen(names[i])) == 0) {
-                *num = i;
+                /* months are numbered from 1 in a fcrontab */
+                *num = (names == mons_ary) ? i + 1 : i;
                 ptr += strlen(names[i]);
                 return ptr;
                 break;
-- 
2.43.0


From c5f1f06c2b0d406ae2c5bf914cfa033da34c57b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 15/69] fix: month 0 was accepted, and made read_field() write
 outside the set

---
 fileconf.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 4f6db0a..337d6c3 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1918,6 +1918,11 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to start */
                 start -= 1;
+            if (start < 0) {
+                /* there is no month 0 */
+                need_correction = 1;
+                return NULL;
+            }
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1939,6 +1944,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                      * user set it from 1 to 12, but we manage it internally
                      * as a number from 0 to 11 : we remove 1 to stop */
                     stop -= 1;
+                if (stop < 0) {
+                    need_correction = 1;
+                    return NULL;
+                }
             }
             else {
                 /* syntax error */
@@ -1985,6 +1994,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to rm */
                 rm -= 1;
+            if (rm < 0) {
+                need_correction = 1;
+                return NULL;
+            }
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
-- 
2.43.0


From 640bb1e9a079220a67df595028b88c1b4f712eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 16/69] fix: a range of a single value such as 5-5 selected
 everything

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 337d6c3..3badeb9 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1970,7 +1970,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         if (debug_opt)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
-        if (start < stop)
+        if (start <= stop)
             for (i = start; i <= stop; i += step)
                 bit_set(ary, i);
         else {
-- 
2.43.0


From 9e6e57577c25c92ff5da9fb30854779e9332660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 17/69] fix: get_num() changed bytes after the end of the
 string

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 3badeb9..04c05e0 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1828,7 +1828,7 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
         }
 
         /* set string to lower case */
-        for (i = 0; i < strlen(names[0]); i++)
+        for (i = 0; i < strlen(names[0]) && *(ptr + i) != '\0'; i++)
             *(ptr + i) = tolower(*(ptr + i));
 
         for (i = 0; names[i]; ++i)
-- 
2.43.0


From 9907361cd0b64d2b02f8f55657c18d37a6043cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 18/69] fix: get_num() read after the end of a string such as
 "1."

---
 fileconf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 04c05e0..3e3fa1c 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1851,6 +1851,9 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
             if (*ptr == '.' && ptr++ && i++ > 0)
                 return NULL;
+            if (i > 0 && !isdigit((int)*ptr))
+                /* no decimal after the dot */
+                break;
             if (i > 0 && --decimal < 0) {
                 /* the decimal number is exceeded : we round off,
                  * skip the other decimals and return */
-- 
2.43.0


From 23ea9f71a1238dded3c5bb7362bbf0c6885ee212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 19/69] fix: lines with a step of 0 were dropped without asking
 for a correction, and skipped lines leaked memory

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 3e3fa1c..37b7d28 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1570,7 +1570,8 @@ read_freq(char *ptr, cf_t *cf)
           fprintf(stderr, "\n"); \
       fprintf(stderr, "%s:%d: Error while reading " DESCRP " field: " \
              "skipping line.\n", file_name, line); \
-      Free_safe(cl); \
+      need_correction = 1; \
+      free_line(cl); \
       return; \
   }
 
-- 
2.43.0


From a004a56c9ae3d6acbfdf31012cd37850a1b533ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 20/69] fix: the end of the first of several serialonce
 executions of a line made the next ones leak a serial slot

---
 database.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index f22402a..a634869 100644
--- a/database.c
+++ b/database.c
@@ -228,7 +228,8 @@ run_serial_job(void)
         else {
             /* the job could not be started: nobody will wait for its end */
             line->cl_numexe -= 1;
-            clear_serial_once(line->cl_option);
+            if (line->cl_numexe <= 0)
+                clear_serial_once(line->cl_option);
         }
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
@@ -591,7 +592,9 @@ wait_chld(void)
                     line->cl_file->cf_running -= 1;
 
                     if (is_serial_once(line->cl_option)) {
-                        clear_serial_once(line->cl_option);
+                        /* the line may be queued several times */
+                        if (line->cl_numexe <= 0)
+                            clear_serial_once(line->cl_option);
                         if (--serial_running < serial_max_running)
                             run_serial_job();
                     }
@@ -642,7 +645,8 @@ wait_all(int *counter)
                     /* the job no longer takes a place among the serial jobs
                      * (main_loop() will run the next ones) */
                     if (is_serial_once(e->e_line->cl_option)) {
-                        clear_serial_once(e->e_line->cl_option);
+                        if (e->e_line->cl_numexe <= 0)
+                            clear_serial_once(e->e_line->cl_option);
                         serial_running--;
                     }
                     else if (is_serial(e->e_line->cl_option)) {
-- 
2.43.0


From eee7d7cd70d85324e16e1fb5534410b5e0056066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 21/69] fix: too big time values silently overflowed

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 37b7d28..32353ae 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1233,6 +1233,11 @@ get_time(char *ptr, time_t *time, int zero_allowed)
             sum *= 10;
             sum += *ptr - 48;
             ptr++;
+            if (sum > INT_MAX) {
+                /* far too big, and may overflow */
+                need_correction = 1;
+                return NULL;
+            }
         }
 
         /* interpret multipliers */
-- 
2.43.0


From e52e51c59968dc42d1c38c262afabce69d43bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 22/69] fix: a long option name or shortcut was not
 null-terminated

---
 fileconf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 32353ae..06463b6 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -533,7 +533,7 @@ read_opt(char *ptr, cl_t *cl)
         i = 0;
         bzero(opt_name, sizeof(opt_name));
 
-        while (isalnum((int)*ptr) && i < sizeof(opt_name))
+        while (isalnum((int)*ptr) && i < sizeof(opt_name) - 1)
             opt_name[i++] = *ptr++;
 
         i = 1;
@@ -1324,7 +1324,8 @@ read_word(char *ptr, char *buf, size_t buf_size)
 
     bzero(buf, buf_size);
 
-    while (isalnum((int)*ptr) && i < buf_size)
+    /* keep the terminating null */
+    while (isalnum((int)*ptr) && i < buf_size - 1)
         buf[i++] = *ptr++;
 
     return ptr;
-- 
2.43.0


From 1eda030dd64d0994ece5fdade7206a1bb6620132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 23/69] fix: unknown options of %-lines were silently ignored

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 06463b6..268d5e4 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1195,6 +1195,11 @@ read_opt(char *ptr, cl_t *cl)
                 if (debug_opt)
                     fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
             }
+            else {
+                fprintf(stderr, "%s:%d: Option \"%s\" unknown: "
+                        "skipping option.\n", file_name, line, opt_name);
+                need_correction = 1;
+            }
         }
 
         else {
-- 
2.43.0


From 42bf56dbc9ea9cb9efa4fe4f026814b87599ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 24/69] fix: too big load averages were truncated to another
 value

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 268d5e4..4db0493 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1891,6 +1891,11 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
         if (decimal > 0)
             *num *= 10 * decimal;
 
+        if (*num > max) {
+            need_correction = 1;
+            return NULL;
+        }
+
     }
 
     return ptr;
-- 
2.43.0


From bdc1956731180dba5cd117f65817ad0f54179c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 25/69] fix: option runas was ignored after an error on any
 earlier line

---
 fileconf.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 4db0493..24ee159 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1033,6 +1033,7 @@ read_opt(char *ptr, cl_t *cl)
             int len = -1;
             char *runas = NULL;
             struct passwd *pas;
+            char runas_ok = 0;
 
             if (!in_brackets) {
                 Handle_err;
@@ -1061,15 +1062,14 @@ read_opt(char *ptr, cl_t *cl)
                         "ignored", runas);
                 need_correction = 1;
             }
+            else
+                runas_ok = 1;
 
-            if (need_correction) {
-                Free_safe(runas);
-            }
-            else {
-                /* only set cl_runas if all is well, as cl_runas MUST always
-                 * be set to a valid value */
+            /* only set cl_runas if all is well, as cl_runas MUST always
+             * be set to a valid value */
+            if (runas_ok)
                 Set(cl->cl_runas, runas);
-            }
+            Free_safe(runas);
 
             /* all good */
             if (debug_opt)
-- 
2.43.0


From db106694b86ee76201e9b69d1ee97cdbe9472e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 26/69] fix: option reset turned a %-line into another kind of
 line

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 24ee159..de05aa3 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -702,7 +702,12 @@ read_opt(char *ptr, cl_t *cl)
             if (in_brackets && (ptr = get_bool(ptr, &i)) == NULL)
                 Handle_err;
             if (i == 1) {
+                char is_period = (cl->cl_runfreq == 1);
+
                 init_default_line(cl, cl->cl_file);
+                if (is_period)
+                    /* a %-line stays a %-line */
+                    cl->cl_remain = cl->cl_runfreq = 1;
             }
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
-- 
2.43.0


From b6edfc228305f9bc72f6ec0f07df873296bfe19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 27/69] fix: an invalid mailto left the next lines without any
 mailto, and they were dropped by fcron

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index de05aa3..5573f93 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -447,11 +447,10 @@ assign_option_string(char **var, char *value)
     char end = '\0';
     size_t len = 0;
 
-    Free_safe(*var);
-
     len = option_strlen(value);
 
     if (len <= 0) {
+        Free_safe(*var);
         return len;
     }
 
@@ -463,6 +462,7 @@ assign_option_string(char **var, char *value)
         return -1;
     }
 
+    Free_safe(*var);
     *var = strndup2(value, len);
 
     return len;
-- 
2.43.0


From 4fd99eea209d25323ce6cbb3bd428aec97274d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 28/69] fix: option tzdiff on a single line crashed fcrontab

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 5573f93..fea2927 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -554,7 +554,8 @@ read_opt(char *ptr, cl_t *cl)
         if (strcmp(opt_name, "tzdiff") == 0) {
             char negative = 0;
 
-            if (!in_brackets)
+            if (!in_brackets || cl->cl_file == NULL)
+                /* this option is about the whole file: not allowed on a line */
                 Handle_err;
             if (*ptr == '-') {
                 negative = 1;
-- 
2.43.0


From cb8789d4b34b7a0ee96a5b960a58f322d3d95c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 29/69] fix: read_period() set a bit after the end of cl_days

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index fea2927..9bdd623 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1732,7 +1732,7 @@ read_period(char *ptr, cf_t *cf)
     if (remain-- > 0) {
     R_field(ptr, cl->cl_days, 31, NULL, "days")}
     else
-        bit_nset(cl->cl_days, 1, 32);
+        bit_nset(cl->cl_days, 1, 31);
     /* month are defined by user from 1 to 12 : max is 12 */
     if (remain-- > 0) {
     R_field(ptr, cl->cl_mons, 12, mons_ary, "months")}
-- 
2.43.0


From a63f2f04b1d5d0029bf3ca3769cd458b3b96a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 30/69] fix: read_shortcut() leaked a line for each line it did
 not use

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 9bdd623..567d3ab 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1447,6 +1447,7 @@ read_shortcut(char *ptr, cf_t *cf)
     else {
         /* this is not a shortcut line but a normal @-line:  */
         ptr = ptr_orig;
+        free_line(cl);
         return 0;
     }
 
@@ -1488,7 +1489,7 @@ read_shortcut(char *ptr, cf_t *cf)
     return 1;
 
  exiterr:
-    Free_safe(cl);
+    free_line(cl);
     need_correction = 1;
     return 1;
 }
-- 
2.43.0


From bc6033e508f0468dffa4e4b86a695761896452e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 31/69] fix: option until(0), documented to remove the timeout,
 was refused

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 567d3ab..d3cef0c 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -870,7 +870,7 @@ read_opt(char *ptr, cl_t *cl)
 
         else if (strcmp(opt_name, "u") == 0 || strcmp(opt_name, "until") == 0) {
             if (!in_brackets
-                || (ptr = get_time(ptr, &(cl->cl_until), 0)) == NULL)
+                || (ptr = get_time(ptr, &(cl->cl_until), 1)) == NULL)
                 Handle_err;
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\" %ld\n", opt_name,
-- 
2.43.0


From 2e7429f3568c32063b60a9dc390701fa5a65bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 32/69] fix: a value made of a single quote was accepted as an
 empty string

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index d3cef0c..7237e18 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -84,7 +84,7 @@ get_string(char *ptr)
     length = remove_blanks(ptr);
 
     if (quote != 0) {
-        if (*(ptr + length - 1) == quote)
+        if (length > 0 && *(ptr + length - 1) == quote)
             *(ptr + length - 1) = '\0';
         else {
             /* mismatched quotes */
-- 
2.43.0


From 2d4e91b45dc10485075737aa41ca73d45cfc2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 33/69] fix: a command beginning by a user name, as mail.sh,
 was cut and run as that user

---
 fileconf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 7237e18..d7e59af 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1299,10 +1299,13 @@ check_username(char *ptr, cf_t *cf, cl_t *cl)
     /* check to see if next word is a username */
     /* we don't allow quotes, to be able to distinguish a user name from
      * a command line (where quotes are allowed) */
-    while (isalnum((int)ptr[indx]) || ptr[indx] == '-' || ptr[indx] == '_')
+    while (indx < USER_NAME_LEN
+           && (isalnum((int)ptr[indx]) || ptr[indx] == '-'
+               || ptr[indx] == '_'))
         indx++;
-    if (indx >= USER_NAME_LEN)
-        indx = USER_NAME_LEN - 1;
+    /* the whole word must be the user name: "mail.sh" is a command */
+    if (indx >= USER_NAME_LEN || (ptr[indx] != ' ' && ptr[indx] != '\t'))
+        return ptr;
     strncpy(username, ptr, indx);
     username[indx] = '\0';
 
-- 
2.43.0


From 9d83429310116ac4ec0c23ca2bb69aba05087364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 34/69] fix: bit_ffc() and bit_ffs() read a byte after full
 sets

---
 bitstring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitstring.h b/bitstring.h
index 24007bc..8f374f4 100644
--- a/bitstring.h
+++ b/bitstring.h
@@ -97,7 +97,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffc(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte] != 0xff) { \
 			_value = _byte << 3; \
@@ -112,7 +112,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffs(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte]) { \
 			_value = _byte << 3; \
-- 
2.43.0


From 29121913c027ed961a338020c4dbbb6c8f4adfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 35/69] fix: a %-line with days 1-31 but without intervals was
 accepted

---
 fileconf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index d7e59af..e3d6748 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1774,6 +1774,9 @@ read_period(char *ptr, cf_t *cf)
         const size_t s_dow = 8;
         int j = 0;
 
+        /* there is no day 0: it is not an interval between two days */
+        bit_set(cl->cl_days, 0);
+
         if (!is_freq_mins(cl->cl_option)) {
             bit_ffc(cl->cl_mins, s_mins, &j);
             if (j != -1 && j < s_mins)
-- 
2.43.0


From 9815183ea82cdf3fb6e8eae7c07ac50d614ab44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 36/69] fix: fcrontab crashed on tables with too many entries,
 and ignored the end of those with too many lines

---
 fileconf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index e3d6748..b216ddd 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -279,12 +279,12 @@ read_file(char *filename, int fd)
 
     if (entries == max_entries) {
         error("%s:%d: maximum number of entries (%d) has been reached by %s",
-              file_name, line, user);
+              file_name, line, max_entries, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
     }
-    else if (line == max_lines)
+    else if (line > max_lines)
         error("%s:%d: maximum number of lines (%d) has been reached by %s",
-              file_name, line, user);
+              file_name, line, max_lines, user);
 
     cf->cf_next = file_base;
     file_base = cf;
-- 
2.43.0


From 413fb0a19816edfb5d3ca7ed1475638a34ea7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 37/69] fix: env_list_free_envp() freed pointers inside the
 first variable

---
 env_list.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/env_list.c b/env_list.c
index cc56a99..6938eff 100644
--- a/env_list.c
+++ b/env_list.c
@@ -200,10 +200,10 @@ env_list_export_envp(env_list_t *list)
 void
 env_list_free_envp(char **envp)
 {
-    char *p = NULL;
+    char **p = NULL;
 
-    for (p = envp[0]; p != NULL; p++) {
-        Free_safe(p);
+    for (p = envp; *p != NULL; p++) {
+        Free_safe(*p);
     }
     Free_safe(envp);
 
-- 
2.43.0


From 5282959a093558f517436fac2fe66bf7f9094502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 38/69] fix: the continuation of a too long line was read as
 another line

---
 fileconf.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index b216ddd..c47ba7f 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -151,8 +151,17 @@ get_line(char *str, size_t size, FILE *file)
 
     }
 
-    /* line is too long : goto next line and return ERR */
-    while (((c = getc(file)) != EOF) && (c != '\n')) ;
+    /* line is too long : goto next line (the end of this one, if it is continued
+     * with "\", must not be read as another line) and return ERR */
+    {
+        int prev = *(str + i - 1);
+
+        while (((c = getc(file)) != EOF) && (c != '\n' || prev == '\\')) {
+            if (c == '\n')
+                line++;
+            prev = c;
+        }
+    }
     line++;
     need_correction = 1;
     return ERR;
-- 
2.43.0


From c7ad41674b5db7883997929e913a9dd1aca4ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 39/69] fix: do not schedule a dayor line on a day which does
 not exist in the month

---
 database.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/database.c b/database.c
index a634869..5c4d401 100644
--- a/database.c
+++ b/database.c
@@ -1198,24 +1198,24 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
             j = ftime.tm_wday;
             i = ftime.tm_mday;
-            while ((bit_test(line->cl_days, i) == 0) &&
+            while ((i <= max) && (bit_test(line->cl_days, i) == 0) &&
                    (bit_test(line->cl_dow, j) == 0)) {
-                if (i > max) {
-                    ftime.tm_mon++;
-                    if (has_changed < 2) {
-                        has_changed = 2;
-                        ftime.tm_mday = 1;
-                        ftime.tm_hour = 0;
-                        ftime.tm_min = 0;
-                    }
-                    else
-                        ftime.tm_mday = 1;
-                    goto setMonth;
-                }
-                if (j >= 7)
-                    j -= 7;
                 i++;
                 j++;
+                if (j >= 7)
+                    j -= 7;
+            }
+            if (i > max) {
+                ftime.tm_mon++;
+                if (has_changed < 2) {
+                    has_changed = 2;
+                    ftime.tm_mday = 1;
+                    ftime.tm_hour = 0;
+                    ftime.tm_min = 0;
+                }
+                else
+                    ftime.tm_mday = 1;
+                goto setMonth;
             }
             if (ftime.tm_mday != i) {
                 ftime.tm_mday = i;
-- 
2.43.0


From bd23c794af56f0150cd668456c55b201618d05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 40/69] fix: a %-line skipped the period or interval starting
 in the next minute

---
 database.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database.c b/database.c
index 5c4d401..2b365c9 100644
--- a/database.c
+++ b/database.c
@@ -1111,15 +1111,17 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
         /* to prevent multiple execution of &-jobs in the same minute
          * (but not if the user has explicitely asked to run jobs immediately) */
-        if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
+        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG) {
+            /* %-line: go to next period. Start from the current minute, not
+             * from the next one which may already be in the next period */
+            ftime.tm_sec = 0;
+            move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
+        }
+        else if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
             ftime.tm_min += 1;
             ftime.tm_sec = 0;
         }
 
-        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG)
-            /* %-line: go to next period */
-            move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
-
  setMonth:
         for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
              i++) ;
-- 
2.43.0


From 3e75f393537e6f435f303453b770b26adeb2af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 41/69] fix: a change of the time difference of a table is in
 hours, not seconds

---
 conf.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conf.c b/conf.c
index 4b09624..0ce4c92 100644
--- a/conf.c
+++ b/conf.c
@@ -282,11 +282,12 @@ synchronize_file(char *file_name, int is_system_startup)
                         /* check if there is a change about the tz diff */
                         if ((new_l->cl_file->cf_tzdiff !=
                              old_l->cl_file->cf_tzdiff) &&
-                            (old_l->cl_nextexe - old_l->cl_file->cf_tzdiff
-                             + new_l->cl_file->cf_tzdiff > now))
+                            (old_l->cl_nextexe -
+                             old_l->cl_file->cf_tzdiff * 3600
+                             + new_l->cl_file->cf_tzdiff * 3600 > now))
                             new_l->cl_nextexe = old_l->cl_nextexe
-                                - old_l->cl_file->cf_tzdiff +
-                                new_l->cl_file->cf_tzdiff;
+                                - old_l->cl_file->cf_tzdiff * 3600 +
+                                new_l->cl_file->cf_tzdiff * 3600;
                         else
                             new_l->cl_nextexe = old_l->cl_nextexe;
 
-- 
2.43.0


From 48015905f681936f9276fc2ac3b8def7e54b86f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 42/69] fix: a line kept the execution time of its previous
 time zone on reload

---
 conf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index 0ce4c92..2d53ff5 100644
--- a/conf.c
+++ b/conf.c
@@ -274,7 +274,10 @@ synchronize_file(char *file_name, int is_system_startup)
                                 && memcmp(&(new_l->cl_mins), &(old_l->cl_mins),
                                           size) == 0
                                 && is_dayor(new_l->cl_option) ==
-                                is_dayor(old_l->cl_option))
+                                is_dayor(old_l->cl_option)
+                                && strcmp(new_l->cl_tz ? new_l->cl_tz : "",
+                                          old_l->cl_tz ? old_l->cl_tz : "")
+                                == 0)
                         )) {
 
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
-- 
2.43.0


From d26ce0a58dba0533d64be17e6239872ad8f6afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 43/69] fix: a line which was run once, and is not limited to
 it any more, was run at reload

---
 conf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conf.c b/conf.c
index 2d53ff5..460d603 100644
--- a/conf.c
+++ b/conf.c
@@ -280,6 +280,12 @@ synchronize_file(char *file_name, int is_system_startup)
                                 == 0)
                         )) {
 
+                        if (is_runonce(old_l->cl_option)
+                            && is_hasrun(old_l->cl_option)
+                            && !is_runonce(new_l->cl_option))
+                            /* the old line was no longer scheduled */
+                            break;
+
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
                             new_l->cl_remain = old_l->cl_remain;
                         /* check if there is a change about the tz diff */
-- 
2.43.0


From befa323044f9e24e8736a961a9633525a7a83aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 44/69] fix: saving a string longer than the buffer overflowed
 it

---
 save.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/save.c b/save.c
index 36a082e..97f3fe2 100644
--- a/save.c
+++ b/save.c
@@ -73,6 +73,16 @@ save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
+
+    if (write_len > WRITE_BUF_LEN) {
+        /* the string does not fit in the buffer: write it directly */
+        int str_len = size;
+
+        if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
+            return ERR;
+        return write_buf_to_disk(fd, str, &str_len);
+    }
+
     memcpy((write_buf + *buf_used), str, size);
     *buf_used += size;
 
-- 
2.43.0


From 60d45a2493e85326ac1585cef5b1d8b1476fa6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 45/69] fix: the sizes of the fields of a saved table were not
 checked

---
 conf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 460d603..21ed191 100644
--- a/conf.c
+++ b/conf.c
@@ -396,7 +396,8 @@ int
 read_strn(int fd, char **str, short int size)
 /* read a "size"-length string in a binary fcrontab file */
 {
-    if ((*str = calloc(size + 1, sizeof(char))) == NULL)
+    *str = NULL;
+    if (size < 0 || (*str = calloc(size + 1, sizeof(char))) == NULL)
         goto err;
 
     if (read(fd, *str, size) < size)
@@ -431,7 +432,8 @@ read_type(int fd, short int *type, short int *size)
 /* read "size" bytes from file "ff", put them in "to", and check for errors */
 #define Read(TO, SIZE, ERR_STR) \
         { \
-          if ( read(fileno(ff), &(TO), SIZE) < SIZE ) { \
+          if ( SIZE < 0 || SIZE > sizeof(TO) \
+               || read(fileno(ff), &(TO), SIZE) < SIZE ) { \
             error_e(ERR_STR); \
 	    goto err; \
 	  } \
@@ -588,6 +590,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
      * a file using a depreciated format generated by an old fcrontab,
      * if the syntax has changed */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_HEADER_T ||
+        size < 0 || size > sizeof(bufi) ||
         read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION) {
         error("File %s is not valid: ignored.", file_name);
         error("This file may have been generated by an old version of fcron.");
@@ -618,6 +621,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_TIMEDATE_T
+        || size < 0 || size > sizeof(t_save)
         || read(fileno(ff), &t_save, size) < size) {
         error("could not get time and date of saving");
         goto err;
@@ -632,6 +636,8 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     Alloc(cl, cl_t);
     /* main loop : read env variables, and lines */
     while (read_type(fileno(ff), &type, &size) == OK) {
+        /* a field may be smaller than the variable it is read into */
+        bufi = 0;
         /* action is determined by the type of the field */
         switch (type) {
 
-- 
2.43.0


From 0c164d1f20c5a07e3c4beb6777f46206471e7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 46/69] fix: an unknown field of a saved table made the rest of
 the table ignored

---
 conf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 21ed191..4b646ba 100644
--- a/conf.c
+++ b/conf.c
@@ -788,10 +788,12 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             /* skip the data corresponding to the unknown field */
             {
                 /* we avoid using fseek(), as it seems not to work correctly
-                 * on some systems when we use read() on the FILE stream */
+                 * on some systems when we use read() on the FILE stream.
+                 * (do not use getc() either: it would read further) */
+                char c;
                 int i;
                 for (i = 0; i < size; i++)
-                    if (getc(ff) == EOF)
+                    if (read(fileno(ff), &c, 1) != 1)
                         goto err;
             }
         }
-- 
2.43.0


From ed604a9f8d439c93c9451eb1537ef384f7c70ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 47/69] fix: the lines of a table which could not be read
 completely stayed in the queue

---
 conf.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/conf.c b/conf.c
index 4b646ba..259e155 100644
--- a/conf.c
+++ b/conf.c
@@ -815,17 +815,11 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     if (ff != NULL)
         xfclose_check(&ff, file_name);
 
-    if (cl != NULL && cl->cl_next == NULL) {
-        /* line is not yet in the line list of the file : free it */
-        Free_safe(cl->cl_shell);
-        Free_safe(cl->cl_runas);
-        Free_safe(cl->cl_mailfrom);
-        Free_safe(cl->cl_mailto);
-        Free_safe(cl);
-    }
-
     /* check if we have started to read the lines and env var */
     if (cl != NULL) {
+        /* line is not yet in the line list of the file : free it */
+        free_line(cl);
+
         /* insert the line in the file list in order to be able to free
          * the memory using delete_file() */
 
-- 
2.43.0


From 79f6834e0ef48f1208f857398edb6d72c8ce4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 48/69] fix: an error while reading a saved table was not
 noticed

---
 conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conf.c b/conf.c
index 259e155..5cee571 100644
--- a/conf.c
+++ b/conf.c
@@ -415,9 +415,9 @@ int
 read_type(int fd, short int *type, short int *size)
 /* read the type and size of the next field in a binary fcrontab file */
 {
-    if (read(fd, type, sizeof(short int)) < sizeof(short int))
+    if (read(fd, type, sizeof(short int)) != sizeof(short int))
         goto err;
-    if (read(fd, size, sizeof(short int)) < sizeof(short int))
+    if (read(fd, size, sizeof(short int)) != sizeof(short int))
         goto err;
 
     return OK;
@@ -433,7 +433,7 @@ read_type(int fd, short int *type, short int *size)
 #define Read(TO, SIZE, ERR_STR) \
         { \
           if ( SIZE < 0 || SIZE > sizeof(TO) \
-               || read(fileno(ff), &(TO), SIZE) < SIZE ) { \
+               || read(fileno(ff), &(TO), SIZE) != SIZE ) { \
             error_e(ERR_STR); \
 	    goto err; \
 	  } \
-- 
2.43.0


From 38aba71ad50c912616e8aa4f7e9166c306db0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:58 +0000
Subject: [PATCH 49/69] fix: a source of a table which could not be read was
 installed truncated

---
 fcrontab.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index 042584e..d29746a 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -245,6 +245,11 @@ copy_src(int from, const char *dest)
                     " Aborting : old source file kept");
             goto exiterr;
         }
+    if (nb == -1) {
+        error_e("Error while reading the file to copy."
+                " Aborting : old source file kept");
+        goto exiterr;
+    }
 
     xclose_check(&to_fd, dest);
 
-- 
2.43.0


From 5795d8478688c9b0bfa37f0d94fe2c690c94cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:58 +0000
Subject: [PATCH 50/69] fix: mails about missed executions gave the time of the
 next one

---
 database.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/database.c b/database.c
index 2b365c9..bf48478 100644
--- a/database.c
+++ b/database.c
@@ -1678,12 +1678,12 @@ mail_notrun_time_t(cl_t *line, char context, time_t since_time_t)
     struct tm since;
     int tz_changed = 0;
 
-    since2 = localtime(&line->cl_nextexe);
-    memcpy(&since, since2, sizeof(since));
-
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
 
-    mail_notrun(line, SYSDOWN, &since);
+    since2 = localtime(&since_time_t);
+    memcpy(&since, since2, sizeof(since));
+
+    mail_notrun(line, context, &since);
 
     if (tz_changed > 0)
         switch_back_timezone(orig_tz_envvar);
-- 
2.43.0


From 9cfc52807b870d28827966183c817b3e10ef1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:58 +0000
Subject: [PATCH 51/69] fix: runatreboot jobs which were running when fcron
 stopped never ran again

---
 database.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index bf48478..b2efaca 100644
--- a/database.c
+++ b/database.c
@@ -1481,11 +1481,13 @@ set_next_exe_startup(struct cl_t *cl, const int context,
      * - runatreboot has higher priority than jobs that were still running
      *   when fcron stopped, because the former will get run quicker as they are not
      *   put into the serial queue. runatreboot jobs will be handled later on. */
-    if (context != CONTEXT_RESUME && cl->cl_numexe > 0
-        && !is_runatreboot(cl->cl_option)) {
+    if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {
 
         cl->cl_numexe = 0;
-        if (is_lavg(cl->cl_option)) {
+        if (context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
+            /* see below */
+            clear_serial_once(cl->cl_option);
+        else if (is_lavg(cl->cl_option)) {
             if (!is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
         }
-- 
2.43.0


From 443665bdfa3f920a511e4577ed568b3911e21444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:58 +0000
Subject: [PATCH 52/69] fix: jobs which could not be queued at startup were
 counted as serial ones

---
 database.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/database.c b/database.c
index b2efaca..dfa4548 100644
--- a/database.c
+++ b/database.c
@@ -1464,6 +1464,20 @@ reschedule_all_on_resume(const time_t sleep_duration)
     }
 }
 
+static void
+add_serial_once_job(cl_t *cl)
+    /* run a job which is not serial once in the serial queue */
+{
+    int was_serial_once = is_serial_once(cl->cl_option);
+    unsigned char numexe = cl->cl_numexe;
+
+    set_serial_once(cl->cl_option);
+    add_serial_job(cl, -1);
+    if (cl->cl_numexe == numexe && !was_serial_once)
+        /* the job has not been queued */
+        clear_serial_once(cl->cl_option);
+}
+
 void
 set_next_exe_startup(struct cl_t *cl, const int context,
                      const time_t sleep_duration)
@@ -1491,15 +1505,19 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             if (!is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
         }
-        else if (is_serial(cl->cl_option)
-                 || is_serial_once(cl->cl_option))
-            add_serial_job(cl, -1);
         else {
-            /* job has been stopped during execution :
-             * launch it again */
-            warn("Job '%s' did not finish : adding it to the serial queue to run it again.", cl->cl_shell);
-            set_serial_once(cl->cl_option);
-            add_serial_job(cl, -1);
+            int was_serial_once = is_serial_once(cl->cl_option);
+
+            clear_serial_once(cl->cl_option);
+            if (is_serial(cl->cl_option))
+                add_serial_job(cl, -1);
+            else {
+                if (!was_serial_once)
+                    /* job has been stopped during execution :
+                     * launch it again */
+                    warn("Job '%s' did not finish : adding it to the serial queue to run it again.", cl->cl_shell);
+                add_serial_once_job(cl);
+            }
         }
     }
 
@@ -1564,8 +1582,7 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                         explain
                             ("   Adding bootrun job to the serial queue: '%s'",
                              cl->cl_shell);
-                        set_serial_once(cl->cl_option);
-                        add_serial_job(cl, -1);
+                        add_serial_once_job(cl);
                     }
                     else {
                         explain("   Adding bootrun job to the lavg queue: '%s'",
-- 
2.43.0


From f4550c0b5c1c1f5b68ebd3f3b71758a80e4f5598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:24 +0000
Subject: [PATCH 53/69] fix: very long delays crashed fcron

---
 database.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/database.c b/database.c
index dfa4548..102c058 100644
--- a/database.c
+++ b/database.c
@@ -1335,8 +1335,9 @@ set_next_exe(cl_t *line, char option, int info_fd)
     else {
         /* this is a job based on system up time */
 
-        if (line->cl_timefreq == LONG_MAX) {
-            /* when timefreq is set to LONG_MAX, it means that next time nextexe
+        if (line->cl_timefreq > TIME_T_MAX - basetime) {
+            /* this is more than what localtime() can convert (see below).
+             * Besides, when timefreq is set to LONG_MAX, it means that next time nextexe
              * is updated we want it to be the furthest away possible so as the job
              * is never executed again (unless at the next reboot/fcron startup
              * if the line as the appropriate options set) */
@@ -1630,7 +1631,7 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                  || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)
                                                  || is_runonce(cl->cl_option)))) {
             /* cl_first is always saved to disk for a volatile line */
-            if (cl->cl_first == LONG_MAX) {
+            if (cl->cl_first > TIME_T_MAX - now) {
                 cl->cl_nextexe = TIME_T_MAX;
             }
             else {
@@ -1667,7 +1668,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                          cl->cl_shell, now, cl->cl_timefreq, cl->cl_nextexe);
                     error
                         ("Setting cl_nextexe to now+cl_timefreq to prevent an infinite loop.");
-                    cl->cl_nextexe = now + cl->cl_timefreq;
+                    cl->cl_nextexe = (cl->cl_timefreq > TIME_T_MAX - now) ?
+                        TIME_T_MAX : now + cl->cl_timefreq;
                     error("next execution will now be at %ld.", cl->cl_nextexe);
                 }
             }
-- 
2.43.0


From 82b5353721bbe71b1d832c0ff183d36a551a6877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 54/69] fix: users were told about missed executions when there
 was none

---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 102c058..d7ede39 100644
--- a/database.c
+++ b/database.c
@@ -1540,7 +1540,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
         if ((context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
 
-            if (is_notice_notrun(cl->cl_option)) {
+            if (is_notice_notrun(cl->cl_option) && cl->cl_nextexe != 0
+                && cl->cl_nextexe <= now) {
 
                 if (cl->cl_runfreq == 1) {
                     /* %-line */
-- 
2.43.0


From 2c352716a1647366add80bc0980bf3aebb7190f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:11 +0000
Subject: [PATCH 55/69] fix: an empty mail was sent for a job whose mail header
 was over 32 kB long

---
 job.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/job.c b/job.c
index f516c14..62dcdbb 100644
--- a/job.c
+++ b/job.c
@@ -30,7 +30,7 @@
 
 
 void sig_dfl(void);
-void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
+void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
 #ifdef HAVE_LIBPAM
@@ -575,7 +575,7 @@ run_job(struct exe_t *exeent)
             int status = 0;
             int to_stdout = foreground && is_stdout(line->cl_option);
             int pipe_fd[2];
-            short int mailpos = 0;      /* 'empty mail file' size */
+            long mailpos = 0;   /* 'empty mail file' size */
 #ifdef WITH_SELINUX
             int flask_enabled = is_selinux_enabled();
 #endif
@@ -787,7 +787,7 @@ run_job(struct exe_t *exeent)
 }
 
 void
-end_job(cl_t *line, int status, FILE *mailf, short mailpos, char **sendmailenv)
+end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **sendmailenv)
     /* if task have made some output, mail it to user */
 {
 
-- 
2.43.0


From b654940fecfe65d4da08e48f4b0d46437b29d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:11 +0000
Subject: [PATCH 56/69] fix: the SHELL of a job was set from memory which had
 been freed

---
 job.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/job.c b/job.c
index 62dcdbb..480cf17 100644
--- a/job.c
+++ b/job.c
@@ -225,7 +225,10 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
 
             myshell = shell;
         }
-        env_list_setenv(env_list, "SHELL", myshell, 1);
+        /* otherwise the value is already set
+         * (and is freed when it is replaced: don't set it from itself) */
+        if (myshell == shell)
+            env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
             *curshell = strdup2(myshell);
 
-- 
2.43.0


From 2943d338484f319274dc6a606a859953bf0284ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 57/69] fix: %-jobs with strict(false) did not wait for a low
 load average

---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index d7ede39..8f88f34 100644
--- a/database.c
+++ b/database.c
@@ -1839,8 +1839,8 @@ check_lavg(time_t lim)
     /* first, check if some lines must be executed because of until */
     for (l = lavg_list_first(lavg_list); l != NULL;
          l = lavg_list_next(lavg_list))
-        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)
-            && l->l_until < now) {
+        /* (l_until is 0 if this job waits for as long as necessary) */
+        if (l->l_until > 0 && l->l_until < now) {
             if (!is_run_if_late(l->l_line->cl_option)) {
                 if (!is_nolog(l->l_line->cl_option))
                     explain("Interval of execution exceeded : '%s' (not run)",
-- 
2.43.0


From d861ceaf0bd891a5ad01052454a96c883ce3a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 58/69] fix: the entries of processes mailing about missed
 executions were never removed

---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 8f88f34..0b6862a 100644
--- a/database.c
+++ b/database.c
@@ -1738,7 +1738,7 @@ mail_notrun(cl_t *line, char context, struct tm *since)
 
         /* create an entry in exe_list */
         /* set line to NULL as this is not a line ... */
-        exe_list_add_line(exe_list, NULL);
+        exe_list_add_line(exe_list, NULL)->e_ctrl_pid = pid;
         return;
     }
 
-- 
2.43.0


From 2d7844fd15d624921b76cf22468c9af5de703b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:34 +0000
Subject: [PATCH 59/69] fix: the daemon could oversleep jobs set by a reload or
 by fcrondyn

---
 fcron.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fcron.c b/fcron.c
index 98358db..a56b637 100644
--- a/fcron.c
+++ b/fcron.c
@@ -954,12 +954,20 @@ main_loop()
         fcrondyn_socket_check(&main_select);
 #endif
 
+        /* a signal may change when the next job is due: handle it before
+         * the next wake time is computed */
+        check_signal();
+
+        /* fcrondyn clients may have queued serial jobs: don't let them wait
+         * until the next wake time */
+        while (serial_num > 0 && serial_running < serial_max_running) {
+            run_serial_job();
+        }
+
         nwt = check_lavg(save);
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
-        check_signal();
-
     }
 
 }
-- 
2.43.0


From 82a30a00206659b731a0ce1bea9013263476cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 60/69] fix: any user could list the jobs of the system
 fcrontab

---
 fcrondyn_svr.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2599254..752ca8b 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -564,8 +564,15 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             struct passwd *pass;
 
 #ifdef SYSFCRONTAB
-            if (cmd[1] == SYSFCRONTAB_UID)
+            if (cmd[1] == SYSFCRONTAB_UID) {
+                if (!is_root) {
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, SYSFCRONTAB);
+                    Send_err_msg_end(fd, err_others_nallowed_str);
+                    return;
+                }
                 user = SYSFCRONTAB;
+            }
             else {
 #endif
                 if ((pass = getpwuid((uid_t) cmd[1])) == NULL) {
@@ -574,8 +581,8 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                     return;
                 }
                 if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0) {
-                    warn_e("%s is not allowed to see %s's jobs. %ld",
-                           client->fcl_user, pass->pw_name);
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, pass->pw_name);
                     Send_err_msg_end(fd, err_others_nallowed_str);
                     return;
                 }
-- 
2.43.0


From 6eb96cb6316cb0137e6c152ab827920e0e26df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 61/69] fix: a failed kill or renice was answered with two ends
 of answer

---
 fcrondyn_svr.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 752ca8b..898bf5a 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -676,7 +676,8 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
 
                 warn(err_str, client->fcl_user, cmd[1], cmd[2],
                      client->fcl_user);
-                Send_err_msg_end(fd, err_job_nfound_str);
+                /* (the same answer as if there was no such job) */
+                Send_err_msg(fd, err_rjob_nfound_str);
             }
             else {
                 /* request is valid : do it */
@@ -728,7 +729,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
         || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
         warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
@@ -736,7 +737,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
     if (setpriority(PRIO_PROCESS, e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not setpriority(PRIO_PROCESS, %d, %d)",
                 e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
@@ -747,7 +748,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #else                           /* HAVE_SETPRIORITY */
     warn("System has no setpriority() : cannot renice. pid: %d nice_value: %d user: %s.", e->e_job_pid, (int)cmd[1], client->fcl_user);
-    Send_err_msg_end(fd, err_cmd_unknown_str);
+    Send_err_msg(fd, err_cmd_unknown_str);
 
 #endif                          /* HAVE_SETPRIORITY */
 }
@@ -760,14 +761,14 @@ cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
     if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
         warn("send_signal: invalid args : pid: %d signal: %d user: %s",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
     /* ok, now kill() the job */
     if (kill(e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not kill(%d, %d)", e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
-- 
2.43.0


From 9eb0fccd2176d18a80fc157e4d151705a2271e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 62/69] fix: password failures were forgotten after one refusal

---
 fcrondyn_svr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 898bf5a..0ab3072 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -318,7 +318,6 @@ auth_client_password(struct fcrondyn_cl *client)
     if (auth_fail >= MAX_AUTH_FAIL) {
         error("Too many authentication failures : try to connect later.");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-        auth_fail = auth_nofail_since = 0;
         return;
     }
 
-- 
2.43.0


From 10fc794d530bad1d38b35cb6376847e2fa9af072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 63/69] fix: incomplete messages of fcrondyn clients were read
 past their end

---
 fcrondyn_svr.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 0ab3072..5596f79 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -820,6 +820,7 @@ exe_cmd(struct fcrondyn_cl *client)
     long int *cmd;
     int fd;
     int is_root = 0;
+    int num_args = 1;
 
     is_root = (strcmp(client->fcl_user, ROOTNAME) == 0) ? 1 : 0;
 
@@ -828,9 +829,18 @@ exe_cmd(struct fcrondyn_cl *client)
     fd = client->fcl_sock_fd;
 
     /* */
-    debug("exe_cmd [0,1,2] : %d %d %d", cmd[0], cmd[1], cmd[2]);
+    debug("exe_cmd [0,1,2] : %ld %ld %ld", cmd[0], cmd[1], cmd[2]);
     /* */
 
+    /* do nothing unless we got the whole command */
+    if (client->fcl_cmd_len >= (int)sizeof(long int)
+        && (cmd[0] == CMD_SEND_SIGNAL || cmd[0] == CMD_RENICE))
+        num_args = 2;
+    if (client->fcl_cmd_len < (int)((1 + num_args) * sizeof(long int))) {
+        Send_err_msg_end(fd, err_invalid_args_str);
+        return;
+    }
+
     switch (cmd[0]) {
 
     case CMD_SEND_SIGNAL:
@@ -888,7 +898,8 @@ fcrondyn_socket_check(select_instance *si)
     int fd = -1, avoid_fd = -1;
     socklen_t addr_len = sizeof(struct sockaddr_un);
     struct sockaddr_un client_addr;
-    long int buf_int[SOCKET_MSG_LEN];
+    /* (one more, which is always 0: the end of the last string) */
+    long int buf_int[SOCKET_MSG_LEN + 1];
     int read_len = 0;
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
@@ -968,8 +979,10 @@ fcrondyn_socket_check(select_instance *si)
             continue;
         }
 
+        memset(buf_int, 0, sizeof(buf_int));
         if ((read_len =
-             recv(client->fcl_sock_fd, buf_int, sizeof(buf_int), 0)) <= 0) {
+             recv(client->fcl_sock_fd, buf_int,
+                  SOCKET_MSG_LEN * sizeof(long int), 0)) <= 0) {
             if (read_len == 0) {
                 /* connection closed by client */
                 remove_connection(&client, prev_client, si);
-- 
2.43.0


From 73ba63a08a76d9f94696f6f34f472fe343eeced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:36 +0000
Subject: [PATCH 64/69] fix: nameless and abbreviated lines of fcron.conf
 changed a setting

---
 fcronconf.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/fcronconf.c b/fcronconf.c
index 346d36d..0b00b05 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -88,6 +88,10 @@ free_conf(void)
     Free_safe(maildisplayname);
 }
 
+/* is the name at ptr1, whose length is namesize, exactly STR ? (used in read_conf()) */
+#define Is_name(STR) \
+    (namesize == sizeof(STR) - 1 && strncmp(ptr1, STR, namesize) == 0)
+
 void
 read_conf(void)
 /* reads in a config file and updates the necessary global variables */
@@ -151,8 +155,11 @@ read_conf(void)
 
         /* get the name of the var */
         if ((namesize = get_word(&ptr1)) == 0)
+        {
             /* name is zero-length */
             error("Zero-length var name at line %s : line ignored", buf);
+            continue;
+        }
 
         ptr2 = ptr1 + namesize;
 
@@ -165,34 +172,34 @@ read_conf(void)
             ptr2++;
 
         /* find which var the line refers to and update it */
-        if (strncmp(ptr1, "fcrontabs", namesize) == 0) {
+        if (Is_name("fcrontabs")) {
             Set(fcrontabs, ptr2);
         }
-        else if (strncmp(ptr1, "pidfile", namesize) == 0) {
+        else if (Is_name("pidfile")) {
             Set(pidfile, ptr2);
         }
-        else if (strncmp(ptr1, "suspendfile", namesize) == 0) {
+        else if (Is_name("suspendfile")) {
             Set(suspendfile, ptr2);
         }
-        else if (strncmp(ptr1, "fifofile", namesize) == 0) {
+        else if (Is_name("fifofile")) {
             Set(fifofile, ptr2);
         }
-        else if (strncmp(ptr1, "fcronallow", namesize) == 0) {
+        else if (Is_name("fcronallow")) {
             Set(fcronallow, ptr2);
         }
-        else if (strncmp(ptr1, "fcrondeny", namesize) == 0) {
+        else if (Is_name("fcrondeny")) {
             Set(fcrondeny, ptr2);
         }
-        else if (strncmp(ptr1, "shell", namesize) == 0) {
+        else if (Is_name("shell")) {
             Set(shell, ptr2);
         }
-        else if (strncmp(ptr1, "sendmail", namesize) == 0) {
+        else if (Is_name("sendmail")) {
             Set(sendmail, ptr2);
         }
-        else if (strncmp(ptr1, "editor", namesize) == 0) {
+        else if (Is_name("editor")) {
             Set(editor, ptr2);
         }
-        else if (strncmp(ptr1, "maildisplayname", namesize) == 0) {
+        else if (Is_name("maildisplayname")) {
             char *output = format_maildisplayname(ptr2);
             Set(maildisplayname, output ? output : "");
             Free_safe(output);
-- 
2.43.0


From 4418822c51364e71d812fb1faf3d4b2ea3fb053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:36 +0000
Subject: [PATCH 65/69] fix: the end of a long line of fcron.conf was read as
 another line

---
 fcronconf.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/fcronconf.c b/fcronconf.c
index 0b00b05..b3d3a92 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -145,6 +145,17 @@ read_conf(void)
 
     while ((ptr1 = fgets(buf, sizeof(buf), f)) != NULL) {
 
+        if (strchr(buf, '\n') == NULL) {
+            /* end of file or line too long */
+            int c = fgetc(f);
+
+            if (c != EOF && c != '\n') {
+                error("Line too long in %s : line ignored", fcronconf);
+                while ((c = fgetc(f)) != EOF && c != '\n') ;
+                continue;
+            }
+        }
+
         Skip_blanks(ptr1);      /* at the beginning of the line */
 
         /* ignore comments and blank lines */
-- 
2.43.0


From b5013c549f4325a23ffd26055c4cc899d69876ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:04 +0000
Subject: [PATCH 66/69] fix: a suspend file which could not be removed was left
 open

---
 suspend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 6ec3858..88f3093 100644
--- a/suspend.c
+++ b/suspend.c
@@ -198,7 +198,8 @@ read_suspend_duration(time_t slept_from)
  unlink_cleanup_return:
     if (unlink(suspendfile) < 0) {
         warn_e("Could not remove suspend file '%s'", suspendfile);
-        return 0;
+        /* it would be read again at the next resume: don't use it */
+        suspend_duration = 0;
     }
 
  cleanup_return:
-- 
2.43.0


From f9c34f4faa7e2c495730f251ed1af150b4739ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 67/69] fix: a very long duration in the suspend file was not
 limited to the time slept

---
 suspend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 88f3093..292a5bd 100644
--- a/suspend.c
+++ b/suspend.c
@@ -182,7 +182,7 @@ read_suspend_duration(time_t slept_from)
         debug("Read suspend_duration of '%ld' from suspend file '%s'",
               suspend_duration, suspendfile);
 
-        if (now < slept_from + suspend_duration) {
+        if (suspend_duration > now - slept_from) {
             long int time_slept = now - slept_from;
 
             /* we can have a couple of seconds more due to rounding up,
-- 
2.43.0


From ef10e08efc1d97ae30712f3a87be33dcc9302b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 68/69] fix: crash on a negative duration in the suspend file

---
 suspend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 292a5bd..93d8db5 100644
--- a/suspend.c
+++ b/suspend.c
@@ -174,7 +174,8 @@ read_suspend_duration(time_t slept_from)
         goto unlink_cleanup_return;
     }
     else if (suspend_duration < 0) {
-        warn("Read negative suspend_duration (%ld): ignoring.");
+        warn("Read negative suspend_duration (%ld): ignoring.",
+             suspend_duration);
         suspend_duration = 0;
         goto unlink_cleanup_return;
     }
-- 
2.43.0


From 0361fb3dd6348c124c335d71e884a4c3f0963178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:49 +0000
Subject: [PATCH 69/69] fix: the lock file of another fcronsighup was removed
 if fork() failed

---
 fcronsighup.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fcronsighup.c b/fcronsighup.c
index dc14df3..e58f43c 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -136,7 +136,6 @@ sig_daemon(void)
 
         switch (fork()) {
         case -1:
-            remove(sigfile);
             die_e("could not fork : daemon has not been signaled");
             break;
         case 0:
@@ -184,7 +183,7 @@ sig_daemon(void)
         fd = -1;
 
         if (remove(sigfile) < 0)
-            error_e("Could not remove %s");
+            error_e("Could not remove %s", sigfile);
     }
     else
         /* we are root, or config MAX_FCRONTAB_RELOAD_DELAY_SECONDS=0 is set */
-- 
2.43.0


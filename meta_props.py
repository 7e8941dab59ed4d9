NOTYET = "no check built yet"
prop("C01", "Time fields of a line select exactly the values they describe",
 "For every field text, the parser either rejects the line or selects exactly the set of values that the documented grammar gives (values, names, ranges, lists, steps, exclusions, and * ), within the limits of the field. Reading a field never accesses memory outside the line and the set being built.",
 ["inputs"], "all field texts up to the stated length over the grammar's alphabet, for the five kinds of fields", T + "one line with fixed fields is parsed.",
 ["fileconf.c", "bitstring.h"], [("field reader", "fileconf.c read_field"), ("number reader", "fileconf.c get_num")])
prop("C02", "Classic lines run next at the first matching minute",
 "For a line with the five classic fields, the next execution time computed is in the future, matches the month, day, hour and minute fields, and no earlier matching minute is skipped (day-of-month and day-of-week being combined as the options say). A line which matches nothing within the supported number of years is not run within them and does not block the daemon. The computation is done in the time zone of the line, and local times skipped or repeated by a change of its offset are handled as documented.",
 ["inputs", "histories"], "all field sets, current times and day-combination options", T + "no schedule computation is tested.",
 ["database.c"], [("next time computation", "database.c set_next_exe")])
prop("C03", "Period lines run once per period",
 "A line which must run once per interval of its fields gets its next execution inside a matching interval, never twice in the same one, and the end of the interval is computed as the first time which no longer matches.",
 ["inputs", "histories"], "all field sets, kinds of period and current times", T + "no schedule computation is tested.",
 ["database.c"], [("period computation", "database.c goto_beginning_next_period_periodical / move_time_to / set_next_exe")])
prop("C04", "Elapsed-time lines wait their delay, also across reloads and stops",
 "A line based on elapsed time runs next after the time that remained when it was saved (or after its first-run delay), then once each period; options for startup, resume and run-once act as documented.",
 ["inputs", "histories"], "all saved states, delays, options and times", T + "no schedule computation is tested.",
 ["database.c", "conf.c"], [("first execution", "database.c set_next_exe_startup"), ("following executions", "database.c set_next_exe"), ("loading", "conf.c add_line_to_file")])
prop("C05", "A saved schedule is read back unchanged",
 "Whatever the content of a user's table (lines, options, environment, times), loading the saved file gives back the same lines with the same fields, options, times and environment, and nothing else.",
 ["inputs"], "all lines within bounded sizes: every option, field and time value", T + "saving and loading are not tested.",
 ["save.c", "conf.c", "save.h"], [("writing", "save.c write_file_to_disk / save_type"), ("reading", "conf.c read_file / read_type")])
prop("C06", "A crash or fault while saving leaves the old or the new file",
 "When a table or the copy of its source is saved, the file under its final name is always either the complete previous one or the complete new one, whatever call fails or wherever the program stops, and a failure is reported. (When only the final renaming fails, the documented fallback writes in place; the complete new copy then stays under the temporary name.)",
 ["crash_points", "fault_sequences"], "every failing system call and every stop point while saving", T + "saving is not tested.",
 ["save.c", "fcrontab.c"], [("temporary file then rename", "save.c save_file_safe"), ("copy of the source", "fcrontab.c copy_src")])
prop("C07", "A corrupt saved table cannot harm the daemon",
 "Loading a file of any content either yields well-formed lines or refuses it with a message; memory outside the loaded data is never touched and no partial table keeps jobs queued.",
 ["inputs"], "all file contents up to the stated size and all read errors", T + "loading is not tested.",
 ["conf.c"], [("reader", "conf.c read_file / read_type / read_strn / read_str")])
prop("C08", "The queue of jobs stays sorted and loses or duplicates nothing",
 "After any insertion, change of time, removal or reload, the queue holds each scheduled line exactly once, in the order of execution times, and the wake-up time is the one of its head.",
 ["histories"], "all queues and operations within the stated sizes", T + "the job queue is not tested.",
 ["database.c"], [("insertion", "database.c insert_nextexe / job_queue_remove"), ("due jobs", "database.c test_jobs"), ("removal", "conf.c delete_file"), ("reload", "conf.c synchronize_file")])
prop("C09", "Serial jobs run in order, one by one, within the limits",
 "Serial jobs are started in the order they were queued, never more at once than configured, and none is lost or duplicated while the queue grows, wraps, fills up, or jobs end, fail to start or are removed.",
 ["histories", "fault_sequences"], "any queue state (position, length, array size), operation and outcome of starting jobs", T + "the serial queue is not tested; growth and wrap-around need specific histories.",
 ["database.c", "conf.c"], [("circular array", "database.c add_serial_job / run_serial_job / remove_first"), ("end of a job", "database.c wait_chld / wait_all"), ("removal", "conf.c delete_file")],
 note="The array grows by 2 instead of 10.")
prop("C10", "Load-limited jobs start when the load or the deadline allows",
 "A job waiting for a low load is started exactly when the load averages are below its limits or its waiting time is over according to its options, in either case once, and it is dropped when its period is over in strict mode.",
 ["histories", "inputs"], "all waiting jobs, limits, loads and times", T + "load handling is not tested.",
 ["database.c"], [("load check", "database.c check_lavg"), ("queueing", "database.c add_lavg_job")])
prop("C11", "A line does not run concurrently with itself unless asked to",
 "A line which is still running is not started again unless it asks for it, the number of running instances is exact after any start, failure to start, end, or reload, and a finished job's line is recognised.",
 ["histories", "fault_sequences"], "all sequences within bounds of starts, failures, ends", T + "running jobs is not tested.",
 ["database.c", "job.c"], [("test", "database.c is_job_running / test_jobs"), ("end", "database.c wait_chld")])
prop("C12", "A job runs only with the full identity of its user",
 "A command is executed only after the groups, group and user of the target user have all been set successfully; if any step fails nothing is executed. The environment and directory of the command are those of the line and user.",
 ["fault_sequences", "inputs"], "every outcome of every system call on the way to the execution of a command", T + "running jobs is not tested.",
 ["job.c"], [("identity", "job.c become_user"), ("environment", "job.c setup_user_and_env"), ("execution", "job.c run_job")])
prop("C13", "Only users allowed by the allow and deny files may use fcron",
 "A user may use the system exactly when the account exists and the combination of the allow and deny files permits it, whatever the content of these files (comments, blanks, \"all\", missing files).",
 ["inputs", "configurations"], "all presence and contents of both files within the bounds", T + "access files are not tested.",
 ["allow.c", "subs.c"], [("decision", "allow.c is_allowed"), ("file search", "allow.c in_file")])
prop("C14", "The environment of a table is kept in order and passed unchanged",
 "Setting a variable replaces its previous value, all the others are kept, and what is exported to jobs is exactly the list of current settings; protected variables cannot be set.",
 ["inputs", "histories"], "all sequences of settings within bounds", T + "environment lists are not tested.",
 ["env_list.c", "fileconf.c"], [("list", "env_list.c"), ("assignment reader", "fileconf.c read_env")])
prop("C15", "Mail is sent exactly when the options ask for it",
 "After a job ends, its output is mailed if and only if the mail options, the output and the exit status ask for it, to the configured recipient, and never otherwise.",
 ["inputs", "configurations"], "all options, outputs and exit statuses", T + "mail sending is not tested.",
 ["job.c"], [("end of job", "job.c end_job"), ("mail creation", "job.c create_mail")])
prop("C16", "The sender of mails is well formed and bounded",
 "A display name is returned unchanged, or quoted with its quotes escaped when it contains special characters, if and only if it fits on a mail header line; the composed address follows the same limit. No input makes the formatting access memory outside its buffers or leak it.",
 ["inputs"], "all names, users and hosts within the scaled-down line length", T + "names at the limit with a quote at the end are not covered.",
 ["mail.c"], [("display name", "mail.c format_maildisplayname"), ("address", "mail.c make_mailbox_addr")],
 note="The maximum length of a line is scaled down from 998.")
prop("C17", "Options of a line are parsed as documented or rejected",
 "Every option text either sets exactly the documented fields to the documented values or is reported as an error; restricted options are refused to ordinary users, and reading never leaves the line.",
 ["inputs"], "all option texts within the stated length", T + "one job line is parsed.",
 ["fileconf.c"], [("option reader", "fileconf.c read_opt")])
prop("C18", "Time values are read exactly",
 "A time value such as 1w2d3h4 gives the sum of its parts in seconds, or is rejected; no value overflows silently.",
 ["inputs"], "all time texts within the stated length", T + "time values are not tested.",
 ["fileconf.c"], [("time reader", "fileconf.c get_time")])
prop("C19", "Lists of entries keep their content while modified and walked",
 "A list contains exactly the entries added and not removed, in order of addition, up to its maximum; a walk visits each entry present exactly once even when the current one is removed or entries are added during the walk.",
 ["histories"], "all sequences of additions, removals and walks within the stated sizes", "Tests create, fill, remove and walk lists in a few fixed ways, without limits or additions during a walk.",
 ["u_list.c", "exe_list.c", "lavg_list.c"], [("unordered list", "u_list.c")], note="Entries are 4 bytes.")
prop("C20", "A user can only see and act on own jobs through fcrondyn",
 "A request on a job is executed only if the requester is root or owns the job, whatever the request, and information on jobs of others is not disclosed to ordinary users.",
 ["inputs"], "all requests, users, jobs and job states within bounds", "Only the text of one output line is tested.",
 ["fcrondyn_svr.c"], [("commands", "fcrondyn_svr.c cmd_on_exeq / cmd_ls / exe_cmd")])
prop("C21", "The fcrondyn client sends exactly the command typed",
 "A command line is sent only if it is a known command with valid arguments, with the values typed, and is reported as an error otherwise.",
 ["inputs"], "all command lines within the stated length", T + "the client is not tested.",
 ["fcrondyn.c"], [("parser", "fcrondyn.c parse_cmd")], na="Not built: parse_cmd() of the client mixes word splitting, abbreviation matching, number and user look-ups and message building over one symbolic line, which a SAT encoding only decides when cut into many pieces (as for fcrontab lines in C29), and there was no time left to do so; what a received command may contain is decided on the daemon's side by C20 and C31.")
prop("C22", "No signal to the daemon is lost",
 "Whenever a signal is delivered to the daemon, including while an earlier one is being handled, the action it asks for is carried out after its delivery.",
 ["schedules"], "all interleavings of the stated number of signals with the handling code", T + "signals are not tested and need exact timings.",
 ["fcron.c"], [("flags", "fcron.c *_handler"), ("handling", "fcron.c check_signal")])
prop("C23", "The daemon listens to exactly the registered descriptors",
 "Waiting for input always covers every descriptor registered and not removed, and no other, whatever the order of registrations and removals; an interrupted wait is not an error.",
 ["histories"], "all sequences of registrations, removals and waits within the stated length", T + "descriptor sets are not tested.",
 ["select.c"], [("set and maximum", "select.c")])
prop("C24", "File operations for a user use and restore identities",
 "Opening, removing or renaming a file on behalf of a user happens with that user's identity and the original identity is back afterwards on every path; only a regular file with a single link is ever handed out, and nothing stays open after a failure.",
 ["fault_sequences", "inputs"], "all outcomes of all system calls", T + "these operations are not tested.",
 ["subs.c"], [("operations", "subs.c open_as_user / remove_as_user / rename_as_user")])
prop("C25", "Transfers over pipes are complete and exact",
 "A transfer over a pipe reports success exactly when all bytes went through in order, however the system splits or interrupts it, never touches memory beyond the data, and reports the end of the pipe and errors as such.",
 ["fault_sequences", "schedules"], "all outcomes of each system call within the stated number of calls", T + "pipes are not tested; partial transfers do not happen in tests.",
 ["job.c"], [("transfer", "job.c read_write_pipe")])
prop("C26", "Every log message is written safely, whole or marked as truncated",
 "Any message reaches its destinations once, whole if it is shorter than the maximum, otherwise its beginning followed by a truncation mark, without being interpreted as a format and without touching memory outside the message.",
 ["inputs", "configurations"], "all messages and error texts around the (scaled-down) maximum length", T + "logging is not tested.",
 ["log.c"], [("message", "log.c make_msg"), ("outputs", "log.c xlog / log_syslog_str / send_msg_fd")], note="The maximum length of a message is scaled down from 175 to 20.")
prop("C27", "Suspended time is measured and accounted for",
 "The time spent suspended is computed from what the suspend hooks leave (or, on Linux, from the clocks), once for each suspension, is bounded by the elapsed time, and shifts the schedules that depend on elapsed time.",
 ["inputs", "histories"], "all contents of the suspend file and times", T + "suspend is not tested.",
 ["suspend.c", "database.c"], [("suspend file", "suspend.c read_suspend_duration / check_suspend"), ("lines", "database.c reschedule_all_on_resume")])
prop("C28", "The configuration file is read exactly",
 "Each known setting takes the value given in the configuration file, unknown or malformed lines are reported and change nothing, whatever the content of the file.",
 ["inputs", "configurations"], "all lines within the stated length", T + "the configuration file is not tested.",
 ["fcronconf.c"], [("reader", "fcronconf.c read_conf")])
prop("C29", "The lines of a table are read exactly, whatever its text",
 "Reading a table assembles exactly its logical lines (continuations, blanks, comments, end of file; too long lines are skipped as a whole and reported), and each one is read as the kind its first characters say, with its fields in the documented order and limits, its options, user name, environment setting or shortcut; anything else is reported and not used, and memory outside the line is never touched.",
 ["inputs"], "all texts within the stated length, with scaled-down limits of lines and entries; the readers of fields, options and times are those of C01, C17 and C18", T + "one line is parsed.",
 ["fileconf.c", "subs.c"], [("line reader", "fileconf.c get_line"), ("dispatch", "fileconf.c read_file"), ("lines", "fileconf.c read_arys / read_freq / read_period / read_shortcut"), ("settings", "fileconf.c read_env / check_username")])
prop("C30", "A changed table is taken into account within the documented delay",
 "After a table is installed, the daemon is told to reload it soon enough, and never before the file is complete.",
 ["histories"], "all current times and states", T + "the signalling program is not tested.",
 ["fcronsighup.c", "fcrontab.c"], [("delay", "fcronsighup.c sig_daemon"), ("installation", "fcrontab.c make_file / remove_fcrontab / xexit")])
prop("C31", "A client gets commands executed only after it has authenticated",
 "A connected client can have commands executed only after authentication succeeded for that connection, failed attempts delay further ones, and the user it acts as is the authenticated one.",
 ["histories", "inputs"], "all sequences of messages within bounds", "Only the text of one output line is tested.",
 ["fcrondyn_svr.c"], [("authentication", "fcrondyn_svr.c auth_client_password / auth_client_so_peercred"), ("dispatch", "fcrondyn_svr.c check_socket")])
prop("C32", "The daemon wakes up when the next event is due",
 "In every turn of the main loop the daemon sleeps at most until the next job or save is due, a due job is started in that turn and data is saved periodically.",
 ["schedules", "histories"], "all queues and times within bounds", T + "the main loop is not tested.",
 ["fcron.c", "database.c"], [("main loop", "fcron.c main_loop"), ("sleep", "database.c time_to_sleep")])

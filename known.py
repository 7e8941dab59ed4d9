#!/usr/bin/env python3
"""developer tool: rewrites known_findings.json from the list below and the fix commits of /repo"""
import json, subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
FIX = [("C19", "u_list_next() compared"), ("C19", "u_list_add() ignored"), ("C09", "the serial queue lost its order"),
       ("C11", "a job which could not be forked"), ("C25", "read_pipe()/write_pipe() transferred"), ("C11", "run_job() leaked a pipe"),
       ("C09", "serial jobs were still counted"), ("C22", "a signal received while"), ("C23", "select_rm_read()"),
       ("C24", "open_as_user() read an uninit"), ("C13", "remove_blanks() accessed"), ("C16", "format_maildisplayname()"),
       ("C26", "make_msg() wrote"),
       ("C01", "names of months"), ("C01", "month 0 was"), ("C01", "a range of a single"), ("C01", "get_num() changed"), ("C01", "get_num() read"),
       ("C18", "too big time"), ("C01", "lines with a step of 0"), ("C09", "the end of the first of several"),
       ("C17", "a long option name"), ("C17", "unknown options of"), ("C17", "too big load averages"), ("C17", "option runas was ignored"),
       ("C17", "option reset turned"), ("C17", "an invalid mailto left"), ("C17", "option tzdiff on a single"), ("C17", "option until(0)"), ("C03", "read_period() set a bit"),
       ("C29", "read_shortcut() leaked"), ("C29", "a value made of a single"), ("C29", "a command beginning by"), ("C29", "bit_ffc() and bit_ffs()"),
       ("C03", "a %-line with days 1-31"), ("C03", "a %-line skipped the period"), ("C08", "a change of the time difference"), ("C08", "a line kept the execution time of its previous"), ("C08", "a line which was run once, and"), ("C29", "fcrontab crashed on tables"), ("C14", "env_list_free_envp()"), ("C29", "the continuation of a too long"), ("C02", "do not schedule a dayor"),
       ("C05", "saving a string longer than the buffer"), ("C07", "the sizes of the fields of a saved"), ("C07", "an unknown field of a saved"), ("C07", "the lines of a table which could not be read"), ("C07", "an error while reading a saved"),
       ("C06", "a source of a table which could not be read"), ("C04", "mails about missed executions gave"), ("C04", "runatreboot jobs which were running"), ("C04", "jobs which could not be queued at startup"), ("C04", "very long delays crashed"), ("C04", "users were told about missed executions when"),
       ("C28","nameless and abbreviated lines"), ("C28","the end of a long line of fcron.conf"), ("C27","a suspend file which could not be removed"), ("C27","a very long duration in the suspend file"), ("C27","crash on a negative duration"), ("C30","the lock file of another fcronsighup"), ("C32","the daemon could oversleep"), ("C20","any user could list the jobs of the system"), ("C20","a failed kill or renice was answered"), ("C31","password failures were forgotten"), ("C31","incomplete messages of fcrondyn"), ("C10","%-jobs with strict(false) did not wait"), ("C11","the entries of processes mailing about"), ("C15", "an empty mail was sent for a job whose"), ("C12", "the SHELL of a job was set from"),
]
KNOWN = []
out = []
done = set()
for p, s in FIX:
    m = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + s)]
    assert len(m) == 1, (p, s, m)
    done.add(m[0])
    h, t = m[0].split(" ", 1)
    out.append({"status": "fixed", "property": p, "commit": h, "what": "fixed: property=%s %s %s" % (p, h[:10], t[5:])})
rest = [l for l in log if l.split(" ", 1)[1].startswith("fix:") and l not in done]
assert not rest, rest
for k in KNOWN:
    out.append(dict(status="known", **k))
json.dump(out, open("/verif/known_findings.json", "w"), indent=1)
print(len(out), "entries")

# registry of properties and their solver obligations
CHECKS = {}

CHECKS["C19"] = {"obligations": [
    {"name": "ulist_%d_%d_%d" % t, "harness": "ulist.c", "src": ["u_list.c", "mem.c"], "unwind": 10,
     "rename": ["calloc", "realloc", "free"],
     "defs": {"INIT": t[0], "GROW": t[1], "CAP": t[2]}, "thorough_defs": {"WALKS": 2},
     "bounds": "up to 4 additions, then 1 (thorough: 2) walks with removals, additions and early ends at every step, <=5 entries, initial size %d, growth %d, maximum %d" % t,
     } for t in [(1, 1, 0), (2, 1, 3), (3, 2, 2), (2, 2, 5)]]}

def serial_obs():
    out = []
    def ob(asize, qmax, sev, ops, seq=None, tiers=("quick", "thorough")):
        d = {"ASIZE": asize, "QMAX": qmax, "OPS": ops}
        n = "serial_a%d_q%d%s" % (asize, qmax, "_sev" if sev else "")
        if sev: d["SEV"] = 1
        if seq is not None:
            d["SEQ"] = "0" + seq; n += "_seq" + seq
        out.append({"name": n, "harness": "serial.c", "src": ["database.c", "conf.c", "mem.c"],
            "rename": ["calloc", "free", "waitpid", "memcpy"], "unwind": 9, "config": {"SERIAL_GROW_SIZE": 2},
            "defs": d, "tiers": list(tiers), "timeout": 800,
            "bounds": "any queue of 0..%d jobs anywhere in an array of %d entries (growth 2, limit %d), any 0..2 running jobs of 4 jobs of 2 users, then %s, then the queue is drained; forks may fail" % (
                asize, asize, qmax, "any one of addition, start, end of a job, fcrontab removal" if seq is None else
                "the operations " + ", ".join(["addition", "start", "end", "removal"][int(c)] for c in reversed(seq)))})
    for a, q, s in [(3, 5, 0), (3, 5, 1), (3, 3, 1), (2, 1, 0), (4, 5, 1)]:
        ob(a, q, s, 1)
    for x in "0123":
        for y in "0123":
            ob(3, 6, 1, 2, y + x, ("quick", "thorough") if x + y in ("00", "13", "30", "22") else ("thorough",))
    return out
CHECKS["C09"] = {"obligations": serial_obs()}

CHECKS["C22"] = {"obligations": [
    {"name": "signals", "harness": "signals.c", "src": [("fcron.c", {"main": "fcron_main"})], "unwind": 6,
     "rename": ["exit", "sigaction/3", "remove"], "defs": {"BUDGET": 3, "ROUNDS": 2}, "thorough_defs": {"BUDGET": 5, "ROUNDS": 3},
     "bounds": "up to 3 (thorough 5) signals of 5 kinds, delivered before, in or after any of the daemon's actions over 2 (thorough 3) rounds of signal handling"}]}
CHECKS["C23"] = {"obligations": [
    {"name": "select" + ("_%d" % b if b else ""), "harness": "select.c", "src": ["select.c"], "unwind": 18, "rename": ["select"], "thorough_defs": {"OPS": o2}, "max_unwind": 1100,
     "defs": {"BASE": b, "OPS": o}, "fn_loops": {"select_rm_read": [b + 18]},
     "bounds": "every sequence of %d (thorough %d) registrations, removals and waits over descriptors %d..%d, any outcome of the wait" % (o, o2, b, b + 11)}
    for b, o, o2 in [(0, 6, 9), (56, 4, 6)]]}

CHECKS["C25"] = {"obligations": [
    {"name": "pipe_" + n, "harness": "pipe.c", "src": ["job.c"], "unwind": 11, "rename": ["read", "write", "sleep"],
     "defs": {"WR": i, "N": 4, "EV": 6}, "thorough_defs": {"N": 6, "EV": 9},
     "bounds": "transfers of 1..4 (thorough 6) bytes over at most 6 (thorough 9) system calls, each with any outcome (partial, interrupted, end, error)"}
    for i, n in enumerate(["read", "write"])]}
CHECKS["C24"] = {"obligations": [
    {"name": "asuser_" + n, "harness": "asuser.c", "src": ["subs.c"], "unwind": 4, "defs": {"OPN": i},
     "rename": ["geteuid", "getegid", "seteuid", "setegid", "open", "fstat", "close", "remove", "rename"],
     "bounds": "any identities, any flags, any outcome of every system call"} for i, n in enumerate(["open", "remove", "rename"])]}
CHECKS["C13"] = {"obligations": [
    {"name": "allow_table", "harness": "allow.c", "src": ["allow.c", "subs.c"], "unwind": 12, "rename": ["fopen", "fgets", "getpwnam"],
     "config": {"LINE_LEN": 8}, "defs": {"LINES": 1, "L": 4},
     "bounds": "any presence and content of the two files: one line of up to 4 bytes over blanks, '#' and the letters of the user's name and of \"all\""},
    {"name": "allow_lines", "harness": "allow.c", "src": ["allow.c", "subs.c"], "unwind": 12, "rename": ["fopen", "fgets", "getpwnam"],
     "config": {"LINE_LEN": 8}, "defs": {"LINES": 2, "L": 5, "ONEFILE": 1}, "thorough_defs": {"LINES": 3, "L": 6},
     "bounds": "any content of one of the two files, the other one being absent: up to 2 lines of up to 5 bytes (thorough 3 of 6)"}]}
CHECKS["C16"] = {"obligations": [
    {"name": n, "harness": "mailaddr.c", "src": ["mail.c", "mem.c"], "unwind": 26, "rename": ["snprintf", "calloc", "free"],
     "scale_macros": {"MAIL_LINE_LEN_MAX": 17}, "defs": {"PART": i}, "thorough": {"scale_macros": {"MAIL_LINE_LEN_MAX": 21}},
     "bounds": "every display name of up to 13 (thorough 17) bytes with the line length scaled down to 17 (thorough 21), %s" % b}
    for i, (n, b) in enumerate([("displayname", "any bytes but a newline"), ("mailbox", "user and host of up to 4 bytes each")])]}
CHECKS["C26"] = {"obligations": [
    {"name": "log_" + n, "harness": "logmsg.c", "src": ["log.c"], "unwind": 50, "config": {"MAX_MSG": 20},
     "rename": ["calloc", "free", "vsnprintf", "syslog", "openlog", "closelog", "strerror", "send"], "defs": {"FN": i},
     "bounds": "every message of up to 25 bytes and error text of up to 7, with the maximum length scaled down to 20; syslog on or off; memory available or not"}
    for i, n in enumerate(["error", "error_e", "explain", "warn_e", "send_msg_fd", "warn_fd"])]}
def field_obs():
    out = []
    for n, mx, text, q, t in [("minutes", 59, 0, 3, 4), ("hours", 23, 0, 4, 5), ("days", 31, 0, 4, 5), ("months", 12, 0, 4, 5), ("dow", 7, 0, 4, 5),
                              ("small", 9, 0, 5, 6), ("month_names", 12, 1, 5, 7), ("dow_names", 7, 1, 5, 7), ("junk", 9, 0, 4, 5)]:
        bits = 12 if mx == 12 else mx + 1
        d = {"MAXV": mx, "TEXT": text}
        if n == "junk": d["JUNK"] = 1
        out.append({"name": "field_" + n, "harness": "field.c", "src": ["fileconf.c"], "rename": ["fprintf"],
            "unwind": 2, "max_unwind": 96, "quick_defs": {"LEN": q}, "thorough_defs": {"LEN": t}, "defs": d,
            "fn_loops": {"read_field": [bits + 1] * 3 + [2, 3, 3], "get_num": [4, 13, 2 if n == "junk" else 1, 3]} if not text else {"read_field": [bits + 1] * 3 + [2, 3, 3], "get_num": [4, 13, 1, 2]},
            "loops": dict([("strlen.0", 4), ("strncmp.0", 4)] + [("vf_main.%d" % i, max(bits, 9) + 2) for i in range(3)] + [("meaning.%d" % i, 14) for i in range(3)] + [("range.%d" % i, bits + 2) for i in range(3)]),
            "bounds": "every field text of %d (thorough %d) characters over %s" % (q, t, "the alphabet of the grammar (digits * , - / ~ . and one other)" if not text else "letters and , - 1 ~ /")})
    return out
CHECKS["C01"] = {"obligations": field_obs()}

CHECKS["C18"] = {"obligations": [
    {"name": "time_" + n, "harness": "gettime.c", "src": ["fileconf.c"], "unwind": 3, "max_unwind": 60, "checks": "std", "defs": d, "sat": "cadical",
     "thorough_defs": {"LEN": 5} if "LEN" in d else {}, "fn_loops": {"get_time": l}, "loops": {"vf_main.%d" % i: 40 for i in range(4)}, "bounds": b}
    for n, d, l, b in [
        ("short", {"LEN": 4, "REJ": 1}, [3, 5, 3], "every text of 4 (thorough 5) characters, with numbers of up to 2 digits, over digits, units, blanks, ')' and others"),
        ("units", {"SHAPE": '"1?2?3?45**"', "REJ": 1}, [3, 6, 3], "the values 1?2?3?45 with any units, followed by any two characters"),
        ("units2", {"SHAPE": '"70?9?031?1?8"'}, [4, 6, 3], "the values 70?9?031?1?8 with any units"),
        ("number", {"SHAPE": '"nnnn*"', "REJ": 1}, [11, 2, 3], "every number of 4 digits with any character after it"),
        ("limit", {"SHAPE": '"214748nnnn?"', "NOREAD": 2}, [11, 2, 3], "the numbers around the biggest 31-bit number"),
        ("big", {"SHAPE": '"99999999999999nnnnnn?"', "NOREAD": 1}, [22, 2, 3], "every number of 20 digits beginning with fourteen 9, with any unit"),
        ("big2", {"SHAPE": '"9223372036854775nnn?"', "NOREAD": 1}, [22, 2, 3], "every number of 19 digits around the biggest 64-bit number, with any unit")]]}

def opt_obs():
    base = {"harness": "opts.c", "src": ["fileconf.c", ("mem.c", {})], "rename": ["fprintf", "getuid", "getpwnam", "strndup"], "unwind": 3, "max_unwind": 60,
            "fn_loops": {"read_opt": [22, 1, 4], "get_num": [4, 14, 8, 8], "get_time": [3, 3, 3], "option_strlen": [8]},
            "loops": dict([("strcmp.0", 26), ("strncmp.0", 7), ("put.0", 26), ("start.0", 5), ("h_strndup.0", 9), ("h_strndup.1", 9), ("start.1", 5), ("unchanged.0", 5), ("unchanged.1", 5), ("check.0", 8),
                           ("boolean.0", 7), ("boolean.1", 7), ("eq.0", 26), ("tenths.0", 9), ("strlen.0", 26), ("bzero.0", 200)] + [("vf_main.%d" % i, 34) for i in range(6)])}
    out = []
    def add(name, defs, bounds, **k): out.append(dict(base, name=name, defs=defs, bounds=bounds, **k))
    for g in range(4):
        add("bool_%d" % g, {"PART": 0, "GROUP": g}, "any state of the line; no value, or any value of 7 characters over the letters of the documented ones")
    add("num", {"PART": 1, "NCHARS": 4, "NAMES": '"r","runfreq","n","nice","jitter","tzdiff"'}, "any state, user, and value of 4 characters over digits, - ) x and blank")
    add("num5", {"PART": 1, "NCHARS": 6, "NAMES": '"r"'}, "any state, and value of 6 characters over digits, - ) x and blank")
    add("num_period", {"PART": 1, "NCHARS": 3, "PERIOD": 1, "NAMES": '"r","runfreq"'}, "%-lines: any value of 3 characters")
    add("lavg", {"PART": 2, "NCHARS": 5}, "any state; lavg1, lavg5 and lavg15 with any value of 5 characters, and lavg with 3 values of 2 characters")
    add("time", {"PART": 3}, "any state, one digit and any unit (the other ones are in C18)")
    for i, n in enumerate(["mailto", "mailfrom", "timezone", "runas"]):
        add("string_" + n, {"PART": 4, "NAME": i}, "any string of up to 4 characters over letters, blanks, quotes, ) and @; names of users of up to 2 characters", config={"USER_NAME_LEN": 2})
    add("keywords", {"PART": 5}, "lines which are not %-lines: reset, keywords of %-lines and some unknown names")
    add("keywords_period", {"PART": 5, "PERIOD": 1}, "%-lines: all their keywords, reset and some unknown names")
    add("several", {"PART": 6}, "13 texts with several options (correct, wrong, unclosed, unknown), with any state of the line", fn_loops={"read_opt": [22, 6, 4], "get_num": [4, 14, 8, 8], "get_time": [6, 3, 3], "option_strlen": [8]})
    return out
CHECKS["C17"] = {"obligations": opt_obs()}

def table_obs():
    base = {"harness": "table.c", "src": ["fileconf.c", "mem.c", "cl.c", "subs.c"], "unwind": 10, "max_unwind": 60, "rename": ["fprintf", "getuid", "getpwnam", "getc", "strdup", "fdopen", "rewind", "fflush"], "loops": {"bzero.0": 200}}
    out = []
    def add(name, defs, bounds, **k): out.append(dict(base, name=name, defs=defs, bounds=bounds, **k))
    add("get_line", {"PART": 0, "N": 8}, "two lines of any file of 8 bytes (every second one a newline, \\ or a letter), with a buffer of 5 bytes")
    for i, n in enumerate([7, 6, 5, 5, 5, 5]):
        add("env_%d" % i, {"PART": 1, "WHICH": i, "N": n}, "any assignment of %d characters%s" % (n, ", after the name of a special variable" if i else ""), config={"LINE_LEN": 20})
    add("username", {"PART": 2, "N": 6}, "any command of up to 6 characters; names of users of 2", config={"USER_NAME_LEN": 4})
    add("line_td", {"PART": 3, "KIND": 0}, "the 5 forms of lines, any outcome of reading their parts", stub=["read_field", "get_time", "read_opt"])
    add("line_freq", {"PART": 3, "KIND": 1}, "the 3 forms of @-lines, any outcome of reading their parts", stub=["read_field", "get_time", "read_opt"])
    for n, k, nf in [("hourly", "0x40 | 0x400", 1), ("daily", "0x80 | 0x400", 2), ("monthly", "0x10000 >> 8 | 0x400", 3), ("midweekly", "0x20000 >> 8 | 0xc00", 2), ("hours", "0x20", 5)]:
        add("line_" + n, {"PART": 3, "KIND": 2, "KIND_BITS": k, "NFIELDS": nf}, "%-lines with this keyword, any outcome of reading their parts", stub=["read_field", "get_time", "read_opt"])
    for f in (0, 5):
        add("shortcuts_%d" % f, {"PART": 5, "FROM": f}, "all shortcuts and some other words, followed by anything", weight=9)
    add("shortcuts_no", {"PART": 6, "FROM": 9}, "words which are not shortcuts")
    add("read_file", {"PART": 4, "L": 5}, "any file of up to 5 lines, any outcome of reading them, with a maximum of 2 entries", config={"MAXENTRIES": 2, "LINE_LEN": 8},
        stub=["get_line", "read_shortcut", "read_freq", "read_arys", "read_period", "read_env", "read_opt"])
    return out
CHECKS["C29"] = {"obligations": table_obs()}

def sched_obs():
    base = {"harness": "sched.c", "src": ["database.c"], "unwind": 4, "max_unwind": 70, "rename": ["mktime", "localtime", "rand", "getenv"], "stub": ["insert_nextexe", "set_wday"],
            "loops": {"symbits.0": 9, "vf_main.0": 40, "vf_main.1": 70, "vf_main.2": 70, "vf_main.3": 70, "vf_main.4": 70}, "config": {"MAXYEAR_SCHEDULE_TIME": 3}, "one_backedge": True, "sat": "cadical"}
    out = []
    def add(name, defs, bounds, loops, **k): out.append(dict(base, name=name, defs=dict(defs, STUB_WDAY=1), bounds=bounds, fn_loops={"set_next_exe": loops}, **k))
    #                   the 5 fields (mon, day, day or dow, hour, min), then hours, days and months which are tried
    for n, o in [("and", 0), ("or", 1)]:
        add("times_" + n, {"SLICE": 0, "DAYOR": o, "BASEYEAR": 101, "YEARS": 1}, "any sets of minutes and hours", [2, 2, 2, 25, 61, 3, 3, 3])
        fn = lambda ds, it, mons=3: [13, 2 if o or ds >= 3 else 33, 33 if o else 1, 3, 3, 2, 3 if o else it, mons]
        dates = {"SLICE": 1, "DAYOR": o, "BASEYEAR": 103, "YEARS": 1, "MINHOUR": 22, "MINMIN": 58}
        for m, ds, it in [("two", 1, 5), ("week", 2, 9), ("all", 3, 9)]:
            q = {} if o or ds == 3 else {"MONLO": 11, "MONHI": 11} if ds == 2 else {"BASEYEAR": 104, "MONLO": 0, "MONHI": 1}
            add("dates_%s_%s" % (n, m), dict(dates, DAYSET=ds, WITNESS=1), "any months, %s, any days of the week, the first and last two hours and minutes" % {"two": "any two days", "week": "any 7 days in a row", "all": "all days"}[m],
                fn(ds, it), quick_defs=q)
        add("months_" + n, dict(dates, DAYSET=3, WITNESS=12, FIXSETS="L.cl_dow[0]=0xff;"), "any months, all days, something matching within a year", fn(3, 3))
        add("leap_" + n, dict(dates, DAYSET=1, WITNESS=12, YEARS=4, FIXSETS="L.cl_mons[0]=2;L.cl_mons[1]=0;L.cl_days[0]=L.cl_days[1]=L.cl_days[2]=0;L.cl_days[3]=0x20;L.cl_dow[0]=%s;" % ("0" if o else "0xff")), "the 29th of February",
              fn(1, 3, 5), config={"MAXYEAR_SCHEDULE_TIME": 6})
        add("never_" + n, dict(dates, DAYSET=1, NEVER=1, YEARS=3, FIXSETS="L.cl_mons[0]=2;L.cl_mons[1]=0;L.cl_days[0]=L.cl_days[1]=L.cl_days[2]=0;L.cl_days[3]=0xc0;L.cl_dow[0]=%s;" % ("0" if o else "0xff")), "the 30th and 31st of February",
              fn(1, 3, 7))
    cal = {"harness": "sched_cal.c", "src": ["database.c"], "unwind": 13, "max_unwind": 200, "rename": ["mktime", "localtime", "rand", "getenv"], "sat": "cadical", "one_backedge": True}
    out.append(dict(cal, name="months_len", defs={"PART": 0}, bounds="every month from 1970 to 2400"))
    for fr, n in [(100, 4), (104, 6), (124, 2), (199, 2)]:
        out.append(dict(cal, name="wday_%d" % (1900 + fr), defs={"PART": 1, "FROM": fr, "N": n}, unwind=110 if fr > 110 else 14, tiers=["quick", "thorough"] if fr < 124 else ["thorough"], timeout=800, bounds="every day of the years %d to %d" % (1900 + fr, 1900 + fr + n - 1)))
    out.append(dict(cal, name="dst", defs={"PART": 2}, bounds="any time within a day of a change of the zone's offset by 30 or 60 minutes, in either direction"))
    out.append(dict(cal, name="jitter", defs={"PART": 3, "STUB_WDAY": 1}, stub=["insert_nextexe", "set_wday"], bounds="any jitter and random number", loops={"vf_main.%d" % i: 61 for i in range(5)}, unwind=3))
    return out
CHECKS["C02"] = {"obligations": sched_obs()}

def per_obs():
    base = {"harness": "sched_per.c", "src": ["database.c"], "unwind": 4, "max_unwind": 70, "rename": ["mktime", "localtime", "rand", "getenv"], "stub": ["insert_nextexe", "set_wday"],
            "loops": dict([("symbits.0", 9), ("bzero.0", 60)] + [("vf_main.%d" % i, 70) for i in range(6)]), "config": {"MAXYEAR_SCHEDULE_TIME": 3}, "one_backedge": True, "sat": "cadical"}
    out = []
    def add(name, defs, bounds, loops, **k): out.append(dict(base, name=name, defs=dict(defs, STUB_WDAY=1, BASEYEAR=103), bounds=bounds, fn_loops={"set_next_exe": loops, "move_time_to": k.pop("move", [1, 1])}, **k))
    #                     fields mon, day, day or dow, hour, min, then hours, days and months which are tried
    nz = "{int z=0;for(i=0;i<8;i++)z|=L.cl_mins[i];VF_ASSUME(z);}"
    nh = "VF_ASSUME(L.cl_hrs[0]|L.cl_hrs[1]|L.cl_hrs[2]);"
    nd = "VF_ASSUME((L.cl_days[0]&0xfe)|L.cl_days[1]|L.cl_days[2]|(L.cl_days[3]&0xf));"
    add("hourly", {"PERIOD": 1, "DAYOR": 0, "FIXSETS": nz}, "any set of minutes", [2, 2, 1, 2, 61, 3, 3, 3])
    add("midhourly", {"PERIOD": 2, "DAYOR": 0, "FIXSETS": nz}, "any set of minutes", [2, 2, 1, 2, 61, 3, 3, 3])
    for i, n in [(3, "daily"), (4, "middaily"), (7, "weekly"), (8, "midweekly")]:
        add(n, {"PERIOD": i, "DAYOR": 0, "FIXSETS": nz + nh}, "any sets of minutes and hours", [2, 2, 1, 25, 61, 3, 3, 3])
    for i, n in [(5, "monthly"), (6, "midmonthly")]:
        add(n, {"PERIOD": i, "DAYOR": 0, "FIXSETS": nz + nh + nd + "for(i=2;i<22;i++)bit_clear(L.cl_hrs,i);for(i=2;i<58;i++)bit_clear(L.cl_mins,i);VF_ASSUME(L.cl_hrs[0]&3);VF_ASSUME(L.cl_mins[0]&3);"}, "any sets of minutes, hours and days", [2, 33, 1, 3, 3, 2, 3, 3])
    fm, fh, fd, fo, fw = "memset(L.cl_mins,255,7);L.cl_mins[7]=15;", "memset(L.cl_hrs,255,3);", "memset(L.cl_days,255,4);", "L.cl_mons[0]=255;L.cl_mons[1]=15;", "L.cl_dow[0]=255;"
    m3, h3 = "VF_ASSUME(!((L.cl_mins[0]&0xf8)|L.cl_mins[1]|L.cl_mins[2]|L.cl_mins[3]|L.cl_mins[4]|L.cl_mins[5]|L.cl_mins[6]|(L.cl_mins[7]&1)));", "VF_ASSUME(!((L.cl_hrs[0]&0xf8)|L.cl_hrs[1]|(L.cl_hrs[2]&0x1f)));"
    for dor in (0, 1):
        n = "_dayor" if dor else ""
        add("ivl_min" + n, {"IGN": 0, "DAYOR": dor, "FIXSETS": nz + nh + m3 + fd + fo + fw}, "any hours, minutes 0, 1, 2, 57, 58 and 59", [2, 2, 1, 25, 61, 3, 3, 3], move=[6, 4])
    add("ivl_hrs0", {"IGN": 0, "DAYOR": 0, "FIXSETS": fm + nh + h3 + fd + fo + fw}, "every minute, hours 0, 1, 2, 21, 22 and 23", [2, 2, 1, 25, 2, 3, 3, 3], move=[61, 8])
    add("ivl_hrs", {"IGN": 1, "DAYOR": 0, "FIXSETS": nz + nh + h3 + fd + fo + fw}, "any minutes, hours 0, 1, 2, 21, 22 and 23", [2, 2, 1, 25, 61, 3, 3, 3], move=[1, 8])
    jm = {"BLO": "0,1,0,0", "BHI": "2,31,23,59", "WITNESS": "e.tm_mon<=b.tm_mon+1"}
    add("ivl_days", dict(jm, IGN=3, DAYOR=0, FIXSETS=fm + fh + fo + fw, WITNESSX="x.tm_mon<=b.tm_mon+1&&x.tm_mday<=(x.tm_mon==b.tm_mon?31:2)"),
        "any days, every minute; January to March", [3, 33, 1, 2, 2, 2, 3, 4], move=[1, 35])
    for dor in (0, 1):
        add("ivl_dow" + ("_dayor" if dor else ""), dict(jm, IGN=3, DAYOR=dor, FIXSETS=fm + fh + fo + (fd if not dor else ""), WITNESSX="x.tm_mon<=b.tm_mon+1&&(x.tm_mon==b.tm_mon?x.tm_mday<=b.tm_mday+9:b.tm_mday>=20&&x.tm_mday<=8)"),
            "any days of the week%s, every minute; January to March" % (" or days" if dor else ""), [3, 9 if not dor else 3, 1 if not dor else 33, 2, 2, 2, 11, 4], move=[1, 20])
    add("rnd_ivl", {"RANDOM": 1, "IGN": 0, "DAYOR": 0, "FIXSETS": nz + nh + m3 + fd + fo + fw}, "random lines: any hours, minutes 0, 1, 2, 57, 58 and 59", [2, 2, 1, 25, 61, 3, 3, 3], move=[6, 4])
    add("rnd_hourly", {"RANDOM": 1, "PERIOD": 1, "DAYOR": 0, "FIXSETS": nz + fh + fd}, "random lines: any minutes", [2, 2, 1, 2, 61, 3, 3, 3], move=[61, 3])
    add("rnd_daily", {"RANDOM": 1, "PERIOD": 3, "DAYOR": 0, "FIXSETS": nz + nh + m3 + fd}, "random lines: any hours, minutes 0, 1, 2, 57, 58 and 59", [2, 2, 1, 25, 61, 3, 3, 3], move=[6, 4])
    return out
CHECKS["C03"] = {"obligations": per_obs()}

def queue_obs():
    out = []
    for name, op, ops, n, thor in [("insert", 0, 1, 5, {"OPS": 2, "N": 4}), ("remove", 1, 1, 5, {"OPS": 2}), ("due", 2, 1, 3, {"N": 3}), ("delete", 3, 1, 4, {"N": 5}), ("mixed", -1, 2, 2, {"N": 3})]:
        out.append({"name": "queue_" + name, "harness": "queue.c", "src": ["database.c", "conf.c"], "rename": ["calloc", "free"],
            "stub": ["set_next_exe", "add_lavg_job", "add_serial_job", "run_normal_job"], "defs": {"OP": op, "OPS": ops, "N": n}, "thorough_defs": thor, "unwind": n + 2, "max_unwind": 20, "sat": "cadical",
            "bounds": "any sorted queue of up to %d lines, %d operation%s" % (n, ops, "s" if ops > 1 else "")})
        if name == "mixed": out[-1]["tiers"] = ["thorough"]
    out.append({"name": "reload", "harness": "reload.c", "src": ["conf.c"], "rename": ["calloc", "remove"], "stub": ["read_file", "delete_file", "save_file", "insert_nextexe", "job_queue_remove", "env_list_destroy"], "unwind": 6, "max_unwind": 40, "loops": {"memcmp.0": 30},
        "bounds": "tables of two lines before and after: any commands, fields (one bit in each), options, times, time differences and zones"})
    return out
CHECKS["C08"] = {"obligations": queue_obs()}

def save_obs():
    out = []
    for i, n in enumerate(["type", "str", "strn", "lint"]):
        out.append({"name": "save_" + n, "harness": "saverec.c", "src": ["save.c"], "rename": ["read", "write", "memcpy"], "defs": {"KIND": i, "RECS": 1, "FAULT": 1, "READ": 0}, "config": {"WRITE_BUF_LEN": 16},
            "thorough_defs": {"RECS": 2}, "unwind": 24, "max_unwind": 100, "fn_loops": {"write_buf_to_disk": [5]},
            "bounds": "a buffer of 16 bytes in any state, one (thorough two) fields of any content, strings of up to 22 bytes, any two partial writes, any failure"})
    out.append({"name": "read_fields", "harness": "saverec.c", "src": ["conf.c"], "rename": ["read", "calloc", "free", "memcpy"], "defs": {"READ": 1}, "config": {"WRITE_BUF_LEN": 16}, "unwind": 18, "stub": ["free_line"],
            "bounds": "files of up to 12 bytes of any content, any size, any failure"})
    base = {"harness": "saveload.c", "src": ["conf.c", "save.c"], "rename": ["read", "fopen", "fileno", "fstat", "ferror", "calloc", "free", "fdatasync", "getpwuid"], "unwind": 10, "max_unwind": 60, "loops": dict(("vf_main.%d" % i, 50) for i in range(30)),
        "stub": ["strcmp_until", "save_type", "save_str", "save_strn", "save_lint", "write_buf_to_disk", "read_type", "read_strn", "add_line_to_file", "delete_file", "free_line", "env_list_first", "env_list_next", "env_list_putenv", "env_list_init", "strdup2", "xfclose_check"]}
    for m, n in [(0x7ff, "all_freq"), (0x6ff, "all_fields"), (0x100, "none_freq"), (0, "none_fields"), (0x2aa, "odd_fields"), (0x555, "even_freq")]:
        out.append(dict(base, name="roundtrip_" + n, defs={"CORRUPT": 0, "LINES": 1, "MASK": m, "MAXR": 1}, thorough_defs={"LINES": 2}, fn_loops={"read_file": [24, 9]}, bounds="a table of one line (thorough 2): any options, values and sets; which of the optional values are there: mask %#x" % m))
    cor = [dict(base, name="corrupt_head", defs={"CORRUPT": 1, "MAXR": 4}, unwind=14, bounds="files of up to 4 fields of any type, size and content, any failure"),
           dict(base, name="corrupt_lines", defs={"CORRUPT": 1, "MAXR": 8, "FIRST3": 1}, unwind=14, bounds="files whose header is right, then up to 5 fields of any type, size and content, any failure")]
    cor.append({"name": "add_line", "harness": "addline.c", "src": ["conf.c"], "rename": ["free", "strcspn"], "stub": ["set_next_exe_startup", "strdup2", "env_list_destroy"], "unwind": 8, "max_unwind": 30,
        "bounds": "any line: fields there or not, addresses of up to 3 characters, any delay and user"})
    return out, cor + [dict(out[4])]
CHECKS["C05"] = {"obligations": save_obs()[0]}
CHECKS["C07"] = {"obligations": save_obs()[1]}

def safe_obs():
    sub = ["open_as_user", "remove_as_user", "rename_as_user", "xclose", "xclose_check"]
    return [{"name": "save_table", "harness": "savesafe.c", "src": ["save.c"], "rename": ["write", "fchown", "fdatasync", "memcpy"], "defs": {"KIND": 0}, "config": {"WRITE_BUF_LEN": 48, "PATH_LEN": 16},
        "stub": sub + ["env_list_first", "env_list_next", "is_selinux_enabled", "setfscreatecon"], "unwind": 42, "max_unwind": 60, "fn_loops": {"write_buf_to_disk": [5]},
        "bounds": "a table without or with a line, a buffer of 48 bytes (3 writes), names of up to 20 characters with a maximum of 16, every call fails or not, one partial write"},
        {"name": "copy_source", "harness": "savesafe.c", "src": [("fcrontab.c", {"main": "program_main"})], "rename": ["write", "read", "fchown", "fchmod", "lseek"], "defs": {"KIND": 1}, "config": {"LINE_LEN": 16, "PATH_LEN": 16},
        "stub": sub, "unwind": 42, "max_unwind": 60, "fn_loops": {"copy_src": [5]},
        "bounds": "a source read in up to 3 parts of up to 6 bytes, names of up to 20 characters with a maximum of 16, every call fails or not, one partial write"}]
CHECKS["C06"] = {"obligations": safe_obs()}

def up_obs():
    b = {"harness": "sched_up.c", "src": ["database.c"], "unwind": 14, "max_unwind": 30, "sat": "cadical", "rename": ["localtime"]}
    st = ["switch_timezone", "switch_back_timezone", "insert_nextexe"]
    m = ["set_next_exe", "set_next_exe_notrun", "mail_notrun_time_t", "add_lavg_job", "add_serial_job"]
    rng = "any options, times, delays, counts, kind of start and time asleep"
    return [dict(b, name="start_elapsed", defs={"WHAT": 0, "TD": 0}, stub=st + m, bounds=rng), dict(b, name="start_dated", defs={"WHAT": 0, "TD": 1}, stub=st + m, bounds=rng),
        dict(b, name="delay", defs={"WHAT": 1, "TD": 0}, stub=st, fn_loops={"set_next_exe": [1, 1, 1, 1, 1, 1, 1, 1]}, bounds="any delay, time and base"),
        dict(b, name="missed", defs={"WHAT": 2, "TD": 0}, stub=st + ["mail_notrun"], bounds="any times"),
        dict(b, name="missed_period", defs={"WHAT": 3, "TD": 0}, stub=st + ["mail_notrun", "set_next_exe", "move_time_to", "mktime_no_dst"], bounds="any times, time difference and reason")]
CHECKS["C04"] = {"obligations": up_obs()}

RUNJOB = {"harness": "runjob.c", "src": ["job.c"], "stub": ["create_mail"], "unwind": 12, "max_unwind": 40, "checks": "std",
    "rename": ["fork", "pipe", "execle", "getpwnam", "initgroups", "setgid", "setuid", "chdir", "access", "dup2", "read", "write", "waitpid", "exit", "nice", "umask", "signal", "fdopen", "fgets", "fputs",
               "fprintf", "ftell", "fseek", "fileno", "lseek", "freopen", "free", "getenv", "snprintf", "setlinebuf", "sleep"]}
CHECKS["C12"] = {"obligations": [dict(RUNJOB, name="run_identity", defs={"PART": 0}, bounds="every outcome of every call from run_job() to the execution of the command, in each of the three processes; any options, priority, identity")]}
def env_obs():
    out = []
    for n, (var, vlen, conf, ok, tz, path) in {"plain": ("A", 1, "/d", 1, 0, 1), "empty": ("A", 0, "/d", 1, 1, 0), "path": ("PATH", 1, "/d", 1, 1, 1), "home": ("HOME", 1, "/d", 1, 0, 1), "shell": ("SHELL", 1, "/d", 1, 0, 1),
            "badshell": ("SHELL", 1, "/d", 0, 0, 1), "noshell": ("SHELL", 0, "/d", 1, 0, 1), "pwshell": ("A", 1, "", 1, 0, 1), "content": ("CONTENT_TYPE", 1, "/d", 1, 0, 1), "tz": ("TZ", 1, "/d", 1, 1, 1)}.items():
        out.append({"name": "env_" + n, "harness": "jobenv.c", "src": ["job.c", "env_list.c", "subs.c"], "rename": ["snprintf", "access", "getenv", "free"], "unwind": 32, "max_unwind": 64,
            "stub": ["alloc_safe", "realloc_safe", "strdup2"], "defs": {"VAR": '"%s"' % var, "VLEN": vlen, "SHELLCONF": '"%s"' % conf, "SHELLOK": ok, "HASTZ": tz, "HASPATH": path},
            "bounds": "a table with one setting, of the name %s and %s, any outcome of the checks" % (var, "any value of one character" if vlen else "without a value")})
    return out
CHECKS["C12"]["obligations"] += env_obs()
CHECKS["C15"] = {"obligations": [dict(RUNJOB, name="run_mail", defs={"PART": 1}, bounds="every outcome of every call from run_job() to the end of the job; any mail options, exit status, header of up to 100000 bytes, output of up to two pieces")]}
CHECKS["C15"]["obligations"] += [{"name": "mail_" + n, "harness": "createmail.c", "src": ["job.c"], "rename": ["fdopen", "fprintf", "gethostname", "free"], "unwind": 64, "max_unwind": 128, "config": {"USER_NAME_LEN": 16},
    "defs": d, "bounds": b} for n, d, b in [
    ("short", {"TOLEN": 1, "HASFROM": 0, "HASCT": 1, "HASDN": 0}, "a recipient of one character, any contents type and encoding of two characters, two settings of the environment"),
    ("long", {"TOLEN": 3, "HASFROM": 1, "HASCT": 0, "HASDN": 0}, "a recipient of three and a sender of two characters"),
    ("name", {"TOLEN": 2, "HASFROM": 1, "HASCT": 0, "HASDN": 1}, "a recipient and a sender of two characters, with a display name")]]
CHECKS["C10"] = {"obligations": [{"name": n, "harness": "lavg.c", "src": ["database.c", "subs.c"], "rename": ["localtime", "getloadavg"], "unwind": 9, "sat": "cadical", "checks": "std",
    "stub": ["set_next_exe", "set_next_exe_notrun", "mail_notrun", "switch_timezone", "switch_back_timezone", "move_time_to", "mktime_no_dst"], "defs": {"OP": op}, "thorough_defs": {"TIERLINES": 3}, "bounds": b} for n, op, b in [
    ("queue", 0, "any line and options, up to 2 jobs waiting, any limit of the queue"), ("check", 1, "up to 2 (thorough: 3) waiting jobs with any options, limits and deadlines, any three loads in steps of 0.25, any other event; forks may fail")]]}
CHECKS["C11"] = {"obligations": [{"name": n, "harness": "running.c", "src": ["database.c", "conf.c", "mem.c"], "rename": ["waitpid", "free", "fork"], "unwind": 9, "sat": "cadical", "checks": "std",
    "stub": ["set_next_exe", "job_queue_remove"], "defs": {"OP": op}, "thorough_defs": {"NRUN": 5}, "bounds": "any state of up to 3 (thorough: 5) running jobs of two lines of any kind or of no line; " + b} for n, op, b in [
    ("due", 0, "two lines in the queue, at least one of which is due; forks may fail"), ("ends", 1, "the end of one or two of them, or of another process"), ("all", 2, "the wait for the end of all jobs of a table"), ("byhand", 3, "a job run by hand"),
    ("removal", 4, "the removal of a table, and then the end of a job"), ("mail", 5, "a mail about a missed execution, and the end of a job")]]}
CHECKS["C32"] = {"obligations": [{"name": "turns", "harness": "mainloop.c", "src": [("fcron.c", {"main": "fcron_main"}), "database.c", "subs.c"], "rename": ["gettimeofday", "time"], "unwind": 24, "sat": "cadical", "checks": "std",
    "stub": ["test_jobs", "add_serial_job", "run_serial_job", "run_queue_job", "my_time", "check_signal", "reset_sig_cont", "is_system_startup", "mail_notrun", "xexit", "synchronize_dir"], "defs": {"TURNS": 3}, "thorough_defs": {"TURNS": 5},
    "bounds": "the first 3 (thorough: 5) turns of the main loop, with a normal and a serial job due at any times, any reload, end of a job, request of a client and time slept"}]}
CHECKS["C20"] = {"obligations": [{"name": n, "harness": "dyncmd.c", "src": ["fcrondyn_svr.c"], "rename": ["send", "kill", "setpriority", "getpwuid", "snprintf", "getloadavg"], "unwind": 8, "checks": "std",
    "stub": ["print_fields", "print_line"], "defs": {"OP": op}, "bounds": "any message of up to three values, complete or not, of root or any of seven users; three lines of two users and of the system, " + b} for n, op, b in [
    ("processes", 0, "up to 3 running jobs"), ("lists", 1, "up to 3 running, 2 waiting and 3 serial jobs"), ("jobs", 2, "each in the queue")]]}
CHECKS["C31"] = {"obligations": [dict({"name": n, "harness": "dynauth.c", "src": ["fcrondyn_svr.c"], "rename": ["send", "recv", "accept", "fcntl", "calloc", "shutdown", "getsockopt", "setsockopt", "getpwuid", "getspnam", "getpwnam", "crypt", "free"], "unwind": 12, "max_unwind": 170,
    "defs": {"OP": op}, "bounds": b}, **x) for n, op, b, x in [
    ("password", 0, "any message of up to 8 bytes with the maximum scaled down to 8, any number and time of failures before", {"config": {"SOCKET_MSG_LEN": 1}, "unwind": 20}),
    ("round", 1, "up to 2 (thorough: 3) connections, authenticated or not, idle for any time, any of which are ready, and a new one", {"stub": ["auth_client_password", "exe_cmd"], "config": {"SOCKET_MSG_LEN": 2}, "unwind": 34, "thorough_defs": {"NCONN": 3}}),
    ("peer", 2, "any credentials", {"stub": ["auth_client_password", "exe_cmd"]})]]}
CONF = {"harness": "conffile.c", "src": ["fcronconf.c", "subs.c"], "rename": ["fopen", "fgets", "fgetc", "getc", "fileno", "fstat", "getgrnam", "free"], "unwind": 44, "max_unwind": 70}
CONFR = dict(CONF, rename=CONF["rename"] + ["strchr"], stub=["get_word", "remove_blanks", "strdup2"])
CHECKS["C28"] = {"obligations": [dict(CONFR, name="comment", config={"LINE_LEN": 12}, thorough={"config": {"LINE_LEN": 30}}, defs={"OP": 0, "TAIL": 0, "KFROM": -3, "KTO": 1}, bounds="comments of any bytes but NUL up to the limit, of one less to three more characters than the limit scaled down to 11 (thorough: 29)"),
    dict(CONFR, name="long", config={"LINE_LEN": 12}, thorough={"config": {"LINE_LEN": 30}}, defs={"OP": 0, "TAIL": 1, "KFROM": -3, "KTO": 1}, bounds="comments of any bytes which go on with what looks like a setting where the limit, scaled down to 11 (thorough: 29), is reached"),
    dict(CONF, name="file", stub=["strdup2"], config={"LINE_LEN": 24}, defs={"OP": 2}, bounds="any error, owner, group and mode of the file"),
    dict(CONF, name="words", defs={"OP": 3}, bounds="any string of 8 ASCII characters"),
    dict(CONF, name="blanks", defs={"OP": 4}, bounds="any string of 8 ASCII characters")]
    + [dict(CONFR, name="names_%d" % i, config={"LINE_LEN": 40}, defs={"OP": 1, "FROM": i, "TO": j}, bounds="any name of %d to %d word characters, values of three characters" % (i, j)) for i, j in [(0, 4), (5, 7), (8, 9), (10, 11), (12, 16)]]}
CHECKS["C27"] = {"obligations": [{"name": "hooks", "harness": "suspended.c", "src": [], "defs": {"OP": 0}, "unwind": 8, "checks": "std", "bounds": "any outcome of every system call, any owner, mode and size of the file, any number in it, any times"},
    ] + [{"name": n, "harness": "suspended.c", "src": ["suspend.c"], "rename": ["clock_gettime", "read", "timerfd_create", "timerfd_settime"], "defs": dict(d, OP=1), "thorough_defs": t, "unwind": 20, "sat": "cadical", "bounds": b, "checks": "std"} for n, d, t, b in [
    ("clocks", {"N": 1, "UPT": 60, "RUN": 255, "SUSP": 4095}, {}, "one wait of up to 255 s with a suspension of up to 4095 s, in whole seconds"),
    ("clocks_again", {"N": 2, "UPT": 0, "RUN": 7, "SUSP": 63}, {"RUN": 15, "SUSP": 255}, "2 waits of up to 7 (thorough: 15) s with suspensions of up to 63 (thorough: 255) s between them, in whole seconds"),
    ("clocks_more", {"N": 3, "UPT": 0, "RUN": 3, "SUSP": 7}, {}, "3 waits of up to 3 s with suspensions of up to 7 s between them, in whole seconds")]] + [
    {"name": "lines", "harness": "suspended.c", "src": ["database.c"], "stub": ["set_next_exe_startup"], "defs": {"OP": 2}, "unwind": 8, "bounds": "any arrangement of up to 3 lines in up to 3 tables"}]}
SIGH = {"harness": "sighup.c", "src": [("fcronsighup.c", {"main": "program_main"})], "unwind": 10, "rename": ["time", "localtime", "fork", "open", "fdopen", "flock", "lockf", "sleep", "remove", "kill", "seteuid", "snprintf", "fprintf", "getuid", "geteuid", "getgid", "getegid", "getpwuid", "free", "exit"]}
CHECKS["C30"] = {"obligations": [dict(SIGH, name="delay" if m == 5 else "delay_%d" % m, stub=["read_pid"], config={"MAX_FCRONTAB_RELOAD_DELAY_SECONDS": m}, defs={"WHAT": 0, "MAXDELAY": m}, bounds="any time, either user, any outcome of the system calls, the longest delay set to %d s" % m) for m in (5, 60, 30)]
    + [dict(SIGH, name="users", stub=["read_pid", "sig_daemon"], defs={"WHAT": 1}, bounds="any user, allowed or not, the daemon running or not")]
    + [{"name": n, "harness": "install.c", "src": [("fcrontab.c", {"main": "program_main"})], "stub": ["copy_src"], "defs": {"WHAT": i}, "unwind": 60, "rename": ["fork", "execl", "waitpid", "exit", "open", "snprintf", "fchown", "seteuid", "setegid", "geteuid", "getegid"], "bounds": "any outcome of reading, copying, writing, removing and of the system calls"} for i, n in enumerate(["installed", "removed"])]}
CHECKS["C14"] = {"obligations": [{"name": "env_" + n, "harness": "env.c", "src": ["env_list.c", "subs.c"], "rename": ["snprintf", "free"], "defs": {"OP": i},
    "stub": ["alloc_safe", "realloc_safe", "strdup2", "u_list_init", "u_list_copy", "u_list_first", "u_list_next", "u_list_end_iteration", "u_list_add", "u_list_destroy"], "unwind": 16, "max_unwind": 40,
    "quick_defs": {"N": 2}, "thorough_defs": {"N": 3}, "bounds": "any list of 2 (thorough 3) settings, names of up to 2 characters, values of up to 2"} for i, n in enumerate(["set", "put", "get", "copy", "export"])]}

#!/usr/bin/env python3
"""Solver-based checks of fcron.  usage: check.py PROPERTY [--tier quick|thorough] [--only OBL] [--keep]

For every obligation of the property: compile the harness together with the real sources
of /repo's working tree (goto-cc), let CBMC decide every assertion for all inputs within
the stated bounds, check that the reachability twins are falsified (no vacuous proof), and
replay every counterexample natively (gcc, ASan+UBSan) on the same real sources before
reporting it."""
import argparse, concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, VERIF)
from obligations import CHECKS

PATHDEFS = {"PIDFILE": "/var/run/fcron.pid", "REBOOT_LOCK": "/var/run/fcron.reboot",
            "SUSPEND_FILE": "/var/run/fcron.suspend", "FIFOFILE": "/var/run/fcron.fifo",
            "ETC": "/etc", "FCRON_SHELL": "/usr/bin/sh", "FCRON_CONF": "fcron.conf",
            "FCRONTABS": "/var/spool/fcron", "FCRON_ALLOW": "fcron.allow",
            "FCRON_DENY": "fcron.deny", "SENDMAIL": "/usr/sbin/sendmail",
            "FCRON_EDITOR": "/usr/bin/sensible-editor", "MAILDISPLAYNAME": "Fcron Daemon",
            "BINDIREX": "/usr/bin"}
T0 = time.time()


def gen_config(dst, over=None):
    over = dict(over or {})
    vals = {}
    for l in open(os.path.join(VERIF, "lib/config_values.txt")):
        l = l.rstrip("\n")
        if l:
            k, _, v = l.partition(" ")
            vals[k] = v
    out = []
    for l in open(os.path.join(REPO, "config.h.in"), errors="replace"):
        m = re.match(r"\s*#\s*undef\s+(\w+)", l)
        if m and m.group(1) in vals:
            l = "#define %s %s\n" % (m.group(1), vals[m.group(1)])
        elif m:
            l = "/* #undef %s */\n" % m.group(1)
        m = re.match(r"\s*#\s*define\s+(\w+)\s", l)
        if m and m.group(1) in over:
            l = "#define %s %s %s\n" % (m.group(1), over.pop(m.group(1)), "/*" if "/*" in l and "*/" not in l else "")
        out.append(l)
    out += ["#undef %s\n#define %s %s\n" % (k, k, v) for k, v in over.items()]
    with open(os.path.join(dst, "config.h"), "w") as f:
        f.writelines(out)


def limits(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    return f


def run(cmd, timeout, mem_gb=14, cwd=None, stdout_to=None, env=None, limit=True):
    t = time.time()
    out = open(stdout_to, "wb") if stdout_to else subprocess.PIPE
    try:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.PIPE, cwd=cwd, env=env,
                             stdin=subprocess.DEVNULL,
                             preexec_fn=limits(mem_gb) if limit else os.setsid)
        try:
            o, e = p.communicate(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            o, e = p.communicate()
            return None, o or b"", e or b"", time.time() - t
        return p.returncode, o or b"", e or b"", time.time() - t
    finally:
        if stdout_to:
            out.close()


def repo_of(ob, work):
    """/repo itself, or a copy of its sources in which size constants are scaled down"""
    sc = ob.get("scale_macros")
    if not sc:
        return REPO
    d = os.path.join(work, "src_" + ob["name"])
    if not os.path.isdir(d):
        os.makedirs(d + ".tmp", exist_ok=True)
        for f in os.listdir(REPO):
            if not f.endswith((".c", ".h")) or f == "config.h":
                continue
            txt = open(os.path.join(REPO, f), errors="replace").read()
            for k, v in sc.items():
                txt = re.sub(r"(?m)^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)\(?\d+\)?" % k, r"\g<1>%s" % v, txt)
            with open(os.path.join(d + ".tmp", f), "w") as g:
                g.write(txt)
        os.rename(d + ".tmp", d)
    return d


def src_units(ob):
    for s in ob["src"]:
        if isinstance(s, str):
            yield s, {}
        else:
            yield s[0], s[1]


def common_flags(ob, work):
    inc = work
    if ob.get("config"):
        inc = os.path.join(work, "cfg_" + ob["name"])
        if not os.path.isdir(inc):
            os.makedirs(inc + ".tmp", exist_ok=True)
            gen_config(inc + ".tmp", ob["config"])
            os.rename(inc + ".tmp", inc)
    fl = ["-I" + inc, "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness"),
          "-I" + repo_of(ob, work), "-I/usr/include/selinux", "-DHAVE_CONFIG_H", "-U_FORTIFY_SOURCE", "-w"]
    for k, v in PATHDEFS.items():
        fl.append('-D%s="%s"' % (k, v))
    for k, v in ob.get("defs", {}).items():
        fl.append("-D%s=%s" % (k, v))
    for r in ob.get("rename", []):
        n, _, ar = r.partition("/")       # "f/3": macro with 3 arguments (for names which are also a struct)
        if ar:
            args = ",".join("abcdefgh"[:int(ar)])
            fl.append("-D%s(%s)=h_%s(%s)" % (n, args, n, args))
        else:
            fl.append("-D%s=h_%s" % (r, r))
    return fl


def compile_goto(ob, work):
    objs = []
    fl = common_flags(ob, work)
    for s, d in list(src_units(ob)) + [(None, {})]:
        if s is None:
            path = os.path.join(VERIF, "harness", ob["harness"])
        else:
            path = os.path.join(repo_of(ob, work), s)
        o = os.path.join(work, "%s.%s%s.gb" % (ob["name"], "harness_" if s is None else "", os.path.basename(path)))
        rc, out, err, _ = run(["goto-cc", "-c", "-DVF_CBMC", "-D__NO_CTYPE"] + fl + ["-D%s=%s" % kv for kv in d.items()] + [path, "-o", o], 120)
        if rc != 0:
            return None, (out + err).decode(errors="replace")[-1500:]
        if s is not None and ob.get("stub"):     # functions the harness provides in place of the real ones
            a = []
            for n in ob["stub"]:
                a += ["--remove-function-body", n]
            rc, out, err, _ = run(["goto-instrument"] + a + [o, o + "2"], 120)
            if rc != 0:
                return None, (out + err).decode(errors="replace")[-1500:]
            os.replace(o + "2", o)
        objs.append(o)
    gb = os.path.join(work, ob["name"] + ".gb")
    rc, out, err, _ = run(["goto-cc", "--function", "vf_main"] + objs + ["-o", gb], 120)
    if rc == 0 and ob.get("one_backedge"):       # loops made of several backward gotos, as nested loops
        rc, out, err, _ = run(["goto-instrument", "--ensure-one-backedge-per-target", gb, gb + "2"], 120)
        if rc == 0:
            os.replace(gb + "2", gb)
    if rc != 0:
        return None, (out + err).decode(errors="replace")[-1500:]
    return gb, ""


def compile_native(ob, work):
    exe = os.path.join(work, ob["name"] + ".native")
    if os.path.exists(exe):
        return exe, ""
    fl = common_flags(ob, work) + ["-DVF_REPLAY", "-g", "-O0", "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=undefined", "-fno-common", "-ftrivial-auto-var-init=pattern",
                                   "-ffunction-sections", "-fdata-sections", "-fno-inline", "-fsemantic-interposition"]
    objs = []
    for s, d in list(src_units(ob)) + [(None, {})]:
        path = os.path.join(VERIF, "harness", ob["harness"]) if s is None else os.path.join(repo_of(ob, work), s)
        o = os.path.join(work, "%s.%s%s.o" % (ob["name"], "harness_" if s is None else "", os.path.basename(path)))
        rc, out, err, _ = run(["gcc", "-c"] + fl + ["-D%s=%s" % kv for kv in d.items()] + [path, "-o", o], 120, limit=False)
        if rc != 0:
            return None, (out + err).decode(errors="replace")[-1500:]
        if s is not None and ob.get("stub"):
            rc, out, err, _ = run(["objcopy"] + ["--weaken-symbol=" + n for n in ob["stub"]] + [o], 60, limit=False)
        objs.append(o)
    rm = os.path.join(work, "replay_main.o")
    rmt = rm + "." + ob["name"]
    run(["gcc", "-c", "-g", "-w", "-I" + os.path.join(VERIF, "lib"), os.path.join(VERIF, "lib/replay_main.c"), "-o", rmt], 60, limit=False)
    link = ["gcc", "-fsanitize=address,undefined", "-Wl,--gc-sections"] + objs + [rmt, "-o", exe] + ob.get("libs", []) + ["-lm"]
    rc, out, err, _ = run(link, 120, limit=False)
    if rc != 0:
        # functions the harness does not provide: reaching one ends the replay without a verdict
        names = sorted(set(re.findall(r"undefined reference to `(\w+)'", (out + err).decode(errors="replace"))))
        if names:
            c = os.path.join(work, ob["name"] + ".unmodelled.c")
            with open(c, "w") as f:
                f.write("#include <unistd.h>\n" + "".join("void %s(void) { (void)!write(2, \"not modelled: %s\\n\", %d); _exit(78); }\n" % (n, n, 15 + len(n)) for n in names))
            rc, out, err, _ = run(link + ["-w", "-fno-builtin", c], 120, limit=False)
    if rc != 0:
        return None, (out + err).decode(errors="replace")[-1500:]
    return exe, ""


def cbmc_cmd(ob, gb, scale):
    """scale: loop bounds which had to be raised ({loop id: bound})"""
    unw = ob.get("unwind", 10)
    c = ["cbmc", gb, "--function", "vf_main", "--unwind", str(unw), "--unwinding-assertions",
         "--no-malloc-may-fail", "--drop-unused-functions", "--json-ui",
         "--verbosity", "8", "--object-bits", str(ob.get("object_bits", 10))]
    if ob.get("slice", True):
        c += ["--slice-formula"]
    for u in sorted(scale.items()):
        c += ["--unwindset", "%s:%d" % u]
    chk = ob.get("checks", "mem")
    if chk == "none":
        c += ["--no-standard-checks", "--unwinding-assertions"]
    elif chk == "mem":
        c += ["--no-signed-overflow-check", "--no-undefined-shift-check"]
    elif chk == "bounds":   # array bounds and harness assertions only
        c += ["--no-standard-checks", "--bounds-check", "--unwinding-assertions"]
    if ob.get("sat", "minisat") != "minisat":
        c += ["--sat-solver", ob.get("sat", "minisat")]
    c += ob.get("cbmc", [])
    return c


def parse_json(path):
    try:
        txt = open(path, errors="replace").read()
        return json.loads(txt)
    except Exception:
        return None


def decide(ob, work, deadline):
    """run CBMC; returns dict"""
    res = {"name": ob["name"], "status": "undecided", "why": "", "solver_s": 0.0, "props": 0, "failed": [],
           "twins": 0, "twins_missed": [], "unwind": ob.get("unwind", 10), "wall": 0.0, "functions": [], "attempts": 0}
    t0 = time.time()
    gb, err = compile_goto(ob, work)
    if gb is None:
        res["why"] = "does not compile for the solver: " + err
        return res
    scale = dict(ob.get("loops", {}))    # first guesses only: raised when too small
    if ob.get("fn_loops"):               # ... used while the function has the same number of loops
        rc, o, _, _ = run(["goto-instrument", "--show-loops", gb], 60)
        ids = re.findall(r"Loop (\w+)\.\d+:", o.decode(errors="replace"))
        for fn, b in ob["fn_loops"].items():
            if ids.count(fn) == len(b):
                scale.update(("%s.%d" % (fn, i), v) for i, v in enumerate(b))
    while True:
        left = min(ob.get("timeout", 600), deadline - time.time())
        if left < 2:
            res["why"] = "out of time"
            break
        res["attempts"] += 1
        out = os.path.join(work, ob["name"] + ".json")
        rc, _, e, dt = run(cbmc_cmd(ob, gb, scale), left, ob.get("mem_gb", 12), stdout_to=out)
        if rc is None:
            res["why"] = "solver time limit (%.0fs)" % left
            break
        js = parse_json(out)
        if js is None:
            res["why"] = "no result (memory limit or crash): " + e.decode(errors="replace")[-300:]
            break
        result, failed, unw, missed, twins, errs, model = None, [], [], [], 0, [], []
        for m in js:
            if not isinstance(m, dict):
                continue
            if "result" in m:
                result = m["result"]
            t = m.get("messageText", "")
            if m.get("messageType") == "ERROR":
                errs.append(t)
            mm = re.match(r"Runtime (?:decision procedure|Solver): ([\d.e+-]+)s", t)
            if mm and "decision" in t:
                res["solver_s"] += float(mm.group(1))
        if result is None:
            res["why"] = "solver error: " + "; ".join(errs)[-600:]
            break
        for r in result:
            d = r.get("description", "")
            st = r.get("status")
            if d.startswith("TWIN: "):
                twins += 1
                if st != "FAILURE":
                    missed.append(d)
            elif ".unwind." in r["property"] or r["property"].endswith(".recursion"):
                if st == "FAILURE":
                    unw.append(r)
            elif d.startswith("MODEL: ") or ".no-body." in r["property"]:
                if st == "FAILURE":
                    model.append(d)
            elif d.startswith("VF: ") is False and any(re.search(x, r["property"] + " " + d) for x in ob.get("ignore", [])):
                pass
            elif st == "FAILURE":
                failed.append(r)
        res.update(props=len(result), twins=twins, twins_missed=missed, failed=failed, unwind_failed=unw, gb=gb, scale=scale)
        if failed:
            res["status"] = "failed"
        elif unw:
            again = False
            for u in unw:      # raise the bounds which are too small, and only those
                m = re.match(r"unwinding assertion loop (\d+)", u.get("description", ""))
                fn = u["property"].split(".unwind.")[0]
                if m:
                    lid = "%s.%s" % (fn, m.group(1))
                    nb = scale.get(lid, ob.get("unwind", 10))
                    nb += 1 if nb < 5 else nb // 2
                    if nb <= ob.get("max_unwind", 4 * ob.get("unwind", 10)) * 1.01:
                        scale[lid] = nb
                        again = True
            if again and not ob.get("no_retry"):
                continue
            res["status"] = "bound"
            res["why"] = "loop bound too small in " + ", ".join(sorted(set(u["property"] for u in unw))[:5])
            res["failed"] = unw
        elif missed or not twins:
            res["why"] = "harness vacuous: %s not reachable" % missed
        elif model:
            res["why"] = "the code does something the harness does not model: %s" % "; ".join(model)
        else:
            res["status"] = "holds"
        break
    res["wall"] = time.time() - t0
    if res.get("gb"):
        rc, o, _, _ = run(["goto-instrument", "--drop-unused-functions", gb, gb + "2"], 60)
        rc, o, _, _ = run(["goto-instrument", "--list-goto-functions", gb + "2"], 60)
        names = re.findall(r"^(\w+)\s", o.decode(errors="replace"), re.M)
        res["functions"] = sorted(set(n for n in names if n in repo_functions(ob)))
    return res


_rf = {}
_rf_lock = threading.Lock()


def repo_functions(ob):
    """names defined as functions in the obligation's real sources"""
    out = set()
    for s, d in src_units(ob):
        with _rf_lock:
            if s not in _rf:
                try:
                    txt = open(os.path.join(REPO, s), errors="replace").read()
                except OSError:
                    txt = ""
                _rf[s] = set(re.findall(r"^(\w+)\s*\(", txt, re.M))
        out |= set(d.get(n, n) for n in _rf[s])
    return out


def get_trace(ob, res, prop, work, deadline):
    cmd = cbmc_cmd(ob, res["gb"], res["scale"])
    cmd = [c for c in cmd if c != "--slice-formula"]
    out = os.path.join(work, "%s.trace.json" % ob["name"])
    left = min(max(60, ob.get("timeout", 600)), deadline - time.time())
    run(cmd + ["--trace", "--property", prop], left, ob.get("mem_gb", 12), stdout_to=out)
    js = parse_json(out)
    if js is None:
        return None
    for m in js:
        if isinstance(m, dict) and "result" in m:
            for r in m["result"]:
                if r.get("property") == prop and "trace" in r:
                    vals = []
                    for st in r["trace"]:
                        if st.get("stepType") == "input":
                            v = st["values"][0]
                            b = v.get("binary")
                            if b is not None:
                                n = int(b, 2)
                                ty = v.get("type", "")
                                if b[0] == "1" and "unsigned" not in ty and len(b) > 8:
                                    n -= 1 << len(b)
                            else:
                                n = int(re.sub(r"[^\d-]", "", v.get("data", "0")) or 0)
                            vals.append((st["inputID"], n))
                    return vals
    return None


def replay(ob, vals, work, tag):
    exe, err = compile_native(ob, work)
    if exe is None:
        return "unconfirmed", "replay does not build: " + err, None
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s.%s.txt" % (ob["prop"], re.sub(r"\W", "_", tag)))
    with open(path, "w") as f:
        for n, v in vals:
            f.write("%s %d\n" % (n, v))
    env = dict(os.environ, ASAN_OPTIONS="exitcode=43:detect_leaks=0:abort_on_error=0",
               UBSAN_OPTIONS="exitcode=43:halt_on_error=1")
    scratch = tempfile.mkdtemp(dir=work)
    rc, o, e, dt = run([exe, path], 20, env=env, limit=False, cwd=scratch)
    log = (o + e).decode(errors="replace")[-3000:]
    with open(path + ".log", "w") as f:
        f.write(log)
    if rc is None:
        return "hang", "the real code does not terminate on this input", path
    if rc in (42, 43) or rc < 0:
        return "confirmed", log, path
    return "unconfirmed", "replay exit %s: %s" % (rc, log[-300:]), path


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return [k for k in json.load(open(p)) if k.get("status") == "known"]
    except OSError:
        return []


def process(ob, work, deadline):
    res = decide(ob, work, deadline)
    res["violations"] = []
    res["known"] = []
    if res["status"] in ("failed", "bound"):
        seen = 0
        conf = False
        notes = []
        # harness assertions first: they name the broken guarantee
        order = sorted(res["failed"], key=lambda r: 0 if r["description"].startswith("VF: ") else 1)
        for r in order:
            if seen >= 4 or deadline - time.time() < 3:
                break
            seen += 1
            vals = get_trace(ob, res, r["property"], work, deadline)
            if vals is None:
                notes.append("no trace for %s" % r["property"])
                continue
            st, log, path = replay(ob, vals, work, ob["name"] + "." + r["property"])
            if st in ("confirmed", "hang"):
                res["violations"].append({"assertion": r["description"], "property": r["property"], "replay": path, "log": log})
                conf = True
                break
            notes.append("%s: %s" % (r["description"], log))
        if not conf:
            if res["status"] == "failed":
                res["status"] = "undecided"
                res["why"] = "counterexample not reproduced on the real code: " + " | ".join(notes)[:1500]
            else:
                res["status"] = "undecided"
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--build-only", action="store_true", help="only build the replay programs")
    a = ap.parse_args()
    chk = CHECKS[a.prop]
    budget = 400 if a.tier == "quick" else 850
    deadline = T0 + budget
    obs = []
    for o in chk["obligations"]:
        if a.tier not in o.get("tiers", ["quick", "thorough"]):
            continue
        if a.only and not re.search(a.only, o["name"]):
            continue
        o = dict(o)
        o.update(o.get(a.tier, {}))
        o["defs"] = dict(o.get("defs", {}), **o.get(a.tier + "_defs", {}))
        o["prop"] = a.prop
        obs.append(o)
    work = tempfile.mkdtemp(prefix="vf_%s_" % a.prop, dir=os.environ.get("VF_TMP", "/tmp"))
    results = []
    try:
        gen_config(work)
        jobs = int(os.environ.get("VF_JOBS", "8"))
        obs.sort(key=lambda o: -o.get("weight", 1))
        if a.build_only:
            for o in obs:
                exe, err = compile_native(o, work)
                print(o["name"], "builds" if exe else "DOES NOT BUILD: " + err)
                if not exe: break
            return
        with cf.ThreadPoolExecutor(jobs) as ex:
            futs = {ex.submit(process, o, work, deadline): o for o in obs}
            for f in cf.as_completed(futs):
                o = futs[f]
                try:
                    r = f.result()
                except Exception as e:   # never turn an internal problem into an alarm
                    r = {"name": o["name"], "status": "undecided", "why": "internal: %r" % e, "violations": [],
                         "props": 0, "solver_s": 0, "functions": [], "twins": 0, "wall": 0, "unwind": 0}
                r["bounds"] = o.get("bounds", "")
                results.append(r)
                print("%-34s %-10s %4d assertions, %d twins, solver %.1fs, wall %.1fs %s" % (
                    r["name"], r["status"], r["props"], r["twins"], r["solver_s"], r["wall"], r.get("why", "")[:1200 if a.v else 300]), flush=True)
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    known = load_known()
    viol, kn = [], []
    for r in results:
        for v in r["violations"]:
            k = [x for x in known if x["property"] == a.prop and x["obligation"] == r["name"] and x["assertion"] == v["assertion"]]
            (kn if k else viol).append((r, v, k[0] if k else None))
    for r, v, k in kn:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    for r, v, _ in viol:
        print("  %s: %s" % (r["name"], v["assertion"]))
        print("\n".join("    " + l for l in v["log"].splitlines()[:12]))
        print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
    held = [r for r in results if r["status"] == "holds"]
    und = [r for r in results if r["status"] == "undecided"]
    wall = time.time() - T0
    queries = sum(r["props"] for r in results)
    solver = sum(r["solver_s"] for r in results)
    funcs = sorted(set(f for r in results for f in r["functions"]))
    ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking" if chk.get("level") == "model_checking" else "other",
          "coverage": {
              "explanation": "CBMC (bounded symbolic execution to SAT) of the real sources; %d of %d obligations decided as holding, %d undecided; "
                             "each obligation covers every input within its bounds." % (len(held), len(results), len(und)),
              "obligations": len(results), "discharged": len(held), "undecided": [{"name": r["name"], "why": r["why"][:300]} for r in und],
              "functions_encoded": funcs, "queries_discharged": queries, "solver_time_s": round(solver, 2),
              "details": [{"name": r["name"], "status": r["status"], "bounds": r["bounds"], "unwind": r["unwind"], "assertions": r["props"],
                           "reachability_twins": r["twins"], "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall"], 1)} for r in results]},
          "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": len(viol)}
    ev["coverage"]["violations_found"] = [{"what": v["assertion"], "replay": v["replay"]} for _, v, _ in viol]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations hold, %d queries, solver %.1fs, wall %.1fs" % (a.prop, a.tier, len(held), len(results), queries, solver, wall))
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""developer tool: (re)creates /verif/seeded/<id> from seedsrc/<id>.py and verifies it.
usage: seedtool.py [--check] [--nobuild] ID...    (works in /repo, which must be clean; undone afterwards)
seedsrc/<id>.py defines: prop, file, subs [(old, new)], needs, breaks, demo (C text), wrap (list), main (bool), extra"""
import json, os, subprocess, sys
R = "/repo"; S = "/verif/seeded"
OBJS = "cl subs mem save temp_file log database job conf u_list exe_list lavg_list env_list fcronconf mail filesubs select fcrondyn_svr suspend"
SH = '''#!/bin/bash
# exit 0: the guarantee holds; otherwise it is broken.  Run in the built repository.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
B=_build
%(prep)s
gcc -w -g -I$B -I. -I/usr/include/selinux -DHAVE_CONFIG_H %(cflags)s -o "$D/demo" "$H/demo.c" %(objs)s %(wrap)s -lpam -laudit -lselinux -lcrypt -lreadline -lpthread || exit 2
cd "$D"
timeout 60 ./demo
'''
def load(i):
    d = {"__name__": i}
    exec(open("/verif/seedsrc/%s.py" % i).read(), d)
    return d
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def gen(i):
    d = load(i); o = os.path.join(S, i); os.makedirs(o, exist_ok=True)
    files = d.get("files") or [(d["file"], d["subs"])]
    for f, subs in files:
        t = open(os.path.join(R, f)).read()
        for a, b in subs:
            assert t.count(a) == 1, (i, f, t.count(a), a)
            t = t.replace(a, b)
        open(os.path.join(R, f), "w").write(t)
    p = sh("git -C /repo diff").stdout
    sh("git -C /repo checkout -- .")
    open(o + "/patch.diff", "w").write(p)
    prog = d.get("prog", "fcron")
    if prog == "fcron":
        prep = 'objcopy --redefine-sym main=program_main $B/fcron.o "$D/main.o" || exit 2'
        objs = '"$D/main.o" ' + " ".join("$B/%s.o" % x for x in OBJS.split())
    elif prog == "fcrontab":
        prep = 'objcopy --redefine-sym main=program_main $B/fcrontab.o "$D/main.o" || exit 2'
        objs = '"$D/main.o" ' + " ".join("$B/%s.o" % x for x in "cl subs mem save temp_file log fileconf allow read_string u_list env_list fcronconf mail filesubs".split())
    elif prog == "fcrondyn":
        prep = 'objcopy --redefine-sym main=program_main $B/fcrondyn.o "$D/main.o" || exit 2'
        objs = '"$D/main.o" ' + " ".join("$B/%s.o" % x for x in "subs mem log allow read_string fcronconf mail filesubs".split())
    else:
        prep = d.get("prep", ""); objs = d.get("objs", "")
    open(o + "/demo.c", "w").write(d["demo"].lstrip("\n"))
    open(o + "/demo.sh", "w").write(d.get("sh") or SH % {"prep": prep, "objs": objs, "cflags": d.get("cflags", ""), "wrap": " ".join("-Wl,--wrap=" + w for w in d.get("wrap", []))})
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    return d
def verify(i, check):
    d = load(i); o = os.path.join(S, i); ok = True
    def build(): return sh("bash /opt/vp/build.sh")
    r = build()
    r0 = sh("cd /repo && bash %s/demo.sh" % o)
    if r0.returncode: print(i, "DEMO FAILS ON UNCHANGED TREE", r0.returncode, (r0.stdout + r0.stderr)[-800:]); ok = False
    assert sh("git -C /repo apply %s/patch.diff" % o).returncode == 0
    try:
        r = build()
        if r.returncode: print(i, "DOES NOT BUILD", r.stderr[-500:]); ok = False
        sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        t = json.load(open("/tmp/seed_out.json"))
        n = t["passed"] if isinstance(t["passed"], int) else len(t["passed"])
        if n != 18: print(i, "TESTS FAIL", t); ok = False
        r1 = sh("cd /repo && bash %s/demo.sh" % o)
        if r1.returncode == 0: print(i, "DEMO PASSES WITH PATCH"); ok = False
        print(i, d["prop"], "ok" if ok else "BAD", "demo:", r0.returncode, r1.returncode, (r1.stdout + r1.stderr)[-200:].strip().replace("\n", " | "))
        if check:
            c = sh("cd /verif && VERIF_TIER=quick python3 check.py %s --tier quick" % d["prop"])
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            print(i, "CAUGHT" if c.returncode == 1 and v else "MISSED rc=%d" % c.returncode, (v or [c.stdout[-600:]])[0], flush=True)
    finally:
        sh("git -C /repo checkout -- ."); build()
if __name__ == "__main__":
    a = sys.argv[1:]; chk = "--check" in a; a = [x for x in a if not x.startswith("--")]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    for i in a or sorted(x[:-3] for x in os.listdir("/verif/seedsrc")):
        gen(i); verify(i, chk)

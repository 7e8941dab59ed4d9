#!/usr/bin/env python3
"""developer tool: claim.py ID...: marks properties as claimed in meta_props.py, regenerates the metadata"""
import sys, subprocess
p = "/verif/meta_props.py"; s = open(p).read()
for c in sys.argv[1:]:
    i = s.index('prop("%s"' % c); j = s.find('\nprop("', i); j = len(s) if j < 0 else j
    s = s[:i] + s[i:j].replace(", na=NOTYET", "") + s[j:]
open(p, "w").write(s)
subprocess.check_call([sys.executable, "/verif/gen_meta.py"]); subprocess.check_call([sys.executable, "/verif/known.py"])

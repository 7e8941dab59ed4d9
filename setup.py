#!/usr/bin/env python3
"""nothing is installed: checks that the tools the checks need are there"""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)

#!/usr/bin/env python3
"""reverts.py: takes back each fix: commit of /repo (working tree only) and runs the check of its property."""
import sys, subprocess, re, os, time
def sh(c, t=900):
    r = subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors="replace")
slot, slots = int(os.environ.get('SLOT', 0)), int(os.environ.get('SLOTS', 1))
assert sh("git -C /repo status --porcelain")[1] == ""
fixes = [l.split(None, 3) for l in open("/verif/known-findings.txt") if l.startswith("fixed: ")]
for i, (_, prop, commit, what) in enumerate(fixes):
    if i % slots != slot: continue
    prop = prop.split("=")[1]
    try:
        rc, out = sh("git -C /repo revert --no-commit %s || { git -C /repo diff --name-only --diff-filter=U; false; }" % commit)
        if rc:
            print(prop, commit, "REVERT CONFLICTS", out[-300:], flush=True); continue
        sh("git -C /repo reset -q")
        rc, out = sh("/verif/check.sh " + prop)
        v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + prop)]
        print(prop, commit, "caught" if rc == 1 and v else "MISSED rc=%d %s" % (rc, out[-400:]), "|", what.strip(), flush=True)
    finally:
        sh("git -C /repo revert --abort; git -C /repo reset -q --hard")

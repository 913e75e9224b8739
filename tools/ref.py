#!/usr/bin/env python3
"""ref.py [NAME...]: applies each behaviour-preserving edit of refactors.py to /repo, runs the tests and all checks, undoes it.
Every check has to be quiet."""
import sys, os, time, json
sys.argv[1:1] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors.py")]
checks = ["C%02d" % i for i in range(1,38)]
import importlib.util, subprocess
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = [a for a in sys.argv[2:] if not a.startswith("C")]
only = [a for a in sys.argv[2:] if a.startswith("C")]
def sh(c, t=900):
    try:
        r = subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""
assert sh("git -C /repo status --porcelain")[1] == "", "dirty /repo"
slot, slots = int(os.environ.get('SLOT', 0)), int(os.environ.get('SLOTS', 1))
for i, (name, edits) in enumerate(m.refs):
    if i % slots != slot: continue
    if want and name not in want: continue
    try:
        bad = None
        for f, a, b in edits:
            p = "/repo/" + f; t = open(p).read()
            if t.count(a) != 1: bad = "%s: %d matches of %r" % (f, t.count(a), a); break
            open(p, "w").write(t.replace(a, b))
        if bad: print(name, "SPEC", bad, flush=True); continue
        rc, out = sh("bash /opt/vp/build.sh")
        if rc: print(name, "BUILD FAILS", out[-1500:], flush=True); continue
        sh("rm -f /tmp/mo.json; bash /opt/vp/test.sh /tmp/mo.json")
        o = json.load(open("/tmp/mo.json"))
        print(name, "tests", len(o["passed"]), "/", len(o["failed"]), flush=True)
        for c in only or checks:
            t = time.time()
            rc, out = sh("/verif/check.sh " + c)
            if rc: print("  ALARM", name, c, rc, "%ds" % (time.time() - t), out[-800:], flush=True)
        print(name, "done", flush=True)
    finally:
        sh("git -C /repo checkout -- .")

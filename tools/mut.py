#!/usr/bin/env python3
"""mut.py SPEC.py [ID...]: SPEC defines muts: list of (id, [checks], [(file, old, new)...]).
Applies each to /repo, runs the repository's tests and the listed checks, undoes it.
Prints which checks report a violation."""
import sys, subprocess, json, importlib.util, time, os
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
def sh(c, t=900):
    try:
        r = subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""
assert sh("git -C /repo status --porcelain")[1] == "", "dirty /repo"
slot, slots = int(os.environ.get('SLOT', 0)), int(os.environ.get('SLOTS', 1))
for i, (mid, checks, edits) in enumerate(m.muts):
    if i % slots != slot: continue
    if want and mid not in want and mid.split("-")[0] not in want: continue
    try:
        bad = None
        for f, a, b in edits:
            p = "/repo/" + f; t = open(p).read()
            if t.count(a) != 1: bad = "%s: %d matches of %r" % (f, t.count(a), a); break
            open(p, "w").write(t.replace(a, b))
        if bad: print(mid, "SPEC", bad, flush=True); continue
        rc, out = sh("bash /opt/vp/build.sh")
        if rc: print(mid, "BUILD FAILS", out[-1500:], flush=True); continue
        sh("rm -f /tmp/mo.json; bash /opt/vp/test.sh /tmp/mo.json")
        o = json.load(open("/tmp/mo.json"))
        res = []
        for c in checks:
            t = time.time()
            rc, out = sh("/verif/check.sh " + c)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + c)]
            res.append("%s:%s(%ds)" % (c, "caught" if rc == 1 and v else "MISSED" if rc == 0 else "rc%d?" % rc, time.time() - t))
            if rc not in (0, 1): print(out[-600:])
        print(mid, "tests", len(o["passed"]), "/", len(o["failed"]), " ".join(res), flush=True)
    finally:
        sh("git -C /repo checkout -- .")

#!/usr/bin/env python3
"""mk.py SPEC.py: SPEC defines seeds: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust source | demo_sh=...).
Writes /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, importlib.util
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
w = "/tmp/sw"
for s in m.seeds:
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, a, b in s["edits"]:
        p = os.path.join(w, f); t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo" in s:
        open(d + "/demo.rs", "w").write(s["demo"])
        shutil.copy("/verif/tools/demo_rs.sh", d + "/demo.sh")
    else:
        open(d + "/demo.sh", "w").write(s["demo_sh"])
        for n, c in s.get("files", {}).items(): open(d + "/" + n, "w").write(c)
    os.chmod(d + "/demo.sh", 0o755)
    print(s["id"])
shutil.rmtree(w, ignore_errors=True)

#!/usr/bin/env python3
"""Turn a description of planted bugs into /verif/seeded/<id>/ folders.

Usage: mkseed.py FILE.py; FILE.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, main)].
Only git's view of /repo is used; the tree itself is left alone (edits happen in a scratch copy).
"""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
w = "/tmp/mkseed"
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", w])
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = f"{w}/{f}"
        t = open(p).read()
        n = s.get("nth", 1)
        assert t.count(old) == n, (s["id"], f, t.count(old), old)
        t = t.replace(old, new)
        open(p, "w").write(t)
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    open(f"{d}/patch.diff", "w").write(diff)
    subprocess.check_call(["git", "-C", w, "checkout", "-q", "--", "."])
    open(f"{d}/main.rs", "w").write("mod kit;\nuse kit::*;\n\n" + s["main"].strip() + "\n")
    for f in ("kit.rs", "demo.sh"):
        shutil.copy(f"{here}/seedkit/{f}", d)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/meta.json", "a").write("\n")
    print("made", s["id"])
shutil.rmtree(w, ignore_errors=True)

#!/usr/bin/env python3
"""newseed.py ID PROPERTY FILE: reads JSON on stdin {edits:[[file,old,new],...], needs, breaks, demo} and writes seeded/ID."""
import sys, json, os, subprocess, tempfile, shutil
def make(id, prop, edits, needs, breaks, demo, files={}):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    by = {}
    for f, old, new in edits:
        s = by.get(f) or open(f"/repo/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        by[f] = s.replace(old, new)
    t = tempfile.mkdtemp()
    out = ""
    for f, s in by.items():
        for side, txt in (("a", open(f"/repo/{f}").read()), ("b", s)):
            p = f"{t}/{side}/{f}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
    out = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
    open(f"{d}/patch.diff", "w").write(out)
    shutil.rmtree(t)
    open(f"{d}/demo.sh", "w").write(demo)
    for n, s in files.items(): open(f"{d}/{n}", "w").write(s)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "apply", "--check", f"{d}/patch.diff"], cwd="/repo", capture_output=True, text=True)
    print(id, "applies" if r.returncode == 0 else r.stderr)

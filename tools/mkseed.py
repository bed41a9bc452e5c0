#!/usr/bin/env python3
"""mkseed.py FILE.py: write planted bugs from SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], prelude, demo)]."""
import importlib.util, json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location("seeds", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
only = sys.argv[2:]
for s in m.SEEDS:
    if only and s["id"] not in only:
        continue
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = ""
    byf = {}
    for f, old, new in s["edits"]:
        t = byf.get(f) or open("/repo/" + f).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        byf[f] = t.replace(old, new)
    for f, t in byf.items():
        os.makedirs("/tmp/mkseed", exist_ok=True)
        open("/tmp/mkseed/new", "w").write(t)
        r = subprocess.run(["git", "diff", "--no-index", "--", "/repo/" + f, "/tmp/mkseed/new"], capture_output=True, text=True).stdout
        lines = r.splitlines(keepends=True)
        body = "".join(lines[lines.index(next(l for l in lines if l.startswith("@@"))):])
        diff += "diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n" % (f, f, f, f) + body
    open(d + "/patch.diff", "w").write(diff)
    pre = open(os.path.join(HERE, "tools", "seedsrc", s["prelude"] + ".rs")).read() if s.get("prelude") else ""
    open(d + "/demo.rs", "w").write(pre + s["demo"])
    shutil.copy(os.path.join(HERE, "tools", "demo.sh"), d + "/demo.sh")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])

#!/usr/bin/env python3
"""Development aid: try edits of the code in a scratch copy and see which checks speak.
mut.py FILE.py [NAME..] [--props C01,C02]   FILE.py defines MUTS = [(name, file, old, new[, expected])].
A name starting with "ok-" is an edit that keeps the behaviour: every check must stay quiet.
mut.py --diff PATCH  tries a patch."""
import concurrent.futures
import importlib.util
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("MUT_DIR", "/tmp/mut")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def setup():
    os.makedirs(S, exist_ok=True)
    sh(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", S + "/repo/"]) if shutil.which("rsync") else None
    if not shutil.which("rsync"):
        if os.path.exists(S + "/repo"):
            sh(["git", "-C", S + "/repo", "checkout", "-q", "--", "."])
            sh(["git", "-C", S + "/repo", "clean", "-fdq"])
            sh(["git", "-C", S + "/repo", "fetch", "-q", "/repo"])
            sh(["git", "-C", S + "/repo", "reset", "-q", "--hard", "FETCH_HEAD"])
        else:
            sh(["git", "clone", "-q", "/repo", S + "/repo"])
    if not os.path.exists(S + "/work"):
        sh(["cp", "-a", os.path.join(HERE, ".work"), S + "/work"])


def check(p, quiet=False):
    e = dict(os.environ, VERIF_WORK=S + "/work", VERIF_EVIDENCE=S + "/ev", VERIF_REPO=S + "/repo")
    r = sh([sys.executable, os.path.join(HERE, "analysis/check.py"), p, "--no-extract"], env=e)
    return p, r.returncode, r.stdout


def extract():
    return sh([sys.executable, os.path.join(HERE, "tools/extract.py"), S + "/repo", S + "/work"])


def props():
    d = os.path.join(HERE, "analysis/props")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == "c" and f[1:3].isdigit())


def run_checks(ps):
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        return list(ex.map(check, ps))


def one(name, ps, want, verbose):
    r = extract()
    if r.returncode:
        print("%-34s DOES NOT BUILD\n%s" % (name, r.stdout[-1500:]))
        return
    res = run_checks(ps)
    fired = [p for p, rc, o in res if rc]
    odd = [p for p, rc, o in res if rc not in (0, 1)]
    ok = (not fired) if name.startswith("ok-") else (want in fired if want else bool(fired))
    print("%-34s %s fired=%s%s" % (name, "fine" if ok else "***", ",".join(fired), " ODD" if odd else ""), flush=True)
    if verbose or (not ok and fired):
        for p, rc, o in res:
            if rc:
                print("    " + "\n    ".join(l[:260] for l in o.splitlines()[:verbose or 3]))


def main():
    a = sys.argv[1:]
    ps = props()
    verbose = 0
    if "--props" in a:
        i = a.index("--props")
        ps = a[i + 1].split(",")
        del a[i:i + 2]
    if "-v" in a:
        i = a.index("-v")
        verbose = int(a[i + 1])
        del a[i:i + 2]
    setup()
    if a[0] == "--diff":
        for d in a[1:]:
            r = sh(["git", "-C", S + "/repo", "apply", os.path.abspath(d)])
            if r.returncode:
                print(d, "does not apply", r.stdout)
                continue
            one(d, ps, None, verbose)
            sh(["git", "-C", S + "/repo", "checkout", "-q", "--", "."])
            sh(["git", "-C", S + "/repo", "clean", "-fdq"])
        extract()
        return
    sp = importlib.util.spec_from_file_location("m", a[0])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for t in m.MUTS:
        name, f, old, new = t[:4]
        if len(a) > 1 and name not in a[1:]:
            continue
        path = os.path.join(S, "repo", f)
        src = open(path).read()
        if src.count(old) < 1:
            print("%-34s NOT APPLICABLE (%d matches)" % (name, src.count(old)))
            continue
        open(path, "w").write(src.replace(old, new, 1))
        try:
            one(name, ps, t[4] if len(t) > 4 else None, verbose)
        finally:
            open(path, "w").write(src)


main()

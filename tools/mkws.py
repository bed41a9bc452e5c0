#!/usr/bin/env python3
"""Derives a cargo workspace from /repo as it is now (adapted from /opt/vp/mkws.py).

usage: mkws.py REPO WS


/repo itself cannot be resolved by cargo offline: its manifests name a git
dependency (github.com/DA0-DA0/dao-contracts tag v1.0.0) that is not available.
The derived workspace is /repo with only these things left out:
  * the dependencies in DROP, from every manifest and the lock file
  * the directories in DROP_DIRS: one member package, one tests/ directory
  * the top-level functions in DROP_FNS (blanked, so line numbers stay)
  * the feature "test-tube" on dev-dependencies on dao-testing
Everything else is copied from /repo as it is, so its code is what is compiled.
"""
import os
import re
import shutil
import subprocess
import sys
import tomllib

REPO, WS = sys.argv[1], sys.argv[2]
DROP = ("cw4-voting-v1", "cw-core-interface-v1", "osmosis-test-tube", "dao-migrator")
DROP_DIRS = (
    "contracts/external/dao-migrator",
    "contracts/external/cw-tokenfactory-issuer/tests",
)
DROP_FNS = {
    "packages/dao-testing/src/contracts/v1.rs": ("cw4_voting_v1_contract",),
    "packages/dao-testing/src/contracts/latest.rs": ("dao_migrator_contract",),
}
made = set()


def put(rel, text):
    """Write a generated file, only if it changes, so that cargo sees no false changes."""
    path = os.path.join(WS, rel)
    made.add(rel)
    if os.path.islink(path):
        os.remove(path)
    elif os.path.isfile(path) and open(path).read() == text:
        return
    elif os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def link(rel):
    """Copy a file or directory, writing only what differs (cargo's freshness test is by mtime:
    this way it is decided by content)."""
    target = os.path.join(REPO, rel)
    if os.path.isdir(target):
        for e in sorted(os.listdir(target)):
            if e not in ("target", ".git"):
                link(os.path.join(rel, e))
        return
    if not os.path.isfile(target):
        return
    path = os.path.join(WS, rel)
    made.add(rel)
    data = open(target, "rb").read()
    if os.path.islink(path):
        os.remove(path)
    elif os.path.isfile(path):
        if open(path, "rb").read() == data:
            return
    elif os.path.isdir(path):
        shutil.rmtree(path)
    p = os.path.dirname(path)
    while p and not os.path.isdir(p):
        if os.path.islink(p) or os.path.isfile(p):
            os.remove(p)
        p = os.path.dirname(p)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def manifest(text):
    text = re.sub(r"(?m)^(%s)\s*=.*$" % "|".join(map(re.escape, DROP)), "", text)
    return re.sub(
        r'(?m)^(dao-testing\s*=\s*\{.*?), features = \["test-tube"\]', r"\1", text
    )


def source(rel, text):
    for name in DROP_FNS[rel]:
        text = re.sub(
            r"(?ms)^pub fn %s\(.*?^\}$" % name,
            lambda m: "\n" * m.group().count("\n"),
            text,
        )
    return text


def visit(rel, deep):
    """Real directory down to `deep`, links below."""
    for e in sorted(os.listdir(os.path.join(REPO, rel))):
        sub = os.path.join(rel, e) if rel else e
        full = os.path.join(REPO, sub)
        if sub in DROP_DIRS or e in (".git", "target") or sub == "Cargo.lock":
            continue
        if e == "Cargo.toml":
            put(sub, manifest(open(full).read()))
        elif sub in DROP_FNS:
            put(sub, source(sub, open(full).read()))
        elif os.path.isdir(full) and deep(sub):
            visit(sub, deep)
        else:
            link(sub)


def deep(sub):
    if any(f.startswith(sub + "/") for f in DROP_FNS):
        return True
    if os.path.exists(os.path.join(REPO, os.path.dirname(sub) or "-", "Cargo.toml")):
        return False  # inside a package
    return sub.split("/")[0] in ("contracts", "packages", "ci")


os.makedirs(WS, exist_ok=True)
visit("", deep)
for root, dirs, files in os.walk(WS, topdown=True):
    rel = os.path.relpath(root, WS)
    rel = "" if rel == "." else rel + "/"
    for n in files + [d for d in dirs if os.path.islink(os.path.join(root, d))]:
        if rel + n not in made and rel + n not in ("Cargo.lock", "Cargo.lock.seed"):
            os.remove(os.path.join(root, n))
for root, dirs, files in os.walk(WS, topdown=False):
    if not os.listdir(root):
        os.rmdir(root)

# The lock file: start from /repo's, let cargo take out what is not needed any more,
# and refuse the outcome if it has any package that /repo's lock has not.
seed = open(REPO + "/Cargo.lock").read()
lock, seedfile = WS + "/Cargo.lock", WS + "/Cargo.lock.seed"
key = seed + "".join(
    open(os.path.join(WS, m)).read() for m in sorted(made) if m.endswith("Cargo.toml")
)
if not (os.path.exists(seedfile) and os.path.exists(lock) and open(seedfile).read() == key):
    if os.path.exists(seedfile):
        os.remove(seedfile)
    with open(lock, "w") as f:
        f.write(seed)
    cmd = ["cargo", "metadata", "--format-version", "1"]
    if "--online" not in sys.argv:
        cmd.append("--offline")
    subprocess.run(cmd, cwd=WS, stdout=subprocess.DEVNULL, check=True)


def pins(text):
    return {
        (p["name"], p["version"], p.get("source"), p.get("checksum"))
        for p in tomllib.loads(text)["package"]
    }


new = {p for p in pins(open(lock).read()) - pins(seed) if p[2] is not None}
if new:
    os.remove(lock)
    sys.exit("not in /repo/Cargo.lock: %s" % sorted(new))
with open(seedfile, "w") as f:
    f.write(key)

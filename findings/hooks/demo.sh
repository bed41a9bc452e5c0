#!/bin/bash
# Compiles demo.rs (beside this script) against the libraries the build made of /repo and runs it:
# exit 0 if the tests in it pass.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/mkws.py >/dev/null || exit 2
t=$(mktemp -d) || exit 2
trap 'find "$t" -delete' EXIT
cd /opt/vp/ws || exit 2
cargo test --workspace --no-run --locked --offline --message-format=json > "$t/art.json" 2> "$t/log" || { tail -20 "$t/log"; exit 2; }
python3 - "$t/art.json" "$here/demo.rs" > "$t/args" <<'P' || exit 2
import glob, json, os, re, sys
src = open(sys.argv[2]).read()
names = set(re.findall(r"\b([a-z][a-z0-9_]*)::", src))
arts = []
for l in open(sys.argv[1]):
    try:
        d = json.loads(l)
    except ValueError:
        continue
    if d.get("reason") == "compiler-artifact" and not d["profile"]["test"]:
        arts.append(d)
macros = {d["target"]["name"].replace("-", "_") for d in arts if "proc-macro" in d["target"]["kind"]}
# which build of a crate the contracts are linked with: cargo's fingerprints name their dependencies
fp = {}
for j in glob.glob(os.environ["CARGO_TARGET_DIR"] + "/debug/.fingerprint/*/lib-*.json"):
    try:
        v = int.from_bytes(bytes.fromhex(open(j[:-5]).read().strip()), "little")
        fp.setdefault(v, []).append((j, json.load(open(j))["deps"]))
    except (OSError, ValueError, KeyError):
        pass
tops = [d for d in arts if d["package_id"].startswith("path+") and d["target"]["name"].replace("-", "_") == "dao_testing"]
top = re.search(r"-([0-9a-f]{16})\.rlib", " ".join(tops[0]["filenames"])).group(1)
todo = [x for v in fp.values() for x in v if os.path.dirname(x[0]).endswith("dao-testing-" + top)]
good = set()
while todo:
    j, deps = todo.pop()
    h = os.path.dirname(j)[-16:]
    if h in good:
        continue
    good.add(h)
    for x in deps:
        if x[1] not in macros:
            todo += fp.get(x[3], [])
hashes = {}
for g in glob.glob(os.environ["CARGO_TARGET_DIR"] + "/debug/.fingerprint/*"):
    hashes.setdefault(os.path.basename(g)[:-17], set()).add(g[-16:])
lib, rank = {}, {}
for d in arts:
    n = d["target"]["name"].replace("-", "_")
    for f in d["filenames"]:
        if n in names and (f.endswith(".rlib") or (n in macros and f.endswith(".so"))):
            h = re.search(r"-([0-9a-f]{16})\.rlib", f)
            w = 8 if d["package_id"].startswith("path+") else 0
            if h and h.group(1) in good:
                w += 4
            v = re.search(r"[@#](\d+)\.(\d+)", d["package_id"])
            w = (w, [int(x) for x in v.groups()] if v else [0, 0])
            if n not in rank or w > rank[n]:
                rank[n], lib[n] = w, f
for n in sorted(lib):
    print("--extern\n%s=%s" % (n, lib[n]))
P
mapfile -t a < "$t/args"
rustc --edition 2021 --test -A warnings -C debuginfo=0 -L dependency=$CARGO_TARGET_DIR/debug/deps "${a[@]}" -o "$t/demo" "$here/demo.rs" || exit 3
cd "$t" && ./demo --test-threads 4

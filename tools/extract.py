#!/usr/bin/env python3
"""Rebuild the MIR dump (/verif/.work/mir/*.json) from /repo's current working tree.

1. builds the rustc driver /verif/driver (once per driver source);
2. derives the cargo workspace from /repo (tools/mkws.py), as symbolic links into /repo;
3. runs `cargo +nightly check --workspace --lib` on it with the driver as
   RUSTC_WORKSPACE_WRAPPER; cargo decides from the sources which crates to re-analyse.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tomllib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
# crates outside the workspace whose code is analysed with it
LIBS = ["cw4", "cw721", "cw721_base", "cw_controllers"]


def env():
    e = dict(os.environ)
    home = "/root/.cargo/bin:/usr/local/cargo/bin"
    e["PATH"] = home + ":" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    # the code as it is deployed (see [profile.release] in /repo/Cargo.toml)
    e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
    e.pop("RUSTC_WRAPPER", None)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit("extract: %s failed (%d)" % (" ".join(cmd[:4]), r.returncode))
    return r.stdout


def driver(work):
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs"):
        h.update(open(os.path.join(HERE, "driver", f), "rb").read())
    h.update(",".join(LIBS).encode())
    h = h.hexdigest()[:12]
    out = os.path.join(work, "bin", "mirdump-" + h)
    if not os.path.exists(out):
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(work, "driver-target")
        run(["cargo", "build", "--offline"], cwd=os.path.join(HERE, "driver"), env=e)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copy(os.path.join(work, "driver-target/debug/mirdump"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out


def extract(repo="/repo", work=None):
    """Returns the dump directory."""
    work = work or os.path.join(HERE, ".work")
    os.makedirs(work, exist_ok=True)
    with open(os.path.join(work, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver(work)
        e = env()
        ws = os.path.join(work, "ws")
        run([sys.executable, os.path.join(HERE, "tools/mkws.py"), repo, ws], env=e)
        names = []
        for t in glob.glob(ws + "/**/Cargo.toml", recursive=True):
            d = tomllib.load(open(t, "rb"))
            if "package" in d:
                lib = d.get("lib", {})
                src = os.path.join(os.path.dirname(t), lib.get("path", "src/lib.rs"))
                if lib.get("proc-macro") or not os.path.exists(src):
                    continue
                n = lib.get("name", d["package"]["name"])
                names.append(n.replace("-", "_"))
        mir = os.path.join(work, "mir")
        os.makedirs(mir, exist_ok=True)
        sysroot = run(["rustc", "--print", "sysroot"], env=e).strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib:" + e.get("LD_LIBRARY_PATH", "")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow"
        e["CARGO_TARGET_DIR"] = os.path.join(work, "target")
        e["MIRDUMP_DIR"] = mir
        e["MIRDUMP_INLINE"] = ",".join(sorted(set(names + LIBS)))
        for attempt in (1, 2):
            run(["cargo", "check", "--workspace", "--lib", "--offline", "--locked"], cwd=ws, env=e)
            if all(os.path.exists(os.path.join(mir, n + ".json")) for n in names):
                break
            # a dump is gone although cargo holds the crate for fresh: analyse everything again
            shutil.rmtree(e["CARGO_TARGET_DIR"], ignore_errors=True)
        for f in os.listdir(mir):
            if f.endswith(".json") and f[:-5] not in names:
                os.remove(os.path.join(mir, f))
    return mir, sorted(set(names))


if __name__ == "__main__":
    repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    work = sys.argv[2] if len(sys.argv) > 2 else None
    d, n = extract(repo, work)
    print(d, len(os.listdir(d)), "crates dumped")

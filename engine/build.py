"""Produce the MIR dumps of /repo's current working tree (and of the std models)."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
CRATES = ("jmt", "pmt", "serde_hash", "patriecia")


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed in %s:\n%s" % (" ".join(cmd), cwd, p.stdout[-6000:]))
    return p.stdout


def repo_files():
    try:
        out = run(["git", "-c", "safe.directory=*", "ls-files", "-co", "--exclude-standard"], REPO)
        fs = [f for f in out.splitlines() if os.path.isfile(os.path.join(REPO, f))]
    except BuildError:
        fs = []
        for d, ds, ff in os.walk(REPO):
            ds[:] = [x for x in ds if x not in (".git", "target")]
            fs += [os.path.relpath(os.path.join(d, f), REPO) for f in ff]
    return sorted(fs)


def digest(paths, root):
    h = hashlib.sha256()
    for f in paths:
        h.update(f.encode() + b"\0")
        with open(os.path.join(root, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def dumps():
    """-> directory with one json per workspace crate, made from the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    lk = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        return _dumps()
    finally:
        lk.close()


def _dumps():
    sysroot = run(["rustc", "+nightly", "--print", "sysroot"], HERE).strip()
    base = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        base.pop(k, None)
    base["CARGO_INCREMENTAL"] = "0"
    # driver
    e = dict(base)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], os.path.join(HERE, "driver"), e)
    drv = os.path.join(BUILD, "driver", "release", "vdriver")
    # sources
    fs = repo_files()
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        lock = "/opt/vp/Cargo.lock"
    key = hashlib.sha256()
    key.update(digest(fs, REPO).encode())
    with open(lock, "rb") as f:
        key.update(f.read())
    key.update(digest(["driver/src/main.rs", "driver/Cargo.toml", "models/src/lib.rs"], HERE).encode())
    key = key.hexdigest()
    out = os.path.join(BUILD, "out")
    stamp = os.path.join(out, "stamp.json")
    if os.path.exists(stamp):
        with open(stamp) as f:
            if json.load(f).get("key") == key:
                return out
    shutil.rmtree(out, ignore_errors=True)
    src = os.path.join(BUILD, "src")
    shutil.rmtree(src, ignore_errors=True)
    for f in fs:
        d = os.path.join(src, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy(os.path.join(REPO, f), d)
    shutil.copy(lock, os.path.join(src, "Cargo.lock"))
    os.makedirs(out)
    e = dict(base)
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["VDRIVER_OUT"] = out
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    run(["cargo", "+nightly", "check", "--workspace", "--offline", "-q"], src, e)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "targetm")
    m = os.path.join(BUILD, "models")
    shutil.rmtree(m, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "models"), m, ignore=shutil.ignore_patterns("target"), copy_function=shutil.copy)
    run(["cargo", "+nightly", "check", "--offline", "-q"], m, e)
    for c in CRATES + ("vmodels",):
        if not os.path.exists(os.path.join(out, "%s__%s.json" % (c, c))):
            raise BuildError("no dump for crate " + c)
    with open(stamp, "w") as f:
        json.dump({"key": key}, f)
    return out


if __name__ == "__main__":
    print(dumps())

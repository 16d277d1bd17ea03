"""Builds the MIR extraction driver and extracts the type-checked program of /repo's current tree."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def files(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(r, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def driver():
    src = os.path.join(ROOT, "driver", "main.rs")
    out = os.path.join(BUILD, "sadrv-" + digest([src]))
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        r = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
        if r.returncode:
            raise RuntimeError("driver build failed:\n" + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def repo_inputs():
    fs = [f for f in files(os.path.join(REPO, "src"))]
    for n in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml"):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            fs.append(p)
    return fs


def extract():
    """-> path of the MIR dump of the current tree"""
    drv = driver()
    key = digest(repo_inputs()) + "-" + os.path.basename(drv)[-8:]
    out = os.path.join(BUILD, "mir-%s.json" % key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="sawork", dir=BUILD)
    try:
        src = os.path.join(work, "src")
        os.makedirs(src)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(src, "src"))
        for n in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml"):
            p = os.path.join(REPO, n)
            if os.path.exists(p):
                shutil.copy(p, os.path.join(src, n))
        if not os.path.exists(os.path.join(src, "Cargo.lock")):
            shutil.copy(os.path.join(ROOT, "driver", "Cargo.lock.repo"), os.path.join(src, "Cargo.lock"))
        for n in ("examples", "benches", "tests"):
            p = os.path.join(REPO, n)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(src, n))
        tmp = os.path.join(work, "mir.json")
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["SA_MIR_OUT"] = tmp
        env["CARGO_TERM_COLOR"] = "never"
        env.pop("RUSTC_WRAPPER", None)
        env.pop("RUSTFLAGS", None)
        r = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", os.path.join(work, "target")], cwd=src, env=env)
        if not os.path.exists(tmp):
            raise RuntimeError("extraction failed:\n" + r.stdout[-4000:])
        os.rename(tmp, out)
        # keep only the most recent few dumps
        ms = sorted([os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("mir-")], key=os.path.getmtime)
        for f in ms[:-6]:
            os.remove(f)
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)

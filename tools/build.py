#!/usr/bin/env python3
"""Builds the extractor and the native harness from the current working trees (build.py all)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TGT = os.path.join(ROOT, "target")
VX = os.path.join(TGT, "vx", "release", "vx")
SIM = os.path.join(TGT, "replay", "release", "sim")


def cargo(d, tgt):
    os.makedirs(TGT, exist_ok=True)
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.path.join(TGT, tgt), PATH="/root/.cargo/bin:" + e.get("PATH", ""))
    with open(os.path.join(TGT, tgt + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--release"], cwd=os.path.join(ROOT, d), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout


def vx():
    return cargo("vx", "vx")


def repo_hash():
    h = hashlib.sha256()
    for d in ("/repo/programs/openbook-v2", "/repo/lib"):
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(r, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def replay():
    """Cargo compares timestamps; a file put back with an old one must still be seen."""
    os.makedirs(TGT, exist_ok=True)
    mark = os.path.join(TGT, "replay.hash")
    h = repo_hash()
    if not os.path.exists(mark) or open(mark).read() != h:
        for d in glob.glob(os.path.join(TGT, "replay", "release", ".fingerprint", "openbook-v2-*")):
            shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(mark):
            os.remove(mark)
    ok, log = cargo("replay", "replay")
    if ok:
        with open(mark, "w") as f:
            f.write(h)
    return ok, log


if __name__ == "__main__":
    for f in (vx, replay):
        ok, log = f()
        sys.stdout.write(log)
        if not ok:
            sys.exit(1)

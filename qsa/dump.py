"""Build the THIR dumper and run it on /repo's current working tree."""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("QSA_CACHE") or os.path.join(VERIF, ".cache")
REPO = os.environ.get("QSA_REPO", "/repo")
CRATE = os.path.join(REPO, "rust")
LINK = 'target.x86_64-unknown-linux-gnu.fftw3.rustc-link-lib=["fftw3"]'


class DumpError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise DumpError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(CACHE, "driver")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    _run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp])
    os.replace(tmp, out)
    return out


def dump():
    """-> parsed dump (dict)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        env = dict(os.environ)
        out = os.path.join(CACHE, "dump.json")
        if os.path.exists(out):
            os.unlink(out)
        env.update(
            LD_LIBRARY_PATH=sysroot + "/lib",
            CARGO_TARGET_DIR=os.path.join(CACHE, "target"),
            RUSTC_WORKSPACE_WRAPPER=drv,
            QS_DUMP_OUT=out,
            CARGO_NET_OFFLINE="true",
        )
        for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        for pat in (".fingerprint/rust-*", "build/rust", "deps/*rust-*", "incremental"):
            for d in glob.glob(os.path.join(CACHE, "target", "release", pat)):
                if os.path.isdir(d):
                    shutil.rmtree(d, ignore_errors=True)
                else:
                    os.unlink(d)
        _run(["cargo", "+nightly", "check", "--release", "--offline", "--config", LINK], cwd=CRATE, env=env)
        if not os.path.exists(out):
            raise DumpError("driver produced no dump")
        with open(out) as f:
            return json.load(f)


if __name__ == "__main__":
    d = dump()
    print("bodies:", len(d["bodies"]))

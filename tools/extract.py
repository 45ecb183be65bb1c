"""Builds the rustc driver and extracts the facts of /repo's current tree (type-checked program, MIR of everything reachable)."""
import fcntl
import glob
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")
REPO = os.environ.get("KMS_REPO", "/repo")
DRIVER = os.path.join(WORK, "driver", "release", "kmsdump")
CONFIGS = {
    "dev": "-Zmir-opt-level=0",
    "release": "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off",
}


class BuildFailed(Exception):
    pass


def run(cmd, cwd, env=None, what=""):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL)
    if p.returncode:
        raise BuildFailed("%s failed:\n%s" % (what, p.stdout[-3000:]))
    return p.stdout


def build_driver():
    src = os.path.join(VERIF, "driver")
    t = os.path.join(WORK, "driver")
    newest = max(os.path.getmtime(f) for f in glob.glob(src + "/src/*.rs") + [src + "/Cargo.toml"])
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= newest:
        return
    run(["cargo", "+nightly", "build", "--release", "--offline"], src, {"CARGO_TARGET_DIR": t}, "building the driver")
    os.utime(DRIVER)


def dump(config="dev"):
    """path of the facts of /repo's current tree"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        t = os.path.join(WORK, "target-" + config)
        out = os.path.join(WORK, "facts-%s-%d.json" % (config, os.getpid()))
        for p in glob.glob(t + "/debug/.fingerprint/kms-*") + glob.glob(t + "/debug/deps/*kms-*") + [t + "/debug/incremental", t + "/debug/build/kms"] + glob.glob(t + "/debug/build/kms-*"):
            shutil.rmtree(p) if os.path.isdir(p) else os.path.exists(p) and os.unlink(p)
        root = run(["rustc", "+nightly", "--print", "sysroot"], REPO, what="rustc").strip()
        lib = root + "/lib"
        run(["cargo", "+nightly", "check", "--offline", "--lib"], REPO,
            {"RUSTC_ICE": "0", "KMSDUMP_OUT": out, "RUSTC_WORKSPACE_WRAPPER": DRIVER, "RUSTFLAGS": CONFIGS[config], "CARGO_TARGET_DIR": t,
             "LD_LIBRARY_PATH": lib + (":" + os.environ["LD_LIBRARY_PATH"] if os.environ.get("LD_LIBRARY_PATH") else "")}, "analysing build of " + REPO)
    if not os.path.exists(out):
        raise BuildFailed("the driver wrote no facts")
    return out

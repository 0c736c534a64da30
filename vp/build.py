"""Builds the fact extractor and runs it over the current working tree of /repo."""
import os, subprocess, sys, time, fcntl, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TARGET = os.environ.get("VP_TARGET", os.path.join(VERIF, "target"))

ALL = ["graphannis-core", "graphannis", "graphannis-capi", "graphannis-cli", "graphannis-webservice"]


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",):
            e.pop(k)
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC", None)
    e.pop("RUSTC_WRAPPER", None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], env=_env(), text=True).strip()


def build_driver():
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "driver")
    p = subprocess.run(
        ["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"), env=e, text=True, capture_output=True
    )
    if p.returncode != 0:
        raise BuildError("the fact extractor does not build:\n" + p.stderr[-4000:])
    return os.path.join(TARGET, "driver", "debug", "annisfacts")


def extract(packages=None, keep=None):
    """returns the directory with the facts (the caller removes it) and timing"""
    packages = packages or ALL
    os.makedirs(TARGET, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        out = keep or tempfile.mkdtemp(prefix="facts-", dir=TARGET)
        os.makedirs(out, exist_ok=True)
        e = _env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["ANNISFACTS_OUT"] = out
        e["ANNISFACTS_NONCE"] = "%d-%d" % (time.time_ns(), os.getpid())
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "check")
        cmd = ["cargo", "check", "--offline", "--quiet", "--all-features"]
        for p in packages:
            cmd += ["-p", p]
        p = subprocess.run(cmd, cwd=REPO, env=e, text=True, capture_output=True)
        if p.returncode != 0:
            if keep is None:
                shutil.rmtree(out, ignore_errors=True)
            raise BuildError("/repo does not type-check:\n" + p.stderr[-6000:])
    return out, time.time() - t0

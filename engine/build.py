"""Builds the THIR dumper and dumps the typed program of /repo's current tree."""
import fcntl
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("ELINOR_REPO", "/repo")
CACHE = os.environ.get("ELINOR_CACHE", os.path.join(ROOT, ".cache"))

CRATES = {
    "lib": (["-p", "elinor", "--lib", "--features", "serde"], ["elinor"]),
    "cli": (
        ["-p", "elinor-cli", "--lib", "--bins", "--features", "elinor/serde"],
        ["elinor", "elinor_cli", "elinor_compare", "elinor_convert", "elinor_evaluate"],
    ),
}


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"):
            del e[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed (%d)\n%s" % (" ".join(cmd), p.returncode, p.stdout[-6000:]))
    return p.stdout


def driver():
    """path of the dumper, built when absent or older than its source"""
    env = _env()
    tgt = os.path.join(CACHE, "driver")
    exe = os.path.join(tgt, "debug", "thirdump")
    env["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "+nightly", "build", "--offline", "--quiet"], env, os.path.join(ROOT, "driver"))
    if not os.path.exists(exe):
        raise BuildError("dumper was not built")
    return exe


def dump(kind, keep=None):
    """dump the crates of `kind` from /repo's working tree; returns (dir, crate names)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        env = _env()
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, ROOT).strip()
        args, crates = CRATES[kind]
        tgt = os.path.join(CACHE, "target")
        for sub in (".fingerprint", "build", "incremental"):
            d = os.path.join(tgt, "debug", sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith("elinor"):
                        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        out = keep or tempfile.mkdtemp(prefix="thir-", dir=CACHE)
        os.makedirs(out, exist_ok=True)
        for n in os.listdir(out):
            os.remove(os.path.join(out, n))
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copyfile(os.path.join(HERE, "Cargo.lock.saved"), lock)
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + env.get("LD_LIBRARY_PATH", "")
        env["THIRDUMP_OUT"] = out
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        _run(["cargo", "+nightly", "check", "--offline", "--quiet"] + args + ["--target-dir", tgt], env, REPO)
        missing = [c for c in crates if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            raise BuildError("no dump produced for " + ", ".join(missing))
        return out, crates


if __name__ == "__main__":
    driver()
    d, _ = dump("cli")
    shutil.rmtree(d)
    d, _ = dump("lib")
    shutil.rmtree(d)
    print("analyser built")

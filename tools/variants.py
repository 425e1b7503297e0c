#!/usr/bin/env python3
"""Development tool (no check uses it): applies source edits to scratch copies of /repo, dumps
them and runs checks on them.

    variants.py [-j N] [--all] [--only SUBSTR] [--build] FILE...

Each FILE (tools/variants/*.py) defines V(name, kind, checks, *edits) entries: kind "same" edits keep the
behaviour (the named checks - with --all every check of the crate kind - must stay quiet), kind "bug" edits
break the property of the first named check (at least one of the named checks must report)."""
import argparse
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "checks")]
ALL = []


def V(name, kind, checks, *edits):
    ALL.append((name, kind, checks.split(), edits))


def sub(f, old, new):
    return (f, old, new)


def prepare(base, name, edits):
    d = os.path.join(base, name)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target", ".git"))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if old is None:
            s = new(s)
        else:
            if s.count(old) != 1:
                return d, "edit matches %d times in %s: %s" % (s.count(old), f, old[:80])
            s = s.replace(old, new)
        open(p, "w").write(s)
    return d, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--only", default="")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--build", action="store_true", help="also run the repository's tests on the variant")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    for f in a.files:
        exec(compile(open(f).read(), f, "exec"), {"V": V, "sub": sub})
    import registry

    base = tempfile.mkdtemp(prefix="variants-", dir="/tmp")
    # a snapshot of the analyser, so that it can be edited while this runs
    snap = os.path.join(base, "snap")
    os.makedirs(snap)
    for n in ("engine", "checks", "driver"):
        shutil.copytree(os.path.join(ROOT, n), os.path.join(snap, n), ignore=shutil.ignore_patterns("target", "__pycache__"))
    for n in ("check.py", "known-findings.txt"):
        shutil.copy(os.path.join(ROOT, n), snap)
    os.environ["ELINOR_CACHE"] = os.path.join(ROOT, ".cache")
    ex = cf.ThreadPoolExecutor(a.j)
    def one(job):
        name, kind, c, out = job
        try:
            p = subprocess.run([sys.executable, os.path.join(snap, "check.py"), c, "--dump", out], capture_output=True, text=True, timeout=900)
            return name, kind, c, p.returncode, p.stdout + p.stderr[-1500:]
        except subprocess.TimeoutExpired:
            return name, kind, c, 99, "timeout"

    todo = []
    bad = 0
    for name, kind, checks, edits in ALL:
        if a.only and a.only not in name:
            continue
        d, err = prepare(base, name, edits)
        if err:
            print("%-40s BAD VARIANT: %s" % (name, err))
            bad += 1
            continue
        out = os.path.join(base, name + ".dump")
        e = dict(os.environ, ELINOR_REPO=d)
        kinds = {registry.CHECKS[c].crates for c in checks if c in registry.CHECKS}
        k = "cli" if "cli" in kinds or "elinor-cli" in str([x[0] for x in edits]) else "lib"
        p = subprocess.run([sys.executable, "-c", "import sys;sys.path.insert(0,%r);import build;build.dump(%r,%r)" % (os.path.join(snap, "engine"), k, out)], env=e, capture_output=True, text=True)
        if p.returncode:
            print("%-40s BAD VARIANT: does not build\n%s" % (name, p.stderr[-3000:]))
            bad += 1
            continue
        if a.build:
            t = subprocess.run(["cargo", "test", "--offline", "--workspace", "--target-dir", "/tmp/vtarget"], cwd=d, capture_output=True, text=True)
            if t.returncode:
                print("%-40s TESTS FAIL\n%s" % (name, "\n".join(x for x in t.stdout.split("\n") if "FAILED" in x or "panicked" in x)[:1500]))
        shutil.rmtree(d)
        sel = [c for c in registry.CHECKS if registry.CHECKS[c].crates == "lib" or k == "cli"] if a.all else [c for c in checks if c in registry.CHECKS]
        todo.append((name, kind, sel, [ex.submit(one, (name, kind, c, out)) for c in sel]))
    for name, kind, _, fs in todo:
        rs = [(c, rc, txt) for _, _, c, rc, txt in (f.result() for f in fs)]
        hit = [c for c, rc, _ in rs if rc == 1]
        odd = [c for c, rc, _ in rs if rc not in (0, 1)]
        if kind == "same":
            okv = not hit and not odd
        else:
            okv = bool(hit) and not odd
        bad += not okv
        print("%-40s %-5s %s caught by %s%s" % (name, kind, "ok " if okv else "XXX", " ".join(hit) or "-", (" NO ANSWER " + " ".join(odd)) if odd else ""), flush=True)
        if not okv or a.v:
            for c, rc, txt in rs:
                if rc and (kind == "same" or rc != 1) or a.v:
                    print("      %s: %s" % (c, txt.strip()[:1500]))
    shutil.rmtree(base)
    print("%d problems" % bad)


main()

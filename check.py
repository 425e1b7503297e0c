#!/usr/bin/env python3
"""Runs one static check against /repo's current source.

    check.py ID [--tier quick|thorough] [--dump DIR]

Exit 0: the property holds on everything analysed.  Exit 1 with a line
VIOLATION property=<id> replay=<path>: the named construct breaks it.
Exit 2: the check itself could not run (the tree does not build, ...)."""
import argparse
import json
import os
import shutil
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "checks")]
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.setrecursionlimit(60000)


LIMIT = 820  # seconds of analysis


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


def main():
    import threading

    threading.stack_size(1 << 29)
    rc, live = [], {}
    t = threading.Thread(target=lambda: rc.append(_main(live)), daemon=True)
    t.start()
    t.join(LIMIT)
    if t.is_alive():
        # fail closed: what is not established within the time limit is not established
        code = 2
        rep = live.get("rep")
        if rep is not None and rep.lab is not None:
            rep.violation(rep.lab.position(), "the property is not established here within %d s of analysis" % LIMIT)
            code = report(rep, live["tier"], LIMIT)
        sys.stdout.flush()
        if live.get("tmp"):
            shutil.rmtree(live["tmp"], ignore_errors=True)
        os._exit(code)
    sys.exit(rc[0] if rc else 2)


def _main(live):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--dump", help="use existing dumps (development only)")
    a = ap.parse_args()
    t0 = time.time()
    import build
    import registry

    pid = a.id
    spec = registry.CHECKS[pid]
    tmp = None
    try:
        if a.dump:
            out, crates = a.dump, build.CRATES[spec.crates][1]
        else:
            out, crates = build.dump(spec.crates)
            tmp = live["tmp"] = out
        import lab

        rep = live["rep"] = registry.Report(pid, a.tier)
        live["tier"] = a.tier
        try:
            L = lab.Lab(out, crates)
            rep.lab = L
            spec.run(L, rep)
        except lab.Missing as e:
            rep.violation("(anchor)", "the construct this property is anchored in is missing: %s" % e)
        except Exception as e:
            # fail closed: what cannot be analysed is not established
            traceback.print_exc()
            rep.violation(L.position() if rep.lab else "(analysis)", "the property cannot be established here, the construct is not analysable: %s: %s" % (type(e).__name__, str(e)[:300]))
    except build.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return report(rep, a.tier, time.time() - t0)


def report(rep, tier, seconds):
    pid = rep.pid
    known = known_findings(pid)
    viol = []
    for f in rep.findings:
        if f.key in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, f.key))
        else:
            viol.append(f)
    ev = rep.evidence(tier, seconds, len(viol))
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if viol:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + ".txt")
        with open(path, "w") as fh:
            fh.write("property %s: %d violation(s)\nre-run: python3 /verif/check.py %s\n\n" % (pid, len(viol), pid))
            for f in viol:
                fh.write("%s\n  %s\n\n" % (f.where, f.what))
        for f in viol[:10]:
            print("  %s: %s" % (f.where, f.what[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s: %s" % (pid, rep.summary()))
    return 0


if __name__ == "__main__":
    main()

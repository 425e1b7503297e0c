"""Registry of the checks and the report object they fill."""
from lab import Finding, Missing
import terms as T
from terms import *
from values import *

CHECKS = {}


class Check:
    def __init__(self, pid, crates, rule, assumptions, fn, technique):
        self.pid, self.crates, self.rule, self.assumptions, self.run, self.technique = pid, crates, rule, assumptions, fn, technique


def check(pid, crates="lib", rule="", assumptions=(), technique="abstract interpretation of THIR into a value graph"):
    def deco(fn):
        CHECKS[pid] = Check(pid, crates, rule, list(assumptions), fn, technique)
        return fn

    return deco


BASE_ASSUMPTIONS = [
    "rustc's THIR (name resolution, types, callees) is the program that is compiled",
    "modelled std / dependency functions behave as documented (models in engine/models.py)",
    "numbers are ideal: float arithmetic is exact, integers do not overflow",
]


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = []
        self.obls = []  # (name, ok)
        self.samples = []
        self.lab = None

    def ob(self, name, ok, where=None, what=None):
        """one proof obligation: holds (ok) or becomes a violation"""
        self.obls.append((name, bool(ok)))
        if not ok:
            self.violation(where or name, what or name)
        return ok

    def violation(self, where, what, key=None):
        self.findings.append(Finding(where, what, key))

    def equal(self, name, got, want, ctx, where):
        d = self.lab.same(got, want, ctx)
        return self.ob(name, d is None, where, "%s: differs from its definition when %s" % (name, "; ".join(d or [])))

    def summary(self):
        return "%d obligations discharged, %d functions analysed" % (len(self.obls), len(self.lab.functions) if self.lab else 0)

    def evidence(self, tier, wall, nviol):
        import os

        c = CHECKS[self.pid]
        L = self.lab
        fns = sorted({f for f in (L.fn_names() if L else [])})
        return {
            "property": self.pid,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": c.rule,
                "technique": c.technique,
                "obligations": len(self.obls),
                "discharged": sum(1 for _, ok in self.obls if ok),
                "abstract_runs": L.runs if L else 0,
                "calls_interpreted": L.calls if L else 0,
                "functions_analysed": len(fns),
                "functions": fns[:80],
                "unmodelled_calls": sorted({str(u) for u in L.unsup})[:20] if L else [],
                "samples": [n for n, _ in self.obls[:12]],
            },
            "assumptions": BASE_ASSUMPTIONS + c.assumptions,
            "wall_s": round(wall, 2),
            "violations": nviol,
        }


import checks_metrics  # noqa: E402,F401
import checks_store  # noqa: E402,F401
import checks_stats  # noqa: E402,F401
import checks_text  # noqa: E402,F401
import checks_names  # noqa: E402,F401
import checks_cli  # noqa: E402,F401
import checks_compare  # noqa: E402,F401
import checks_panic  # noqa: E402,F401
import checks_tests  # noqa: E402,F401

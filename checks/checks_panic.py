"""C34: no public function of the library panics."""
from registry import check
import itertools
import terms as T
from terms import *
import values as V
from values import *
import models
import interp as IP
from interp import Unsupported
from equiv import differ
from lab import deep, Missing
from checks_cli import rewrite
from strlang import Langs, NotRegular
from program import mkty, prim

ST = "elinor::statistical_tests::"
# std functions that may panic; a call without a model is reported
MAY_PANIC = {
    "unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "remove", "swap_remove", "insert", "split_at", "split_at_mut", "split_off", "drain", "splice", "copy_from_slice", "clone_from_slice",
    "chunks", "chunks_exact", "rchunks", "windows", "step_by", "swap", "rotate_left", "rotate_right", "copy_within", "select_nth_unstable", "select_nth_unstable_by", "borrow", "borrow_mut", "pow", "ilog2", "ilog10", "ilog",
    "div_euclid", "rem_euclid", "clamp", "truncate_to", "replace_range", "from_utf8_unchecked", "strict_add", "strict_sub", "strict_mul", "repeat", "next_power_of_two", "gen_range", "random_range", "lock",
}


def strip(t):
    while t.k == "ref":
        t = t.of
    return t


class Entries:
    def __init__(self, L):
        self.L = L
        self.values = {}

    def sample(self, name):
        return eta(sym(name), mkty("Vec<f64>", "adt", adt="std::vec::Vec", args=(prim("f64"),)))

    def built(self, adt):
        """(value, condition) of a type with private fields: whatever its constructors produce"""
        L = self.L
        if adt in self.values:
            return self.values[adt]
        name = adt.rsplit("::", 1)[-1]
        r = None
        n, m, seed = sym("n", "nat"), sym("m", "nat"), sym("seed", "nat")
        pairs = eta(sym("pairs"), mkty("Vec<(f64,f64)>", "adt", adt="std::vec::Vec", args=(mkty("(f64,f64)", "tuple", args=(prim("f64"),) * 2),)))
        i, j = fresh(), fresh()
        # every accepted table is rectangular (C16)
        cell = A(mk("num", mk("nth", mk("nth", sym("table"), A(i)), A(j)), "real"))
        table = Comp([i], lt(A(i), n), Comp([j], lt(A(j), m), cell))
        val = lambda f, *a: L.run(f, list(a)).deep()
        ok = lambda v: (vfield(v, "Ok", "0"), vcond(v, "Ok"))
        if name == "StudentTTest":
            r = ok(val("StudentTTest::from_paired_samples", pairs))
        elif name == "BootstrapTester":
            r = (val("BootstrapTester::with_random_state", val("BootstrapTester::with_n_resamples", val("BootstrapTester::new"), n), seed), ONE)
        elif name == "BootstrapTest":
            r = ok(val("BootstrapTester::test", self.built("BootstrapTester")[0], pairs))
        elif name == "RandomizedTukeyHsdTester":
            r = (val("RandomizedTukeyHsdTester::with_random_state", val("RandomizedTukeyHsdTester::with_n_iters", val("RandomizedTukeyHsdTester::new", m), sym("iters", "nat")), seed), ONE)
        elif name == "RandomizedTukeyHsdTest":
            r = ok(val("RandomizedTukeyHsdTester::test", self.built("RandomizedTukeyHsdTester")[0], table))
        elif name in ("TwoWayAnovaWithoutReplication", "TukeyHsdTest"):
            r = ok(val(name + "::from_tupled_samples", table, m))
        self.values[adt] = r
        return r

    def args(self, b, built=True):
        """(arguments, condition on them)"""
        out, ctx = [], ONE
        for k, p in enumerate(b["params"]):
            t = strip(p["t"])
            v = None
            if t.k == "adt" and t.adt:
                name = t.adt.rsplit("::", 1)[-1].split("<")[0]
                if name == "RelevanceStore":
                    v = self.L.store("T", "u32") if "u32" in t.s else self.L.store("P", "f64")
                elif built and self.built(t.adt) is not None:
                    v, c = self.built(t.adt)
                    ctx = ctx * c
            out.append(eta(sym("a%d" % k), p["t"]) if v is None else v)
        return out, ctx


def possible(c, ctx, args):
    """None when the condition cannot hold, otherwise a description of a case where it does"""
    c = pmul(c, ctx)
    if T.has_box(c):
        c = T.unbox(c)
    if c is ZERO:
        return None
    d = differ(c, ZERO, ONE)
    if d is None:
        return None
    for a in args:
        if a.op == "sym" or sort_of(a) == "obj":
            try:
                for dom, qs in Langs(a).leaves([c]):
                    if qs[0] is not ZERO:
                        return ["input %r" % dom.example()]
                return None
            except (NotRegular, AttributeError, KeyError, IndexError, TypeError):
                pass
    return d


def finite(t):
    """the term for finite data"""
    return rewrite(t, lambda a: ZERO if a.op == "nf" else None)


def case_of(o, ctx, r, args):
    """the smallest kind of input outside of which the panic cannot happen, if it is one of these"""
    wide = ONE
    for p, a in zip(r.body["params"], args):
        if strip(p["t"]).s == "usize":
            wide = wide * le(C(2), P(a))
    sure = ONE
    for x in r.I.obl:
        if x[0] == "float division by zero":
            sure = sure * (ONE - x[3])
    cases = [("numbers that are not finite", lambda c: finite(c)), ("fewer than two systems", lambda c: pmul(wide, c)), ("a zero variance", lambda c: pmul(sure, c))]
    for k in (1, 2, 3):
        for sub in itertools.combinations(cases, k):
            c = pmul(o[3], ctx)
            for _, f in sub:
                c = f(c)
            if possible(c, ONE, args) is None:
                return [n for n, _ in sub]
    return []


def panics(runs):
    """(number of sites, [(obligation, case, input class)]) of the sites that can panic"""
    n = 0
    worst = []
    for r, ctx, args in runs:
        try:
            r.seq() if r.value.op == "it" else r.deep()
        except (Unsupported, NotImplementedError):
            pass
        for o in r.I.obl:
            if o[0].startswith("float"):
                continue
            n += 1
            if o[3] is ZERO:
                continue
            d = possible(o[3], ctx, args)
            if d is not None:
                worst.append((o, d, case_of(o, ctx, r, args)))
        for name, _, pc, _, fn, sp in r.I.events:
            if name.rsplit("::", 1)[-1] in MAY_PANIC and pc is not ZERO and not name.startswith("HashSet") and not name.startswith("BTree"):
                worst.append(((name, fn, sp, pc, "no model"), ["it is called"], ""))
    return n, worst


@check(
    "C34",
    rule="Every exported function of the library is interpreted on arbitrary arguments (values of types with private fields are whatever their constructors return). Each point that can panic - unwrap, expect, "
    "index and range, map lookup by index, integer subtraction and division, explicit panic, random ranges, quantile domains, distribution construction, any other diverging call - yields the condition "
    "on the arguments under which it does; that condition must be unsatisfiable.",
    assumptions=["the key type's own operations do not panic", "integer additions and multiplications do not overflow (counts are far below 2^64)", "memory is not exhausted", "calls into other crates that have no model and are not known to panic do not"],
)
def c34(L, rep):
    E = Entries(L)
    sites = 0
    bodies = [b for _, b in sorted(L.prog.bodies.items(), key=lambda kb: kb[1]["path"]) if b["kind"] in ("Fn", "AssocFn") and b.get("pub") and not b.get("derived")]
    rep.ob("the library exports functions", len(bodies) > 40, "elinor", "only %d exported functions found" % len(bodies))
    bad = {}
    for b in bodies:
        runs = []
        metric = [k for k, p in enumerate(b["params"]) if strip(p["t"]).k == "adt" and (strip(p["t"]).adt or "").endswith("metrics::Metric")]
        if b["path"] == "elinor::evaluate":
            runs = [(L.evaluation(v), ONE, []) for v in L.variants()]
        elif metric and any(b["path"] in L.evaluation(v).I.inlined for v in L.variants()[:1]):
            # analysed as part of evaluate, which passes all its arguments on
            rep.ob("%s (through evaluate)" % b["path"], True, b["path"])
            continue
        elif b["path"].endswith("Metric as std::fmt::Display>::fmt"):
            for v in L.variants():
                I = L.interp()
                st = IP.St({}, ONE, ONE)
                models.display(I, st, L.metric(v, L.K), None)
                from lab import Run
                runs.append((Run(L, I, st, UNIT, b), ONE, []))
        else:
            runs = None
            # first with arbitrary field values, then with values the constructors can produce
            for built in (False, True):
                args, ctx = E.args(b, built)
                try:
                    n, worst = panics([(L.run(b, args), ctx, args)])
                except Exception:
                    if built:
                        raise
                    continue
                if not worst:
                    break
        if runs is not None:
            n, worst = panics(runs)
        sites += n
        rep.obls.append(("%s: %d sites" % (b["path"], n), not worst))
        for o, d, case in worst:
            kind = "%s%s" % (o[0], " (%s)" % o[4] if o[4] else "")
            bad.setdefault((o[1], str(o[2]), kind), []).append((b["path"], d, case))
    exported = {b["path"] for b in bodies}
    count = {}
    for (fn, sp, kind), es in sorted(bad.items(), key=lambda x: (x[0][0], line(x[0][1]), x[0][2])):
        # named after the exported function it belongs to, so that helpers can come and go
        owner = fn if fn in exported else min(es, key=lambda e: (fn.rsplit("::", 1)[0] != e[0].rsplit("::", 1)[0], e[0]))[0]
        entry, d, case = es[0]
        case = " and ".join(sorted({c for e in es for c in e[2]})) if all(e[2] for e in es) else ""
        count[owner, kind] = count.get((owner, kind), 0) + 1
        key = "%s: %s #%d%s" % (owner, kind, count[owner, kind], " for " + case if case else "")
        rep.violation("%s (%s)" % (fn, sp), "%s can fail when called through %s: %s" % (kind, entry, "; ".join(d)[:600]), key)
    rep.obls.append(("%d sites that could panic were analysed" % sites, sites > 20))


def line(sp):
    try:
        return int(sp.rsplit(":", 1)[1])
    except (ValueError, IndexError):
        return 0

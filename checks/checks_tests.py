"""C16-C28: the statistical tests."""
from registry import check
import terms as T
from terms import *
import values as V
from values import *
import equiv
from lab import deep, Missing
from program import mkty, prim
from checks_cli import rewrite
from checks_stats import vec, where, opaque, F64

PAIR = mkty("(f64,f64)", "tuple", args=(F64, F64))
ROW = vec(F64)
TTEST, BOOT, RHSD, ANOVA, TUKEY = "StudentTTest", "BootstrapTester", "RandomizedTukeyHsdTester", "TwoWayAnovaWithoutReplication", "TukeyHsdTest"


def pairs(x, y, n):
    """the sequence of n pairs (x(i), y(i))"""
    i = fresh()
    return Comp([i], lt(A(i), n), V.tup(x(A(i)), y(A(i))))


def cell(name, *idx):
    t = mk("sym", name, "obj")
    for i in idx:
        t = mk("nth", t, P(i))
    return A(mk("num", t, "real"))


ALPHA = mk("sym", "alpha", "real")


def xs(i):
    return cell("x", i)


def ys(i):
    return cell("y", i)


def total(n, f):
    k = T.const_of(P(n))
    if k is not None:
        r = ZERO
        for j in range(int(k)):
            r = r + f(C(j))
        return r
    i = fresh()
    return Sum(i, lt(A(i), n) * f(A(i)))


class Outcome:
    """the result of a fallible call"""

    def __init__(self, L, path, args, tsub, finite=True):
        self.L, self.path = L, path
        T.FINITE = finite
        self.run = L.run(path, args, tsub)
        self.value = self.run.deep()
        self.ok = vcond(self.value, "Ok")
        self.obj = vfield(self.value, "Ok", "0")
        self.err = vfield(self.value, "Err", "0")
        self.where = where(L, path)
        self.obl = self.run.live_obligations()

    def rejects(self, kind):
        return (ONE - self.ok) * vcond(self.err, kind)

    def panics(self, ctx):
        """obligations that can fail under ctx"""
        return [o for o in self.obl if o[0] not in ("float division by zero", "overflow") and equiv.differ(o[3], ZERO, ctx) is not None]

    def get(self, accessor, *args):
        owner = self.L.fn(accessor)
        r = self.L.run(accessor, [self.obj] + list(args), {})
        return r


def ttest(L, samples, **kw):
    return Outcome(L, TTEST + "::from_paired_samples", [samples], {"I": vec(PAIR)}, **kw)


def anova(L, table, m, what=ANOVA, **kw):
    return Outcome(L, what + "::from_tupled_samples", [table, m], {"I": vec(ROW), "S": ROW}, **kw)


def boot(L, samples, state="some", **kw):
    return Outcome(L, BOOT + "::test", [tester(L, BOOT, [], "with_n_resamples", state), samples], {"I": vec(PAIR)}, **kw)


def rhsd(L, table, m, state="some", **kw):
    return Outcome(L, RHSD + "::test", [tester(L, RHSD, [m], "with_n_iters", state), table], {"I": vec(ROW), "S": ROW}, **kw)


def tester(L, name, args, count, state):
    v = L.run(name + "::new", args, {}).deep()
    v = L.run(name + "::" + count, [v, RESAMPLES], {}).deep()
    if state == "some":
        v = L.run(name + "::with_random_state", [v, SEED], {}).deep()
    return v


RESAMPLES = sym("N", "nat") + 1
SEED = sym("seed", "nat")


def rectangle(n, m, f=None):
    i, j = fresh(), fresh()
    f = f or (lambda i, j: cell("s", i, j))
    return Comp([i], lt(A(i), n), Comp([j], lt(A(j), m), f(A(i), A(j))))


def rect(s, m):
    """every row of s has m entries"""
    i = fresh()
    n = seq_len(s)
    return ONE - Exists(i, lt(A(i), n) * (ONE - eq0(seq_len(seq_nth(s, A(i))) - m)))


def known(rep, o, name, ok, what, key):
    """an obligation whose failure may be a recorded finding"""
    rep.obls.append((name, bool(ok)))
    if not ok:
        rep.violation(o.where, "%s: %s" % (name, what), key)


# ---------------------------------------------------------------- C16
@check(
    "C16",
    rule="The constructors of the five tests are interpreted on arbitrary samples and numbers of systems. The condition under which they return InvalidArgument must be exactly the negation of the shape the "
    "property states, and the accessors of an accepted test must return the numbers of topics and systems of the input.",
)
def c16(L, rep):
    s = opaque("s", vec(PAIR))
    n = seq_len(s)
    for name, o, owner in (("t-test", ttest(L, s), "StudentTTest"), ("bootstrap", boot(L, s), "BootstrapTest")):
        rep.equal("%s: InvalidArgument exactly below two pairs" % name, o.rejects("InvalidArgument"), lt(n, C(2)), ONE, o.where)
        rep.equal("%s: the number of topics is the number of pairs" % name, o.get(owner + "::n_topics").deep(), n, o.ok, o.where)
    s = opaque("s", vec(ROW))
    n = seq_len(s)
    m = sym("m", "nat")
    for name, o, owner, lo in (
        ("ANOVA", anova(L, s, m), ANOVA, 2),
        ("Tukey HSD", anova(L, s, m, TUKEY), TUKEY, 2),
        ("randomized Tukey HSD", rhsd(L, s, m), "RandomizedTukeyHsdTest", 1),
    ):
        shape = le(C(lo), n) * rect(s, m)
        ctx = le(C(2), m) if lo == 2 else ONE
        rep.equal("%s: InvalidArgument exactly for tables of the wrong shape" % name, o.rejects("InvalidArgument"), ONE - shape, ctx, o.where)
        rep.equal("%s: the number of topics is the number of rows" % name, o.get(owner + "::n_topics").deep(), n, o.ok * ctx, o.where)
        rep.equal("%s: the number of systems is the given one" % name, o.get(owner + "::n_systems").deep(), m, o.ok * ctx, o.where)
        if lo == 2:
            for k in (0, 1):
                o = anova(L, s, C(k), owner)
                known(
                    rep, o, "%s: InvalidArgument for %d systems" % (name, k),
                    equiv.differ(o.rejects("InvalidArgument"), ONE, ONE) is None and not o.panics(ONE),
                    "not rejected with InvalidArgument", "%s: fewer than two systems are not rejected" % name,
                )


# ---------------------------------------------------------------- definitions
def moments(n, d):
    """mean and unbiased variance of n differences"""
    mean = div(total(n, d), n, ONE)
    return mean, div(total(n, lambda i: (d(i) - mean) * (d(i) - mean)), n - 1, ONE)


def t_sf(x, f):
    return fnum("StudentsT.sf", x, f)


def t_quantile(p, f):
    return fnum("StudentsT.icdf", p, f)


TT = ("mean", "variance", "t_stat", "effect_size", "p_value")


def tt_stats(o):
    return {f: o.get(TTEST + "::" + f).deep() for f in TT}


@check(
    "C18",
    rule="from_paired_samples is interpreted on n arbitrary finite pairs and the value graph of every accessor of the accepted test is compared with the definition of the statistic; margin_of_error and "
    "confidence_interval likewise for an arbitrary significance level in (0, 1].",
    assumptions=["StudentsT of statrs is the location-scale family of Student's t"],
)
def c18(L, rep):
    n = sym("n", "nat") + 2
    o = ttest(L, pairs(xs, ys, n))
    d = lambda i: xs(i) - ys(i)
    mean, var = moments(n, d)
    ok = o.ok
    w = o.where
    rep.equal("accepted whenever the variance is positive", ok, gt0(var), ONE, w)
    t = div(mean, sqrt(div(var, n, ONE)), ok)
    want = {
        "mean": mean,
        "variance": var,
        "t_stat": t,
        "effect_size": div(mean, sqrt(var), ok),
        "p_value": scale(t_sf(absv(t), n - 1), 2),
    }
    for f, v in tt_stats(o).items():
        rep.equal(f, v, want[f], ok, w)
    a = A(ALPHA)
    ctx = ok * gt0(a) * (ONE - gt0(a - 1))
    moe = sqrt(div(var, n, ONE)) * t_quantile(ONE - scale(a, Fr(1, 2)), n - 1)
    r = o.get(TTEST + "::margin_of_error", a).deep()
    rep.equal("margin of error", vfield(r, "Ok", "0"), moe, ctx, where(L, TTEST + "::margin_of_error"))
    r = o.get(TTEST + "::confidence_interval", a).deep()
    ci = vfield(r, "Ok", "0")
    w = where(L, TTEST + "::confidence_interval")
    rep.equal("lower end of the confidence interval", fld(ci, "0"), mean - moe, ctx, w)
    rep.equal("upper end of the confidence interval", fld(ci, "1"), mean + moe, ctx, w)


@check(
    "C28",
    rule="margin_of_error (t-test, ANOVA) and confidence_interval are interpreted for an arbitrary number as significance level: the condition of success must be 0 < level <= 1, every other level must give "
    "InvalidArgument, and no operation that can panic may be reachable with a failing argument.",
)
def c28(L, rep):
    n = sym("n", "nat") + 2
    m = sym("m", "nat") + 2
    for owner, fn in ((TTEST, "margin_of_error"), (TTEST, "confidence_interval"), (ANOVA, "margin_of_error")):
        o = ttest(L, pairs(xs, ys, n)) if owner == TTEST else anova(L, rectangle(n, m), m)
        o.where = w = where(L, owner + "::" + fn)
        T.FINITE = False
        a = A(ALPHA)
        r = o.get(owner + "::" + fn, a)
        T.FINITE = True
        # the statistics themselves are those of finite data here: only the level may be anything
        def only(p, v):
            return rewrite(p, lambda x: (v if x.args[0] is ALPHA else ZERO) if x.op == "nf" else None)

        v = r.deep()
        inside = gt0(a) * (ONE - gt0(a - 1))
        name = "%s::%s" % (owner, fn)
        ok = only(vcond(v, "Ok"), ZERO)
        rep.equal(name + ": a number exactly for levels in (0, 1]", ok, inside, o.ok, w)
        rep.equal(name + ": InvalidArgument for other numbers", only(vcond(vfield(v, "Err", "0"), "InvalidArgument"), ZERO), ONE, o.ok * (ONE - inside), w)
        bad = [x for x in r.live_obligations() if x[0] not in ("float division by zero", "overflow")]
        for x in bad:
            rep.ob("%s: no panic (%s)" % (name, x[0]), equiv.differ(only(x[3], ZERO), ZERO, o.ok) is None, "%s (%s)" % (x[1], x[2]), "can fail for a number as level")
        known(
            rep, o, name + ": InvalidArgument for NaN", equiv.differ(only(vcond(v, "Ok"), ONE), ZERO, o.ok) is None and not [x for x in bad if equiv.differ(only(x[3], ONE), ZERO, o.ok) is not None],
            "a significance level that is not a number is not rejected", name + ": NaN is not rejected",
        )


# ---------------------------------------------------------------- relations
def boot_p(o):
    return o.get("BootstrapTest::p_value").deep()


@check(
    "C19",
    rule="The t-test and the bootstrap test are interpreted on n arbitrary finite pairs and on the same pairs with their components exchanged; the value graphs of the two results are compared under the stated relation.",
)
def c19(L, rep):
    n = sym("n", "nat") + 2
    a, b = ttest(L, pairs(xs, ys, n)), ttest(L, pairs(ys, xs, n))
    w = a.where
    rep.equal("t-test: accepted alike", b.ok, a.ok, ONE, w)
    va, vb = tt_stats(a), tt_stats(b)
    for f in ("mean", "t_stat", "effect_size"):
        rep.equal("t-test: %s is negated" % f, vb[f], -va[f], a.ok, w)
    for f in ("variance", "p_value"):
        rep.equal("t-test: %s is unchanged" % f, vb[f], va[f], a.ok, w)
    al = A(ALPHA)
    ctx = a.ok * gt0(al) * (ONE - gt0(al - 1))
    ma, mb = [vfield(o.get(TTEST + "::margin_of_error", al).deep(), "Ok", "0") for o in (a, b)]
    rep.equal("t-test: the margin of error is unchanged", mb, ma, ctx, w)
    a, b = boot(L, pairs(xs, ys, n)), boot(L, pairs(ys, xs, n))
    w = a.where
    rep.equal("bootstrap: accepted alike", b.ok, a.ok, ONE, w)
    rep.equal("bootstrap: the p-value is unchanged", boot_p(b), boot_p(a), a.ok, w)


AN = ("between_system_f_stat", "between_topic_f_stat", "between_system_p_value", "between_topic_p_value")
AN_SYS = ("between_system_variation", "between_system_variance", "residual_variation", "residual_variance", "between_system_f_stat", "between_system_p_value")


@check(
    "C20",
    rule="The t-test, the bootstrap test, ANOVA and Tukey's HSD test are interpreted on arbitrary finite scores, on the same scores times an arbitrary positive constant, and on the same scores with an arbitrary constant "
    "added per topic; the value graphs of the two results are compared under the stated relation.",
)
def c20(L, rep):
    n = sym("n", "nat") + 2
    c = A(mk("fn", "exp2", A(mk("sym", "c", "real"))))  # any positive number
    pos = ONE
    shift = lambda i: cell("h", i)
    base = ttest(L, pairs(xs, ys, n))
    w = base.where
    va = tt_stats(base)
    o = ttest(L, pairs(lambda i: c * xs(i), lambda i: c * ys(i), n))
    rep.equal("t-test, scaled: accepted alike", o.ok, base.ok, pos, w)
    vb = tt_stats(o)
    for f in ("t_stat", "effect_size", "p_value"):
        rep.equal("t-test, scaled: %s is unchanged" % f, vb[f], va[f], pos * base.ok, w)
    o = ttest(L, pairs(lambda i: xs(i) + shift(i), lambda i: ys(i) + shift(i), n))
    rep.equal("t-test, shifted: accepted alike", o.ok, base.ok, ONE, w)
    for f, v in tt_stats(o).items():
        rep.equal("t-test, shifted: %s is unchanged" % f, v, va[f], base.ok, w)
    a, o = boot(L, pairs(xs, ys, n)), boot(L, pairs(lambda i: xs(i) + shift(i), lambda i: ys(i) + shift(i), n))
    rep.equal("bootstrap, shifted: accepted alike", o.ok, a.ok, ONE, a.where)
    rep.equal("bootstrap, shifted: the p-value is unchanged", boot_p(o), boot_p(a), a.ok, a.where)
    m = sym("m", "nat") + 2
    base = anova(L, rectangle(n, m), m)
    w = base.where
    get = lambda o, f: o.get(ANOVA + "::" + f).deep()
    ok = residual(L, base)
    o = anova(L, rectangle(n, m, lambda i, j: c * cell("s", i, j)), m)
    for f in AN:
        rep.equal("ANOVA, scaled: %s is unchanged" % f, get(o, f), get(base, f), pos * ok, w)
    o = anova(L, rectangle(n, m, lambda i, j: cell("s", i, j) + shift(i)), m)
    for f in AN_SYS:
        rep.equal("ANOVA, shifted: %s is unchanged" % f, get(o, f), get(base, f), ok, w)
    sizes = lambda o: [[seq_nth(seq_nth(e, C(i)), C(j)) for i in range(3) for j in range(3)] for e in [effect_sizes(o)]][0]
    k = C(3)
    base = anova(L, rectangle(n, k), k, TUKEY)
    o = anova(L, rectangle(n, k, lambda i, j: c * cell("s", i, j)), k, TUKEY)
    ok = gt0(anova_stats(n, k)["residual_variance"])
    for x, (p, q) in enumerate(zip(sizes(base), sizes(o))):
        rep.equal("Tukey HSD, scaled: effect size %d is unchanged" % x, q, p, pos * ok, base.where)


def residual(L, o):
    """the residual variance of an accepted ANOVA is positive"""
    return o.ok * gt0(o.get(ANOVA + "::residual_variance").deep())


def effect_sizes(o):
    r = o.L.run(TUKEY + "::effect_sizes", [o.obj], {}, I=o.L.interp())
    return r.deep()


# ---------------------------------------------------------------- ANOVA
def f_sf(x, a, b):
    return fnum("FisherSnedecor.sf", x, a, b)


def anova_stats(n, m, x=None):
    """the statistics of the n x m table x by definition"""
    x = x or (lambda i, j: cell("s", i, j))
    grand = div(total(n, lambda i: total(m, lambda j: x(i, j))), n * m, ONE)
    sysm = lambda j: div(total(n, lambda i: x(i, j)), n, ONE)
    topm = lambda i: div(total(m, lambda j: x(i, j)), m, ONE)
    sq = lambda v: v * v
    d = {"system_mean": sysm, "topic_mean": topm}
    d["between_system_variation"] = n * total(m, lambda j: sq(sysm(j) - grand))
    d["between_topic_variation"] = m * total(n, lambda i: sq(topm(i) - grand))
    d["residual_variation"] = total(n, lambda i: total(m, lambda j: sq(x(i, j) - sysm(j) - topm(i) + grand)))
    fa, fb = m - 1, n - 1
    fe = fa * fb
    va = d["between_system_variance"] = div(d["between_system_variation"], fa, ONE)
    vb = d["between_topic_variance"] = div(d["between_topic_variation"], fb, ONE)
    ve = d["residual_variance"] = div(d["residual_variation"], fe, ONE)
    ok = gt0(ve)
    d["between_system_f_stat"] = div(va, ve, ok)
    d["between_topic_f_stat"] = div(vb, ve, ok)
    d["between_system_p_value"] = f_sf(d["between_system_f_stat"], fa, fe)
    d["between_topic_p_value"] = f_sf(d["between_topic_f_stat"], fb, fe)
    return d


@check(
    "C21",
    rule="from_tupled_samples is interpreted on an arbitrary finite table of n topics by m systems (n, m >= 2) with positive residual variance, and the value graph of every accessor is compared with the definition of the statistic.",
    assumptions=["StudentsT and FisherSnedecor of statrs are the distributions they are named after"],
)
def c21(L, rep):
    n = sym("n", "nat") + 2
    m = sym("m", "nat") + 2
    o = anova(L, rectangle(n, m), m)
    w = o.where
    want = anova_stats(n, m)
    ve = want["residual_variance"]
    ok = gt0(ve)
    rep.equal("accepted when the residual variance is positive", o.ok, ONE, ok, w)
    for f, v in want.items():
        if not callable(v):
            rep.equal(f, o.get(ANOVA + "::" + f).deep(), v, ok, w)
    q = sym("q", "nat")
    for f, k in (("system_mean", m), ("topic_mean", n)):
        v = o.get(ANOVA + "::" + f + "s").deep()
        rep.equal("the number of %ss" % f, seq_len(v), k, ok, w)
        rep.equal(f, seq_nth(v, q), want[f](q), ok * lt(q, k), w)
    al = A(ALPHA)
    ctx = ok * gt0(al) * (ONE - gt0(al - 1))
    r = o.get(ANOVA + "::margin_of_error", al).deep()
    moe = sqrt(div(ve, n, ONE)) * t_quantile(ONE - scale(al, Fr(1, 2)), (n - 1) * (m - 1))
    rep.equal("margin of error", vfield(r, "Ok", "0"), moe, ctx, where(L, ANOVA + "::margin_of_error"))


@check(
    "C22",
    rule="Tukey's HSD test is interpreted on an arbitrary finite table of n topics by 2, 3 and 4 systems with positive residual variance; the matrix returned by effect_sizes is compared, entry by entry, with the "
    "definition, its transposed negation and zero on the diagonal.",
    assumptions=["2, 3 and 4 systems are analysed"],
)
def c22(L, rep):
    n = sym("n", "nat") + 2
    for k in (2, 3, 4):
        m = C(k)
        o = anova(L, rectangle(n, m), m, TUKEY)
        want = anova_stats(n, m)
        ok = gt0(want["residual_variance"])
        w = where(L, TUKEY + "::effect_sizes")
        sd = sqrt(want["residual_variance"])
        rep.equal("%d systems: accepted when the residual variance is positive" % k, o.ok, ONE, ok, w)
        e = effect_sizes(o)
        rep.equal("%d systems: the number of rows" % k, seq_len(e), m, ok, w)
        for i in range(k):
            row = seq_nth(e, C(i))
            rep.equal("%d systems: the length of row %d" % (k, i), seq_len(row), m, ok, w)
            for j in range(k):
                v = seq_nth(row, C(j))
                d = div(want["system_mean"](C(i)) - want["system_mean"](C(j)), sd, ok) if i != j else ZERO
                rep.equal("%d systems: effect size of %d and %d" % (k, i, j), v, d, ok, w)


# ---------------------------------------------------------------- randomized tests
def tokens(t, op):
    """the random draws (draw / shuffle atoms) of a value, each with the loop variables it stands under, outermost first"""
    out = []
    seen = set()

    def go(x, binders):
        if isinstance(x, tuple):
            for y in x:
                go(y, binders)
            return
        if not isinstance(x, Term) or (x, len(binders)) in seen:
            return
        seen.add((x, len(binders)))
        if x.op == op:
            out.append((x, [v for v in binders if v in x.fv]))
            return
        if x.op == "sum":
            fvs, bodies = T.open_binder(x)
            for b in bodies:
                go(b, binders + list(fvs))
            return
        for y in x.args:
            go(y, binders)

    go(t, [])
    return out


class Draws:
    """the draws of the r-th round for the i-th element, read off the value computed by the code"""

    def __init__(self, p, op):
        self.tok, self.vars = None, None
        for t, vs in tokens(p, op):
            if len(vs) == 2:
                self.tok, self.vars = t, vs
                break

    def at(self, r, i):
        return subst(self.tok, {self.vars[0]: P(r), self.vars[1]: P(i)})


def stream(rep, D, n, bound, o, what):
    """every element of every round is drawn from the generator seeded with the reported state, each at its own position of the stream"""
    w = o.where
    if not rep.ob("%s: a draw for every element of every round" % what, D.tok is not None, w, "no draw indexed by the round and the element was found"):
        return False
    r, i = sym("r", "nat"), sym("e", "nat")
    tok = D.at(r, i)
    rng, k = tok.args
    ctx = lt(r, RESAMPLES) * lt(i, n)
    rep.equal("%s: drawn among all" % what, P(k), P(bound), ctx, w)
    rep.equal("%s: from the generator seeded with the random state" % what, P(rng.args[1]), SEED, ctx, w)
    pos = lambda r, i: P(D.at(r, i).args[0].args[2])
    rep.equal("%s: elements are drawn independently" % what, ge0(pos(r, i + 1) - pos(r, i) - 1), ONE, lt(r, RESAMPLES) * lt(i + 1, n), w)
    rep.equal("%s: rounds are drawn independently" % what, ge0(pos(r + 1, ZERO) - pos(r, n - 1) - 1), ONE, lt(r + 1, RESAMPLES), w)
    return True


def boot_definition(D, n):
    d = lambda i: xs(i) - ys(i)
    mean, var = moments(n, d)
    t = div(mean, sqrt(div(var, n, ONE)), gt0(var))

    def extreme(r):
        def e(i):
            k = A(D.at(r, i))
            return xs(k) - ys(k) - mean

        mu, v = moments(n, e)
        tr = gt0(v) * div(mu, sqrt(div(v, n, ONE)), gt0(v))
        return ONE - gt0(absv(t) - absv(tr))

    return div(total(RESAMPLES, extreme), RESAMPLES, ONE)


def round_range(D, r, n, k):
    """range of the system means of the r-th round of shuffles"""
    import models

    def cellr(i, j):
        row = lst(*[cell("s", i, C(x)) for x in range(k)])
        return P(seq_nth(models.perm_seq(D.at(r, i), row), C(j)))

    means = [div(total(n, lambda i: cellr(i, j)), n, ONE) for j in range(k)]
    return models.ext_seq("max", lst(*means)) - models.ext_seq("min", lst(*means))


def rhsd_definition(D, n, k):
    obs = anova_stats(n, C(k))["system_mean"]
    return lambda i, j: div(total(RESAMPLES, lambda r: ONE - gt0(absv(obs(C(i)) - obs(C(j))) - round_range(D, r, n, k))), RESAMPLES, ONE)


def p_matrix(o):
    return o.get("RandomizedTukeyHsdTest::p_values").deep()


def at2(e, i, j):
    return seq_nth(seq_nth(e, C(i)), C(j))


def square(rep, e, k, o, tag):
    rep.equal("%s: the number of rows" % tag, seq_len(e), C(k), o.ok, o.where)
    for i in range(k):
        rep.equal("%s: the length of row %d" % (tag, i), seq_len(seq_nth(e, C(i))), C(k), o.ok, o.where)


@check(
    "C27",
    rule="BootstrapTester::test is interpreted on n arbitrary finite pairs, an arbitrary seed and number N of resamples. The draws of its value graph must be indexed by resample and element, uniform over all n "
    "elements, and taken at pairwise different positions of the stream of the generator seeded with the state; the p-value must be the proportion of resamples of the centred differences, defined with these draws, whose "
    "absolute t statistic is at least that of the original differences.",
    assumptions=["rand's StdRng::seed_from_u64 and gen_range give independent uniform numbers at different positions of the stream"],
)
def c27(L, rep):
    n = sym("n", "nat") + 2
    o = boot(L, pairs(xs, ys, n))
    p = boot_p(o)
    D = Draws(p, "draw")
    if stream(rep, D, n, n, o, "resample"):
        rep.equal("the p-value is the proportion of resamples at least as extreme", p, boot_definition(D, n), o.ok, o.where)


@check(
    "C26",
    rule="RandomizedTukeyHsdTester::test is interpreted on an arbitrary finite table of n topics by 2 and 3 systems, an arbitrary seed and number N of iterations. Each iteration must shuffle each topic's own "
    "original scores with a shuffle at its own position of the stream, and each p-value above the diagonal must be the proportion of iterations whose range of shuffled system means is at least the absolute difference of "
    "the observed means.",
    assumptions=["rand's SliceRandom::shuffle permutes uniformly, independently at different positions of the stream", "2 and 3 systems are analysed"],
)
def c26(L, rep):
    n = sym("n", "nat") + 2
    for k in (2, 3):
        o = rhsd(L, rectangle(n, C(k)), C(k))
        e = p_matrix(o)
        D = Draws(e, "shuffle")
        tag = "%d systems" % k
        if not stream(rep, D, n, C(k), o, tag):
            continue
        f = rhsd_definition(D, n, k)
        for i in range(k):
            for j in range(i + 1, k):
                rep.equal("%s: p-value of %d and %d" % (tag, i, j), at2(e, i, j), f(i, j), o.ok, o.where)


@check(
    "C25",
    rule="RandomizedTukeyHsdTester::test is interpreted on an arbitrary finite table of n topics by 2, 3 and 4 systems, an arbitrary seed and number of iterations; the value graph of the p-value matrix must be square "
    "with ones on the diagonal and equal entries at (i, j) and (j, i).",
    assumptions=["2, 3 and 4 systems are analysed"],
)
def c25(L, rep):
    n = sym("n", "nat") + 2
    for k in (2, 3, 4):
        o = rhsd(L, rectangle(n, C(k)), C(k))
        e = p_matrix(o)
        tag = "%d systems" % k
        rep.equal("%s: accepted" % tag, o.ok, ONE, ONE, o.where)
        square(rep, e, k, o, tag)
        for i in range(k):
            rep.equal("%s: p-value of %d and itself" % (tag, i), at2(e, i, i), ONE, o.ok, o.where)
            for j in range(i + 1, k):
                rep.equal("%s: p-values of %d and %d" % (tag, i, j), at2(e, i, j), at2(e, j, i), o.ok, o.where)


@check(
    "C24",
    rule="The randomized tests are interpreted with an arbitrary configured number of rounds. The reported number must be the configured one, at least 1 and 10000 by default, and the value graph of every p-value must be "
    "the number of rounds at least as extreme as the observed statistic divided by that number.",
    assumptions=["2 and 3 systems are analysed for the randomized Tukey HSD test"],
)
def c24(L, rep):
    n = sym("n", "nat") + 2
    k = sym("k", "nat")
    T.FINITE = True
    tables = lambda s: (pairs(xs, ys, n),) if s == BOOT else (rectangle(n, C(2)),)
    for name, owner, args, cnt, reported, ts, conv in (
        (BOOT, "BootstrapTest", [], "with_n_resamples", "n_resamples", {"I": vec(PAIR)}, "from_paired_samples"),
        (RHSD, "RandomizedTukeyHsdTest", [C(2)], "with_n_iters", "n_iters", {"I": vec(ROW), "S": ROW}, "from_tupled_samples"),
    ):
        fresh_tester = L.run(name + "::new", args, {}).deep()
        o = Outcome(L, name + "::test", [fresh_tester, *tables(name)], ts)
        rep.equal("%s: 10000 rounds by default" % name, o.get("%s::%s" % (owner, reported)).deep(), C(10000), o.ok, o.where)
        o = Outcome(L, "%s::%s" % (owner, conv), [*tables(name), *args], ts)
        rep.equal("%s::%s: 10000 rounds by default" % (owner, conv), o.get("%s::%s" % (owner, reported)).deep(), C(10000), o.ok, o.where)
        t = L.run("%s::%s" % (name, cnt), [fresh_tester, k], {}).deep()
        o = Outcome(L, name + "::test", [t, *tables(name)], ts)
        want = le(C(1), k) * k + (ONE - le(C(1), k))
        rep.equal("%s: the configured number of rounds, at least 1" % name, o.get("%s::%s" % (owner, reported)).deep(), want, o.ok, o.where)
    o = boot(L, pairs(xs, ys, n))
    p = boot_p(o)
    D = Draws(p, "draw")
    if rep.ob("bootstrap: the p-value counts resamples", D.tok is not None, o.where, "no draw indexed by the resample and the element was found"):
        rep.equal("bootstrap: the p-value is the proportion of the resamples performed", p, boot_definition(D, n), o.ok, o.where)
    for m in (2, 3):
        o = rhsd(L, rectangle(n, C(m)), C(m))
        e = p_matrix(o)
        D = Draws(e, "shuffle")
        if rep.ob("%d systems: p-values count iterations" % m, D.tok is not None, o.where, "no shuffle indexed by the iteration and the topic was found"):
            f = rhsd_definition(D, n, m)
            for i in range(m):
                for j in range(i + 1, m):
                    rep.equal("%d systems: p-value of %d and %d is the proportion of the iterations performed" % (m, i, j), at2(e, i, j), f(i, j), o.ok, o.where)


AMBIENT = ("entropy",)


@check(
    "C23",
    rule="The randomized tests are interpreted with a configured random state and without one. With one, the reported state must be the configured one and no other source of randomness or uninterpreted call may occur in "
    "the value graph of the result; without one, the reported state must come from the system's entropy and the result must be that of a tester configured with the reported state.",
    assumptions=["2 and 3 systems are analysed for the randomized Tukey HSD test"],
)
def c23(L, rep):
    n = sym("n", "nat") + 2

    def one(tag, run, owner, results):
        a, b = run("some"), run("none")
        w = a.where
        state = lambda o: o.get(owner + "::random_state").deep()
        rep.equal("%s: the configured state is reported" % tag, state(a), SEED, a.ok, w)
        fresh_state = P(state(b))
        rep.ob("%s: without a configured state a fresh one is drawn" % tag, T.mentions(fresh_state, lambda x: x.op in AMBIENT) is not None, w, "the reported state does not come from the system's entropy")
        rep.equal("%s: accepted alike" % tag, b.ok, a.ok, ONE, w)
        seed = mk("sym", "seed", "nat")
        for f, ga, gb in zip([f for f, _ in results(a)], [v for _, v in results(a)], [v for _, v in results(b)]):
            bad = T.mentions(ga, lambda x: x.op in AMBIENT or x.op == "app")
            rep.ob("%s: %s depends on the samples, the configuration and the state only" % (tag, f), bad is None, w, "it also depends on %s" % (bad,))
            rep.equal("%s: configuring the reported state reproduces %s" % (tag, f), gb, rewrite(ga, lambda x: fresh_state if x is seed else None), a.ok, w)

    one("bootstrap", lambda s: boot(L, pairs(xs, ys, n), s), "BootstrapTest", lambda o: [("the p-value", boot_p(o)), ("n_resamples", o.get("BootstrapTest::n_resamples").deep())])
    for k in (2, 3):
        one(
            "%d systems" % k, lambda s: rhsd(L, rectangle(n, C(k)), C(k), s), "RandomizedTukeyHsdTest",
            lambda o: [("the p-value of %d and %d" % (i, j), at2(p_matrix(o), i, j)) for i in range(k) for j in range(k)] + [("n_iters", o.get("RandomizedTukeyHsdTest::n_iters").deep())],
        )


# ---------------------------------------------------------------- C17
def degenerate(n, m):
    """a table whose residuals vanish: each score is the sum of a topic and a system effect"""
    return rectangle(n, m, lambda i, j: cell("a", i) + cell("b", j))


@check(
    "C17",
    rule="The tests are interpreted on arbitrary finite scores: the paired t-test and the bootstrap test must succeed exactly when the variance of the differences is positive and return Uncomputable otherwise, and "
    "no operation that can panic may be reachable with a failing argument; ANOVA and Tukey's HSD test are interpreted on tables without residuals. Each test is also interpreted with scores that may be anything: it must "
    "not succeed, or reach a panic, when a score is not finite.",
)
def c17(L, rep):
    n = sym("n", "nat") + 2
    m = sym("m", "nat") + 2
    var = moments(n, lambda i: xs(i) - ys(i))[1]
    for name, run in (("t-test", ttest), ("bootstrap", boot)):
        o = run(L, pairs(xs, ys, n))
        rep.equal("%s: succeeds exactly for a positive variance" % name, o.ok, gt0(var), ONE, o.where)
        rep.equal("%s: Uncomputable for zero variance" % name, o.rejects("Uncomputable"), ONE, ONE - gt0(var), o.where)
        for x in o.panics(ONE):
            rep.ob("%s: no panic on finite scores (%s)" % (name, x[0]), False, "%s (%s)" % (x[1], x[2]), "can fail for finite scores")
    for name, what in (("ANOVA", ANOVA), ("Tukey HSD", TUKEY)):
        o = anova(L, degenerate(n, m), m, what)
        good = equiv.differ(o.rejects("Uncomputable"), ONE, ONE) is None and not o.panics(ONE)
        known(rep, o, "%s: Uncomputable without residuals" % name, good, "a table without residual variance is not rejected", "%s: a zero residual variance is not rejected" % name)
    # scores that are not finite
    s, t = opaque("s", vec(PAIR)), opaque("t", vec(ROW))
    k = sym("k", "nat") + 2
    for name, run, shape in (
        ("t-test", lambda: ttest(L, s, finite=False), le(C(2), seq_len(s))),
        ("bootstrap", lambda: boot(L, s, finite=False), le(C(2), seq_len(s))),
        ("ANOVA", lambda: anova(L, t, k, finite=False), le(C(2), seq_len(t)) * rect(t, k)),
        ("Tukey HSD", lambda: anova(L, t, k, TUKEY, finite=False), le(C(2), seq_len(t)) * rect(t, k)),
        ("randomized Tukey HSD", lambda: rhsd(L, t, k, finite=False), le(C(1), seq_len(t)) * rect(t, k)),
    ):
        o = run()
        T.FINITE = False
        i = fresh()
        bad = Exists(i, lt(A(i), seq_len(s)) * nf(A(mk("num", mk("fld", mk("nth", mk("sym", "s", "obj"), A(i)), "0"), "real")))) if "HSD" not in name and name != "ANOVA" else None
        if bad is None:
            j = fresh()
            bad = Exists(i, lt(A(i), seq_len(t)) * Exists(j, lt(A(j), k) * nf(cell("t", A(i), A(j)))))
        good = equiv.differ(o.ok, ZERO, shape * bad) is None and not o.panics(shape * bad)
        known(rep, o, "%s: scores that are not finite are rejected" % name, good, "a score that is not finite is not rejected with an error", "%s: scores that are not finite are not rejected" % name)
        T.FINITE = True

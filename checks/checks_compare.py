"""C32, C33: elinor-compare."""
from registry import check
import terms as T
from terms import *
import values as V
from values import *
import models
import frames
import interp as IP
from lab import Missing
from equiv import differ
from ext import full
from checks_cli import Cli, arg, io_ok, assume, series, spec_fmt, conj, words, uninterpreted, rewrite, mentions

ST = "elinor::statistical_tests::"
TTEST, TUKEY, ANOVA = ST + "student_t_test::StudentTTest", ST + "tukey_hsd_test::TukeyHsdTest", ST + "two_way_anova_without_replication::TwoWayAnovaWithoutReplication"
BOOT, BOOTER = ST + "bootstrap_test::BootstrapTest", ST + "bootstrap_test::BootstrapTester"
RAND, RANDER = ST + "randomized_tukey_hsd_test::RandomizedTukeyHsdTest", ST + "randomized_tukey_hsd_test::RandomizedTukeyHsdTester"
CONSTRUCTORS = {TTEST: "from_paired_samples", TUKEY: "from_tupled_samples", ANOVA: "from_tupled_samples", BOOTER: "test", RANDER: "test"}
NAN = A(mk("num", mk("sym", "NaN", "obj"), "real"))


def owner(b):
    return b["path"].rsplit("::", 1)[0]


def sized(v, n, depth):
    """a vector (matrix) with one entry per system (C21, C22, C25)"""
    return lst(*[sized(seq_nth(v, C(i)), n, depth - 1) for i in range(n)]) if depth else v


MATRICES = {"effect_sizes": 2, "p_values": 2, "system_means": 1}


def call_hook(b, n):
    def hook(I, st, args, tsub):
        xs = []
        for a in args:
            a = full(I, st, a)
            if a.op == "it" or is_seq(a):
                a = full(I, st, I.items(st, a))
            xs.append(a)
        r = eta(mk("app", "lib::" + b["path"], "obj", *xs), tysubst(b["ret"], tsub))
        return sized(r, n, MATRICES.get(b["path"].rsplit("::", 1)[1], 0))

    return b["key"], hook


def lib(L, path, *args):
    b = body_of(L, path)
    return eta(mk("app", "lib::" + b["path"], "obj", *args), b["ret"])


def body_of(L, path):
    hits = [b for b in L.prog.bodies.values() if b["path"] == path]
    if len(hits) != 1:
        raise Missing(path)
    return hits[0]


class Cmp(Cli):
    """elinor-compare with n arbitrary files"""

    def __init__(self, L, n, mode):
        self.paths = [mk("sym", "path%d" % i, "obj") for i in range(n)]
        hooks = {}
        for b in L.prog.bodies.values():
            if b["kind"] != "AssocFn" or not b["path"].startswith(ST):
                continue
            o, name = owner(b), b["path"].rsplit("::", 1)[1]
            if CONSTRUCTORS.get(o) == name or o in (TTEST, TUKEY, ANOVA, BOOT, RAND) and not name.startswith("from_"):
                k, h = call_hook(b, n)
                hooks[k] = h

        def setup(run):
            run.I.forget = run.I.world["lost"]
            run.I.given = {"input_csvs": lst(*self.paths), "print_mode": ctor("PrintMode", mode)}
            run.I.hooks = hooks

        Cli.__init__(self, L, "elinor_compare", setup)


# ---------------------------------------------------------------- the specification
def metrics_of(d):
    ns = frames.names(d)
    i = fresh()
    return Comp([i], lt(A(i) + 1, A(mk("len", ns))), mk("nth", ns, A(i) + 1))


def header(d):
    return mk("nth", frames.names(d), ZERO)


def text_of(kind, v):
    if kind == "Float64":
        return ite(models.nan(P(v)), S(""), spec_fmt(4, P(v)))
    if kind == "UInt64":
        return V.scat(mk("disp", P(v)))
    return v


def table(mode, *cols):
    """lines printed for a table with the given columns (name, values, kind)"""
    values = [c[1] for c in cols]
    titles = [c[0] for c in cols]
    if all(v.op == "list" for v in values):
        rows = lst(*[lst(*[text_of(c[2], v.args[k]) for c, v in zip(cols, values)]) for k in range(len(values[0].args))])
    else:
        s = values[0]
        for v in values[1:]:
            s = V.seq_zip(s, v)
        def unpack(t, k):
            r = []
            for _ in range(k - 1):
                r.append(fld(t, "1"))
                t = fld(t, "0")
            return [t] + r[::-1]
        rows = seq_map(s, lambda t: lst(*[text_of(c[2], v) for c, v in zip(cols, unpack(t, len(cols)))]))
    if mode == "Pretty":
        return lst(frames.table_text(lst(*titles), rows))

    def line(r):
        return scat(*[x for i, y in enumerate(r.args) for x in ((S("\t"), y) if i else (y,))])

    return cat(lst(line(lst(*titles))), seq_map(rows, line))


def mean_of(d, m):
    return A(mk("num", mk("fld", frames.app("mean", d, m), "Some", "0"), "real"))


def aligned(ds, m):
    """one sequence of scores per file for metric m, aligned on the topics of the first file"""
    h = header(ds[0])
    acc = None
    for i, d in enumerate(ds):
        f = V.struct("DataFrame", columns=lst(frames.src_column(d, h), rename(frames.src_column(d, m), S("#%d" % i))))
        acc = f if acc is None else frames.join(acc, f, h)
    return [seq_map(fld(c, "values"), lambda o: A(mk("num", vfield(o, "Some", "0"), "real"))) for c in fld(acc, "columns").args[1:]]


def rename(s, n):
    return V.struct("Series", name=n, values=fld(s, "values"), kind=fld(s, "kind"))


def tuples(cols, make):
    """one tuple per topic"""
    s = cols[0]
    i = fresh()
    return Comp([i], V.seq_dom(s, i), make(*[seq_nth(c, A(i)) for c in cols]))


def real(L, path, t):
    return P(lib(L, path, t))


def get(L, ty, name, t):
    return lib(L, "%s::%s" % (ty, name), t)


def plain(L, path, *args):
    return L.run(path, list(args)).deep()


def effective(x):
    """the number of repetitions the testers run with: they do at least one, and the number printed is this one"""
    return V.fmax(A(mk("num", arg(x), "nat")), ONE)


def spec_two(L, ds, mode, ms):
    """(condition under which all tests succeed, lines)"""
    n_resamples, n_iters = [effective(x) for x in ("n_resamples", "n_iters")]
    out = [lst(S(""), S("# Means"))]
    out.append(table(mode, (S("Metric"), ms, "String"), *[(S("System_%d" % (i + 1)), seq_map(ms, lambda m, d=d: mean_of(d, m)), "Float64") for i, d in enumerate(ds)]))

    def tests(f):
        return seq_map(ms, lambda m: vfield(f(aligned(ds, m)), "Ok", "0"))

    def column(label, stats, f):
        return (S(label), seq_map(stats, f), "Float64")

    stats = tests(lambda c: lib(L, TTEST + "::from_paired_samples", tuples(c, tup)))
    out.append(lst(S(""), S("# Two-sided paired Student's t-test for (System_1 - System_2)")))
    moe = lambda t: P(vfield(lib(L, TTEST + "::margin_of_error", t, C(Fr(5, 100))), "Ok", "0"))
    out.append(table(
        mode,
        (S("Metric"), ms, "String"),
        *[column(label, stats, lambda t, n=n: P(get(L, TTEST, n, t))) for label, n in (("Mean", "mean"), ("Var", "variance"), ("ES", "effect_size"), ("t-stat", "t_stat"), ("p-value", "p_value"))],
        column("95% MOE", stats, moe)
    ))
    tester = plain(L, BOOTER + "::with_n_resamples", plain(L, BOOTER + "::new"), n_resamples)
    stats = tests(lambda c: lib(L, BOOTER + "::test", tester, tuples(c, tup)))
    out.append(lst(S(""), scat(S("# Two-sided paired Bootstrap test (n_resamples = "), mk("disp", n_resamples), S(")"))))
    out.append(table(mode, (S("Metric"), ms, "String"), column("p-value", stats, lambda t: P(get(L, BOOT, "p_value", t)))))
    tester = plain(L, RANDER + "::with_n_iters", plain(L, RANDER + "::new", C(2)), n_iters)
    stats = tests(lambda c: lib(L, RANDER + "::test", tester, tuples(c, lst)))
    out.append(lst(S(""), scat(S("# Fisher's randomized test (n_iters = "), mk("disp", n_iters), S(")"))))
    out.append(table(mode, (S("Metric"), ms, "String"), column("p-value", stats, lambda t: P(seq_nth(seq_nth(get(L, RAND, "p_values", t), ZERO), ONE)))))
    return cat(*out)


def spec_many(L, ds, mode, ms):
    n = len(ds)
    n_iters = effective("n_iters")
    names = [S("System_%d" % (i + 1)) for i in range(n)]
    tester = plain(L, RANDER + "::with_n_iters", plain(L, RANDER + "::new", C(n)), n_iters)

    def section(m):
        rows = tuples(aligned(ds, m), lst)
        anova = vfield(lib(L, ANOVA + "::from_tupled_samples", rows, C(n)), "Ok", "0")
        a = lambda name: get(L, ANOVA, name, anova)
        f = lambda name: P(a(name))
        out = [lst(S(""), scat(S("# "), m))]
        out.append(lst(S("## System means")))
        moe = P(vfield(lib(L, ANOVA + "::margin_of_error", anova, C(Fr(5, 100))), "Ok", "0"))
        out.append(table(mode, (S("System"), lst(*names), "String"), (S("Mean"), lst(*[seq_nth(a("system_means"), C(i)) for i in range(n)]), "Float64"), (S("95% MOE"), lst(*[moe] * n), "Float64")))
        out.append(lst(S("## Two-way ANOVA without replication")))
        ns, nt = f("n_systems"), f("n_topics")
        out.append(table(
            mode,
            (S("Factor"), lst(S("Between-systems"), S("Between-topics"), S("Residual")), "String"),
            (S("Variation "), lst(f("between_system_variation"), f("between_topic_variation"), f("residual_variation")), "Float64"),
            (S("DF"), lst(ns - 1, nt - 1, (ns - 1) * (nt - 1)), "UInt64"),
            (S("Variance"), lst(f("between_system_variance"), f("between_topic_variance"), f("residual_variance")), "Float64"),
            (S("F-stat"), lst(f("between_system_f_stat"), f("between_topic_f_stat"), NAN), "Float64"),
            (S("p-value"), lst(f("between_system_p_value"), f("between_topic_p_value"), NAN), "Float64"),
        ))

        def matrix(label, mat):
            cell = lambda i, j: P(seq_nth(seq_nth(mat, C(i)), C(j)))
            out.append(table(mode, (S(label), lst(*names), "String"), *[(names[j], lst(*[cell(i, j) for i in range(n)]), "Float64") for j in range(n)]))

        out.append(lst(S("## Effect sizes for Tukey HSD test")))
        matrix("ES", get(L, TUKEY, "effect_sizes", vfield(lib(L, TUKEY + "::from_tupled_samples", rows, C(n)), "Ok", "0")))
        out.append(lst(scat(S("## p-values for randomized Tukey HSD test (n_iters = "), mk("disp", n_iters), S(")"))))
        matrix("p-value", get(L, RAND, "p_values", vfield(lib(L, RANDER + "::test", tester, rows), "Ok", "0")))
        return cat(*out)

    return V.seq_flat(seq_map(ms, section))


def spec(L, run, mode):
    sep = ite(A(mk("pred", arg("tab_separator"))), C(9), C(44))
    ds = [frames.app("frame", p, sep) for p in run.paths]
    n = len(ds)
    out = [lst(S("# Basic statistics")), table(mode, (S("Key"), lst(S("n_systems"), S("n_topics"), S("n_metrics")), "String"),
                                               (S("Value"), lst(C(n), frames.height_of(ds[0]), A(mk("len", frames.names(ds[0]))) - 1), "UInt64"))]
    ms = metrics_of(ds[0])
    if n == 1:
        out.append(lst(S(""), S("# Means")))
        out.append(table(mode, (S("Metric"), ms, "String"), (S("Score"), seq_map(ms, lambda m: mean_of(ds[0], m)), "Float64")))
        return ds, cat(*out)
    out.append(lst(S(""), S("# Alias")))
    out.append(table(mode, (S("Alias"), lst(*[S("System_%d" % (i + 1)) for i in range(n)]), "String"), (S("Path"), lst(*[mk("app", "Path::to_string_lossy", "obj", p) for p in run.paths]), "String")))
    for d in ds[1:]:
        ms = seq_filter(ms, lambda m, d=d: P(seq_exists(metrics_of(d), lambda x: eqv(x, m))))
    out.append((spec_two if n == 2 else spec_many)(L, ds, mode, ms))
    return ds, cat(*out)


def within(t):
    """elements of a sequence simplified by the condition that selects them"""
    if t.op == "cat":
        return V.cat(*[within(x) for x in t.args])
    if t.op != "comp":
        return t
    fvs, c, v = V.open_comp(t)
    if len(c.args) == 1 and c.args[0][1] == 1:
        known = {a for a, _ in c.args[0][0]}
        return Comp(fvs, c, rewrite(v, lambda x: ONE if x in known else None))
    return t


def selections(t):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            r = V.selection(T.rebuild(x, go))
            memo[x] = r
        return r

    return go(within(t))


def no_format(t):
    """the look of a pretty table is not specified"""
    return rewrite(t, lambda x: frames.table_text(*[no_format(y) for y in x.args[2:4]]) if x.op == "app" and x.args[0] == "table" and len(x.args) == 5 else None)


def printed(run, L, mode):
    """what a successful run prints, and what it should print"""
    got = selections(no_format(io_ok(run.cell("out", run.success))))
    ds, want = spec(L, run, mode)
    want = selections(want)
    # files with the same distinct topics (C32) have the same number of rows
    hs = {frames.height_of(d).args[0][0][0][0] for d in ds[1:]}
    same = lambda t: rewrite(t, lambda x: frames.height_of(ds[0]) if x in hs else None)
    return ds, same(got), same(want)


def topics(d, h):
    """the texts of the topics of a file"""
    return seq_map(fld(frames.src_column(d, h), "values"), lambda o: option(vcond(o, "Some"), frames.app("text", vfield(o, "Some", "0"))))


def calls(t):
    """test invocations (with their data) in a term"""
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            if x.op == "app" and x.args[0].startswith("lib::") and x.args[0].split("::")[-1] in CONSTRUCTORS.values():
                out.add(x)
            todo += x.args
    return out


@check(
    "C32",
    crates="cli",
    rule="elinor-compare's main is interpreted on 2 and 3 arbitrary CSV files (tests uninterpreted, polars by a model of read, select, rename and left join). On every successful path the files must have "
    "the same first header, no duplicate topic, and equal topic sets; and every test must receive, for each common metric, one tuple per topic of the first file with each file's score "
    "joined on the topic column, in file order.",
    assumptions=["clap fills Args from the command line as declared", "polars reads, selects, renames and joins frames as documented", "up to 3 files are analysed"],
)
def c32(L, rep):
    for n in (2, 3):
        run = Cmp(L, n, "Raw")
        tag = "%d files: " % n
        w = run.where
        ds, got, want = printed(run, L, "Raw")
        ok = io_ok(run.success)
        rep.equal(tag + "output is tracked on every successful path", run.cell("lost", run.success), S("no"), run.success, w)
        rep.ob(tag + "some files are accepted", ok is not ZERO, w, "no input is accepted")
        h = header(ds[0])
        sets = [topics(d, h) for d in ds]
        for i in range(n):
            if i:
                if same_headers(ok, h, header(ds[i])):
                    rep.ob(tag + "file %d has the topic column of the first file" % (i + 1), True, w)
                else:
                    rep.equal(tag + "file %d has the topic column of the first file" % (i + 1), P(eqv(header(ds[i]), h)), ONE, ok, w)
                rep.equal(tag + "file %d has the topics of the first file" % (i + 1), T.samekeys(keys(sets[0]), keys(sets[i])), ONE, ok, w)
            name = tag + "the topics of file %d are distinct" % (i + 1)
            if differ(repeated(sets[i]), ZERO, ok) is None:
                rep.ob(name, True, w)
            else:
                rep.equal(name, eq0(m_len(keys(sets[i])) - seq_len(sets[i])), ONE, ok, w)
        if got is not want:
            # some other output: the data given to the tests must still be right
            a, b = calls(got), calls(want)
            for x in sorted(a - b)[:3]:
                rep.violation(w, tag + "%s is given other data: %s" % (x.args[0][5:], T.show(x)[:300]))
            for x in sorted(b - a)[:3]:
                rep.violation(w, tag + "%s is not given the aligned scores of every common metric" % x.args[0][5:])
        rep.ob(tag + "%d kinds of tests receive the aligned scores of every common metric" % len(calls(want)), got is want or calls(got) == calls(want), w, "the data given to the tests differ")


def same_headers(ok, a, b):
    """every successful case establishes a chain of equalities from a to b"""
    for m, _ in ok.args:
        eqs = [x for x, e in m if x.op == "eqo"]
        known, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x not in known:
                known.add(x)
                todo += [y for e in eqs for y in e.args if x in e.args]
        if b not in known:
            return False
    return True


def repeated(s):
    """some element of a sequence is among the ones before it"""
    i, j = fresh(), fresh()
    before = mcomp([j], V.seq_dom(s, j) * lt(A(j), A(i)), seq_nth(s, A(j)), UNIT)
    return Exists(i, V.seq_dom(s, i) * m_has(before, seq_nth(s, A(i))))


def keys(s):
    """the set of the elements of a sequence"""
    return models.seq_to_map(seq_map(s, lambda x: tup(x, UNIT)))


@check(
    "C33",
    crates="cli",
    rule="elinor-compare's main is interpreted on 1, 2 and 3 arbitrary CSV files in both print modes (tests uninterpreted, polars and prettytable modelled). The text printed by every successful "
    "run must equal the text built from the specification of each table: its title, its column labels, and in each labelled column the statistic of that name of the test result of the row's metric, formatted.",
    assumptions=["clap fills Args from the command line as declared", "prettytable prints the rows it is given", "up to 3 files are analysed"],
)
def c33(L, rep):
    for n in (1, 2, 3):
        for mode in ("Raw", "Pretty"):
            run = Cmp(L, n, mode)
            tag = "%d file%s, %s: " % (n, "" if n == 1 else "s", mode.lower())
            w = run.where
            ds, got, want = printed(run, L, mode)
            rep.ob(tag + "some files are accepted", io_ok(run.success) is not ZERO, w, "no input is accepted")
            rep.equal(tag + "output is tracked on every successful path", run.cell("lost", run.success), S("no"), run.success, w)
            rep.equal(tag + "the labelled statistics are printed", got, want, ONE, w)
            if rep.findings:
                return
    b = [p for p in L.prog.impls if p["trait"] and p["trait"].split("::")[-1] == "FromStr" and "elinor_compare" in str(p["self"].adt)]
    if len(b) != 1:
        raise Missing("parser of the print mode")
    words(L, rep, L.prog.bodies[b[0]["items"]["from_str"]], {"pretty": "Pretty", "raw": "Raw"})

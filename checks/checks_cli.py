"""C30-C33: the command line tools."""
from registry import check
import terms as T
from terms import *
import values as V
from values import *
import models
import ext
import lang
import interp as IP
from lab import deep, Missing, with_return, ret
from program import mkty, prim
from strlang import Langs, NotRegular
from checks_stats import vec, where, opaque
from checks_text import STRING
from ext import full


def main_of(L, crate):
    hits = [b for b in L.prog.bodies.values() if b["kind"] == "Fn" and b["path"].split("::")[0] == crate and b["path"].split("::")[-1] == "main"]
    if len(hits) != 1:
        raise Missing("main function of " + crate)
    return hits[0]


def site(L, b):
    return "%s (%s)" % (b["path"], L.span(b))


class Cli:
    """one abstract run of a tool"""

    crate = None

    def __init__(self, L, crate, setup=None):
        self.L, self.b = L, main_of(L, crate)
        self.I = I = L.interp()
        I.expand = 64
        self.st = st = IP.St({}, ONE, ONE)
        ext.world(I, st)
        if setup:
            setup(self)
        r = L.run(self.b, [], None, I, st)
        self.value = r.deep()
        self.where = site(L, self.b)

    def cell(self, c, ctx=None):
        t = deep(self.I, self.st, ext.cell(self.I, self.st, c))
        return t if ctx is None else assume(t, ctx)

    @property
    def success(self):
        """condition under which the program exits successfully"""
        return pmul(self.st.rel, P(vcond(self.value, "Ok")))


def is_io(a):
    return a.op == "is" and a.args[1] == "Ok" and a.args[0].op == "app" and a.args[0].args[0].startswith("io::")


def rewrite(t, f):
    """t with every subterm x replaced by f(x) where that is not None"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            r = f(x)
            if r is None:
                r = T.rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def io_ok(t):
    """t when every operating system call succeeds"""
    return rewrite(t, lambda x: ONE if is_io(x) else None)


def arg(name):
    return mk("fld", mk("sym", "args", "obj"), name)


def assume(t, ctx):
    """t with the alternatives decided by the condition ctx resolved"""
    ctx = P(ctx)

    def known(c):
        x = pmul(ctx, c)
        return ONE if x is ctx else ZERO if x is ZERO else c

    def go(x):
        if x.op == "cat":
            return V.cat(*[go(y) for y in x.args])
        if x.op == "comp":
            fvs, c, v = V.open_comp(x)
            if not fvs:
                return V.guard_seq(known(c), V.lst(go(v)))
        if x.op == "cases":
            alts = [(y, known(c)) for y, c in x.args]
            for y, c in alts:
                if c is ONE:
                    return go(y)
            return T.cases([(y, c) for y, c in alts if c is not ZERO])
        if x.op == "list":
            return V.lst(*[go(y) for y in x.args])
        if x.op in ("cats", "app", "tuple"):
            return T.rebuild(x, lambda y: go(y) if isinstance(y, Term) else y)
        if x.op == "poly":
            return V.under(x, ctx)
        return x

    return go(t)


def all_lines_read(rep, run, paths):
    """success means that the given files were read to the end"""
    for name, p, c in paths:
        t = mk("app", "lines", "obj", ext.contents(p))
        i = fresh()
        bad = seq_exists(Comp([i], lt(A(i), A(mk("len", t))), mk("app", "io::line", "obj", p, A(i))), lambda r: ONE - A(mk("is", r, "Ok")))
        rep.equal("success means that every line of %s was read" % name, run.success * c, run.success * c * (ONE - P(bad)), ONE, run.where)


def clean_output(rep, run, path, ok):
    """the output file is complete when the program reports success"""
    w = run.where
    rep.equal("one output file is created", run.cell("made"), ONE, ok, w)
    rep.equal("the output file is the requested one", run.cell("path"), path, ok, w)
    rep.equal("success means that every write succeeded", run.cell("intact"), V.S("ok"), ok, w)
    rep.equal("success means that the output is flushed", run.cell("dirty"), V.S("clean"), ok, w)
    rep.equal("the output ends with a complete line", run.cell("filel"), V.S(""), ok, w)


PARSERS = {"True": "parse_true_rels_in_trec", "Pred": "parse_pred_rels_in_trec"}


def uninterpreted(L, path, view):
    """replace a library function (decided by other properties) by an uninterpreted one"""
    b = L.fn(path)

    def hook(I, st, args, tsub):
        return eta(mk("app", "lib::" + path, "obj", *view(I, st, args)), tysubst(b["ret"], tsub))

    return b["key"], hook


def file_lines(p):
    t = mk("app", "lines", "obj", ext.contents(p))
    i = fresh()
    return Comp([i], lt(A(i), A(mk("len", t))), mk("nth", t, A(i)))


@check(
    "C30",
    crates="cli",
    rule="elinor-convert's main is interpreted with arbitrary arguments and file contents; operating system calls may fail. On every path that ends successfully the output file must be "
    "the requested one, hold exactly one JSON line per record of the store parsed (for the requested type) from the input's lines, and every write and the final flush must have succeeded; "
    "when no operating system call fails, the program must succeed exactly if the input parses. Type names are decided as regular languages.",
    assumptions=["clap fills Args from the command line as declared", "serde_json::to_writer writes one line of JSON for a record (C35)"],
)
def c30(L, rep):
    def setup(run):
        run.I.hooks = dict(uninterpreted(L, p, lambda I, st, a: [deep(I, st, I.items(st, a[0]))]) for p in PARSERS.values())

    run = Cli(L, "elinor_convert", setup)
    ok = run.success
    w = run.where
    inp, out = arg("input_trec"), arg("output_jsonl")
    want_ok = ZERO
    content = []
    for v, p in PARSERS.items():
        c = A(mk("is", arg("rel_type"), v)) if v == "True" else ONE - A(mk("is", arg("rel_type"), "True"))
        t = eta(mk("app", "lib::" + p, "obj", file_lines(inp)), L.fn(p)["ret"])
        want_ok = want_ok + c * P(vcond(t, "Ok"))
        I = L.interp()
        st = IP.St({}, ONE, ONE)
        recs = I.call_key(st, L.fn("RelevanceStore::into_records")["key"], [vfield(t, "Ok", "0")], {})
        recs = deep(I, st, I.items(st, recs))
        content.append((seq_map(recs, lambda r: mk("app", "json", "obj", r)), c))
    rep.equal("with working files it succeeds exactly if the input parses", io_ok(ok), want_ok, ONE, w)
    clean_output(rep, run, out, ok)
    all_lines_read(rep, run, [("the input", inp, ONE)])
    # success implies that no call failed (above), so contents are compared for runs without failures
    for (lines, c), v in zip(content, PARSERS):
        rep.equal("%s records: one JSON line per record" % v, io_ok(run.cell("file")), lines, io_ok(ok) * c, w)
    relevance_type(L, rep, run)


def relevance_type(L, rep, run):
    """the words true and pred select the type, anything else is rejected"""
    t = [p for p in L.prog.impls if p["trait"] and p["trait"].split("::")[-1] == "FromStr" and "elinor_convert" in str(p["self"].adt)]
    if len(t) != 1:
        raise Missing("parser of the relevance type")
    b = L.prog.bodies[t[0]["items"]["from_str"]]
    words(L, rep, b, {"true": "True", "pred": "Pred"})


def words(L, rep, b, table):
    """the parser b maps exactly the given words to the given variants"""
    w = site(L, b)
    s = opaque("s", STRING)
    got = L.run(b, [s]).deep()
    m = vfield(got, "Ok", "0")
    vs = sorted(set(table.values()))
    ps = [P(vcond(got, "Ok"))] + [P(vcond(m, v)) for v in vs]
    G = Langs(s)
    seen = {v: lang.nothing() for v in vs}
    rejected = lang.nothing()
    try:
        for dom, qs in G.leaves(ps):
            k = [const_of(q) for q in qs]
            if k[0] == 0:
                rejected = lang.union(rejected, dom)
            for v, x in zip(vs, k[1:]):
                if k[0] == 1 and x == 1:
                    seen[v] = lang.union(seen[v], dom)
    except NotRegular as e:
        rep.violation(w, "the parser's conditions cannot be decided: %s" % e)
        return
    for word, v in table.items():
        d = lang.minus(lang.literal(word), seen[v])
        rep.ob("%r selects %s" % (word, v), d.empty(), w, "%r does not select %s" % (word, v))
    for v in vs:
        allowed = lang.nothing()
        for word, v2 in table.items():
            if v2 == v:
                allowed = lang.union(allowed, lang.literal(word))
        d = lang.minus(seen[v], allowed)
        rep.ob("nothing else selects %s" % v, d.empty(), w, "%r selects %s" % (d.example(), v))


# ---------------------------------------------------------------- evaluate
def name_of(m):
    return mk("app", "name", "obj", m)


def opaque_names(L):
    """Display of a metric is uninterpreted (it is decided by C14)"""
    key = L.prog.impl_idx[("Display", L.adt("metrics::Metric")[0])]["items"]["fmt"]

    def hook(I, st, args, tsub):
        p = I.place_of(st, args[1])
        v = I.read(st, *p)
        I.write(st, (p[0], p[1] + (("f", "buf"),)), scat(fld(v, "buf"), name_of(full(I, st, args[0]))))
        return V.Ok(UNIT)

    return key, hook


class Ev(Cli):
    """elinor-evaluate with n arbitrary metrics on the command line"""

    def __init__(self, L, n):
        ty = L.fn("evaluate")["params"][-1]["t"]
        self.metrics = [opaque("metric%d" % i, ty) for i in range(n)]

        self.evaluated = []

        def args_of_evaluate(I, st, a):
            a = [full(I, st, x) for x in a]
            if not I.silent:
                self.evaluated.append(a[-1])
            return a

        def setup(run):
            run.I.given = {"metrics": lst(*self.metrics)}
            run.I.hooks = dict([
                opaque_names(L),
                uninterpreted(L, "RelevanceStore::from_records", lambda I, st, a: [full(I, st, I.items(st, a[0]))]),
                uninterpreted(L, "elinor::evaluate", args_of_evaluate),
            ])

        Cli.__init__(self, L, "elinor_evaluate", setup)


def series(name, values, kind):
    return V.struct("Series", name=name, values=values, kind=S(kind))


def lib_term(path, *args):
    return mk("app", "lib::" + path, "obj", *args)


def conj(*cs):
    r = ONE
    for c in cs:
        r = pmul(r, P(c))
    return r


def count_relevant(L, store):
    I = L.interp()
    st = IP.St({}, ONE, ONE)
    recs = I.call_key(st, L.fn("RelevanceStore::records")["key"], [store], {})
    recs = deep(I, st, I.items(st, recs))
    return seq_len(seq_filter(recs, lambda r: gt0(P(fld(r, "score")))))


def accessor(path):
    return lambda L, store: P(L.run(path, [store]).deep())


COUNTS = [
    ("n_queries_in_true", "true", accessor("RelevanceStore::n_queries")),
    ("n_queries_in_pred", "pred", accessor("RelevanceStore::n_queries")),
    ("n_docs_in_true", "true", accessor("RelevanceStore::n_docs")),
    ("n_docs_in_pred", "pred", accessor("RelevanceStore::n_docs")),
    ("n_relevant_docs", "true", count_relevant),
]


def mentions(t, what):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            if what(x):
                return True
            todo += x.args
    return False


def spec_fmt(prec, v):
    return mk("fmt", "flags%d,p%d" % (0x70000020, prec), mk("disp", v))


@check(
    "C31",
    crates="cli",
    rule="elinor-evaluate's main is interpreted with arbitrary files, options and lists of 0 to 3 arbitrary metrics (library calls uninterpreted, operating system calls may fail). Success must "
    "imply that every line of both files was read and parsed, that both stores were built and every metric evaluated; standard output must be the five counts followed by one line per "
    "metric, in order, with that metric's mean, and the CSV file, when requested, the frame of the query ids and one score column per metric with the selected separator.",
    assumptions=["clap fills Args from the command line as declared", "polars writes the frame it is given; evaluate and from_records satisfy C01-C13"],
)
def c31(L, rep):
    stores, loaded = {}, ONE
    for which, p in (("true", PARSERS["True"]), ("pred", PARSERS["Pred"])):
        rt = L.fn(p)["ret"]
        targs = dict(zip("KT", rt.args[0].args))
        rty = tysubst(L.fn("RelevanceStore::into_records")["ret"], targs).args[0]
        recs = seq_map(file_lines(arg(which + "_jsonl")), lambda x: ext.parsed(rty, x))
        bad = seq_exists(recs, lambda r: ONE - P(vcond(r, "Ok")))
        t = eta(lib_term("RelevanceStore::from_records", seq_map(recs, lambda r: vfield(r, "Ok", "0"))), rt)
        stores[which] = vfield(t, "Ok", "0")
        loaded = conj(loaded, ONE - P(bad), vcond(t, "Ok"))
    counts = [scat(S(label + "\t"), mk("disp", f(L, stores[which]))) for label, which, f in COUNTS]
    ety = tysubst(L.fn("elinor::evaluate")["ret"], {"K": L.fn(PARSERS["True"])["ret"].args[0].args[0]})
    for n in (1, 2, 3, 0):
        if not n and rep.findings:
            break  # the default list is long, and the program is already known to be wrong
        run = Ev(L, n)
        w = run.where
        tag = "%d metric%s: " % (n, "" if n == 1 else "s")
        metrics = run.metrics
        if not n:
            metrics = run.evaluated
            fixed = bool(metrics) and not any(mentions(m, lambda x: x.op == "sym") for m in metrics)
            rep.ob(tag + "a fixed list of metrics is used", fixed, w, "without metrics, the metrics evaluated are %s" % [T.show(m)[:80] for m in metrics])
        want_ok = loaded
        cols = []
        lines = list(counts)
        for m in metrics:
            t = eta(lib_term("elinor::evaluate", stores["true"], stores["pred"], m), ety)
            ev = vfield(t, "Ok", "0")
            want_ok = conj(want_ok, vcond(t, "Ok"))
            scores = L.run("Evaluation::scores", [ev]).deep()
            if not cols:
                cols.append(series(S("query_id"), seq_map(m_seq(scores), lambda e: e.args[0]), "String"))
            cols.append(series(name_of(m), seq_map(m_seq(scores), lambda e: e.args[1]), "Float64"))
            lines.append(scat(name_of(m), S("\t"), spec_fmt(4, P(L.run("Evaluation::mean", [ev]).deep()))))
        ok = run.success
        okio = io_ok(ok)
        rep.equal(tag + "with working files it succeeds exactly if the inputs are valid", okio, want_ok, ONE, w)
        all_lines_read(rep, run, [("the judgments", arg("true_jsonl"), ONE), ("the predictions", arg("pred_jsonl"), ONE)])
        rep.equal(tag + "the counts and each metric's mean are printed in order", run.cell("out", ok), V.lst(*lines), ok, w)
        opt = arg("output_csv")
        csv = ONE - A(mk("is", opt, "None"))
        rep.equal(tag + "without an output file none is written", run.cell("made"), ZERO, ok * (ONE - csv), w)
        clean_output(rep, run, mk("fld", opt, "Some", "0"), ok * csv)
        for tab, sep in ((A(mk("pred", arg("tab_separator"))), 9), (ONE - A(mk("pred", arg("tab_separator"))), 44)):
            options = V.lst(V.tup(S("with_separator"), C(sep)))
            text = mk("app", "csv", "obj", V.lst(*cols), options)
            rep.equal(tag + "the CSV has the scores of each query per metric", assume(io_ok(run.cell("file")), okio * csv * tab), V.lst(text), okio * csv * tab, w)

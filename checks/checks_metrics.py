"""C04-C13: metric evaluation."""
from registry import check
import metrics_spec as M
import terms as T
from terms import *
import values as V
from values import *
import equiv
import models

BINARY = ["Hits", "Success", "Precision", "Recall", "F1", "RPrecision", "AP", "RR", "Bpref"]
RULE_EQ = (
    "evaluate() is interpreted abstractly for the metric on arbitrary stores (built from an arbitrary builder); the value graph of the "
    "score of an arbitrary predicted query is compared with the definition's value graph for every cutoff, judgment map and ranking "
    "(case split on indicator atoms, linear arithmetic, cross-multiplication). One obligation per metric for the value, one for its presence."
)


class Ctx:
    """the abstract inputs of one arbitrary predicted query"""

    def __init__(self, L):
        self.L = L
        self.q, self.dom = L.one_query()
        self.pc, self.R = L.ranking("P", self.q)
        self.tc, self.J = L.judgments(self.q)
        self.ID = L.ranking("T", self.q)[1]

    def spec(self, n):
        kw = {"ideal": self.ID} if n.startswith("NDCG") else {}
        return M.SPEC[n](self.R, self.J, self.L.K, **kw)


def ctx_of(L):
    if "ctx" not in L.cache:
        L.cache["ctx"] = Ctx(L)
    return L.cache["ctx"]


def need(L, rep, names):
    have = set(L.variants())
    for n in names:
        rep.ob("metric %s exists" % n, n in have, "metrics::Metric", "the metric %s is missing" % n)
    return [n for n in names if n in have]


def definition(L, rep, names):
    C = ctx_of(L)
    for n in need(L, rep, names):
        s, ctx, pr, r = L.score(n)
        w = L.where_metric(n)
        rep.equal("%s score is defined for the query" % n, pr, ONE, ctx, w)
        rep.equal("%s score" % n, s, C.spec(n), ctx, w)
        # k and grades are arbitrary machine integers
        for o in r.I.obl:
            if o[0] == "overflow" and o[3] is not ZERO:
                c = T.unbox(ctx * C.dom * o[3])
                rep.ob("%s: no integer overflow at %s" % (n, o[2]), equiv.differ(c, ZERO, ONE) is None, "%s (%s)" % (o[1], o[2]), "%s: integer overflow (%s) when %s" % (n, o[4], show(c)[:300]))


@check("C06", rule=RULE_EQ)
def c06(L, rep):
    definition(L, rep, ["Hits", "Success", "Precision", "Recall", "F1", "RPrecision"])


@check("C07", rule=RULE_EQ)
def c07(L, rep):
    definition(L, rep, ["AP", "RR"])


@check("C08", rule=RULE_EQ)
def c08(L, rep):
    definition(L, rep, ["Bpref"])


@check("C09", rule=RULE_EQ)
def c09(L, rep):
    definition(L, rep, ["DCG", "DCGBurges", "NDCG", "NDCGBurges"])


# ---------------------------------------------------------------- C04 / C05
@check("C04", rule="evaluate() is interpreted abstractly for every metric; obligations: the result is Ok exactly when every predicted query is judged and the error is MissingEntry, the key set of the scores is the key set of the predictions, and the value graph of a query's score mentions no other query's judgments or ranking.")
def c04(L, rep):
    C = ctx_of(L)
    other = mk("sym", "q2", "obj")
    for n in L.variants():
        s, ctx, pr, r = L.score(n)
        w = L.where_metric(n)
        v = r.deep()
        # key set: every predicted query has a score; nothing else has
        okc = vcond(v, "Ok")
        ev = vfield(v, "Ok", "0")
        sc = L.run("Evaluation::scores", [ev]).deep()
        rep.equal("%s: exactly the predicted queries are scored" % n, m_has(sc, C.q), C.dom, okc, w)
        # success condition
        P = L.preds()
        i = fresh()
        qs = L.cache.get("qids")
        if qs is None:
            qs = L.cache["qids"] = L.run("RelevanceStore::query_ids", [P]).seq()
        qi = seq_nth(qs, A(i))
        judged = vcond(L.run("RelevanceStore::get_map", [L.trues(), qi]).deep(), "Some")
        bad = Exists(i, lt(A(i), seq_len(qs)) * (ONE - judged))
        rep.equal("%s: an error exactly when some predicted query is unjudged" % n, okc, ONE - bad, ONE, w)
        e = vfield(v, "Err", "0")
        rep.equal("%s: the error is MissingEntry" % n, vcond(e, "MissingEntry"), ONE, ONE - okc, w)
        # isolation
        s = T.unbox(s)
        own = [x for x in (C.J, C.R) if x is not None]
        jm, pm = map_atoms(C.J), map_atoms(C.R)
        ok = lambda x: x in jm or x in pm
        foreign = T.mentions(s, lambda x: x.op == "sym" and x.args[0] in ("T", "P"), stop=ok)
        rep.ob("%s: a score depends on its own query only" % n, foreign is None, w, "the score of a query depends on other parts of the stores (%s)" % show(s)[:200])


def map_atoms(v):
    """the per-query map symbols a ranking / judgment map is made of"""
    out = set()
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "msym" and isinstance(x.args[0], Term) and x.args[0].op == "at":
            out.add(x)
            continue
        todo.extend(x.args)
    return out


@check("C05", rule="evaluate() is interpreted abstractly for every metric on arbitrary stores with at least one predicted query; the value graphs returned by the accessors of Evaluation are compared with mean, population variance and its square root over the returned score map, and the metric accessor with the requested metric.")
def c05(L, rep):
    T.BOX_MIN = 1  # a query's score is one opaque value here
    for n in L.variants():
        r = L.evaluation(n)
        v = r.deep()
        ok = vcond(v, "Ok")
        ev = vfield(v, "Ok", "0")
        w = "elinor::evaluate (%s)" % L.loc("elinor::evaluate")
        sc = L.run("Evaluation::scores", [ev]).deep()
        cnt = m_len(sc)
        ctx = ok * ge0(cnt - 1)
        i = fresh()
        x = m_at(sc, m_key(sc, A(i)))
        nz = ge0(cnt - 1)
        mean = div(Sum(i, lt(A(i), cnt) * x), cnt, nz)
        got_mean = L.run("Evaluation::mean", [ev]).deep()
        rep.equal("%s: mean of the scores" % n, got_mean, mean, ctx, w)
        j = fresh()
        y = m_at(sc, m_key(sc, A(j))) - got_mean
        var = div(Sum(j, lt(A(j), cnt) * y * y), cnt, nz)
        got_var = L.run("Evaluation::variance", [ev]).deep()
        rep.equal("%s: population variance of the scores" % n, got_var, var, ctx, w)
        sd = L.run("Evaluation::std_dev", [ev]).deep()
        rep.equal("%s: standard deviation" % n, sd, sqrt(got_var), ctx, w)
        mt = L.run("Evaluation::metric", [ev]).deep()
        rep.equal("%s: reported metric" % n, mt, L.metric(n, L.K), ctx, w)


# ---------------------------------------------------------------- C10
@check("C10", rule="For every metric with a cutoff the value graph of a query's score is compared with itself (a) at k=0 against k=length of the ranking, (b) with all documents and the length below rank k replaced by unrelated ones, (c) for cutoffs beyond the ranking against the whole-ranking value (scaled by k resp. k+R where the definition divides by k).")
def c10(L, rep):
    C = ctx_of(L)
    kk = mk("sym", "k", "nat")
    n = seq_len(C.R)
    pm = [m for m in map_atoms(C.R)]
    names = [v for v in L.variants() if L.has_k(v)]
    rep.ob("metrics with a cutoff exist", len(names) > 0, "metrics::Metric", "no metric has a cutoff")
    for v in names:
        s, ctx, pr, r = L.score(v)
        s, ctx = T.unbox(s), T.unbox(ctx)
        w = L.where_metric(v)
        if v == "Bpref":
            continue
        at0 = subst(s, {kk: ZERO})
        atn = subst(s, {kk: n})
        nid = seq_len(C.ID)
        extra = ge0(n - nid) if v.startswith("NDCG") else ONE
        rep.equal("%s@0 is the value over the whole ranking" % v, at0, atn, ctx * extra * ge0(n - 1), w)
        if v.startswith("NDCG"):
            big = A(kk)
            rep.equal("%s@0 does not cut the ideal ranking" % v, at0, s, ctx * ge0(big - n) * ge0(big - nid) * ge0(big - 1), w)
        # documents below rank k
        n2 = A(mk("sym", "other_length", "nat"))
        low = mk("sym", "low_doc", "obj")
        toks = set()
        T.mentions(C.R, lambda y: bool(y.op == "perm" and toks.add(y)) and False)

        def f(x):
            if x.op == "perm":
                return x
            if x.op == "mkey" and x.args[0] in pm:
                e = x.args[1]
                if e.op == "poly" and len(e.args) == 1 and e.args[0][0] and e.args[0][0][0][0].op == "pidx":
                    px = e.args[0][0][0][0]
                    j = P(T.transform(px.args[1], f))
                    x = mk("mkey", x.args[0], models.pidx(px.args[0], j))
                    if px.args[0].op == "perm" and px.args[0] not in toks and models.rev_perm(px.args[0]) in toks:
                        # counted from the end of the ranking
                        j = n2 - 1 - j
                        x = mk("mkey", x.args[0], models.pidx(models.rev_perm(px.args[0]), j))
                    return cases([(x, lt(j, A(kk))), (mk("nth", low, j), ONE - lt(j, A(kk)))])
            if x.op == "len" and x.args[0] in pm:
                return n2
            return None

        s2 = T.transform(s, f)
        c2 = ctx * ge0(A(kk) - 1) * ge0(n - A(kk)) * ge0(n2 - A(kk))
        rep.equal("%s@k ignores everything below rank k" % v, s2, s, c2, w)
        # cutoff beyond the ranking
        c3 = ctx * ge0(A(kk) - n - 1) * ge0(n - 1)
        if v == "Precision":
            rep.equal("%s@k divides by k beyond the ranking" % v, s * A(kk), atn * n, c3, w)
        elif v == "F1":
            nr = M.n_rel(C.J)
            rep.equal("%s@k divides by k beyond the ranking" % v, s * (A(kk) + nr), atn * (n + nr), c3, w)
        elif v.startswith("NDCG"):
            k2 = mk("sym", "k2", "nat")
            rep.equal("%s@k uses the whole ranking beyond its length" % v, s, subst(s, {kk: A(k2)}), c3 * ge0(A(kk) - nid) * ge0(A(k2) - n) * ge0(A(k2) - nid), w)
        else:
            rep.equal("%s@k uses the whole ranking beyond its length" % v, s, atn, c3, w)


# ---------------------------------------------------------------- C11
@check("C11", rule="For every binary metric the value graph of a query's score is compared with itself after clamping every grade to [grade >= 1], after treating documents of grade 0 as unjudged in the ranking (not for Bpref), and with every grade 0 (must be 0); apart from Bpref it may use the judgments only through single-document lookups and the count of grades >= 1.")
def c11(L, rep):
    C = ctx_of(L)
    jm = map_atoms(C.J)
    rho = mk("sym", "n_relevant", "nat")
    nrel = M.n_rel(C.J)
    for v in need(L, rep, BINARY):
        s, ctx, pr, r = L.score(v)
        s, ctx = T.unbox(s), T.unbox(ctx)
        w = L.where_metric(v)

        def grade(fn):
            def f(x):
                if x.op == "perm":
                    return x
                if x.op == "num" and isinstance(x.args[0], Term) and x.args[0].op == "at" and x.args[0].args[0] in jm:
                    return fn(x)
                return None

            return f

        rep.equal("%s uses grades only through [grade >= 1]" % v, T.transform(s, grade(lambda x: ge0(A(x) - 1))), s, ctx, w)
        rep.equal("%s is 0 when every grade is 0" % v, T.transform(s, grade(lambda x: ZERO)), ZERO, ctx, w)
        if v != "Bpref":

            def unj(x):
                if x.op == "perm":
                    return x
                if x.op == "has" and x.args[0] in jm:
                    return A(x) * ge0(P(m_at(x.args[0], x.args[1])) - 1)
                return None

            rep.equal("%s treats documents of grade 0 like unjudged ones" % v, T.transform(s, unj), s, ctx, w)
            s1 = subst(s, {nrel.args[0][0][0][0]: A(rho)})
            bad = T.mentions(s1, lambda x: (x.op in ("len", "mkey") and x.args[0] in jm) or x.op == "perm" and x.args[1:] and T.mentions(x, lambda y: y in jm) is not None)
            rep.ob("%s counts only judgments of grade >= 1" % v, bad is None, w, "the score depends on the judgments other than through the number of relevant documents and per-document lookups: %s" % show(s1)[:300])


# ---------------------------------------------------------------- C12
@check("C12", rule="For every metric the value graph of a query's score is searched for the numeric value of a predicted score outside the comparison predicate of the ranking's sort; within it scores may only be compared with each other.")
def c12(L, rep):
    C = ctx_of(L)
    pm = map_atoms(C.R)

    def value(x):
        return x.op == "num" and isinstance(x.args[0], Term) and T.mentions(x.args[0], lambda y: y in pm) is not None and x.args[0].op in ("at", "fld")

    for v in L.variants():
        s, ctx, pr, r = L.score(v)
        s = T.unbox(s)
        w = L.where_metric(v)
        rank = lambda x: x.op == "perm" and T.mentions(x, lambda y: y in pm) is not None
        hit = None
        if T.mentions(s, lambda x: x in pm) is not None:
            hit = T.mentions(s, lambda x: is_pred_value(x, pm), stop=rank)
        rep.ob("%s never reads a predicted score" % v, hit is None, w, "the score of a query depends on the numeric value %s" % (show(hit)[:200] if hit is not None else ""))
    pr = set()
    T.mentions(C.R, lambda x: bool(x.op == "perm" and pr.add(x)) and False)
    rep.ob("a ranking is a sorted permutation", len(pr) == 1, "RelevanceStoreBuilder::build", "the ranking is not obtained by one sort")
    for p in pr:
        bad = order_misuse(p, pm)
        rep.ob("the ranking compares scores only with each other", bad is None, "RelevanceStoreBuilder::build", "the sort uses %s" % bad)


def is_pred_value(x, pm):
    return x.op == "at" and x.args[0] in pm


def order_misuse(p, pm):
    """comparison atoms in a sort predicate that are not score(a) <=> score(b)"""
    found = []

    def visit(x):
        if x.op in ("gt0", "eqf0", "ge0", "eq0") and T.mentions(x, lambda y: is_pred_value(y, pm)) is not None:
            q = x.args[0]
            cs = sorted(c for m, c in q.args)
            if not (len(q.args) == 2 and cs == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "num" and is_pred_value(m[0][0].args[0], pm) for m, _ in q.args)):
                found.append(show(x)[:200])
            return True
        return False

    bare = T.mentions(p, lambda y: is_pred_value(y, pm), stop=visit)
    if bare is not None and not found:
        found.append(show(bare)[:200])
    return found[0] if found else None


# ---------------------------------------------------------------- C13
@check("C13", rule="For every metric, all floating-point divisions, logarithms and square roots met while interpreting evaluate() abstractly are obligations: on any stores with a predicted query the divisor is non-zero (linear arithmetic over the path condition); the score's value graph contains no undefined operation.", assumptions=["grades with representable exponential gain (< 1024)"])
def c13(L, rep):
    C = ctx_of(L)
    for v in L.variants():
        s, ctx, pr, r = L.score(v)
        w = L.where_metric(v)
        seen = set()
        for o in r.I.obl:
            kind, fn, sp, cond = o[0], o[1], o[2], o[3]
            if (kind, fn, sp) in seen and cond is ZERO:
                continue
            seen.add((kind, fn, sp))
            if "float" not in kind and "log" not in kind and "sqrt" not in kind and "NaN" not in kind:
                continue
            c = T.unbox(ctx * C.dom * cond) if cond is not ZERO else ZERO
            rep.ob("%s: %s cannot happen at %s" % (v, kind, sp), c is ZERO or equiv.refuted(c), "%s (%s)" % (fn, sp), "%s: %s when %s" % (v, kind, show(cond)[:300]))
        u = T.unbox(under(s, ctx))
        rep.ob("%s: every operation of the score is defined" % v, not T.has_undef(u), w, "the score may be undefined: %s" % show(u)[:300])
        rep.ob("%s: the score is not NaN" % v, T.mentions(u, lambda x: x.op == "nf") is None, w, "the score may be non-finite")

"""C01-C03: the relevance store."""
from registry import check
import terms as T
from terms import *
import values as V
from values import *
import models
import interp as IP
from lab import deep, Missing, with_return, ret
from program import mkty, prim

K, Q, D, S_, Q2, D2 = (mk("sym", n, "obj") for n in ("B", "q", "d", "s", "q2", "d2"))
SCORES = ("u32", "f64")


class Store:
    """a store value seen through its public accessors"""

    def __init__(self, L, value):
        self.L, self.v = L, value

    def call(self, name, *a):
        return self.L.run("RelevanceStore::" + name, [self.v] + list(a))

    def score(self, q, d):
        return self.call("get_score", q, d).deep()

    def map(self, q):
        return self.call("get_map", q).deep()

    def ranking(self, q):
        return self.call("get_sorted", q).deep()


def build(L, b, ts):
    return Store(L, L.run("RelevanceStoreBuilder::build", [b], ts).deep())


def builder(L, ts, name="B"):
    b = L.fn("RelevanceStoreBuilder::build")
    return L.eta_args(b, ts, [name])[0]


def add(L, b, q, d, s, ts):
    """(builder after, result)"""
    I = L.interp()
    st = IP.St({}, ONE, ONE)
    root = I.new_root(st, b)
    r = L.run("RelevanceStoreBuilder::add_record", [I.ref(root), q, d, s], ts, I, st)
    return deep(I, st, I.read(st, root, ())), r.deep()


def where(L, path):
    b = L.fn(path)
    return "%s (%s)" % (path, L.loc(b["path"]))


def opt_equal(rep, name, got, cond, val, ctx, w):
    """the Option `got` is Some(val) exactly when cond"""
    rep.equal(name + ": present", vcond(got, "Some"), cond, ctx, w)
    c = ctx * vcond(got, "Some")
    if c is not ZERO and vcond(got, "Some") is not ZERO:
        rep.equal(name + ": value", vfield(got, "Some", "0"), val, c * cond, w)


@check(
    "C01",
    rule="add_record is interpreted abstractly on an arbitrary builder, key pair and score, and its effect observed through build + get_score for an arbitrary "
    "pair (case split same/other query, same/other document): Ok exactly if the pair was absent, afterwards present with the given score, every other pair untouched, "
    "nothing changed on error. new/default are empty. from_records is interpreted on an arbitrary record sequence; its loop (state summarised as a fold term) must be the "
    "fold of add_record over every record, left at the first error, which is returned.",
)
def c01(L, rep):
    for sc in SCORES:
        ts = {"T": prim(sc)}
        B = builder(L, ts)
        s = eta(S_, prim(sc))
        w = where(L, "RelevanceStoreBuilder::add_record")
        B2, res = add(L, B, Q, D, s, ts)
        before = build(L, B, ts)
        had = vcond(before.score(Q, D), "Some")
        ok = vcond(res, "Ok")
        rep.equal("[%s] add_record succeeds exactly if the pair is absent" % sc, ok, ONE - had, ONE, w)
        rep.equal("[%s] the error is DuplicateEntry" % sc, vcond(vfield(res, "Err", "0"), "DuplicateEntry"), ONE, ONE - ok, w)
        cases_ = [
            ("the added pair", Q, D, ONE, True),
            ("another document of the query", Q, D2, ONE - eqv(D, D2), False),
            ("another query, same document", Q2, D, ONE - eqv(Q, Q2), False),
            ("another query", Q2, D2, (ONE - eqv(Q, Q2)) * (ONE - eqv(D, D2)), False),
        ]
        for name, q, d, c, own in cases_:
            o = before.score(q, d)
            # what the store built from the new builder answers: the same function of the builder
            g = subst(o, {K: B2})
            was = (vcond(o, "Some"), vfield(o, "Some", "0"))
            if own:
                opt_equal(rep, "[%s] after success: %s" % (sc, name), g, ONE, s, c * ok, w)
                opt_equal(rep, "[%s] after an error: %s" % (sc, name), g, *was, c * (ONE - ok), w)
            else:
                opt_equal(rep, "[%s] afterwards: %s" % (sc, name), g, *was, c, w)
        for mkb in ("RelevanceStoreBuilder::new", "default"):
            if mkb == "default":
                b0 = default_builder(L)
                if b0 is None:
                    continue
            else:
                b0 = L.run(mkb, [], ts).deep()
            e = build(L, b0, ts)
            rep.ob("[%s] a builder made by %s is empty" % (sc, mkb), vcond(e.score(Q, D), "Some") is ZERO and e.call("n_queries").deep() is ZERO, where(L, "RelevanceStoreBuilder::new"), "a fresh builder is not empty")
        from_records(L, rep, sc, ts)


def default_builder(L):
    for b in L.prog.bodies.values():
        if b["path"].endswith("::default") and "RelevanceStoreBuilder" in b["path"]:
            return L.run(b, []).deep()
    return None


def records_arg(L, sc, name="recs"):
    key, adt = L.adt("relevance::Record")
    kp = mkty("K", "param")
    rt = mkty(key + "<K," + sc + ">", "adt", adt=key, key=key, args=(kp, prim(sc)))
    return eta(mk("sym", name, "obj"), mkty("alloc::vec::Vec<" + rt.s + ">", "adt", adt="alloc::vec::Vec", key="alloc::vec::Vec", args=(rt,)))


def from_records(L, rep, sc, ts):
    w = where(L, "RelevanceStore::from_records")
    recs = records_arg(L, sc)
    got = L.run("RelevanceStore::from_records", [recs], ts).deep()
    # reference: the fold of the public builder operations over the records
    I = L.interp()
    st = IP.St({}, ONE, ONE)
    addb = L.fn("RelevanceStoreBuilder::add_record")
    root = I.new_root(st, I.call_key(st, L.fn("RelevanceStoreBuilder::new")["key"], [], ts), tysubst(L.fn("RelevanceStoreBuilder::build")["params"][0]["t"], ts))

    def body(st):
        def step(s, r):
            x = I.call_key(s, addb["key"], [I.ref(root), fld(r, "query_id"), fld(r, "doc_id"), fld(r, "score")], ts)
            I.branch(s, vcond(x, "Ok"), lambda s2: UNIT, lambda s2: ret(I, s2, Err(vfield(x, "Err", "0"))))

        I.loop_over(recs, "ref", step, st)
        return Ok(I.call_key(st, L.fn("RelevanceStoreBuilder::build")["key"], [I.read(st, root, ())], ts))

    want = deep(I, st, with_return(I, st, body))
    ok = vcond(got, "Ok")
    rep.equal("[%s] from_records fails exactly at a repeated pair" % sc, ok, vcond(want, "Ok"), ONE, w)
    rep.equal("[%s] from_records returns add_record's error" % sc, vcond(vfield(got, "Err", "0"), "DuplicateEntry"), ONE, ONE - ok, w)
    if ok is ZERO:
        return
    g, e = Store(L, vfield(got, "Ok", "0")), Store(L, vfield(want, "Ok", "0"))
    gs, es = g.score(Q, D), e.score(Q, D)
    opt_equal(rep, "[%s] from_records keeps every record" % sc, gs, vcond(es, "Some"), vfield(es, "Some", "0"), ok, w)


def rank_spec(M, adt):
    """the documents of a score map by descending score, then ascending document id"""
    s = m_seq(M)
    n = seq_len(s)
    a, b = fresh(), fresh()
    x, y = seq_nth(s, A(a)), seq_nth(s, A(b))
    before = ltv(fld(y, "1"), fld(x, "1")) + eqv(fld(y, "1"), fld(x, "1")) * ltv(fld(x, "0"), fld(y, "0"))
    dom = lt(A(a), n) * lt(A(b), n)
    tok = models.mkperm(a, b, n, under(before, dom))
    el = lambda e: mk("struct", adt, (("doc_id", fld(e, "0")), ("score", fld(e, "1"))))
    return seq_map(models.perm_seq(tok, s), el)


def seq_equal(rep, name, got, want, ctx, w):
    """same length and the same element at every position"""
    rep.equal(name + ": number of entries", seq_len(got), seq_len(want), ctx, w)
    i = fresh()
    c = ctx * seq_dom(want, i)
    rep.equal(name + ": entry at every position", seq_nth(got, A(i)), seq_nth(want, A(i)), c, w)


@check(
    "C02",
    rule="build is interpreted abstractly on an arbitrary builder; the ranking exposed for an arbitrary query must be the sorted permutation of that query's score map whose "
    "order predicate on two arbitrary entries is (score descending, document id ascending) - a strict total order on distinct documents, so the result is unique.",
)
def c02(L, rep):
    adt, _ = L.adt("relevance::Relevance")
    w = where(L, "RelevanceStoreBuilder::build")
    for sc in SCORES + ("T",):
        ts = {"T": prim(sc)} if sc != "T" else {}
        st = build(L, builder(L, ts), ts)
        r, m = st.ranking(Q), st.map(Q)
        rep.equal("[%s] every query with documents has a ranking" % sc, vcond(r, "Some"), vcond(m, "Some"), ONE, w)
        seq_equal(rep, "[%s] ranking" % sc, vfield(r, "Some", "0"), rank_spec(vfield(m, "Some", "0"), V.stdname(adt)), vcond(r, "Some"), w)


@check(
    "C03",
    rule="all accessors are interpreted abstractly on the store built from an arbitrary builder; for an arbitrary query, document and position each view must equal the view derived from the per-query score map.",
)
def c03(L, rep):
    radt, _ = L.adt("relevance::Record")
    radt = V.stdname(radt)
    wb = where(L, "RelevanceStoreBuilder::build")
    for sc in SCORES + ("T",):
        ts = {"T": prim(sc)} if sc != "T" else {}
        st = build(L, builder(L, ts), ts)
        r, m, p = st.ranking(Q), st.map(Q), st.score(Q, D)
        has = vcond(m, "Some")
        M = vfield(m, "Some", "0")
        opt_equal(rep, "[%s] get_score" % sc, p, has * m_has(M, D), m_at(M, D), ONE, where(L, "RelevanceStore::get_score"))
        rep.equal("[%s] get_sorted is present with get_map" % sc, vcond(r, "Some"), has, ONE, wb)
        adt, _ = L.adt("relevance::Relevance")
        ms = m_seq(M)
        # each document of the map exactly once in the ranking, under its own score
        R = vfield(r, "Some", "0")
        rep.equal("[%s] ranking and map have the same number of documents" % sc, seq_len(R), m_len(M), has, wb)
        i = fresh()
        e = seq_nth(R, A(i))
        dom = has * seq_dom(R, i)
        rep.equal("[%s] a ranked document is in the map" % sc, m_has(M, fld(e, "doc_id")), ONE, dom, wb)
        rep.equal("[%s] a ranked document has its map score" % sc, fld(e, "score"), m_at(M, fld(e, "doc_id")), dom, wb)
        rep.ob("[%s] the ranking repeats no document" % sc, injective(R), wb, "the ranking is not a permutation of the query's documents: %s" % show(R)[:300])
        # queries
        qs = st.call("query_ids").seq()
        wq = where(L, "RelevanceStore::query_ids")
        qm = outer_map(has)
        rep.ob("[%s] queries are keyed by one map" % sc, qm is not None, wq, "presence of a query is not a map lookup: %s" % show(has)[:200])
        if qm is None:
            continue
        keys = seq_map(m_seq(qm), lambda e: fld(e, "0"))
        seq_equal(rep, "[%s] query_ids" % sc, qs, keys, ONE, wq)
        rep.equal("[%s] n_queries" % sc, st.call("n_queries").deep(), m_len(qm), ONE, where(L, "RelevanceStore::n_queries"))
        j = fresh()
        kq = seq_nth(keys, A(j))
        per = lambda f: Sum(j, lt(A(j), seq_len(keys)) * f(vfield(st.map(kq), "Some", "0")))
        rep.equal("[%s] n_docs" % sc, st.call("n_docs").deep(), per(m_len), ONE, where(L, "RelevanceStore::n_docs"))
        for name in ("records", "into_records"):
            got = st.call(name).seq()
            wr = where(L, "RelevanceStore::" + name)
            rec = lambda q, d, s: mk("struct", radt, (("query_id", q), ("doc_id", d), ("score", s)))
            by_rank = seq_flat(seq_map(keys, lambda q: seq_map(vfield(st.ranking(q), "Some", "0"), lambda e: rec(q, fld(e, "doc_id"), fld(e, "score")))))
            by_map = seq_flat(seq_map(keys, lambda q: seq_map(m_seq(vfield(st.map(q), "Some", "0")), lambda e: rec(q, fld(e, "0"), fld(e, "1")))))
            d = L.same(got, by_rank)
            if d is not None and L.same(got, by_map) is None:
                d = None
            rep.ob("[%s] %s lists every record once, by query" % (sc, name), d is None, wr, "%s: %s" % (name, "; ".join(d or [])))


def injective(R):
    """element i of R is a function of a distinct map position: map keys at i or at a permutation of i"""
    if R.op != "comp" or len(R.args[0]) != 1:
        return False
    fvs, c, v = open_comp(R)
    k = fld(v, "doc_id")
    if k.op != "mkey":
        return False
    ix = k.args[1]
    if ix is A(fvs[0]):
        return True
    return len(ix.args) == 1 and ix.args[0][1] == 1 and len(ix.args[0][0]) == 1 and ix.args[0][0][0][0].op == "pidx" and ix.args[0][0][0][0].args[1] is A(fvs[0])


def outer_map(c):
    if len(c.args) == 1 and c.args[0][1] == 1 and len(c.args[0][0]) == 1:
        a = c.args[0][0][0][0]
        if a.op == "has":
            return a.args[0]
    return None

"""C14, C29, C35: names, TREC files and JSON records."""
from registry import check
import terms as T
from terms import *
import values as V
from values import *
import models
import interp as IP
from lab import deep, Missing, with_return, ret
from program import mkty, prim
import checks_stats
from checks_stats import vec, where, opaque
from checks_store import Store, opt_equal, Q, D

STRING = mkty("String", "adt", adt="std::string::String")
SCORE = {"true": ("i32", 3, 4), "pred": ("f64", 4, 5)}


def columns(line):
    t = mk("app", "split_whitespace", "obj", line)
    i = fresh()
    return Comp([i], lt(A(i), A(mk("len", t))), mk("nth", t, A(i)))


def reference(L, kind, path, lines):
    """fold of the public builder operations over the lines: columns 1, 3 and 4 (5)"""
    parsed, col, need = SCORE[kind]
    kt, vt = L.fn(path)["ret"].args[0].args
    ts = {"K": kt, "T": vt}
    I = L.interp()
    st = IP.St({}, ONE, ONE)
    bt = tysubst(L.fn("RelevanceStoreBuilder::build")["params"][0]["t"], ts)
    addb = L.fn("RelevanceStoreBuilder::add_record")
    root = I.new_root(st, I.call_key(st, L.fn("RelevanceStoreBuilder::new")["key"], [], ts), bt)
    bad = Err(ctor_err("InvalidFormat"))

    def record(s, line):
        c = columns(line)
        p = models.parse_to(I, s, seq_nth(c, C(col)), prim(parsed))

        def good(s2):
            v = vfield(p, "Ok", "0")
            if kind == "true":
                v = fmax(v, ZERO)
            x = I.call_key(s2, addb["key"], [I.ref(root), seq_nth(c, C(0)), seq_nth(c, C(2)), v], ts)
            I.branch(s2, vcond(x, "Ok"), lambda s3: UNIT, lambda s3: ret(I, s3, Err(ctor_err("DuplicateEntry"))))
            return UNIT

        I.branch(s, le(C(need), seq_len(c)) * vcond(p, "Ok"), good, lambda s2: ret(I, s2, bad))

    def body(st):
        I.loop_over(lines, "val", record, st)
        return Ok(I.call_key(st, L.fn("RelevanceStoreBuilder::build")["key"], [I.read(st, root, ())], ts))

    return deep(I, st, with_return(I, st, body))


def ctor_err(variant):
    return mk("enum", "ElinorError", ((variant, ONE, (("0", mk("str", "")),)),))


@check(
    "C29",
    rule="both TREC parsers are interpreted on an arbitrary sequence of lines; line splitting and number parsing are uninterpreted functions of the line. Success, the kind of "
    "the error (that of the first offending line) and, for an arbitrary query and document, the resulting score must be those of the reference fold: one builder insertion per "
    "line with columns 1, 3 and 4 (5), judgments clamped at 0.",
)
def c29(L, rep):
    for kind, path in (("true", "parse_true_rels_in_trec"), ("pred", "parse_pred_rels_in_trec")):
        w = where(L, path)
        lines = opaque("lines", vec(STRING))
        got = L.run(path, [lines], {"I": vec(STRING), "S": STRING}).deep()
        want = reference(L, kind, path, lines)
        ok = vcond(got, "Ok")
        rep.equal("%s: a file is accepted exactly if every line is" % path, ok, vcond(want, "Ok"), ONE, w)
        ge_, we = vfield(got, "Err", "0"), vfield(want, "Err", "0")
        for v in ("InvalidFormat", "DuplicateEntry"):
            rep.equal("%s: error kind %s" % (path, v), vcond(ge_, v), vcond(we, v), ONE - ok, w)
        if ok is ZERO:
            continue
        g, e = Store(L, vfield(got, "Ok", "0")), Store(L, vfield(want, "Ok", "0"))
        gs, es = g.score(Q, D), e.score(Q, D)
        opt_equal(rep, "%s: one record per line" % path, gs, vcond(es, "Some"), vfield(es, "Some", "0"), ok, w)


FIELDS = ("query_id", "doc_id", "score")


@check(
    "C35",
    rule="the Serialize implementation of Record is interpreted on a record of opaque values and must emit exactly the three documented fields with their values; the Deserialize "
    "implementation (with its field and map visitors) is interpreted on objects holding every ordered selection of these fields: it must rebuild the record from each complete "
    "object, whatever the order, and fail on each incomplete one. The emitted object is among them, so writing and reading back is the identity.",
    assumptions=["serde_json writes and reads the values of key and score types losslessly (String, i32 and OrderedFloat<f64> are foreign types)"],
)
def c35(L, rep):
    from itertools import permutations

    key, adt = L.adt("relevance::Record")
    sk = L.prog.impl_idx.get(("Serialize", key))
    dk = L.prog.impl_idx.get(("Deserialize", key))
    if sk is None or dk is None:
        rep.ob("Record implements Serialize and Deserialize", False, "relevance::Record", "no serialization of Record")
        return
    val = {f: mk("sym", f, "obj") for f in FIELDS}
    names = [f[0] for f in adt["variants"][0][1]]
    rec = mk("struct", V.stdname(key), tuple((f, val.get(f, mk("sym", f, "obj"))) for f in names))
    sb = L.prog.bodies[sk["items"]["serialize"]]
    w = "%s (%s)" % (sb["path"].split("::", 1)[1], L.span(sb))
    out = L.run(sb, [rec, mk("sym", "serializer", "obj")]).deep()
    obj = vfield(out, "Ok", "0")
    if not rep.ob("a record is written as an object", obj.op == "struct" and obj.args[0] == "SerObj" and vcond(out, "Ok") is ONE, w, "a record is not always written as an object: %s" % T.show(out)[:300]):
        return
    emitted = [(x.args[0].args[0] if x.args[0].op == "str" else T.show(x.args[0]), x.args[1]) for x in fld(obj, "fields").args]
    rep.ob("the object has exactly the documented fields", sorted(n for n, _ in emitted) == sorted(FIELDS), w, "the written fields are %s" % [n for n, _ in emitted])
    for f in FIELDS:
        got = [v for n, v in emitted if n == f]
        rep.ob("field %s holds its value" % f, len(got) == 1 and got[0] is val[f], w, "field %s is written as %s" % (f, [T.show(g)[:100] for g in got]))
    db = L.prog.bodies[dk["items"]["deserialize"]]
    w = "%s (%s)" % (db["path"].split("::", 1)[1], L.span(db))

    def read(pairs):
        I = L.interp()
        I.unroll = len(pairs) + 2
        items = mk("list", *[mk("tuple", V.S(n), v) for n, v in pairs])
        return L.run(db, [struct("ObjDe", items=items)], {}, I).deep()

    for n in range(4):
        for sel in permutations(FIELDS, n):
            r = read([(f, val[f]) for f in sel])
            what = ", ".join(sel) or "nothing"
            if n < 3:
                rep.ob("an object with only %s is rejected" % what, vcond(r, "Err") is ONE, w, "an object with only the fields {%s} is accepted" % what)
            else:
                rep.ob("an object with %s is read" % what, vcond(r, "Ok") is ONE and vfield(r, "Ok", "0") is rec, w, "reading {%s} gives %s" % (what, T.show(r)[:300]))
    r = read(emitted)
    rep.ob("a written record reads back equal", vcond(r, "Ok") is ONE and vfield(r, "Ok", "0") is rec, w, "reading back a written record gives %s" % T.show(r)[:300])

"""C14: metric names."""
from registry import check
import terms as T
from terms import *
import values as V
from values import *
import models
import interp as IP
import lang
from lab import deep, Missing
from checks_stats import where, opaque
from checks_text import STRING
from strlang import Langs, NotRegular

NAMES = {
    "Hits": ("hits", 1), "Success": ("success", 1), "Precision": ("precision", 1), "Recall": ("recall", 1), "F1": ("f1", 1),
    "RPrecision": ("r_precision", 0), "AP": ("ap", 1), "RR": ("rr", 1), "Bpref": ("bpref", 0),
    "DCG": ("dcg", 1), "NDCG": ("ndcg", 1), "DCGBurges": ("dcg_burges", 1), "NDCGBurges": ("ndcg_burges", 1),
}
FROM_STR = "<metrics::Metric as std::str::FromStr>::from_str"
FMT = "<metrics::Metric as std::fmt::Display>::fmt"


def digits():
    return lang._max_digits(lang.LIMIT["usize"])


def accepted(name):
    return lang.union(lang.literal(name), lang.concat(lang.literal(name + "@"), digits()))


def with_value(name, n):
    r = lang.concat(lang.concat(lang.literal(name + "@"), lang.every(frozenset("0"))), lang.literal(str(n) if n else "0"))
    return lang.union(r, lang.literal(name)) if n == 0 else r


def suffix_of(name):
    return lang.mark3(lang.literal(name + "@"), digits(), lang.literal(""))


@check(
    "C14",
    rule="FromStr is interpreted on an arbitrary string; every condition it tests (pattern matches, pieces equal to literals, pieces parsing as numbers) is a regular language of the "
    "input. For each feasible outcome the language of inputs leading to it is compared, as a minimal automaton, with the specified one (identifier, optional @ and decimal cutoff), and the "
    "piece of the input parsed as cutoff with the decimal suffix. Display is interpreted on every variant with an arbitrary cutoff and must yield the identifier, with @k exactly when k != 0.",
)
def c14(L, rep):
    w = where(L, FROM_STR)
    s = opaque("s", STRING)
    got = L.run(FROM_STR, [s]).deep()
    if T.has_box(got):
        got = T.unbox(got)
    m = vfield(got, "Ok", "0")
    err = vfield(got, "Err", "0")
    vs = sorted(L.variants())
    rep.ob("every metric is known", vs == sorted(NAMES), w, "the metrics are %s, expected %s" % (vs, sorted(NAMES)))
    ps = [P(vcond(got, "Ok")), P(vcond(err, "InvalidFormat"))]
    for v in vs:
        ps.append(P(vcond(m, v)) if m.op in ("enum", "cases") else ZERO)
    for v in vs:
        ps.append(P(vfield(m, v, "k")) if L.has_k(v) and vcond(m, v) is not ZERO else ZERO)
    G = Langs(s)
    leaves = 0
    allowed = {v: accepted(NAMES[v][0]) for v in vs if v in NAMES}
    every = lang.nothing()
    for l in allowed.values():
        every = lang.union(every, l)
    seen = {v: lang.nothing() for v in vs}
    try:
        for dom, qs in G.leaves(ps):
            leaves += 1
            vals = [const_of(q) for q in qs[:2 + len(vs)]]
            if vals[0] == 0:
                bad = lang.inter(dom, every)
                rep.ob("rejected inputs are not metric names (case %d)" % leaves, bad.empty(), w, "the valid metric name %r is rejected" % bad.example())
                rep.ob("the error of a rejected name is InvalidFormat (case %d)" % leaves, vals[1] == 1, w, "%r is not rejected with InvalidFormat" % dom.example())
                continue
            hit = [v for v, x in zip(vs, vals[2:]) if x == 1]
            if vals[0] != 1 or len(hit) != 1 or hit[0] not in NAMES:
                rep.ob("outcome decided (case %d)" % leaves, False, w, "the metric parsed from %r is not determined" % dom.example())
                continue
            v = hit[0]
            name, has = NAMES[v]
            bad = lang.minus(dom, allowed[v])
            if not rep.ob("only %s[@k] parses as %s (case %d)" % (name, v, leaves), bad.empty(), w, "%r is parsed as %s" % (bad.example(), v)):
                continue
            seen[v] = lang.union(seen[v], dom)
            if not L.has_k(v):
                continue
            k = qs[2 + len(vs) + vs.index(v)]
            c = const_of(k)
            if c is not None:
                bad = lang.minus(dom, with_value(name, int(c)))
                rep.ob("cutoff of %s (case %d)" % (v, leaves), bad.empty(), w, "%r gets the cutoff %d" % (bad.example(), int(c)))
                continue
            a = single(k)
            t = a.args[0] if a is not None and a.op == "num" else None
            if t is None or t.op != "fld" or t.args[1] != "Ok" or t.args[0].args[0] != "parse::usize":
                rep.ob("cutoff of %s (case %d)" % (v, leaves), False, w, "the cutoff for %r is not the parsed decimal suffix: %s" % (dom.example(), T.show(k)[:200]))
                continue
            piece = lang.restrict(G.piece(t.args[0].args[2]), dom)
            bad = lang.minus(dom, lang.erase(piece))
            rep.ob("cutoff of %s present (case %d)" % (v, leaves), bad.empty(), w, "no cutoff text for %r" % bad.example())
            want = lang.restrict(suffix_of(name), dom)
            d = lang.minus(piece, want)
            rep.ob("cutoff of %s (case %d)" % (v, leaves), piece == want, w, "the cutoff is parsed from another piece: %r" % d.example())
    except NotRegular as e:
        rep.violation(w, "the parser's conditions cannot be decided: %s" % e)
        return
    for v in vs:
        if v in allowed:
            bad = lang.minus(allowed[v], seen[v])
            rep.ob("every %s[@k] parses as %s" % (NAMES[v][0], v), bad.empty(), w, "%r is not parsed as %s" % (bad.example(), v))
    # ---- Display
    w = where(L, FMT)
    for v in vs:
        if v not in NAMES:
            continue
        name, has = NAMES[v]
        I = L.interp()
        st = IP.St({}, ONE, ONE)
        k = L.K
        text = models.display(I, st, L.metric(v, k), None)
        for f in I.inlined:
            L.functions.add(f)
        zero = eq0(k)
        for c, want, what in ((zero, V.S(name), "no cutoff"), (ONE - zero, models.scat(V.S(name + "@"), mk("disp", k)), "a cutoff")) if L.has_k(v) else ((ONE, V.S(name), "no cutoff"),):
            ok = same_text(text, want, c)
            rep.ob("%s with %s displays as %s" % (v, what, name if what == "no cutoff" else name + "@k"), ok, w, "Display of %s with %s is %s" % (v, what, T.show(text)[:300]))


def single(p):
    if len(p.args) == 1 and p.args[0][1] == 1 and len(p.args[0][0]) == 1 and p.args[0][0][0][1] == 1:
        return p.args[0][0][0][0]


def same_text(t, want, ctx):
    if T.has_box(t):
        t = T.unbox(t)
    if t.op == "cases":
        return all(pmul(ctx, P(c)) is ZERO or same_text(x, want, pmul(ctx, P(c))) for x, c in t.args)
    if t.op == "cats":
        for i, x in enumerate(t.args):
            if x.op == "cases":
                return all(pmul(ctx, P(c)) is ZERO or same_text(models.scat(*(t.args[:i] + (y,) + t.args[i + 1:])), want, pmul(ctx, P(c))) for y, c in x.args)
    if t is want:
        return True
    # the cutoff is known to be zero
    if want.op == "str" and t.op in ("cats", "disp"):
        k = mk("sym", "k", "nat")
        u = T.subst(t, {k: ZERO})
        if ctx is eq0(A(k)) and u is not t:
            return same_text(u, want, ONE)
    return False

"""C15-C28: score alignment and the statistical tests."""
from registry import check
import terms as T
from terms import *
import values as V
from values import *
import models
import interp as IP
from lab import deep, Missing, with_return, ret
from program import mkty, prim

KT = mkty("K", "param")
F64 = prim("f64")
MAP = mkty("BTreeMap<K,f64>", "adt", adt="std::collections::BTreeMap", args=(KT, F64))


def vec(t):
    return mkty("Vec<%s>" % t.s, "adt", adt="std::vec::Vec", args=(t,))


def where(L, path):
    b = L.fn(path)
    return "%s (%s)" % (path, L.loc(b["path"]))


def opaque(name, ty):
    return eta(sym(name), ty)


def has_keys_of(a, b):
    """every key of the ordered map b is a key of a"""
    i = fresh()
    return ONE - Exists(i, lt(A(i), m_len(b)) * (ONE - m_has(a, m_key(b, A(i)))))


def same_keys(a, b):
    return eq0(m_len(a) - m_len(b)) * has_keys_of(a, b)


def nth(seq, i):
    return seq_nth(seq, P(i))


@check(
    "C15",
    rule="pairs_from_maps is interpreted on two arbitrary ordered maps and tuples_from_maps on an arbitrary sequence of them. The condition under which they succeed must "
    "be: at least one map and every map has exactly the keys of the first; otherwise the error is InvalidArgument. Under it the result must have one entry per key, "
    "in key order, whose j-th component is the j-th map's value for that key.",
)
def c15(L, rep):
    # tuples
    w = where(L, "tuples_from_maps")
    maps = opaque("maps", vec(MAP))
    n = seq_len(maps)
    r = L.run("tuples_from_maps", [maps], {"I": vec(MAP), "K": KT}).deep()
    j = fresh()
    want = le(C(1), n) * (ONE - Exists(j, lt(A(j) + 1, n) * (ONE - same_keys(nth(maps, 0), nth(maps, A(j) + 1)))))
    aligned(rep, "tuples", r, want, n, lambda j: nth(maps, j), w)
    # pairs
    w = where(L, "pairs_from_maps")
    a, b = opaque("A", MAP), opaque("B", MAP)
    r = L.run("pairs_from_maps", [a, b], {"K": KT}).deep()
    aligned(rep, "pairs", r, same_keys(a, b), C(2), lambda j: a if j is ZERO else b, w)


def aligned(rep, name, r, want, n, src, w):
    ok = vcond(r, "Ok")
    rep.equal("%s: accepted exactly if there is a map and all have the same keys" % name, ok, want, ONE, w)
    err = vfield(r, "Err", "0")
    if ONE - ok is not ZERO:
        rep.equal("%s: the error is InvalidArgument" % name, vcond(err, "InvalidArgument"), ONE, ONE - ok, w)
    v = vfield(r, "Ok", "0")
    q = sym("i", "nat")
    first = src(ZERO)
    rep.equal("%s: one entry per key" % name, seq_len(v), m_len(first), ok, w)
    ctx = ok * want * lt(q, m_len(first))
    k = m_key(first, q)
    t = nth(v, q)
    if name == "tuples":
        jj = sym("j", "nat")
        rep.equal("%s: one component per map" % name, seq_len(t), n, ctx, w)
        rep.equal("%s: component j of entry i is map j's value of key i" % name, nth(t, jj), m_at(src(jj), k), ctx * lt(jj, n), w)
    else:
        for j in (0, 1):
            rep.equal("%s: component %d of entry i is map %d's value of key i" % (name, j, j), fld(t, str(j)), m_at(src(C(j)), k), ctx, w)

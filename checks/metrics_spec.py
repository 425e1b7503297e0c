"""Reference definitions of the metrics, as terms over a ranking R (sequence of
Relevance{doc_id, score}), a judgment map J (document -> grade) and a cutoff k."""
from terms import *
from values import *
import terms as T


def cutoff(k, R):
    """effective depth: k = 0 means the whole ranking"""
    n = seq_len(R)
    return ite(eq0(k), n, k)


def depth(k, R):
    n = seq_len(R)
    kk = cutoff(k, R)
    return ite(le(kk, n), kk, n)


def doc(R, i):
    return fld(seq_nth(R, A(i)), "doc_id")


def judged(J, d):
    return m_has(J, d)


def rel(J, d, lvl=1):
    """document judged with a grade of at least lvl (an indicator)"""
    return m_has(J, d) * ge0(P(m_at(J, d)) - lvl)


def nonrel(J, d, lvl=1):
    return m_has(J, d) * (ONE - ge0(P(m_at(J, d)) - lvl))


def hits_upto(R, J, n):
    i = fresh()
    return Sum(i, lt(A(i), n) * rel(J, doc(R, i)))


def n_rel(J):
    i = fresh()
    k = m_key(J, A(i))
    return Sum(i, lt(A(i), m_len(J)) * ge0(P(m_at(J, k)) - 1))


def n_nonrel(J):
    i = fresh()
    k = m_key(J, A(i))
    return Sum(i, lt(A(i), m_len(J)) * (ONE - ge0(P(m_at(J, k)) - 1)))


def guarded(c, a, b):
    """if c {a()} else {b}, evaluating a only where c can hold"""
    if c is ZERO:
        return P(b)
    return c * a() + (ONE - c) * P(b)


def hits(R, J, k):
    return hits_upto(R, J, depth(k, R))


def success(R, J, k):
    return ge0(hits(R, J, k) - 1)


def precision(R, J, k):
    kk = cutoff(k, R)
    nz = ge0(kk - 1)
    return guarded(nz, lambda: div(hits(R, J, k), kk, nz), ZERO)


def recall(R, J, k):
    r = n_rel(J)
    nz = ge0(r - 1)
    return guarded(nz, lambda: div(hits(R, J, k), r, nz), ZERO)


def f1(R, J, k):
    """2PR/(P+R) = 2h/(kk + r) when h > 0"""
    h, r, kk = hits(R, J, k), n_rel(J), cutoff(k, R)
    c = ge0(h - 1)
    return guarded(c, lambda: div(2 * h, kk + r, c), ZERO)


def r_precision(R, J, k):
    r = n_rel(J)
    nz = ge0(r - 1)
    n = seq_len(R)
    d = ite(le(r, n), r, n)
    return guarded(nz, lambda: div(hits_upto(R, J, d), r, nz), ZERO)


def ap(R, J, k):
    r = n_rel(J)
    nz = ge0(r - 1)
    i, j = fresh(), fresh()
    d = depth(k, R)
    body = lt(A(i), d) * rel(J, doc(R, i)) * div(Sum(j, le(A(j), A(i)) * rel(J, doc(R, j))), A(i) + 1)
    s = Sum(i, body)
    return guarded(nz, lambda: div(s, r, nz), ZERO)


def rr(R, J, k):
    d = depth(k, R)
    i = fresh()
    c = lt(A(i), d) * rel(J, doc(R, i))
    found = Exists(i, c)
    return guarded(found, lambda: div(ONE, Pos(i, c) + 1, found), ZERO)


def bpref(R, J, k):
    Rn, N = n_rel(J), n_nonrel(J)
    i, j = fresh(), fresh()
    n_above = Sum(j, lt(A(j), A(i)) * nonrel(J, doc(R, j)))
    m = fmin(N, Rn)
    z = ge0(m - 1)
    pen = guarded(z, lambda: div(fmin(n_above, Rn), m, z), ZERO)
    s = Sum(i, lt(A(i), seq_len(R)) * rel(J, doc(R, i)) * (ONE - pen))
    nz = ge0(Rn - 1)
    return guarded(nz, lambda: div(s, Rn, nz), ZERO)


def gain_linear(g):
    return P(g)


def gain_exp(g):
    return exp2(P(g)) - 1


def _dcg(R, J, d, gain):
    i = fresh()
    x = doc(R, i)
    return Sum(i, lt(A(i), d) * m_has(J, x) * div(gain(m_at(J, x)), log2(A(i) + 2)))


def dcg(R, J, k, gain=gain_linear):
    return _dcg(R, J, depth(k, R), gain)


def ndcg(R, J, k, gain=gain_linear, ideal=None):
    """ideal: the query's judged documents ranked by decreasing grade"""
    n = seq_len(ideal)
    d = ite(eq0(k), n, ite(le(k, n), k, n))
    i = fresh()
    idcg = Sum(i, lt(A(i), d) * div(gain(fld(seq_nth(ideal, A(i)), "score")), log2(A(i) + 2)))
    g = _dcg(R, J, depth(k, R), gain)
    nz = ONE - eq0(idcg)
    return guarded(nz, lambda: div(g, idcg, nz), ONE)


SPEC = {
    "Hits": hits,
    "Success": success,
    "Precision": precision,
    "Recall": recall,
    "F1": f1,
    "RPrecision": r_precision,
    "AP": ap,
    "RR": rr,
    "Bpref": bpref,
    "DCG": dcg,
    "NDCG": ndcg,
    "DCGBurges": lambda R, J, k: dcg(R, J, k, gain_exp),
    "NDCGBurges": lambda R, J, k, ideal=None: ndcg(R, J, k, gain_exp, ideal),
}

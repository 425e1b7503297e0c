"""Hash-consed value graph with canonicalising constructors.

Every value the analyser derives from the program is a `Term`.  Numbers and
booleans are polynomials ('poly' terms) over atoms; a boolean is a 0/1-valued
polynomial (indicator), so  if c {a} else {b}  is  c*a + (1-c)*b  and two
programs that compute the same guarded value get the same polynomial.
Arithmetic is ideal (exact reals / mathematical integers).
"""
from fractions import Fraction as Fr
from itertools import permutations
import hashlib

F1 = Fr(1)


from math import gcd as _gcd


class Term:
    __slots__ = ("op", "args", "uid", "fv", "lvl", "_sk", "d", "_sort")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.uid < o.uid


_tab = {}
_uid = [0]


def _walk(a, fv, lv):
    if isinstance(a, Term):
        if a.fv:
            fv |= a.fv
        if a.lvl > lv[0]:
            lv[0] = a.lvl
    elif isinstance(a, tuple):
        for x in a:
            _walk(x, fv, lv)


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is not None:
        return t
    t = Term.__new__(Term)
    t.op = op
    t.args = args
    _uid[0] += 1
    t.uid = _uid[0]
    fv = set()
    lv = [0]
    _walk(args, fv, lv)
    t.lvl = lv[0]
    if op == "fv":
        fv = {t}
    if op == "bv":
        t.lvl = args[0]
    t.fv = frozenset(fv)
    t._sk = None
    t.d = None
    t._sort = None
    _tab[k] = t
    return t


# ---------------------------------------------------------------- structural key
def skey(t):
    """Structural digest that is invariant under renaming of bound/fresh variables."""
    if isinstance(t, Term):
        if t._sk is None:
            if t.op in ("fv", "bv"):
                t._sk = "~"
            elif t.op == "poly":
                t._sk = _dig("P" + "|".join(sorted(mskey(m) + str(c) for m, c in t.args)))
            else:
                t._sk = _dig(t.op + "(" + ",".join(skey(a) for a in t.args) + ")")
        return t._sk
    if isinstance(t, tuple):
        return "<" + ",".join(skey(x) for x in t) + ">"
    return repr(t)


def mskey(m):
    return "<" + ",".join(sorted(skey(f) for f in m)) + ">"


def _dig(s):
    return hashlib.blake2b(s.encode(), digest_size=10).hexdigest()


# ---------------------------------------------------------------- sorts
NATOPS = {"len", "pos", "card"}
INDOPS = {"ge0", "eq0", "gt0", "eqf0", "nf", "is", "streq", "has", "pred", "samekeys"}


def sort_of(a):
    """'ind' | 'nat' | 'int' | 'real' | 'obj' of an atom."""
    s = a._sort
    if s is None:
        s = a._sort = _sort_of(a)
    return s


def _sort_of(a):
    op = a.op
    if op in INDOPS:
        return "ind"
    if op in ("fv", "bv") or op in NATOPS:
        return "nat"
    if op == "sym":
        return a.args[1]
    if op == "num":
        return a.args[1]
    if op == "app":
        return a.args[1]
    if op == "sum":
        b = a.args[1]
        if not is_int(b):
            return "real"
        return "nat" if is_nonneg(b) else "int"
    if op == "floordiv" or op == "mod":
        return "nat" if all(is_nonneg(x) for x in a.args) else "int"
    if op == "trunc":
        return "int"
    if op == "cast":
        return "nat" if a.args[0].startswith("u") else "int"
    if op == "pa":
        return "real"
    if op == "fn":
        if a.args[0] in ("abs", "max", "min", "floor", "ceil", "round") and all(is_int(x) for x in a.args[1:] if isinstance(x, Term)):
            return "int"
        return "real"
    return "obj"


def is_int(p):
    if p.op != "poly":
        return sort_of(p) in ("ind", "nat", "int")
    for m, c in p.args:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or e != int(e) or sort_of(a) not in ("ind", "nat", "int"):
                return False
    return True


NONNEG = set()  # polys (monic) registered as >= 0 (squares and sums of squares)


def atom_nonneg(a):
    s = sort_of(a)
    if s in ("ind", "nat"):
        return True
    if a.op == "fn" and a.args[0] in ("abs", "exp2", "exp", "sqrt"):
        return True
    if a.op == "fn" and a.args[0] == "ln":
        return const_of(ge0(a.args[1] - 1)) == 1 if is_int(a.args[1]) else False
    if a.op == "sum":
        return is_nonneg(a.args[1])
    return False


def mono_nonneg(m):
    for a, e in m:
        if isinstance(e, int) or e.denominator == 1:
            if int(e) % 2 == 0:
                continue
            if a.op == "pa":
                if not is_nonneg(a.args[0]):
                    return False
                continue
        elif a.op == "pa":
            continue
        if not atom_nonneg(a):
            return False
    return True


_nnc = {}


def is_nonneg(p):
    if p.op != "poly":
        return atom_nonneg(p)
    r = _nnc.get(p)
    if r is True or r == len(NONNEG) + 1:
        return r is True
    v = _is_nonneg(p)
    _nnc[p] = True if v else len(NONNEG) + 1
    return v


def _is_nonneg(p):
    if all(c > 0 and mono_nonneg(m) for m, c in p.args):
        return True
    if p in NONNEG or _monic_pos(p)[1] in NONNEG:
        return True
    if len(p.args) > 1:
        ci = common_inds(p)
        if ci:
            p = _strip_inds(p, ci)
            if p in NONNEG or _monic_pos(p)[1] in NONNEG or all(c > 0 and mono_nonneg(m) for m, c in p.args):
                return True
        c, m, q = content(p)
        if c < 0:
            q = scale(q, Fr(-1))
        if m and mono_nonneg(m) and q is not p:
            if q in NONNEG or _monic_pos(q)[1] in NONNEG:
                return True
    ar = [a for a in common_inds(p) if a.op in ("ge0", "gt0")]
    if ar:
        q = _strip_inds(p, set(ar))
        for a in ar:
            d = padd(q, scale(a.args[0], Fr(-1)))
            if all(c > 0 and mono_nonneg(m) for m, c in d.args):
                return True
    return False


def common_inds(p):
    s = None
    for m, _ in p.args:
        x = {a for a, e in m if e == 1 and sort_of(a) == "ind"}
        s = x if s is None else s & x
        if not s:
            return ()
    return s or ()


def _strip_inds(p, ci):
    return _mkpoly({tuple((a, e) for a, e in m if a not in ci): c for m, c in p.args})


def _monic_pos(p):
    """p = c * q with c > 0 and q primitive"""
    if not any(m for m, _ in p.args):
        return F1, p
    c = coef_gcd(p)
    return c, (p if c == 1 else scale(p, 1 / c))


def lead_coef(p):
    """(coefficient, determinate?) of the leading non-constant group of monomials: monomials
    are grouped by structural key (which erases variable names), and the first group whose
    coefficients do not cancel decides."""
    g = {}
    for m, c in p.args:
        if m:
            k = mskey(m)
            g[k] = g.get(k, 0) + c
    if not g:
        return None
    for k in sorted(g, reverse=True):
        if g[k]:
            return g[k], True
    k = max(g)
    return next(c for m, c in p.args if m and mskey(m) == k), False


def register_nonneg(p):
    if p.op == "poly" and const_of(p) is None:
        NONNEG.add(_monic_pos(p)[1])
        ci = common_inds(p)
        if ci:
            p = _strip_inds(p, ci)
            NONNEG.add(_monic_pos(p)[1])
        c, m, q = content(p)
        if mono_nonneg(m):
            NONNEG.add(_monic_pos(q if c > 0 else scale(q, Fr(-1)))[1])
    return p


# ---------------------------------------------------------------- polynomials
def _mkpoly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: [(a.uid, e) for a, e in x[0]]))
    t = mk("poly", *items)
    if t.d is None:
        t.d = dict(items)
    return t


ZERO = _mkpoly({})
ONE = _mkpoly({(): F1})


def C(x):
    return _mkpoly({(): Fr(x)}) if x else ZERO


def A(a, e=1):
    """atom -> poly"""
    return _mkpoly({((a, e),): F1})


def P(x):
    if isinstance(x, Term):
        return x if x.op == "poly" else to_num(x)
    return C(x)


def to_num(t):
    op = t.op
    if op == "poly":
        return t
    if sort_of(t) != "obj":
        return A(t)
    if op == "cases":
        return psum(c * to_num(v) for v, c in t.args)
    return A(mk("num", t, "real"))


def const_of(p):
    if p.op != "poly":
        return None
    if not p.args:
        return Fr(0)
    if len(p.args) == 1 and not p.args[0][0]:
        return p.args[0][1]
    return None


def scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return ZERO
    return _mkpoly({m: v * c for m, v in p.args})


def padd(a, b):
    if not a.args:
        return b
    if not b.args:
        return a
    d = dict(a.args)
    for m, c in b.args:
        v = d.get(m, 0) + c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return _mkpoly(d)


def psum(it):
    r = {}
    for p in it:
        for m, c in p.args:
            r[m] = r.get(m, 0) + c
    return _mkpoly(r)


class Facts:
    stack = []
    key = ()

    @classmethod
    def polys(cls):
        return cls.stack


class assume:
    """with assume(p1, p2, ..): polys known to be >= 0 (integers) in this scope"""

    def __init__(self, *ps):
        self.ps = ps

    def __enter__(self):
        self.old = (Facts.stack, Facts.key)
        Facts.stack = Facts.stack + list(self.ps)
        Facts.key = Facts.key + tuple(p.uid for p in self.ps)

    def __exit__(self, *a):
        Facts.stack, Facts.key = self.old


_nm_cache = {}


def norm_mono(d):
    """dict atom->exp  ->  list of (mono, coef)  (product of simplified factors)"""
    key = (frozenset(d.items()), Facts.key)
    r = _nm_cache.get(key)
    if r is None:
        r = _nm_cache[key] = _norm_mono(dict(d))
    return r


def _norm_mono(d):
    extra = []
    for a in list(d):
        e = d[a]
        if isinstance(e, Fr) and e.denominator == 1:
            e = d[a] = int(e)
        if e == 0:
            del d[a]
            continue
        if a.op == "pa" and e >= 1:
            k = int(e)  # floor, positive
            rest = e - k
            if rest:
                d[a] = rest
            else:
                del d[a]
            extra.append((a.args[0], k))
        elif sort_of(a) == "ind" and e > 0:
            d[a] = 1
        elif sort_of(a) == "ind" and e < 0:
            pass
    inds = [a for a in d if sort_of(a) == "ind" and d[a] == 1]
    if inds:
        keep = simp_inds(frozenset(inds))
        if keep is None:
            return ()
        for a in inds:
            if a not in keep:
                del d[a]
        # [n >= 1] * n = n ;  [a != 0] * a = a
        for a in list(d):
            if d.get(a) == 1 and a.op in ("ge0", "gt0"):
                q = a.args[0]
                if len(q.args) <= 2:
                    nc = [(m, c) for m, c in q.args if m]
                    if len(nc) == 1 and len(nc[0][0]) == 1 and nc[0][0][0][1] == 1 and nc[0][1] > 0:
                        x = nc[0][0][0][0]
                        k = sum(c for m, c in q.args if not m)
                        if d.get(x, 0) > 0 and (
                            (a.op == "ge0" and nc[0][1] == 1 and k == -1 and sort_of(x) == "nat")
                            or (a.op == "gt0" and k == 0 and atom_nonneg(x))
                        ):
                            del d[a]
                        elif a.op == "ge0" and nc[0][1] == 1 and k == -1 and sort_of(x) == "int" and d.get(x, 0) > 0:
                            # [x >= 1] * x = [x >= 0] * x for an integer x
                            del d[a]
                            d[mk("ge0", A(x))] = 1
                    elif len(q.args) == 1 and len(nc) == 1 and a.op == "ge0" and nc[0][1] < 0 and len(nc[0][0]) == 1:
                        # [-x >= 0] * x = 0 for a natural number x
                        x = nc[0][0][0][0]
                        if d.get(x, 0) > 0 and sort_of(x) == "nat":
                            return ()
            elif d.get(a) == 1 and a.op == "eqf0" or d.get(a) == 1 and a.op == "eq0":
                q = a.args[0]
                if len(q.args) == 1 and len(q.args[0][0]) == 1:
                    x = q.args[0][0][0][0]
                    if d.get(x, 0) > 0:
                        return ()
    if inds:
        r = _same_keys(d)
        if r is not None:
            return r
    if inds:
        negs = [x for x, e in d.items() if e < 0]
        for b in [x for x in d if x.op == "sum" and d[x] > 0]:
            for a in [x for x in d if x.op in _ARITH]:
                r = _sum_implies(b, a)
                if r == 1:
                    if not any(_guards(a, x) for x in negs):
                        del d[a]
                elif r == 0:
                    return ()
    m = tuple(sorted(((a, e) for a, e in d.items()), key=lambda x: x[0].uid))
    if not extra:
        return ((m, F1),)
    base = _mkpoly({m: F1})
    for q, k in extra:
        for _ in range(k):
            base = pmul(base, q)
    return base.args


# two ordered maps with the same keys: [len M = len N] * [every key of one is a key of the other]
def samekeys(m, n):
    if m is n:
        return ONE
    a, b = sorted((m, n), key=lambda t: (skey(t), t.uid))
    return A(mk("samekeys", a, b))


_sk_cache = {}


def _key_inclusion(a):
    """ge0 atom stating that every key of a map N is a key of M (at the same place or anywhere):
    (M, N, True), or stating the contrary: (M, N, False)"""
    r = _sk_cache.get(a, 0)
    if r != 0:
        return r
    r = None
    p = a.args[0]
    S = next((m[0][0] for m, c in p.args if len(m) == 1 and m[0][0].op == "sum" and m[0][1] == 1 and abs(c) == 1), None)
    if S is not None and len(S.args[0]) == 1:
        c = p.d[((S, 1),)]
        rest = scale(p, c) - A(S) - (0 if c == 1 else 1)  # S >= -rest  or  not
        (v,), (body,) = open_binder(S)
        rl = [m for m, cc in rest.args]
        if len(rest.args) == 1 and rest.args[0][1] == -1 and len(rl[0]) == 1 and rl[0][0][0].op == "len" and len(body.args) == 1 and body.args[0][1] == 1:
            X = rl[0][0][0].args[0]
            fs = [x for x, e in body.args[0][0]]
            h = [x for x in fs if x.op == "has" and isinstance(x.args[1], Term) and x.args[1].op == "mkey" and x.args[1].args[1] is A(v)]
            if len(h) == 1:
                M, N = h[0].args[0], h[0].args[1].args[0]
                ok = v not in M.fv and v not in N.fv and X in (M, N)
                for x in fs:
                    if x is h[0]:
                        continue
                    if x.op == "ge0" and x.args[0] in (A(mk("len", N)) - 1 - A(v), A(mk("len", M)) - 1 - A(v)):
                        continue
                    if x.op == "eq0" and (x.args[0] is A(mk("idx", M, h[0].args[1])) - A(v) or -x.args[0] is A(mk("idx", M, h[0].args[1])) - A(v)):
                        continue
                    ok = False
                if ok:
                    r = (M, N, c == 1)
    _sk_cache[a] = r
    return r


def _same_keys(d):
    """combine the key-set comparisons of a monomial; None when there is nothing to do"""
    if not any(x.op == "samekeys" or x.op == "ge0" and _key_inclusion(x) for x in d):
        return None
    pairs = {frozenset(x.args): True for x in d if x.op == "samekeys"}
    for x in d:
        if x.op == "eq0":
            ms = [m[0][0].args[0] for m, c in x.args[0].args if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len" and abs(c) == 1]
            if len(ms) == 2 and len(x.args[0].args) == 2 and sum(c for _, c in x.args[0].args) == 0:
                pairs.setdefault(frozenset(ms), False)
    for pr, have in pairs.items():
        m, n = tuple(pr)
        le_ = [x for x in d if x.op == "eq0" and x.args[0] in (A(mk("len", m)) - A(mk("len", n)), A(mk("len", n)) - A(mk("len", m)))]
        inc = [(x, _key_inclusion(x)) for x in d if x.op == "ge0"]
        inc = [(x, k[2]) for x, k in inc if k and {k[0], k[1]} == set(pr)]
        if not (have and (le_ or inc) or le_ and inc):
            continue
        rest = {x: e for x, e in d.items() if x not in le_ and x not in [y for y, _ in inc]}
        neg = [x for x, t in inc if not t]
        pos_ = [x for x, t in inc if t]
        if have:
            return () if neg else _norm_mono(rest)
        if pos_:
            if neg:
                return ()
            (s, _), = list(samekeys(m, n).args[0][0])
            rest[s] = 1
            return _norm_mono(rest)
        # lengths equal and not included: lengths equal, minus the same keys
        (s, _), = list(samekeys(m, n).args[0][0])
        r1 = dict(rest)
        for x in le_:
            r1[x] = 1
        rest[s] = 1
        out = {}
        for mm, c in tuple(_norm_mono(r1)):
            out[mm] = out.get(mm, 0) + c
        for mm, c in tuple(_norm_mono(rest)):
            out[mm] = out.get(mm, 0) - c
        return tuple((mm, c) for mm, c in out.items() if c)
    return None


_grd = {}


def _guards(a, x):
    """does indicator a imply that the denominator atom x is non-zero (and nothing else does)"""
    k = (a, x)
    if k not in _grd:
        _grd[k] = False
        g = den_guard(x)
        _grd[k] = g is not ONE and pmul(g, A(a)) is A(a)
    return _grd[k]


_sumimp = {}


def _sum_implies(s, a):
    """does a non-empty index domain of the sum atom s imply (1) / refute (0) the indicator a"""
    k = (s, a)
    if k in _sumimp:
        return _sumimp[k]
    r = None
    body = s.args[1]
    doms = [x for x, e in body.args[0][0] if x.op in ("ge0", "eq0")] if len(body.args) == 1 else []
    if doms:
        base = []
        vs = set()
        for x in doms:
            for c in lin_cons(x)[0]:
                base.append(c)
                vs |= set(c[0])
        av = set()
        for c in lin_cons(a)[0]:
            av |= set(c[0])
        if av & vs:
            imp = implicit(vs | av)
            if all(fm_infeasible(base + alt + imp) for alt in lin_cons(a, True)):
                r = 1
            elif fm_infeasible(base + lin_cons(a)[0] + imp):
                r = 0
    _sumimp[k] = r
    return r


_mul_cache = {}


def pmul(a, b):
    if not a.args or not b.args:
        return ZERO
    ca, cb = const_of(a), const_of(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    if a.uid > b.uid:
        a, b = b, a
    key = (a.uid, b.uid, Facts.key)
    r = _mul_cache.get(key)
    if r is not None:
        return r
    d = {}
    for m1, c1 in a.args:
        for m2, c2 in b.args:
            if not m1:
                lst = ((m2, F1),)
            elif not m2:
                lst = ((m1, F1),)
            else:
                x = dict(m1)
                for at, e in m2:
                    x[at] = x.get(at, 0) + e
                lst = norm_mono(x)
            for m, c in lst:
                d[m] = d.get(m, 0) + c * c1 * c2
    r = _reduce_den(_mkpoly(d))
    if len(r.args) > 1 and (a is b or (is_nonneg(a) and is_nonneg(b))):
        register_nonneg(r)
    _mul_cache[key] = r
    return r


def _reduce_den(p):
    """cancel exact polynomial denominators: N * pa(Q)^-k with Q | N"""
    qs = {a for m, _ in p.args for a, e in m if a.op == "pa" and e < 0}
    if not qs:
        return p
    for qa in sorted(qs):
        groups = {}
        rest = {}
        for m, c in p.args:
            e = dict(m).get(qa, 0)
            if e >= 0 or e > -1:
                rest[m] = c
                continue
            den = tuple((a, x) for a, x in m if x < 0 or x != int(x))
            num = tuple((a, x) for a, x in m if not (x < 0 or x != int(x)))
            groups.setdefault(den, {})[num] = c
        changed = False
        out = dict(rest)
        for den, num in groups.items():
            N = _mkpoly(num)
            q = divide_exact(N, qa.args[0]) if len(num) > 1 else None
            if q is None:
                for m, c in num.items():
                    mm = tuple(sorted(m + den, key=lambda x: x[0].uid))
                    out[mm] = out.get(mm, 0) + c
            else:
                changed = True
                dd = dict(den)
                dd[qa] += 1
                if dd[qa] == 0:
                    del dd[qa]
                for m, c in q.args:
                    x = dict(m)
                    for at, e in dd.items():
                        x[at] = x.get(at, 0) + e
                    for m2, c2 in norm_mono(x):
                        out[m2] = out.get(m2, 0) + c * c2
        if changed:
            return _reduce_den(_mkpoly(out))
    return p


def _mono_div(m, q):
    d = dict(m)
    for a, e in q:
        x = d.get(a, 0) - e
        if x < 0:
            return None
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: x[0].uid))


def _grade(m):
    # graded order: total degree then lexicographic on uid
    return (sum(e for _, e in m), tuple((a.uid, e) for a, e in sorted(m, key=lambda x: -x[0].uid)))


def divide_exact(N, Q):
    """exact multivariate division N/Q, or None"""
    if not Q.args:
        return None
    if not N.args:
        return ZERO
    cq = const_of(Q)
    if cq is not None:
        return scale(N, 1 / cq)
    lq = max(Q.args, key=lambda x: _grade(x[0]))
    rem = dict(N.args)
    out = {}
    for _ in range(400):
        if not rem:
            return _mkpoly(out)
        lm = max(rem, key=_grade)
        q = _mono_div(lm, lq[0])
        if q is None:
            return None
        c = rem[lm] / lq[1]
        out[q] = out.get(q, 0) + c
        for m, cc in Q.args:
            x = dict(m)
            for a, e in q:
                x[a] = x.get(a, 0) + e
            mm = tuple(sorted(x.items(), key=lambda z: z[0].uid))
            v = rem.get(mm, 0) - c * cc
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
    return None


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


Term.__add__ = lambda a, b: padd(P(a), P(b))
Term.__radd__ = lambda a, b: padd(P(b), P(a))
Term.__sub__ = lambda a, b: padd(P(a), scale(P(b), Fr(-1)))
Term.__rsub__ = lambda a, b: padd(P(b), scale(P(a), Fr(-1)))
Term.__mul__ = lambda a, b: pmul(P(a), P(b))
Term.__rmul__ = lambda a, b: pmul(P(b), P(a))
Term.__neg__ = lambda a: scale(P(a), Fr(-1))


def NOT(c):
    return ONE - c


def AND(*cs):
    r = ONE
    for c in cs:
        r = pmul(r, c)
    return r


def OR(a, b):
    return a + b - a * b


def coef_gcd(p):
    """the positive rational g with p / g primitive (integer coefficients without common factor)"""
    from math import gcd, lcm

    num, den = 0, 1
    for _, c in p.args:
        c = Fr(c)
        num = gcd(num, c.numerator)
        den = lcm(den, c.denominator)
    return Fr(num, den) if num else F1


def content(p):
    """p = c * m * q : rational content (sign of structural lead kept positive when
    unique), common monomial (min exponents), primitive rest"""
    if not p.args:
        return F1, (), p
    common = None
    for m, c in p.args:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) if a in d or e < 0 else 0 for a, e in common.items()}
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
                elif a not in common:
                    pass
            # atoms with negative exponent absent elsewhere count with min(…,0)
            for a in list(common):
                if common[a] > 0 and a not in d:
                    common[a] = 0
    common = {a: e for a, e in common.items() if e != 0 and sort_of(a) != "ind"}
    if common:
        d = {}
        for m, c in p.args:
            x = dict(m)
            for a, e in common.items():
                v = x.get(a, 0) - e
                if v:
                    x[a] = v
                else:
                    x.pop(a, None)
            for m2, c2 in norm_mono(x):
                d[m2] = d.get(m2, 0) + c * c2
        p = _mkpoly(d)
    m = tuple(sorted(common.items(), key=lambda x: x[0].uid))
    if len(p.args) == 1 and not p.args[0][0]:
        return p.args[0][1], m, ONE
    # the scale is the gcd of the coefficients, the sign that of the structural lead: neither
    # depends on the order in which the terms were made (unless the lead cancels)
    l = lead_coef(p)
    c = coef_gcd(p)
    if (l[0] < 0 if l and l[1] else l and p.args[-1][1] < 0):
        c = -c
    if c != 1:
        p = scale(p, 1 / c)
    return c, m, p


# ---------------------------------------------------------------- indicator lifting
def top_inds(*ps):
    s = set()
    for p in ps:
        if p.op == "poly":
            for m, _ in p.args:
                for a, e in m:
                    if e == 1 and sort_of(a) == "ind":
                        s.add(a)
        elif p.op == "cases":
            s |= top_inds(*[c for _, c in p.args])
    return sorted(s)


def restrict(p, a, v):
    """p with indicator atom a := v (0/1)"""
    if p.op == "cases":
        return cases([(x, restrict(c, a, v)) for x, c in p.args])
    if p.op != "poly":
        return p
    d = {}
    for m, c in p.args:
        dm = dict(m)
        if a in dm:
            if not v:
                continue
            del dm[a]
            m = tuple(sorted(dm.items(), key=lambda x: x[0].uid))
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


LIFT_MAX = 9


def _purely_linear_ind(p):
    return all(len(m) <= 1 for m, _ in p.args)


def lift(f, *ps):
    """f applied under a Shannon expansion over the indicator atoms of ps"""
    inds = top_inds(*ps)
    if not inds:
        return f(*ps)
    if len(inds) > LIFT_MAX:
        return f(*ps)
    a = inds[0]
    ap = A(a)
    p1 = [restrict_under(p, a, 1) for p in ps]
    p0 = [restrict_under(p, a, 0) for p in ps]
    for p, x, y in zip(ps, p1, p0):
        if len(p.args) > 1 and p.op == "poly" and is_nonneg(p):
            register_nonneg(x)
            register_nonneg(y)
    r1 = lift(f, *p1)
    r0 = lift(f, *p0)
    if r1 is r0:
        return r1
    return ap * r1 + (ONE - ap) * r0


def restrict_under(p, a, v):
    """restrict, then drop indicators / sums decided by a = v"""
    q = restrict(p, a, v)
    if q.op == "cases":
        return cases([(x, restrict_under(c, a, v)) for x, c in q.args])
    if q.op != "poly":
        return q
    for b in top_inds(q):
        if b.op == a.op or {a.op, b.op} <= {"ge0", "eq0"} or a.op == b.op == "is":
            pr = simp_inds(frozenset((a, b)))
            if v:
                if pr is None:
                    q = restrict(q, b, 0)
                elif b not in pr and a in pr:
                    q = restrict(q, b, 1)
            elif pr is not None and a not in pr:
                q = restrict(q, b, 0)
    if a.op in _ARITH:
        bad = 1 - v
        d = {}
        ch = False
        for m, c in q.args:
            if any(x.op == "sum" and e > 0 and _sum_implies(x, a) == bad for x, e in m):
                ch = True
                continue
            d[m] = c
        if ch:
            q = _mkpoly(d)
        x = determined(a, v)
        if x is not None and contains_atom(q, x[0]):
            q = subst(q, {x[0]: x[1]})
    return q


def determined(a, v):
    """atom whose value is fixed by the indicator a having value v: (atom, value)"""
    p = a.args[0]
    if p.op != "poly":
        return None
    if v and a.op in ("eq0", "eqf0"):
        best = None
        for m, c in p.args:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op not in ("fv", "bv"):
                x = m[0][0]
                r = scale(p - scale(A(x), c), -1 / c)
                if contains_atom(r, x) or has_var(r):
                    continue
                k = (len(r.args), fulltext(x))
                if best is None or k < best[0]:
                    best = (k, x, r)
        return best and (best[1], best[2])
    if a.op == "ge0" and len(p.args) <= 2:
        k = Fr(0)
        t = None
        for m, c in p.args:
            if not m:
                k = c
            elif t is None and len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                t = (m[0][0], c)
            else:
                return None
        if t and sort_of(t[0]) == "nat" and t[0].op not in ("fv", "bv"):
            # v=0:  x - 1 < 0 ;  v=1:  -x >= 0
            if (not v and t[1] == 1 and k == -1) or (v and t[1] == -1 and k == 0):
                return t[0], ZERO
    return None


def has_var(p):
    return bool(p.fv) or any(x.op == "fv" for x in p.fv)


_cat = {}


def contains_atom(t, x):
    if t is x:
        return True
    if isinstance(t, tuple):
        return any(contains_atom(y, x) for y in t)
    if not isinstance(t, Term):
        return False
    k = (t, x)
    r = _cat.get(k)
    if r is None:
        _cat[k] = False
        r = _cat[k] = any(contains_atom(y, x) for y in t.args)
    return r


# ---------------------------------------------------------------- linear reasoning
def _lin(p):
    """poly -> (dict mono->coef without const, const)"""
    d = dict(p.args)
    k = d.pop((), Fr(0))
    return d, k


class Con(tuple):
    """linear constraint (dict monomial->coefficient, constant, strict) with a cached integer row"""


_comp_cache = {}
_vid = {}


def _row(c):
    """constraint -> (frozenset of (variable id, int coefficient), int constant, strict), gcd-normalised"""
    r = getattr(c, "row", None)
    if r is not None:
        return r
    d, k, s = c
    den = k.denominator if isinstance(k, Fr) else 1
    for x in d.values():
        if isinstance(x, Fr) and x.denominator != 1:
            den = den * x.denominator // _gcd(den, x.denominator)
    items = []
    g = 0
    for m, x in d.items():
        if x == 0:
            continue
        v = _vid.get(m)
        if v is None:
            v = _vid[m] = len(_vid)
        n = int(x * den)
        g = _gcd(g, n)
        items.append((v, n))
    kk = int(k * den)
    g = _gcd(g, kk) or 1
    if g != 1:
        items = [(v, n // g) for v, n in items]
        kk //= g
    r = (frozenset(items), kk, s)
    if type(c) is Con:
        c.row = r
    return r


def fm_infeasible(cons, depth=0):
    """cons: list of (dict var->coef, const, strict) meaning sum+const >=0 (or >0).
    Fourier-Motzkin; True only if infeasible over the rationals."""
    rows = {}
    for c in cons:
        l, k, s = _row(c)
        if not l:
            if k < 0 or (s and k == 0):
                return True
            continue
        o = rows.get(l)
        if o is None or (k, not s) < (o[0], not o[1]):
            rows[l] = (k, s)
    # connected components
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    for l in rows:
        it = iter(l)
        f = next(it)[0]
        if f not in parent:
            parent[f] = f
        rf = find(f)
        for v, _ in it:
            if v not in parent:
                parent[v] = rf
            else:
                parent[find(v)] = rf
    comps = {}
    for l, (k, s) in rows.items():
        comps.setdefault(find(next(iter(l))[0]), []).append((l, k, s))
    for rs in comps.values():
        if len(rs) == 1:
            continue
        key = frozenset(rs)
        r = _comp_cache.get(key)
        if r is None:
            r = _comp_cache[key] = _fm(rs)
        if r:
            return True
    return False


def _fm(rs):
    cons = {}
    for l, k, s in rs:
        cons[l] = (k, s)
    for _ in range(40):
        if not cons:
            return False
        if len(cons) > 160:
            return False
        cnt = {}
        for l in cons:
            for v, c in l:
                p = cnt.get(v)
                if p is None:
                    p = cnt[v] = [0, 0]
                p[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x))
        pos, neg, rest = [], [], {}
        for l, (k, s) in cons.items():
            cv = 0
            for x, c in l:
                if x == v:
                    cv = c
                    break
            if cv > 0:
                pos.append((dict(l), cv, k, s))
            elif cv < 0:
                neg.append((dict(l), -cv, k, s))
            else:
                rest[l] = (k, s)
        for d1, c1, k1, s1 in pos:
            for d2, c2, k2, s2 in neg:
                d = {x: c * c2 for x, c in d1.items() if x != v}
                for x, c in d2.items():
                    if x != v:
                        d[x] = d.get(x, 0) + c * c1
                kk = k1 * c2 + k2 * c1
                s = s1 or s2
                g = 0
                for c in d.values():
                    g = _gcd(g, c)
                if g == 0:
                    if kk < 0 or (s and kk == 0):
                        return True
                    continue
                g = _gcd(g, kk)
                l = frozenset((x, c // g) for x, c in d.items() if c)
                kk //= g
                o = rest.get(l)
                if o is None or (kk, not s) < (o[0], not o[1]):
                    rest[l] = (kk, s)
        cons = rest
    return False


_implicit_cache = {}


def _imp1(m):
    """implicit facts about one monomial: (constraints, further monomials)"""
    r = _implicit_cache.get(m)
    if r is None:
        out, more = [], []
        if mono_nonneg(m):
            out.append(Con(({m: F1}, Fr(0), False)))
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if sort_of(a) == "ind":
                out.append(Con(({m: -F1}, F1, False)))
            if a.op == "len" and a.args[0].op == "app" and a.args[0].args[0] in ("str::split", "str::rsplit"):
                # splitting a text gives at least one piece
                out.append(Con(({m: F1}, Fr(-1), False)))
            if a.op == "fn" and a.args[0] == "exp2" and is_nonneg(a.args[1]):
                out.append(Con(({m: F1}, Fr(-1), False)))
            if a.op == "sum":
                b = sum_bound(a)
                if b is not None:
                    d, k = _lin(b)
                    d = dict(d)
                    d[m] = d.get(m, 0) - 1
                    out.append(Con(({x: c for x, c in d.items() if c}, k, False)))
                    more = list(d)
        r = _implicit_cache[m] = (out, more)
    return r


def implicit(vars_):
    """implicit facts about monomials used as linear variables"""
    out = []
    todo = list(vars_)
    done = set()
    while todo:
        m = todo.pop()
        if m in done:
            continue
        done.add(m)
        o, more = _imp1(m)
        out += o
        todo.extend(more)
    for p in Facts.stack:
        d, k = _lin(p)
        out.append((d, k, False))
        for x in d:
            if x not in done:
                done.add(x)
                if mono_nonneg(x):
                    out.append(({x: F1}, Fr(0), False))
    return out


def sum_bound(a):
    """upper bound of a sum of indicators over one binder with a single upper bound"""
    bvs, body = a.args
    if len(bvs) != 1:
        return None
    if len(body.args) != 1 or body.args[0][1] != 1:
        return None
    best = None
    for x, e in body.args[0][0]:
        if sort_of(x) != "ind":
            return None
        if x.op == "ge0":
            q = x.args[0]
            cv = q.d.get(((bvs[0], 1),))
            if cv is not None and cv == -1:
                u = q + A(bvs[0])
                if bvs[0] not in _bvs_in(u):
                    best = u + 1
    return best


def _bvs_in(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, Term):
        if t.op == "bv":
            acc.add(t)
        elif t.lvl:
            for a in t.args:
                _bvs_in(a, acc)
    elif isinstance(t, tuple):
        for x in t:
            _bvs_in(x, acc)
    return acc


_ARITH = ("ge0", "eq0", "gt0", "eqf0")


_lc_cache = {}


def lin_cons(a, neg=False):
    k = (a, neg)
    r = _lc_cache.get(k)
    if r is None:
        r = _lin_cons(a, neg)
        if r is not None:
            r = [[Con(c) for c in cs] for cs in r]
        _lc_cache[k] = r
    return r


def _lin_cons(a, neg=False):
    """indicator atom (or its negation) -> list of alternative constraint lists (a disjunction), or None"""
    q = a.args[0]
    d, k = _lin(q)
    nd = {m: -c for m, c in d.items()}
    if a.op == "ge0":
        return [[(d, k, False)]] if not neg else [[(nd, -k - 1, False)]]
    if a.op == "gt0":
        return [[(d, k, True)]] if not neg else [[(nd, -k, False)]]
    if a.op in ("eq0", "eqf0"):
        if not neg:
            return [[(d, k, False), (nd, -k, False)]]
        if a.op == "eq0":
            return [[(d, k - 1, False)], [(nd, -k - 1, False)]]
        return [[(d, k, True)], [(nd, -k, True)]]
    return None


_si_cache = {}


def simp_inds(s):
    """conjunction of indicator atoms -> reduced frozenset, or None if contradictory"""
    key = (s, Facts.key)
    if key in _si_cache:
        return _si_cache[key]
    r = _si_cache[key] = _simp_inds(s)
    return r


def _simp_inds(s, decide=False):
    lst = sorted(s, key=lambda a: (skey(a), a.uid))
    by = {}
    for a in lst:
        if a.op == "is":
            k = a.args[0]
            if k in by and by[k] is not a:
                return None
            by[k] = a
        elif a.op == "streq":
            k = ("s", a.args[0])
            if k in by and by[k] is not a:
                return None
            by[k] = a
        elif a.op == "lto" or a.op == "eqo":
            k = ("o", frozenset(a.args))
            if k in by and by[k] is not a:
                return None
            by[k] = a
        elif a.op == "gt0" or a.op == "eqf0" or a.op == "nf":
            if a.op == "nf":
                for b in lst:
                    if b.op in ("gt0", "eqf0") and nf(b.args[0]) is A(a):
                        return None
    ar = [a for a in lst if a.op in _ARITH]
    base_facts = _idx_facts(lst) if ar else ()
    if not ar or (len(ar) == 1 and not Facts.stack and not base_facts and not (len(lst) > 1 and _sum_atoms(ar[0].args[0]))):
        return s
    cons = {}
    for a in ar:
        cons[a] = lin_cons(a)[0]
    keep = list(ar)

    def sys_of(atoms, extra=()):
        out = list(base_facts)
        vs = set()
        for c in base_facts:
            vs |= set(c[0])
        for a in atoms:
            for c in cons[a]:
                out.append(c)
                vs |= set(c[0])
        for c in extra:
            out.append(c)
            vs |= set(c[0])
        out.extend(implicit(vs))
        return out

    if fm_infeasible(sys_of(keep)):
        return None
    # drop implied atoms (weakest first: try in order of uid)
    for a in () if decide else list(ar):
        if len(keep) == 1 and not Facts.stack and not base_facts:
            break
        others = [b for b in keep if b is not a]
        # quick relevance filter
        va = set()
        for c in cons[a]:
            va |= set(c[0])
        vo = set()
        for b in others:
            for c in cons[b]:
                vo |= set(c[0])
        for f in Facts.stack:
            vo |= {m for m, _ in f.args if m}
        for c in base_facts:
            vo |= set(c[0])
        if not (va & vo):
            continue
        if all(fm_infeasible(sys_of(others, alt)) for alt in lin_cons(a, True)):
            keep = others
    out = [a for a in lst if a.op not in _ARITH] + keep
    return _universal(out, sys_of, decide)


def _idx_facts(lst):
    """has(m, k) in a conjunction: 0 <= idx(m, k) < len(m)"""
    out = []
    for h in lst:
        if h.op == "has":
            m, k = h.args
            ia = mk("idx", m, k)
            n = LENOF(m)
            d, c = _lin(n - A(ia) - 1)
            out.append((d, c, False))
    return out


LENOF = None
_univ_cache = {}
_contra_cache = {}


def contradictory(s):
    """is the conjunction of indicator atoms impossible"""
    key = (s, Facts.key)
    r = _contra_cache.get(key)
    if r is None:
        r = _contra_cache[key] = _simp_inds(s, True) is None
    return r




def _univ_body(S):
    """single-binder sum of a product of indicators -> (fv, [indicator atoms], upper bound) or None"""
    r = _univ_cache.get(S, 0)
    if r != 0:
        return r
    r = None
    u = sum_bound(S)
    if u is not None:
        fvs, (body,) = open_binder(S)
        if body.op == "poly" and len(body.args) == 1 and body.args[0][1] == 1:
            r = (fvs[0], [x for x, e in body.args[0][0]], u)
    _univ_cache[S] = r
    return r


def _sum_atoms(p):
    return {x for m, c in p.args for x, e in m if x.op == "sum" and len(m) == 1 and e == 1}


def _universal(lst, sys_of, decide=False):
    """a sum of indicators known to reach its upper bound makes its body true at every index;
    a body known to hold at one index makes the sum at least 1"""
    ar = [a for a in lst if a.op in _ARITH]
    sums = {}
    for a in ar:
        for S in _sum_atoms(a.args[0]):
            sums.setdefault(S, []).append(a)
    if not sums:
        return frozenset(lst)
    for S, users in sorted(sums.items()):
        ub = _univ_body(S)
        if ub is None:
            continue
        v, atoms, u = ub
        cur = [a for a in ar if a in lst]
        full = [a for a in users if a in lst]
        if not full:
            continue
        d, k = _lin(A(S) - u)
        cands = _instances(v, atoms, lst)
        if not cands:
            continue
        # S <= u - 1 infeasible?
        univ = fm_infeasible(sys_of(cur, [({m: -c for m, c in d.items()}, -k - 1, False)]))
        for inst in cands:
            known = set(lst)
            if univ:
                # the index must be inside the domain: every instantiated bound must hold
                guards = inst.guards
                if not all(_holds(g, lst, sys_of) for g in guards):
                    continue
                for p in inst.bodies:
                    if p is ZERO:
                        return None
                    if p is ONE or p.op != "poly" or len(p.args) != 1 or p.args[0][1] != 1:
                        continue
                    for x, e in p.args[0][0]:
                        if x in known and x not in full:
                            if decide:
                                continue
                            lst = [y for y in lst if y is not x]
                        elif x.op in _ARITH:
                            # a new consequence: contradiction with what is known?
                            cons = [c for c in lin_cons(x)[0]]
                            now = [a for a in lst if a.op in _ARITH]
                            if fm_infeasible(sys_of2(sys_of, now, cons)):
                                return None
            else:
                # does the whole body hold at this index?  then S >= 1
                if all(_holds(p, lst, sys_of) for p in inst.guards + inst.bodies):
                    now = [a for a in lst if a.op in _ARITH]
                    one = ({((S, 1),): F1}, Fr(-1), False)
                    if fm_infeasible(sys_of2(sys_of, now, [one])):
                        return None
                    for a in () if decide else users:
                        if a in lst:
                            rest = [b for b in now if b is not a]
                            if all(fm_infeasible(sys_of2(sys_of, rest, [one] + alt)) for alt in lin_cons(a, True)):
                                lst = [y for y in lst if y is not a]
                                now = rest
    return frozenset(lst)


def sys_of2(sys_of, atoms, extra):
    return sys_of([a for a in atoms], extra)


def _holds(p, lst, sys_of):
    if p is ONE:
        return True
    if p is ZERO or p.op != "poly":
        return False
    if len(p.args) != 1 or p.args[0][1] != 1:
        return False
    ar = [a for a in lst if a.op in _ARITH]
    for x, e in p.args[0][0]:
        if x in lst:
            continue
        if x.op in _ARITH:
            if all(fm_infeasible(sys_of2(sys_of, ar, alt)) for alt in lin_cons(x, True)):
                continue
        return False
    return True


class _Inst:
    pass


def _unify(pat, t, v, sol):
    """one-sided matching of pat (containing v) against t"""
    if pat is t:
        return True
    if isinstance(pat, Term):
        if pat is v:
            t = P(t) if isinstance(t, Term) else None
            if t is None:
                return False
            if sol.get(v, t) is not t:
                return False
            sol[v] = t
            return True
        if not isinstance(t, Term):
            return False
        if pat.op == "poly" and pat is A(v):
            if sol.get(v, t) is not t:
                return False
            sol[v] = t
            return True
        if v not in pat.fv:
            return False
        if pat.op == "poly" and t.op == "poly" and pat.d.get(((v, 1),)) in (1, -1):
            # linear in v: solve
            c = pat.d[((v, 1),)]
            rest = pat - scale(A(v), c)
            if v not in rest.fv:
                r = scale(t - rest, 1 / c)
                if sol.get(v, r) is not r:
                    return False
                sol[v] = r
                return True
        if pat.op != t.op or len(pat.args) != len(t.args):
            return False
        return all(_unify(a, b, v, sol) for a, b in zip(pat.args, t.args))
    if isinstance(pat, tuple) and isinstance(t, tuple) and len(pat) == len(t):
        return all(_unify(a, b, v, sol) for a, b in zip(pat, t))
    return False


def _mkeys_of(t, v, acc, seen):
    if isinstance(t, Term):
        if v not in t.fv or t in seen:
            return
        seen.add(t)
        if t.op == "mkey" and t.args[1] is A(v) and v not in t.args[0].fv:
            acc.add(t)
            return
        for a in t.args:
            _mkeys_of(a, v, acc, seen)
    elif isinstance(t, tuple):
        for x in t:
            _mkeys_of(x, v, acc, seen)


_elem_cache = {}


def _elements(a):
    """element terms of an atom outside nested binders"""
    r = _elem_cache.get(a)
    if r is None:
        acc = set()

        def go(t):
            if isinstance(t, tuple):
                for y in t:
                    go(y)
            elif isinstance(t, Term) and t.op not in BINDERS:
                if t.op == "nth":
                    acc.add(t)
                for y in t.args:
                    go(y)

        go(a)
        r = _elem_cache[a] = acc
    return r


_inst_cache = {}


def _inst(x, v, t):
    k = (x, v, t)
    r = _inst_cache.get(k)
    if r is None:
        r = _inst_cache[k] = subst(A(x), {v: t})
    return r


def _instances(v, atoms, lst):
    dom = []
    body = []
    for x in atoms:
        if x.op == "ge0" and x.args[0].d.get(((v, 1),)) == -1 and v not in (x.args[0] + A(v)).fv:
            dom.append(x)
        else:
            body.append(x)
    if not body:
        return []
    sols = []
    for x in body:
        if v in x.fv and x.op != "ge0":
            for y in lst:
                if y.op == x.op:
                    sol = {}
                    if _unify(x, y, v, sol) and v in sol:
                        if sol[v] not in [z[0] for z in sols]:
                            sols.append((sol[v], None))
            if x.op == "eq0":
                # an equation between elements: match the elements
                for pat in sorted(y for y in _elements(x) if v in y.fv):
                    for y in sorted({z for a in lst if a.op in _ARITH for z in _elements(a)}):
                        sol = {}
                        if _unify(pat, y, v, sol) and v in sol and sol[v] not in [z[0] for z in sols]:
                            sols.append((sol[v], None))
    mks = set()
    seen = set()
    for x in body:
        _mkeys_of(x, v, mks, seen)
    out = []
    for t, _ in sols:
        i = _Inst()
        i.guards = [_inst(x, v, t) for x in dom]
        i.bodies = [_inst(x, v, t) for x in body]
        out.append(i)
    if mks:
        for h in lst:
            if h.op == "has":
                for mkt in sorted(mks):
                    if mkt.args[0] is h.args[0]:
                        i = _Inst()
                        i.guards = []
                        bs = [subst(A(x), {mkt: h.args[1]}) for x in body]
                        if any(v in b.fv for b in bs):
                            ix = A(mk("idx", h.args[0], h.args[1]))
                            bs = [subst(b, {v: ix}) for b in bs]
                        i.bodies = bs
                        out.append(i)
    return out


def lin_sign(p):
    """'nonneg' / 'neg'(integer: p<=-1) / None using implicit facts"""
    d, k = _lin(p)
    vs = set(d)
    imp = implicit(vs)
    nd = {m: -c for m, c in d.items()}
    if is_int(p):
        if fm_infeasible([(nd, -k - 1, False)] + imp):
            return "nonneg"
        if fm_infeasible([(d, k, False)] + imp):
            return "neg"
    else:
        if fm_infeasible([(nd, -k, True)] + imp):
            return "nonneg"
    return None


# ---------------------------------------------------------------- predicates
def ge0(p):
    """indicator [p >= 0] for an integer-valued p"""
    p = P(p)
    c = const_of(p)
    if c is not None:
        return ONE if c >= 0 else ZERO
    return lift(_ge0, p)


_ge_cache = {}


def _ge0(p):
    key = (p.uid, Facts.key)
    r = _ge_cache.get(key)
    if r is None:
        r = _ge_cache[key] = _ge0x(p)
    return r


def _ge0x(p):
    c = const_of(p)
    if c is not None:
        return ONE if c >= 0 else ZERO
    # integer tightening
    g = 0
    from math import gcd

    for m, v in p.args:
        if m:
            g = gcd(g, int(v))
    if g > 1:
        d, k = _lin(p)
        k = Fr((k / g).__floor__())
        d = {m: v / g for m, v in d.items()}
        if k:
            d[()] = k
        p = _mkpoly(d)
    s = lin_sign(p)
    if s == "nonneg":
        return ONE
    if s == "neg":
        return ZERO
    # a nat atom common factor: n*q >= 0
    if orient(p) < 0:
        q = scale(p, Fr(-1)) - 1
        return ONE - A(mk("ge0", q))
    return A(mk("ge0", p))


def is_var(a):
    return a.op in ("fv", "bv")


def orient(p):
    """canonical orientation (+1 keep, -1 flip), invariant under variable renaming"""
    vs = [c for m, c in p.args if len(m) == 1 and is_var(m[0][0]) and m[0][1] == 1]
    if vs:
        if all(c < 0 for c in vs):
            return 1
        if all(c > 0 for c in vs):
            return -1
        return 1
    l = lead_coef(p)
    if l is None or not l[1]:
        return 1
    return 1 if l[0] > 0 else -1


def eq0(p):
    """indicator [p == 0]"""
    p = P(p)
    c = const_of(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    return lift(_eq0, p)


def _eq0(p):
    c = const_of(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if is_int(p):
        s = lin_sign(p)
        n = lin_sign(scale(p, Fr(-1)))
        if s == "neg" or n == "neg":
            return ZERO
        if s == "nonneg" and n == "nonneg":
            return ONE
        if s == "nonneg":
            return ONE - ge0(p - 1)
        if n == "nonneg":
            return ONE - ge0(-p - 1)
        nc = [(m, v) for m, v in p.args if m]
        if len(nc) == 1 and len(nc[0][0]) == 1:
            if abs(nc[0][1]) == 1 and nc[0][0][0][1] == 1:
                return ge0(p) - ge0(p - 1)
        # common factor
        cc, m, q = content(p)
        if m and const_of(q) is None:
            r = ONE - eq0(q)
            for a, e in m:
                r = r * (ONE - eq0(A(a)))
            return ONE - r
        f = factor(p)
        if len(f) > 1:
            r = ONE
            for q, e in f:
                r = r * (ONE - eq0(q))
            return ONE - r
        if p.args[-1][1] < 0:
            p = scale(p, Fr(-1))
        return A(mk("eq0", p))
    # real valued
    cc, m, q = content(p)
    r = ONE
    for a, e in m:
        if e > 0:
            r = r * (ONE - (_eqf_atom(A(a)) if a.op != "pa" else eq0(a.args[0])))
    if const_of(q) is None:
        r = r * (ONE - (_eqf_atom(q) if not is_int(q) else eq0(q)))
    return ONE - r


def _eqf_atom(q):
    if is_int(q):
        return eq0(q)
    if nonzero(q):
        return ZERO
    if len(q.args) == 1 and len(q.args[0][0]) == 1:
        a, e = q.args[0][0][0]
        if a.op == "pa":
            return eq0(a.args[0]) if e > 0 else ZERO
        if a.op == "fn" and a.args[0] in ("abs", "sqrt"):
            return eq0(a.args[1])
    q = _monic_pos(q)[1]
    if len(q.args) == 1 and len(q.args[0][0]) == 1 and q.args[0][0][0][1] == 1 and q.args[0][0][0][0].op != "pa":
        return A(mk("eqf0", A(q.args[0][0][0][0])))
    if is_nonneg(q):
        return ONE - gt0(q) - nf(q)
    if is_nonneg(-q):
        return ONE - gt0(-q) - nf(q)
    l = lead_coef(q)
    if l and l[0] < 0 and l[1]:
        q = scale(q, Fr(-1))
    elif l and not l[1] and q.args[-1][1] < 0:
        q = scale(q, Fr(-1))
    return A(mk("eqf0", q))


def nonzero(p):
    c = const_of(p)
    if c is not None:
        return c != 0
    if is_int(p):
        return lin_sign(p - 1) == "nonneg" or lin_sign(-p - 1) == "nonneg"
    cc, m, q = content(p)
    if const_of(q) is None:
        if is_int(q):
            return (lin_sign(q - 1) == "nonneg" or lin_sign(-q - 1) == "nonneg") and all(nonzero_atom(a) for a, e in m if e > 0)
        if all(c > 0 and mono_nonneg(mm) for mm, c in q.args) and any(not mm or all(nonzero_atom(a) for a, e in mm) for mm, c in q.args):
            return all(nonzero_atom(a) for a, e in m if e > 0)
        return False
    return all(nonzero_atom(a) for a, e in m if e > 0)


def nonzero_atom(a):
    if a.op == "fn":
        if a.args[0] in ("exp2", "exp"):
            return True
        if a.args[0] == "ln":
            q = a.args[1]
            return is_int(q) and lin_sign(q - 2) == "nonneg"
        if a.args[0] in ("abs", "sqrt"):
            return nonzero(a.args[1])
    if a.op == "pa":
        return nonzero(a.args[0])
    if a.op == "poly":
        return nonzero(a)
    if sort_of(a) in ("nat", "int"):
        return lin_sign(A(a) - 1) == "nonneg"
    return False


FINITE_FN = {"ln", "exp2"}


def maybe_nf(t):
    """may the (ideal) real value be NaN/infinite because of a raw float input"""
    if t.op == "poly":
        return any(maybe_nf(a) for m, _ in t.args for a, _ in m)
    s = sort_of(t)
    if s in ("ind", "nat", "int"):
        return False
    if t.op == "num" or t.op == "sym" or t.op == "app":
        return True
    if t.op == "sum":
        return maybe_nf(t.args[1])
    if t.op == "pa":
        return maybe_nf(t.args[0])
    if t.op == "fn":
        return any(maybe_nf(x) for x in t.args[1:] if isinstance(x, Term)) if t.args[0] != "undef" else True
    return True


def leaves(t, acc):
    if t.op == "poly":
        for m, _ in t.args:
            for a, _ in m:
                leaves(a, acc)
        return
    s = sort_of(t)
    if s in ("ind", "nat", "int"):
        return
    if t.op == "sum":
        bvs, body = t.args
        fvs, (b,) = open_binder(t)
        sub = set()
        leaves(b, sub)
        dom = ONE
        for a, e in b.args[0][0]:
            if sort_of(a) == "ind":
                dom = dom * A(a)
        for l, cond in sub:
            acc.add((l, dom * cond, fvs) if False else (mk("uni", tuple(fvs), l, dom * cond), ONE))
        return
    if t.op in ("pa", "box"):
        leaves(t.args[0], acc)
        return
    if t.op == "fn":
        for x in t.args[1:]:
            if isinstance(x, Term):
                leaves(x, acc)
        return
    acc.add((t, ONE))


_nf_cache = {}
FINITE = False  # set by checks that quantify over finite numbers only


def nf(p):
    """indicator: p is not a finite number (because some raw input it depends on is not)"""
    p = P(p)
    if FINITE:
        return ZERO
    if not maybe_nf(p):
        return ZERO
    r = _nf_cache.get(p)
    if r is None:
        r = _nf_cache[p] = lift(_nf, p)
    return r


def _nf(p):
    """OR over the raw float leaves of p; leaves under a binder give 'exists'"""
    acc = {}

    def go(t, binders, dom):
        if t.op == "poly":
            for m, c in t.args:
                d = dom
                for a, e in m:
                    if sort_of(a) == "ind" and binders:
                        d = d * A(a)
                for a, e in m:
                    go(a, binders, d)
            return
        if sort_of(t) in ("ind", "nat", "int"):
            return
        if t.op == "sum":
            fvs, (b,) = open_binder(t)
            go(b, binders + list(fvs), dom)
            return
        if t.op == "pa":
            go(t.args[0], binders, dom)
            return
        if t.op == "fn" and t.args[0] != "undef":
            for x in t.args[1:]:
                if isinstance(x, Term):
                    go(x, binders, dom)
            return
        used = [v for v in binders if v in t.fv]
        if t.op == "num" and t.args[0].op == "sym" and t.args[0].args[0] in ("NaN", "inf"):
            acc[ONE] = 1
            return
        a = A(mk("nf", t))
        if used:
            # keep only the part of the domain that constrains the used binders
            dd = ONE
            for mm, cc in dom.args:
                for x, e in mm:
                    if set(x.fv) & set(used) and not (set(x.fv) & (set(binders) - set(used))):
                        dd = dd * A(x)
            s = a * dd
            for v in used:
                s = Sum(v, s)
            acc[ge0(s - 1)] = 1
        else:
            acc[a] = 1

    go(p, [], ONE)
    r = ZERO
    for q in acc:
        r = OR(r, q)
    return r


def gt0(p):
    """indicator [p > 0] (false if p is not a number)"""
    p = P(p)
    c = const_of(p)
    if c is not None:
        return ONE if c > 0 else ZERO
    return lift(_gt0, p)


def _gt0(p):
    c = const_of(p)
    if c is not None:
        return ONE if c > 0 else ZERO
    if is_int(p):
        return ge0(p - 1)
    # integral up to a positive scale?
    den = 1
    for m, v in p.args:
        den = den * v.denominator
    q = scale(p, Fr(den))
    if is_int(q):
        return ge0(q - 1)
    if len(p.args) == 1 and len(p.args[0][0]) == 1 and p.args[0][0][0][1] == 1 and p.args[0][0][0][0].op != "pa":
        a, c = p.args[0][0][0][0], p.args[0][1]
        pa_ = A(a)
        if atom_nonneg(a):
            return (ONE - _eqf_atom(pa_) - nf(pa_)) if c > 0 else ZERO
        g = A(mk("gt0", pa_))
        return g if c > 0 else ONE - g - _eqf_atom(pa_) - nf(pa_)
    cc, m, q = content(p)
    if m:
        # sign of the common monomial
        r = None
        s = 1 if cc > 0 else -1
        q = scale(q, Fr(s))
        pos = ONE
        negs = ZERO  # indicator that the product of m is negative
        for a, e in m:
            z, ng = _sign_atom(a, e)
            # z: [factor > 0], ng: [factor < 0]
            pos, negs = pos * z + negs * ng, pos * ng + negs * z
        qc = const_of(q)
        if qc is not None:
            return pos if qc > 0 else negs
        if negs is ZERO:
            return pos * gt0(q)
        return pos * gt0(q) + negs * gt0(scale(q, Fr(-1)))
    p = _monic_pos(p)[1]
    np_ = scale(p, Fr(-1))
    if is_nonneg(np_):
        return ZERO
    l = lead_coef(p)
    if l and l[1] and l[0] < 0 and not is_nonneg(p):
        return ONE - gt0(np_) - _eqf_atom(np_) - nf(p)
    if not is_nonneg(p) and len(p.args) > 1 and all(c > 0 and mono_nonneg(mm) or not mm and c > 0 for mm, c in p.args):
        if nonzero(p):
            return ONE - nf(p)
    if all(c > 0 and mono_nonneg(mm) for mm, c in p.args) and nonzero(p):
        return ONE - nf(p)
    if len(p.args) == 1:
        (mm, c), = p.args
        if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == "fn" and mm[0][0].args[0] in ("abs", "sqrt"):
            x = mm[0][0].args[1]
            return ONE - eq0(x) - nf(x)
    return A(mk("gt0", p))


def _sign_atom(a, e):
    """([a^e > 0], [a^e < 0])"""
    if isinstance(e, Fr) and e.denominator != 1:
        base = a.args[0] if a.op == "pa" else A(a)
        return (ONE - eq0(base), ZERO) if e > 0 else (ONE, ZERO)
    if int(e) % 2 == 0:
        base = a.args[0] if a.op == "pa" else A(a)
        return (ONE - eq0(base), ZERO) if e > 0 else (ONE, ZERO)
    if a.op == "pa":
        q = a.args[0]
        if e < 0 and (is_nonneg(q)):
            return ONE, ZERO
        if is_int(q):
            return ge0(q - 1), ge0(-q - 1)
        return gt0(q), gt0(scale(q, Fr(-1)))
    if atom_nonneg(a):
        if e < 0:
            return ONE, ZERO
        return ONE - eq0(A(a)) - nf(A(a)), ZERO
    return gt0(A(a)), gt0(scale(A(a), Fr(-1)))


def lt(a, b):
    return gt0(P(b) - P(a)) if not (is_int(P(a)) and is_int(P(b))) else ge0(P(b) - P(a) - 1)


def le(a, b):
    a, b = P(a), P(b)
    d = b - a
    if is_int(d):
        return ge0(d)
    return gt0(d) + eq0(d)


# ---------------------------------------------------------------- factoring / powers
_fac_cache = {}


def factor(p):
    """list of (primitive poly factor, 1) ; best effort: bilinear splits"""
    r = _fac_cache.get(p)
    if r is None:
        r = _fac_cache[p] = _factor(p)
    return r


def _factor(p):
    if len(p.args) < 3:
        return [(p, 1)]
    atoms = {}
    for m, c in p.args:
        for a, e in m:
            atoms[a] = max(atoms.get(a, 0), e)
            if e < 0 or e != int(e):
                atoms[a] = 99
    for a in sorted(x for x in atoms if atoms[x] == 1):
        Ad, Bd = {}, {}
        for m, c in p.args:
            d = dict(m)
            if a in d:
                del d[a]
                Ad[tuple(sorted(d.items(), key=lambda x: x[0].uid))] = c
            else:
                Bd[m] = c
        if len(Ad) < 2:
            continue
        Ap, Bp = _mkpoly(Ad), _mkpoly(Bd)
        q = divide_exact(Bp, Ap)
        if q is not None:
            return factor(Ap) + factor(A(a) + q)
    return [(p, 1)]


def inv(p):
    """1/p where p is known to be non-zero (indicators lifted)"""
    return lift(_inv, P(p))


def _inv(p):
    c = const_of(p)
    if c is not None:
        return C(1 / c) if c else A(mk("fn", "undef", ONE))
    cc, m, q = content(p)
    d = {}
    for a, e in m:
        d[a] = d.get(a, 0) - e
    if const_of(q) is None:
        for f, e in factor(q):
            fc, fm, fq = content(f)
            cc *= fc
            for a, x in fm:
                d[a] = d.get(a, 0) - x
            if const_of(fq) is not None:
                cc *= const_of(fq)
                continue
            if len(fq.args) == 1 and len(fq.args[0][0]) == 1 and fq.args[0][0][0][1] == 1:
                cc *= fq.args[0][1]
                a = fq.args[0][0][0][0]
                d[a] = d.get(a, 0) - 1
                continue
            a = mk("pa", fq)
            d[a] = d.get(a, 0) - 1
    r = {}
    for mm, c2 in norm_mono(d):
        r[mm] = c2 / cc
    return _mkpoly(r)


def div(a, b, pc=None):
    """a / b; where b may be zero (under path condition pc) an 'undef' value appears"""
    a, b = P(a), P(b)
    c = const_of(b)
    if c is not None and c != 0:
        return scale(a, 1 / c)

    def f(bb):
        if nonzero(bb):
            return inv(bb)
        z = eq0(bb)
        if pc is not None and pmul(pc, z) is ZERO:
            return inv(bb)
        if z is ONE:
            return A(mk("fn", "undef", a))
        if z is ZERO:
            return inv(bb)
        return (ONE - z) * inv(bb) + z * A(mk("fn", "undef", ONE))

    r = lift(f, b)
    return a * r if "undef" not in _ops(r) else _mul_undef(a, r)


def _ops(p):
    s = set()
    for m, _ in p.args:
        for x, e in m:
            if x.op == "fn" and x.args[0] == "undef":
                s.add("undef")
    return s


UNDEF = None


def _mul_undef(a, r):
    u = mk("fn", "undef", ONE)
    d1, d0 = {}, {}
    for m, c in r.args:
        if any(x is u for x, _ in m):
            d1[m] = c
        else:
            d0[m] = c
    # undefinedness does not vanish when multiplied by a numerator that may be 0
    return a * _mkpoly(d0) + _mkpoly(d1)


def has_undef(p):
    return any(x.op == "fn" and x.args[0] == "undef" for m, _ in p.args for x, _ in m)


def sqrt(p):
    return lift(_sqrt, P(p))


def _isq(n):
    from math import isqrt

    r = isqrt(n)
    return r if r * r == n else None


def _sqrt(p):
    c = const_of(p)
    if c is not None and c >= 0:
        a, b = _isq(c.numerator), _isq(c.denominator)
        if a is not None and b is not None:
            return C(Fr(a, b))
        return A(mk("pa", p), Fr(1, 2))
    cc, m, q = content(p)
    d = {}
    keep = q
    for a, e in m:
        if a.op == "pa" or atom_nonneg(a):
            h = Fr(e) / 2
            d[a] = int(h) if h.denominator == 1 else h
        elif int(e) % 2 == 0:
            x = mk("fn", "abs", A(a))
            d[x] = int(e) // 2
        else:
            keep = keep * A(a, e)
    coef = F1
    if const_of(keep) is not None:
        cc = cc * const_of(keep)
        keep = ONE
    if cc > 0:
        a, b = _isq(cc.numerator), _isq(cc.denominator)
        if a is not None and b is not None:
            coef = Fr(a, b)
        else:
            d2 = mk("pa", C(cc))
            d[d2] = Fr(1, 2)
    else:
        keep = scale(keep, cc)
    if keep is not ONE:
        # perfect square?
        x = mk("pa", keep)
        d[x] = d.get(x, 0) + Fr(1, 2)
    r = {}
    for mm, c2 in norm_mono(d):
        r[mm] = c2 * coef
    return _mkpoly(r)


def absv(p):
    return lift(_abs, P(p))


def _abs(p):
    c = const_of(p)
    if c is not None:
        return C(abs(c))
    if is_nonneg(p):
        return p
    if is_nonneg(-p):
        return -p
    cc, m, q = content(p)
    d = {}
    rest = q
    for a, e in m:
        if atom_nonneg(a) or (isinstance(e, Fr) and e.denominator != 1) or int(e) % 2 == 0:
            d[a] = e
        elif a.op == "pa" and is_nonneg(a.args[0]):
            d[a] = e
        else:
            rest = rest * A(a, e)
    cc = abs(cc)
    if const_of(rest) is None:
        l = lead_coef(rest)
        if l and l[1] and l[0] < 0 or l and not l[1] and rest.args[-1][1] < 0:
            rest = -rest
        if not is_nonneg(rest):
            d[mk("fn", "abs", rest)] = 1
        else:
            return scale(_mkpoly(dict(norm_mono(d))) * rest, cc)
    r = {}
    for mm, c2 in norm_mono(d):
        r[mm] = c2 * cc
    return _mkpoly(r)


def ln(p):
    def f(q):
        c = const_of(q)
        if c is not None and c == 1:
            return ZERO
        if c is not None and c > 0:
            n = c
            k = 0
            while n.denominator == 1 and n.numerator % 2 == 0 and n > 1:
                n = n / 2
                k += 1
            if n == 1:
                return scale(A(mk("fn", "ln", C(2))), Fr(k))
        return A(mk("fn", "ln", q))

    return lift(f, P(p))


def log2(p):
    return ln(p) * inv(ln(C(2)))


def exp2(p):
    def f(q):
        c = const_of(q)
        if c is not None and c.denominator == 1 and abs(c) < 2000:
            return C(Fr(2) ** int(c))
        k = q.d.get((), None) if q.d else None
        if k is not None and k.denominator == 1:
            return scale(A(mk("fn", "exp2", q - k)), Fr(2) ** int(k))
        return A(mk("fn", "exp2", q))

    return lift(f, P(p))


def fnum(name, *ps):
    """uninterpreted real function of numbers"""
    return lift(lambda *q: A(mk("fn", name, *q)), *[P(x) for x in ps])


def fmin(a, b):
    c = lt(b, a)
    return c * b + (ONE - c) * a


def fmax(a, b):
    c = lt(a, b)
    return c * b + (ONE - c) * a


# ---------------------------------------------------------------- binders
_fresh = [0]


def fresh():
    _fresh[0] += 1
    return mk("fv", _fresh[0])


BINDERS = {"sum", "pos", "comp", "lam"}


def open_binder(t, fvs=None):
    """(bvs, *bodies) -> fresh vars and instantiated bodies"""
    bvs = t.args[0]
    if fvs is None:
        fvs = [fresh() for _ in bvs]
    m = {b: (f if f.op != "poly" else f) for b, f in zip(bvs, fvs)}
    return fvs, [subst(x, m) for x in t.args[1:]]


def close(op, fvs, bodies, rebuild=True):
    lv = max([b.lvl for b in bodies] + [0])
    bvs = tuple(mk("bv", lv + 1 + i) for i in range(len(fvs)))
    m = dict(zip(fvs, bvs))
    return mk(op, bvs, *[subst(b, m) for b in bodies])


REBUILD = {}


def subst(t, m):
    """capture-free substitution, rebuilding through the smart constructors"""
    if not m:
        return t
    rn = _as_rename(t, m)
    if rn is not None:
        return rename(t, rn)
    vs = set(m)
    hasbv = any(v.op == "bv" for v in m)
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in m:
            r = m[x]
            return r
        if not (x.fv & vs) and not (hasbv and x.lvl) and not any_sym(x):
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r

    syms = [v for v in m if v.op not in ("fv", "bv")]
    if syms:
        any_sym = lambda x: True
    else:
        any_sym = lambda x: False
    return go(t)


def _as_rename(t, m):
    """m as an injective variable renaming onto variables not occurring in t, or None"""
    if not isinstance(t, Term):
        return None
    r = {}
    for k, v in m.items():
        if k.op not in ("fv", "bv"):
            return None
        if v.op == "poly":
            if len(v.args) != 1 or v.args[0][1] != 1 or len(v.args[0][0]) != 1 or v.args[0][0][0][1] != 1:
                return None
            v = v.args[0][0][0][0]
        if v.op not in ("fv", "bv"):
            return None
        if v.op == "bv":
            if v.lvl <= t.lvl and not (k.op == "bv" and False):
                return None
        elif v in t.fv:
            return None
        r[k] = v
    if len(set(r.values())) != len(r):
        return None
    return r


def rename(t, m):
    memo = {}
    fvs = {k for k in m if k.op == "fv"}
    lvs = [k.lvl for k in m if k.op == "bv"]
    lo = min(lvs) if lvs else None

    def go(x):
        if isinstance(x, tuple):
            return tuple([go(y) for y in x])
        if not isinstance(x, Term):
            return x
        r = m.get(x)
        if r is not None:
            return r
        if not ((lo is not None and x.lvl >= lo) or (fvs and not fvs.isdisjoint(x.fv))):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "poly":
                d = {}
                for mono, c in x.args:
                    l = []
                    for a, e in mono:
                        a = go(a)
                        if a.op == "pa" and isinstance(e, int) and a.args[0].args[-1][1] < 0 and not (lead_coef(a.args[0]) or (0, 1))[1]:
                            a = mk("pa", scale(a.args[0], Fr(-1)))
                            if e % 2:
                                c = -c
                        l.append((a, e))
                    d[tuple(sorted(l, key=lambda y: y[0].uid))] = c
                r = _mkpoly(d)
                if len(x.args) > 1 and (x in _nn_seen or is_nonneg(x)):
                    register_nonneg(r)
            elif x.op == "samekeys":
                r = mk("samekeys", *sorted((go(x.args[0]), go(x.args[1])), key=lambda t: (skey(t), t.uid)))
            elif x.op in ("eq0", "eqf0"):
                q = go(x.args[0])
                if q.args[-1][1] < 0 and (x.op == "eq0" or not (lead_coef(q) or (0, 1))[1]):
                    q = scale(q, Fr(-1))
                r = mk(x.op, q)
            else:
                r = mk(x.op, *[go(a) for a in x.args])
            memo[x] = r
        return r

    return go(t)


def transform(t, f):
    """rewrite through the smart constructors; f(x) gives the replacement of a node or None"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple([go(y) for y in x])
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            r = f(x)
            if r is None:
                r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def mentions(t, pred, stop=None):
    """does a node satisfying pred occur in t (not looking inside nodes satisfying stop)"""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            if pred(x):
                return x
            if stop is None or not stop(x):
                todo.extend(x.args)
    return None


_nn_seen = set()


def rebuild(x, go):
    op = x.op
    if op == "poly":
        acc = []
        for mono, c in x.args:
            r = C(c)
            for a, e in mono:
                b = go(a)
                r = pmul(r, powp(b, e))
                if r is ZERO:
                    break
            acc.append(r)
        r = _reduce_den(psum(acc))
        if len(x.args) > 1 and len(r.args) > 1 and is_nonneg(x):
            register_nonneg(r)
        return r
    f = REBUILD.get(op)
    if op in BINDERS:
        bvs = x.args[0]
        fvs = [fresh() for _ in bvs]
        mm = dict(zip(bvs, fvs))
        bodies = [subst(b, mm) for b in x.args[1:]]
        bodies = [go(b) for b in bodies]
        return f(fvs, *bodies)
    if f:
        return f(*[go(a) for a in x.args])
    if op in ("fv", "bv", "sym"):
        return x
    return mk(op, *[go(a) for a in x.args])


def powp(b, e):
    b = P(b)
    if isinstance(e, Fr) and e.denominator == 1:
        e = int(e)
    if isinstance(e, int) and e > 0:
        return ppow(b, e) if e > 1 else b
    if isinstance(e, int):
        return ppow(inv(b), -e)
    # fractional with denominator 2
    s = sqrt(b)
    k = int(e * 2)
    return ppow(s, k) if k > 0 else ppow(inv(s), -k)


def _pa(q):
    return q


REBUILD["ge0"] = ge0
REBUILD["gt0"] = gt0
REBUILD["eq0"] = eq0
REBUILD["eqf0"] = eq0
REBUILD["nf"] = lambda t: nf(P(t)) if not (t.op == "poly") else nf(t)
REBUILD["pa"] = lambda q: q
REBUILD["samekeys"] = lambda m, n: samekeys(m, n)


def _fn(name, *a):
    if name == "abs":
        return absv(a[0])
    if name == "ln":
        return ln(a[0])
    if name == "exp2":
        return exp2(a[0])
    if name == "undef":
        return A(mk("fn", "undef", ONE))
    return lift(lambda *q: A(mk("fn", name, *q)), *a)


REBUILD["fn"] = _fn


def linear_in(p, v):
    """p = c*v + r with r free of v; returns (c, r) or None"""
    c = Fr(0)
    r = {}
    for m, k in p.args:
        if m == ((v, 1),):
            c = k
        elif any(v in a.fv or a is v for a, _ in m):
            return None
        else:
            r[m] = k
    return c, _mkpoly(r)


def split_uppers(v, p):
    """rewrite indicator/any poly so that each monomial has a single upper bound on v:
    [v<=u1][v<=u2] -> [u1<=u2][v<=u1] + [u2<u1][v<=u2]  (u's not depending on variables)"""
    out = []
    for m, c in p.args:
        ups = []
        for a, e in m:
            if a.op == "ge0" and v in a.fv:
                l = linear_in(a.args[0], v)
                if l and l[0] == -1:
                    ups.append((a, l[1]))
        if len(ups) >= 2:
            (a1, u1), (a2, u2) = ups[0], ups[1]
            # the difference must not involve other variables
            if not (u1 - u2).fv:
                c12 = ge0(u2 - u1)
                base = {a: e for a, e in m}
                d1 = dict(base)
                del d1[a2]
                d2 = dict(base)
                del d2[a1]
                p1 = scale(c12 * _mkpoly(dict(norm_mono(d1))), c)
                p2 = scale((ONE - c12) * _mkpoly(dict(norm_mono(d2))), c)
                # c12 * [v<=u1] may re-derive; recurse
                out.append(split_uppers(v, p1) if len(ups) > 2 else p1)
                out.append(split_uppers(v, p2) if len(ups) > 2 else p2)
                continue
        out.append(_mkpoly({m: c}))
    return psum(out)


def Sum(v, body):
    """sum over v = 0,1,2,... of body"""
    body = P(body)
    if not body.args:
        return ZERO
    nn = is_nonneg(body)
    body = split_uppers(v, body)
    body = _pair_delta(v, body)
    r = []
    for m, c in body.args:
        r.append(scale(_sum_mono(v, m), c))
    res = psum(r)
    if nn:
        register_nonneg(res)
    return res


def _pair_delta(v, body):
    """[a<=v] style pairs  ge0(P) - ge0(P-1)  linear in v  ->  eq atoms are kept as atoms
    (univariate equalities were expanded); fold them back when v has a unit coefficient"""
    d = dict(body.args)
    changed = False
    for m in list(d):
        if m not in d:
            continue
        c = d[m]
        for a, e in m:
            if a.op == "ge0" and v in a.fv:
                l = linear_in(a.args[0], v)
                if not l or abs(l[0]) != 1:
                    continue
                # partner: same monomial with ge0(P-1) and coefficient -c
                rest = tuple(x for x in m if x[0] is not a)
                q = ge0(a.args[0] - 1)
                if q.op == "poly" and len(q.args) == 1 and q.args[0][1] == 1:
                    a2 = q.args[0][0]
                    if len(a2) == 1:
                        m2 = tuple(sorted(rest + ((a2[0][0], 1),), key=lambda x: x[0].uid))
                        c2 = d.get(m2)
                        if c2 is not None and c2 == -c:
                            eqa = mk("eq0", a.args[0] if a.args[0].args[-1][1] > 0 else scale(a.args[0], Fr(-1)))
                            del d[m], d[m2]
                            m3 = tuple(sorted(rest + ((eqa, 1),), key=lambda x: x[0].uid))
                            d[m3] = d.get(m3, 0) + c
                            changed = True
                            break
    return _mkpoly(d) if changed else body


def den_guard(a):
    """[a != 0] for an atom used as a denominator"""
    if a.op == "pa":
        q = a.args[0]
        return ONE if nonzero(q) else ONE - eq0(q)
    return ONE if nonzero_atom(a) else ONE - eq0(A(a))


def _sum_mono(v, m):
    ind = [(a, e) for a, e in m if v not in a.fv and a is not v]
    dep = [(a, e) for a, e in m if not (v not in a.fv and a is not v)]
    out = _mkpoly({tuple(ind): F1})
    for a, e in ind:
        if e < 0 and dep:
            out = out * den_guard(a)
    if not dep:
        return out * A(mk("fn", "undef", mk("sym", "unbounded-sum", "real")))
    # delta elimination
    for a, e in dep:
        if a.op == "eq0":
            l = linear_in(a.args[0], v)
            if l and abs(l[0]) == 1:
                sol = scale(l[1], -1 / l[0])
                rest = _mkpoly({tuple(x for x in dep if x[0] is not a): F1})
                return out * ge0(sol) * subst(rest, {v: sol})
    # maps[0] compared with itself: split the first index off
    for a, e in dep:
        if a.op == "samekeys" and subst(A(a), {v: ZERO}) is ONE:
            rest = _mkpoly({tuple(dep): F1})
            if subst(rest, {v: C(-1)}) is not ZERO and any(subst(A(b), {v: C(-1)}) is ZERO for b, _ in dep if b.op == "ge0"):
                break  # has a lower bound of its own
            return out * (subst(rest, {v: ZERO}) + Sum(v, subst(rest, {v: A(v) + 1})))
    # counting closed form
    if len(dep) == 1 and dep[0][0].op == "ge0":
        l = linear_in(dep[0][0].args[0], v)
        if l and l[0] == -1:
            u = l[1]
            return out * ge0(u) * (u + 1)
    # counting between bounds
    if len(dep) >= 2 and all(a.op == "ge0" and e == 1 and is_int(a.args[0]) for a, e in dep):
        ls = [linear_in(a.args[0], v) for a, _ in dep]
        if all(l and abs(l[0]) == 1 for l in ls) and any(l[0] < 0 for l in ls):
            u = None
            lo = ZERO
            for k, r in ls:
                if k < 0:
                    u = r if u is None else fmin(u, r)
                else:
                    lo = _clamp0(-r) if lo is ZERO else fmax(lo, -r)
            return out * ge0(u) * ge0(u - lo) * (u - lo + 1)
    # flatten nested sums
    binders = [v]
    factors = []
    for a, e in dep:
        if a.op == "sum" and e > 0 and e == int(e) and (v in a.fv):
            for _ in range(int(e)):
                fvs, (b,) = open_binder(a)
                binders += fvs
                factors.append(b)
        else:
            factors.append(_mkpoly({((a, e),): F1}))
    if len(binders) > 1:
        prod = ONE
        for f in factors:
            prod = prod * f
        return out * _sum_multi(binders, prod)
    return out * _close_sum([v], _mkpoly({tuple(dep): F1}))


def _sum_multi(binders, body):
    """sum over several binders of a poly; split into connected components"""
    res = []
    for m, c in body.args:
        bs = set(binders)
        free = [(a, e) for a, e in m if not (a.fv & bs) and a not in bs]
        dep = [(a, e) for a, e in m if (a.fv & bs) or a in bs]
        # delta elimination first
        done = False
        for a, e in dep:
            if a.op == "eq0":
                for v in sorted(a.fv & bs):
                    l = linear_in(a.args[0], v)
                    if l and abs(l[0]) == 1:
                        sol = scale(l[1], -1 / l[0])
                        rest = _mkpoly({tuple(x for x in m if x[0] is not a): F1})
                        nb = [b for b in binders if b is not v]
                        q = ge0(sol) * subst(rest, {v: sol})
                        res.append(scale(_sum_multi(nb, q) if nb else q, c))
                        done = True
                        break
                if done:
                    break
        if done:
            continue
        # [b2 <= b1] = [b2 < b1] + [b2 = b1]
        for a, e in dep:
            if a.op == "ge0" and len(a.args[0].args) == 2:
                (m1, c1), (m2, c2) = a.args[0].args
                if {c1, c2} == {1, -1} and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and m1[0][0] in bs and m2[0][0] in bs:
                    rest = _mkpoly({tuple(x for x in m if x[0] is not a): F1})
                    res.append(scale(_sum_multi(binders, ge0(a.args[0] - 1) * rest), c))
                    b1, b2 = m1[0][0], m2[0][0]
                    nb = [b for b in binders if b is not b2]
                    q = subst(rest, {b2: A(b1)})
                    res.append(scale(_sum_multi(nb, q) if len(nb) > 1 else Sum(nb[0], q), c))
                    done = True
                    break
        if done:
            continue
        # components
        comp = {b: {b} for b in binders}
        for a, e in dep:
            vs = [b for b in binders if b in a.fv or a is b]
            s = set()
            for b in vs:
                s |= comp[b]
            for b in s:
                comp[b] = s
        seen = []
        r = _mkpoly({tuple(free): c})
        for a, e in free:
            if e < 0:
                r = r * den_guard(a)
        for b in binders:
            s = comp[b]
            if any(s is x for x in seen):
                continue
            seen.append(s)
            fac = tuple((a, e) for a, e in dep if (a.fv & s) or a in s)
            bl = [x for x in binders if x in s]
            if len(bl) == 1:
                q = split_uppers(bl[0], _mkpoly({fac: F1}))
                if len(q.args) == 1 and q.args[0][0] == fac:
                    r = r * _sum_mono(bl[0], fac)
                else:
                    r = r * Sum(bl[0], q)
            else:
                r = r * _close_sum(bl, _mkpoly({fac: F1}))
        res.append(r)
    return psum(res)


_cs_guard = [0]


def _close_sum(fvs, body):
    """canonical closed sum atom over fvs of a single-monomial body"""
    if len(fvs) == 1:
        t = close("sum", fvs, [body])
        b = t.args[1]
        if len(b.args) == 1 and b.args[0][1] == 1:
            return A(t)
        return A(t)
    best = None
    for perm in permutations(fvs):
        t = close("sum", list(perm), [body])
        if best is None or t.uid < best.uid:
            best = t
    # make the choice independent of creation order: smallest by full structural text
    cands = {close("sum", list(perm), [body]) for perm in permutations(fvs)}
    best = min(cands, key=lambda t: fulltext(t))
    return A(best)


_ft = {}


def fulltext(t):
    if isinstance(t, Term):
        r = _ft.get(t)
        if r is None:
            if t.op == "poly":
                r = "P[" + " ".join(sorted("*".join(sorted(fulltext(a) + "^" + str(e) for a, e in m)) + ":" + str(c) for m, c in t.args)) + "]"
            else:
                r = t.op + "(" + ",".join(fulltext(a) for a in t.args) + ")"
            if len(r) > 400:
                r = _dig(r)
            _ft[t] = r
        return r
    if isinstance(t, tuple):
        return "<" + ",".join(fulltext(x) for x in t) + ">"
    return repr(t)


def _rebuild_sum(fvs, body):
    r = body
    if len(fvs) == 1:
        return Sum(fvs[0], r)
    return _sum_multi(list(fvs), r)


REBUILD["sum"] = _rebuild_sum

BOX_MIN = 12


def box(p):
    """name a large real-valued sub-expression (hash-consed, so equal expressions get equal names)"""
    if p.op != "poly" or len(p.args) < BOX_MIN:
        return p
    return A(mk("box", p))


REBUILD["box"] = lambda p: box(p)


def unbox(t):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "box":
                r = go(x.args[0])
            elif has_box(x):
                r = rebuild(x, go)
            else:
                r = x
            memo[x] = r
        return r

    return go(t)


_hb = {}


def has_box(t):
    if isinstance(t, tuple):
        return any(has_box(x) for x in t)
    if not isinstance(t, Term):
        return False
    r = _hb.get(t)
    if r is None:
        r = _hb[t] = t.op == "box" or any(has_box(x) for x in t.args)
    return r


def Exists(v, cond):
    return ge0(Sum(v, cond) - 1)


def _bound_atoms(v, p):
    """p = a product of linear bounds on v -> [(coefficient, bound)] else None"""
    if p.op != "poly" or len(p.args) != 1 or p.args[0][1] != 1:
        return None
    out = []
    for a, e in p.args[0][0]:
        if a.op != "ge0" or not is_int(a.args[0]):
            return None
        l = linear_in(a.args[0], v)
        if l is None or abs(l[0]) != 1:
            return None
        out.append((l[0], l[1] if l[0] < 0 else -l[1]))
    return out


def _clamp0(p):
    return p if is_nonneg(p) else ge0(p) * p


def _pos_bounds(v, c):
    """least v of a condition made of linear bounds on v only (where one exists)"""
    neg = _bound_atoms(v, ONE - c)
    if neg and all(k < 0 for k, _ in neg):
        # first v beyond one of the upper bounds
        r = neg[0][1] + 1
        for _, u in neg[1:]:
            r = fmin(r, u + 1)
        return _clamp0(r)
    bs = _bound_atoms(v, c)
    if bs is not None:
        r = ZERO
        for k, b in bs:
            if k > 0:
                r = b if r is ZERO and is_nonneg(b) else fmax(r, b)
        return r
    if len(c.args) == 2:
        (m1, k1), (m2, k2) = c.args
        if k1 < 0:
            (m1, k1), (m2, k2) = (m2, k2), (m1, k1)
        b1, b2 = _bound_atoms(v, _mkpoly({m1: k1})), _bound_atoms(v, _mkpoly({m2: -k2}))
        if b1 and b2 and len(b1) == len(b2) == 1 and b1[0][0] < 0 and b2[0][0] < 0:
            return _clamp0(b2[0][1] + 1)
        if b1 and b2 and k1 == 1 and k2 == -1 and len(m2) == len(m1) + 1 and set(m1) < set(m2) and all(k < 0 for k, _ in b2):
            u = [b for b, a in zip(b2, m2) if a not in m1][0][1]
            return _clamp0(u + 1)
    return None


def Pos(v, cond):
    """least v with cond (meaningful only where one exists)"""
    cond = split_uppers(v, P(cond))

    def f(c):
        if c is ZERO:
            return ZERO
        b = _pos_bounds(v, c)
        if b is not None:
            return b
        t = close("pos", [v], [c])
        return A(t)

    # lift indicators not depending on v
    inds = [a for a in top_inds(cond) if v not in a.fv]

    def go(c, rest):
        if not rest:
            return f(c)
        a = rest[0]
        c1 = restrict(c, a, 1)
        c0 = restrict(c, a, 0)
        if c0 is ZERO:
            return go(c1, rest[1:])
        if c1 is ZERO:
            return go(c0, rest[1:])
        r1, r0 = go(c1, rest[1:]), go(c0, rest[1:])
        return r1 if r1 is r0 else A(a) * r1 + (ONE - A(a)) * r0

    return go(cond, inds[:LIFT_MAX])


REBUILD["pos"] = lambda fvs, c: Pos(fvs[0], c)


# ---------------------------------------------------------------- cases (non-numeric ite)
def cases(lst):
    """guarded disjoint alternatives of a non-numeric value"""
    acc = {}
    order = []
    for v, c in lst:
        if c is ZERO:
            continue
        if v.op == "cases":
            for v2, c2 in v.args:
                cc = c * c2
                if cc is ZERO:
                    continue
                acc[v2] = acc[v2] + cc if v2 in acc else cc
        else:
            acc[v] = acc[v] + c if v in acc else c
    items = [(v, c) for v, c in acc.items() if c is not ZERO]
    if len(items) == 1:
        return items[0][0]
    if not items:
        return mk("never")
    items.sort(key=lambda x: x[0].uid)
    return mk("cases", *items)


REBUILD["cases"] = lambda *its: cases([(v, c) for v, c in its])


MERGE = []


def ite(c, a, b):
    c = P(c)
    if c is ONE or a is b:
        return a
    if c is ZERO:
        return b
    if a.op == "never":
        return b
    if b.op == "never":
        return a
    if a.op == "poly" or b.op == "poly":
        pa, pb = P(a), P(b)
        if pa is pb:
            return pa
        return c * pa + (ONE - c) * pb
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        return mk("struct", a.args[0], tuple((n, ite(c, x, y)) for (n, x), (_, y) in zip(a.args[1], b.args[1])))
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return mk("tuple", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "list" and b.op == "list" and len(a.args) == len(b.args):
        return mk("list", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    for f in MERGE:
        r = f(c, a, b)
        if r is not None:
            return r
    return cases([(a, c), (b, ONE - c)])


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    op = t.op
    if depth > 40:
        return "..."
    d = depth + 1
    if op == "poly":
        if not t.args:
            return "0"
        out = []
        for m, c in t.args:
            s = "*".join((show(a, d) + (f"^{e}" if e != 1 else "")) for a, e in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = f"{c}*{s}"
            out.append(s)
        r = " + ".join(out).replace("+ -", "- ")
        return r if len(t.args) == 1 or depth == 0 else "(" + r + ")"
    if op == "sym":
        return t.args[0]
    if op == "fv":
        return f"i{t.args[0]}"
    if op == "bv":
        return f"#{t.args[0]}"
    if op == "ge0":
        return "[" + show(t.args[0]) + ">=0]"
    if op == "gt0":
        return "[" + show(t.args[0]) + ">0]"
    if op in ("eq0", "eqf0"):
        return "[" + show(t.args[0]) + "==0]"
    if op == "num":
        return show(t.args[0], d)
    if op == "pa":
        return "(" + show(t.args[0], d) + ")"
    if op == "str":
        return repr(t.args[0])
    if op == "sum":
        return "Σ" + ",".join(show(b) for b in t.args[0]) + "{" + show(t.args[1]) + "}"
    if op == "comp":
        return "⟨" + show(t.args[2], d) + " | " + ",".join(show(b) for b in t.args[0]) + ": " + show(t.args[1]) + "⟩"
    if op == "fld":
        return show(t.args[0], d) + "." + ".".join(str(x) for x in t.args[1:])
    if op == "nth":
        return show(t.args[0], d) + "[" + show(t.args[1]) + "]"
    if op == "struct":
        return str(t.args[0]).split("::")[-1] + "{" + ", ".join(f"{n}: {show(v, d)}" for n, v in t.args[1]) + "}"
    if op == "tuple":
        return "(" + ", ".join(show(x, d) for x in t.args) + ")"
    if op == "enum":
        return str(t.args[0]).split("::")[-1] + "<" + " | ".join(f"{v} if {show(c)}: {show(f, d)}" for v, c, f in t.args[1]) + ">"
    return op + "(" + ", ".join(show(a, d) for a in t.args) + ")"

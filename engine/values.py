"""Non-numeric values: enums, sequences, maps, strings; type-directed expansion."""
from terms import *
import terms as T
from program import Ty, mkty, prim

UNIT = mk("tuple")


# ---------------------------------------------------------------- helpers
def sym(name, sort="obj"):
    t = mk("sym", name, sort)
    return t if sort == "obj" else A(t)


def S(s):
    return mk("str", s)


def struct(adt, **f):
    return mk("struct", adt, tuple(f.items()))


def tup(*xs):
    return mk("tuple", *xs)


def is_seq(v):
    return isinstance(v, Term) and v.op in ("list", "comp", "cat", "oseq")


def is_num(v):
    return v.op == "poly"


# ---------------------------------------------------------------- simplification under a condition
def quotient(v, c):
    """a value q with c*q = c*v that does not use the indicators c is made of, or None"""
    cv = pmul(c, v)
    ci = {a for m, _ in c.args for a, _ in m}
    for m0, c0 in sorted(c.args, key=lambda t: len(t[0]))[:2]:
        s0 = set(m0)
        d = {}
        for m, k in cv.args:
            if s0 <= set(m):
                rest = tuple(x for x in m if x not in s0)
                if not any(a in ci for a, _ in rest):
                    d[rest] = d.get(rest, 0) + k / c0
        q = T._mkpoly(d)
        if pmul(c, q) is cv:
            return q
    return None


def under(v, c):
    """v simplified knowing c = 1"""
    if c is ONE:
        return v
    if v.op == "poly":
        inds = top_inds(v)
        for b in inds:
            x = pmul(c, A(b))
            if x is c:
                v = restrict(v, b, 1)
            elif x is ZERO:
                v = restrict(v, b, 0)
        if len(c.args) > 1 and 0 < len(v.args) <= 8 and inds and pmul(c, v) is ZERO:
            return ZERO
        if 1 < len(c.args) <= 8 and 1 < len(v.args) <= 60:
            q = quotient(v, c)
            if q is not None and len(q.args) < len(v.args):
                v = q
        return v
    if v.op == "struct":
        return mk("struct", v.args[0], tuple((n, under(x, c)) for n, x in v.args[1]))
    if v.op in ("tuple", "list"):
        return mk(v.op, *[under(x, c) for x in v.args])
    if v.op == "enum":
        return mkenum(v.args[0], [(n, under(cc, c), tuple((k, under(x, c)) for k, x in fs)) for n, cc, fs in v.args[1]])
    if v.op == "cases":
        l = [(x, under(cc, c)) for x, cc in v.args]
        l = [(under(x, c), cc) for x, cc in l if cc is not ZERO]
        return cases(l) if l else v
    if v.op == "mset":
        return mk("mset", *[under(x, c) for x in v.args])
    return v


# ---------------------------------------------------------------- enums
def mkenum(adt, alts):
    return mk("enum", adt, tuple((n, c, fs) for n, c, fs in alts if c is not ZERO))


def ctor(adt, variant, *fields, names=None):
    names = names or [str(i) for i in range(len(fields))]
    return mk("enum", adt, ((variant, ONE, tuple(zip(names, fields))),))


def Some(v):
    return ctor("Option", "Some", v)


NONE = ctor("Option", "None")


def Ok(v):
    return ctor("Result", "Ok", v)


def Err(v):
    return ctor("Result", "Err", v)


def option(c, v):
    """Some(v) if c else None"""
    if c is ONE:
        return Some(v)
    if c is ZERO:
        return NONE
    return mkenum("Option", [("None", ONE - c, ()), ("Some", c, (("0", v),))])


def result(c, ok, err):
    if c is ONE:
        return Ok(ok)
    if c is ZERO:
        return Err(err)
    return mkenum("Result", [("Ok", c, (("0", ok),)), ("Err", ONE - c, (("0", err),))])


def vcond(e, variant):
    if e.op == "cases":
        return psum([c * vcond(v, variant) for v, c in e.args])
    if e.op != "enum":
        return A(mk("is", e, variant))
    for n, c, fs in e.args[1]:
        if n == variant:
            return c
    return ZERO


def vfield(e, variant, name):
    if e.op == "cases":
        r = None
        for v, c in e.args:
            if v.op == "enum" and vcond(v, variant) is ZERO:
                continue
            x = vfield(v, variant, name)
            r = x if r is None else ite(c, x, r)
        return r if r is not None else mk("never")
    if e.op != "enum":
        return mk("fld", e, variant, name)
    for n, c, fs in e.args[1]:
        if n == variant:
            for k, x in fs:
                if k == name:
                    return x
    return mk("never")


def with_vfield(e, variant, name, val):
    if e.op != "enum":
        return mk("setfld", e, variant, name, val)
    return mk("enum", e.args[0], tuple((n, c, tuple((k, val if n == variant and k == name else x) for k, x in fs)) for n, c, fs in e.args[1]))


def merge_enum(c, a, b):
    if a.op == "enum" and b.op == "cases" or b.op == "enum" and a.op == "cases":
        return None
    if a.op != "enum" or b.op != "enum" or a.args[0] != b.args[0]:
        return None
    names = []
    for n, _, _ in a.args[1] + b.args[1]:
        if n not in names:
            names.append(n)
    names.sort()
    out = []
    nc = ONE - c
    for n in names:
        ca, cb = vcond(a, n), vcond(b, n)
        fa = next((fs for m, _, fs in a.args[1] if m == n), None)
        fb = next((fs for m, _, fs in b.args[1] if m == n), None)
        cc = c * ca + nc * cb
        if cc is ZERO:
            continue
        if fa is None or c * ca is ZERO:
            fs = fb
        elif fb is None or nc * cb is ZERO:
            fs = fa
        else:
            fs = tuple((k, ite(c, x, y)) for (k, x), (_, y) in zip(fa, fb))
        out.append((n, cc, fs))
    return mk("enum", a.args[0], tuple(out))


T.MERGE.append(merge_enum)
T.MERGE.append(lambda c, a, b: merge_seq(c, a, b))
REBUILD["enum"] = lambda adt, alts: mkenum(adt, alts)


# ---------------------------------------------------------------- sequences
EMPTY = mk("list")


def lst(*xs):
    return mk("list", *xs)


def Comp(fvs, cond, val, unroll=True):
    """elements val(fvs) for index tuples in lexicographic order where cond holds"""
    cond = P(cond)
    if cond is ZERO:
        return EMPTY
    if not fvs and cond is ONE:
        return lst(val)
    if len(fvs) == 1 and unroll:
        k = const_bound(fvs[0], cond)
        if k is not None and k <= 16:
            out = []
            for i in range(k):
                c = subst(cond, {fvs[0]: C(i)})
                v = subst(val, {fvs[0]: C(i)})
                out.append(lst(v) if c is ONE else Comp([], c, v))
            return cat(*out)
    fvs = list(fvs)
    # delta-eliminate binders fixed by an equality
    for m, _ in cond.args if len(cond.args) == 1 else ():
        for a, e in m:
            if a.op == "eq0":
                for v in fvs:
                    l = linear_in(a.args[0], v)
                    if l and abs(l[0]) == 1 and not (l[1].fv & set(fvs[fvs.index(v):])):
                        sol = scale(l[1], -1 / l[0])
                        rest = mk_mono([x for x in m if x[0] is not a])
                        r = {v: sol}
                        return Comp([x for x in fvs if x is not v], ge0(sol) * subst(rest, r), subst(val, r))
    val = under(val, cond) if True else val
    lv = max(cond.lvl, val.lvl)
    bvs = tuple(mk("bv", lv + 1 + i) for i in range(len(fvs)))
    m = dict(zip(fvs, bvs))
    return mk("comp", bvs, subst(cond, m), subst(val, m))


def mk_mono(fac):
    return T._mkpoly({tuple(sorted(fac, key=lambda x: x[0].uid)): F1})


REBUILD["comp"] = lambda fvs, c, v: Comp(fvs, c, v)


def open_comp(t, fvs=None):
    fvs, (c, v) = open_binder(t, fvs)
    return fvs, c, v


def const_bound(v, cond):
    """k such that cond implies v < k (constant), from an explicit upper bound"""
    best = None
    for m, c in cond.args:
        b = None
        for a, e in m:
            if a.op == "ge0":
                l = linear_in(a.args[0], v)
                if l and l[0] < 0:
                    k = const_of(l[1])
                    if k is not None:
                        kk = int(k // (-l[0])) + 1
                        b = kk if b is None else min(b, kk)
        if b is None:
            return None
        best = b if best is None else max(best, b)
    return best


def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.args)
        elif p.op == "list" and not p.args:
            continue
        else:
            out.append(p)
    r = []
    for p in out:
        if r and p.op == "list" and r[-1].op == "list":
            r[-1] = lst(*(r[-1].args + p.args))
        else:
            r.append(p)
    if not r:
        return EMPTY
    if len(r) == 1:
        return r[0]
    return mk("cat", *r)


REBUILD["cat"] = cat


def guard_seq(c, s):
    """s if c else empty"""
    if c is ONE:
        return s
    if c is ZERO:
        return EMPTY
    if s.op == "list":
        return cat(*[Comp([], c, v) for v in s.args])
    if s.op == "comp":
        fvs, cc, v = open_comp(s)
        return Comp(fvs, c * cc, v)
    if s.op == "cat":
        return cat(*[guard_seq(c, p) for p in s.args])
    return cases([(s, c), (EMPTY, ONE - c)])


def parts(s):
    return list(s.args) if s.op == "cat" else ([lst(x) for x in s.args] if s.op == "list" else [s])


def _flat_parts(s):
    out = []
    for p in s.args if s.op == "cat" else [s]:
        if p.op == "list":
            out.extend(lst(x) for x in p.args)
        else:
            out.append(p)
    return out


def merge_seq(c, a, b):
    """ite on sequences when they share a common prefix (append patterns)"""
    if not (is_seq(a) and is_seq(b)):
        return None
    pa, pb = _flat_parts(a), _flat_parts(b)
    k = 0
    while k < len(pa) and k < len(pb) and pa[k] is pb[k]:
        k += 1
    ra, rb = pa[k:], pb[k:]
    if k == 0 and ra and rb:
        n = seq_len(a)
        if n is seq_len(b) and (is_prefix(a) or is_prefix(b) or a.op == "list" or b.op == "list"):
            if a.op == "list" and b.op == "list":
                return lst(*[ite(c, x, y) for x, y in zip(a.args, b.args)])
            i = fresh()
            return Comp([i], lt(A(i), n), ite(c, seq_nth(a, A(i)), seq_nth(b, A(i))))
        return None
    return cat(*(pa[:k] + [guard_seq(c, p) for p in ra] + [guard_seq(ONE - c, p) for p in rb]))


def seq_len(s):
    if s.op == "list":
        return C(len(s.args))
    if s.op == "comp":
        fvs, c, v = open_comp(s)
        for x in reversed(fvs):
            c = Sum(x, c)
        return c
    if s.op == "cat":
        return psum([seq_len(p) for p in s.args])
    if s.op == "cases":
        return psum([c * seq_len(x) for x, c in s.args])
    return A(mk("len", s))


def rebuild_len(x):
    if x.op in MAPOPS:
        return m_len(x)
    return seq_len(x)


REBUILD["len"] = rebuild_len


def is_prefix(s):
    """single binder whose condition is only upper bounds on the binder (random access)"""
    if s.op == "list":
        return True
    if s.op != "comp" or len(s.args[0]) != 1:
        return False
    b = s.args[0][0]
    for m, c in s.args[1].args:
        for a, e in m:
            if _mentions(a, b):
                if a.op != "ge0":
                    return False
                l = linear_in_bv(a.args[0], b)
                if l is None or l >= 0:
                    return False
    return True


def _mentions(t, b):
    return b in T._bvs_in(t)


def linear_in_bv(p, b):
    c = 0
    for m, k in p.args:
        if m == ((b, 1),):
            c = k
        elif any(_mentions(a, b) for a, _ in m):
            return None
    return c


def seq_nth(s, i):
    """element i (meaningful when i < len)"""
    i = P(i)
    if s.op == "list":
        k = const_of(i)
        if k is not None:
            return s.args[int(k)] if 0 <= k < len(s.args) else mk("never")
        r = None
        for j in range(len(s.args) - 1, -1, -1):
            r = s.args[j] if r is None else ite(eq0(i - j), s.args[j], r)
        return r if r is not None else mk("never")
    if s.op == "comp" and is_prefix(s):
        fvs, c, v = open_comp(s)
        return subst(v, {fvs[0]: i})
    if s.op == "cases":
        r = None
        for x, c in s.args:
            y = seq_nth(x, i)
            r = y if r is None else ite(c, y, r)
        return r
    if s.op == "cat":
        p0 = s.args[0]
        rest = cat(*s.args[1:])
        n0 = seq_len(p0)
        c = lt(i, n0)
        if c is ONE:
            return seq_nth(p0, i)
        if c is ZERO:
            return seq_nth(rest, i - n0)
        return ite(c, seq_nth(p0, i), seq_nth(rest, i - n0))
    if s.op == "comp":
        # shape of an element, leaves opaque
        fvs, c, v = open_comp(s)
        return leafmap(v, lambda path, x: _opaque_leaf(mk("nth", s, i, *path), x))
    return mk("nth", s, i)


def _opaque_leaf(t, like):
    if like.op == "poly":
        if all(sort_of(a) == "ind" for m, _ in like.args for a, _ in m) and const_of(like) is None and _is_bool(like):
            return A(mk("pred", t))
        return A(mk("num", t, "nat" if is_int(like) and is_nonneg(like) else "int" if is_int(like) else "real"))
    return t


def _is_bool(p):
    return p * p is p


def leafmap(v, f, path=()):
    if v.op == "struct":
        return mk("struct", v.args[0], tuple((n, leafmap(x, f, path + (n,))) for n, x in v.args[1]))
    if v.op == "tuple":
        return mk("tuple", *[leafmap(x, f, path + (str(k),)) for k, x in enumerate(v.args)])
    return f(path, v)


REBUILD["nth"] = lambda s, i, *p: _rebuild_nth(s, i, p)


def _rebuild_nth(s, i, p):
    v = seq_nth(s, i)
    if v.op == "nth":
        return mk("nth", *(v.args + tuple(p))) if p else v
    for n in p:
        v = fld(v, n)
    return v


def to_term_num(x):
    """atom-level view of a rebuilt value used inside num(...)"""
    return x


def _rebuild_num(t, sort):
    if t.op == "poly":
        return t
    return A(mk("num", t, sort))


REBUILD["num"] = _rebuild_num
REBUILD["pred"] = lambda t: t if t.op == "poly" else A(mk("pred", t))
REBUILD["is"] = lambda t, v: vcond(t, v)


def fld(v, name):
    if v.op == "struct":
        for n, x in v.args[1]:
            if n == name:
                return x
    if v.op == "tuple" and name.isdigit() and int(name) < len(v.args):
        return v.args[int(name)]
    if v.op == "cases":
        r = None
        for x, c in v.args:
            y = fld(x, name)
            r = y if r is None else ite(c, y, r)
        return r
    if v.op == "never":
        return v
    return mk("fld", v, name)


def _rebuild_fld(v, *p):
    if len(p) == 2:
        return vfield(v, p[0], p[1])
    return fld(v, p[0])


REBUILD["fld"] = _rebuild_fld


def seq_map(s, f):
    """apply f (pure, on element values) to every element"""
    if s.op == "list":
        return lst(*[f(x) for x in s.args])
    if s.op == "comp":
        fvs, c, v = open_comp(s)
        return Comp(fvs, c, f(v))
    if s.op == "cat":
        return cat(*[seq_map(p, f) for p in s.args])
    if s.op == "cases":
        return cases([(seq_map(x, f), c) for x, c in s.args])
    i = fresh()
    return Comp([i], lt(A(i), seq_len(s)), f(seq_nth(s, A(i))))


def seq_fold_sum(s, f=lambda x: x):
    """sum of f over the elements"""
    if s.op == "list":
        return psum([P(f(x)) for x in s.args])
    if s.op == "comp":
        fvs, c, v = open_comp(s)
        r = c * P(f(v))
        for x in reversed(fvs):
            r = Sum(x, r)
        return r
    if s.op == "cat":
        return psum([seq_fold_sum(p, f) for p in s.args])
    if s.op == "cases":
        return psum([c * seq_fold_sum(x, f) for x, c in s.args])
    i = fresh()
    return Sum(i, lt(A(i), seq_len(s)) * P(f(seq_nth(s, A(i)))))


def as_prefix(s):
    """(n, elem(i)) random-access view"""
    return seq_len(s), (lambda i: seq_nth(s, i))


def seq_flat(s):
    """concatenation of a sequence of sequences"""
    if s.op == "list":
        return cat(*s.args)
    if s.op == "comp":
        fvs, c, v = open_comp(s)
        return flat_over(fvs, c, v)
    if s.op == "cat":
        return cat(*[seq_flat(p) for p in s.args])
    if s.op == "cases":
        return cases([(seq_flat(x), c) for x, c in s.args])
    return mk("oseq", "flat", s)


def flat_over(fvs, c, v):
    """for fvs where c: the elements of the sequence v"""
    if v.op == "list":
        if not v.args:
            return EMPTY
        if len(v.args) == 1:
            return Comp(fvs, c, v.args[0])
        t = fresh()
        return Comp(list(fvs) + [t], c * lt(A(t), C(len(v.args))), seq_nth(v, A(t)), unroll=not fvs)
    if v.op == "comp":
        g, cc, vv = open_comp(v)
        return Comp(list(fvs) + g, c * cc, vv)
    if v.op == "cat" and not fvs:
        return guard_seq(c, v)
    if v.op == "enum" and v.args[0] == "Option":
        return Comp(fvs, c * vcond(v, "Some"), vfield(v, "Some", "0"))
    if v.op == "cases":
        # disjoint alternatives per index: at most one is non-empty for each index
        alts = []
        for x, cc in v.args:
            alts.append(flat_over(fvs, c * cc, x))
        alts = [a for a in alts if a is not EMPTY]
        if len(alts) == 1:
            return alts[0]
    n = seq_len(v)
    t = fresh()
    return Comp(list(fvs) + [t], c * lt(A(t), n), seq_nth(v, A(t)))


def seq_drop(s, k):
    k = P(k)
    if k is ZERO:
        return s
    kc = const_of(k)
    if s.op == "list":
        if kc is not None:
            return lst(*s.args[int(kc):])
        if len(s.args) == 1:
            return guard_seq(eq0(k), s)
    if s.op == "cat" and kc is not None:
        p0 = s.args[0]
        if p0.op == "list":
            n = len(p0.args)
            if kc <= n:
                return cat(lst(*p0.args[int(kc):]), *s.args[1:])
            return seq_drop(cat(*s.args[1:]), k - n)
    if s.op == "comp" and is_prefix(s):
        fvs, c, v = open_comp(s)
        j = fresh()
        m = {fvs[0]: A(j) + k}
        return Comp([j], subst(c, m), subst(v, m))
    if s.op == "cases":
        return cases([(seq_drop(x, k), c) for x, c in s.args])
    n = seq_len(s)
    j = fresh()
    return Comp([j], lt(A(j) + k, n), seq_nth(s, A(j) + k))


def seq_take(s, k):
    k = P(k)
    kc = const_of(k)
    if s.op == "list" and kc is not None:
        return lst(*s.args[: max(0, int(kc))])
    if s.op == "comp" and is_prefix(s):
        fvs, c, v = open_comp(s)
        return Comp(fvs, c * lt(A(fvs[0]), k), v)
    if s.op == "cases":
        return cases([(seq_take(x, k), c) for x, c in s.args])
    if s.op == "comp" and len(s.args[0]) == 1:
        # filtered: keep elements whose rank is < k
        fvs, c, v = open_comp(s)
        j = fresh()
        rank = Sum(j, lt(A(j), A(fvs[0])) * subst(c, {fvs[0]: A(j)}))
        return Comp(fvs, c * lt(rank, k), v)
    if s.op == "list":
        return cat(*[guard_seq(lt(C(i), k), lst(x)) for i, x in enumerate(s.args)])
    n = seq_len(s)
    j = fresh()
    return Comp([j], lt(A(j), n) * lt(A(j), k), seq_nth(s, A(j)))


def seq_rev(s):
    if s.op == "list":
        return lst(*reversed(s.args))
    if s.op == "cat":
        return cat(*[seq_rev(p) for p in reversed(s.args)])
    if s.op == "comp" and (is_prefix(s) or len(s.args[0]) == 0):
        if len(s.args[0]) == 0:
            return s
        n = seq_len(s)
        j = fresh()
        return Comp([j], lt(A(j), n), seq_nth(s, n - 1 - A(j)))
    if s.op == "cases":
        return cases([(seq_rev(x), c) for x, c in s.args])
    n = seq_len(s)
    j = fresh()
    return Comp([j], lt(A(j), n), mk("nth", s, n - 1 - A(j)))


def seq_zip(a, b):
    if a.op == "list" and b.op == "list":
        return lst(*[tup(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "comp" and b.op == "comp" and len(a.args[0]) == len(b.args[0]) and not is_prefix(a):
        fvs, c, v = open_comp(a)
        _, d, w = open_comp(b, fvs)
        if c is d:
            # the same selection of the same indices
            return Comp(fvs, c, tup(v, w))
    na, nb = seq_len(a), seq_len(b)
    i = fresh()
    ca = seq_dom(a, i)
    cb = seq_dom(b, i)
    return Comp([i], ca * cb, tup(seq_nth(a, A(i)), seq_nth(b, A(i))))


def seq_dom(s, i):
    """indicator that index i is inside s"""
    if s.op == "comp" and is_prefix(s):
        fvs, c, v = open_comp(s, [i])
        return c
    return lt(A(i), seq_len(s))


def seq_enumerate(s):
    if s.op == "list":
        return lst(*[tup(C(i), x) for i, x in enumerate(s.args)])
    if s.op == "comp" and is_prefix(s):
        fvs, c, v = open_comp(s)
        return Comp(fvs, c, tup(A(fvs[0]), v))
    if s.op == "comp" and len(s.args[0]) == 1:
        fvs, c, v = open_comp(s)
        j = fresh()
        rank = Sum(j, lt(A(j), A(fvs[0])) * subst(c, {fvs[0]: A(j)}))
        return Comp(fvs, c, tup(rank, v))
    if s.op == "cases":
        return cases([(seq_enumerate(x), c) for x, c in s.args])
    n = seq_len(s)
    i = fresh()
    return Comp([i], lt(A(i), n), tup(A(i), seq_nth(s, A(i))))


def seq_filter(s, f):
    """f(elem) -> condition poly"""
    if s.op == "list":
        return cat(*[guard_seq(f(x), lst(x)) for x in s.args])
    if s.op == "comp":
        fvs, c, v = open_comp(s)
        return Comp(fvs, c * f(v), v)
    if s.op == "cat":
        return cat(*[seq_filter(p, f) for p in s.args])
    if s.op == "cases":
        return cases([(seq_filter(x, f), c) for x, c in s.args])
    i = fresh()
    v = seq_nth(s, A(i))
    return Comp([i], lt(A(i), seq_len(s)) * f(v), v)


def seq_exists(s, f):
    n = seq_fold_sum(s, f)
    return ge0(n - 1)


def seq_upd(s, idx, val):
    """functional update"""
    idx = P(idx)
    k = const_of(idx)
    if s.op == "list" and k is not None and 0 <= k < len(s.args):
        xs = list(s.args)
        xs[int(k)] = val
        return lst(*xs)
    if s.op == "list":
        return lst(*[ite(eq0(idx - j), val, x) for j, x in enumerate(s.args)])
    if s.op == "comp" and is_prefix(s):
        fvs, c, v = open_comp(s)
        return Comp(fvs, c, ite(eq0(A(fvs[0]) - idx), val, v))
    if s.op == "cases":
        return cases([(seq_upd(x, idx, val), c) for x, c in s.args])
    n = seq_len(s)
    j = fresh()
    return Comp([j], lt(A(j), n), ite(eq0(A(j) - idx), val, seq_nth(s, A(j))))


def rng_seq(lo, hi):
    """lo..hi"""
    lo, hi = P(lo), P(hi)
    i = fresh()
    return Comp([i], lt(A(i) + lo, hi), A(i) + lo)


# ---------------------------------------------------------------- equality / order of values
def eqv(a, b):
    if a is b:
        return ONE
    if a.op == "poly" or b.op == "poly":
        return eq0(P(a) - P(b))
    if a.op == "cases" or b.op == "cases":
        if a.op != "cases":
            a, b = b, a
        return psum([c * eqv(v, b) for v, c in a.args])
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
        return AND(*[eqv(x, y) for (_, x), (_, y) in zip(a.args[1], b.args[1])])
    if a.op == "tuple" and b.op == "tuple":
        return AND(*[eqv(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "enum" and b.op == "enum":
        r = []
        for n, c, fs in a.args[1]:
            cb = vcond(b, n)
            if cb is ZERO:
                continue
            q = c * cb
            for k, x in fs:
                q = q * eqv(x, vfield(b, n, k))
            r.append(q)
        return psum(r)
    if a.op == "set" and b.op == "set":
        return T.samekeys(a.args[0], b.args[0])
    if is_seq(a) and is_seq(b):
        na, nb = seq_len(a), seq_len(b)
        i = fresh()
        ne = Sum(i, lt(A(i), na) * lt(A(i), nb) * (ONE - eqv(seq_nth(a, A(i)), seq_nth(b, A(i)))))
        return eq0(na - nb) * (ONE - ge0(ne - 1))
    if a.op == "str" and b.op == "str":
        return ZERO
    if a.op == "str" or b.op == "str":
        if a.op == "str":
            a, b = b, a
        return A(mk("streq", a, b))
    if fulltext(a) > fulltext(b) or (fulltext(a) == fulltext(b) and a.uid > b.uid):
        a, b = b, a
    # keys of one map are distinct
    if a.op == "mkey" and b.op == "mkey" and a.args[0] is b.args[0]:
        return eq0(a.args[1] - b.args[1])
    if a.op == "mkey" or b.op == "mkey":
        if b.op == "mkey":
            a, b = b, a
        m, i = a.args
        return m_has(m, b) * eq0(i - m_idx(m, b))
    return A(mk("eqo", a, b))


T.INDOPS.update({"eqo", "lto", "nan", "isnan"})
REBUILD["eqo"] = lambda a, b: eqv(a, b)
REBUILD["streq"] = lambda a, b: eqv(a, b)
REBUILD["lto"] = lambda a, b: ltv(a, b)


def ltv(a, b):
    """a < b in the type's total order"""
    if a is b:
        return ZERO
    if a.op == "poly" or b.op == "poly":
        return lt(P(a), P(b))
    if a.op == "struct" and a.args[0] == "Reverse" and b.op == "struct":
        return ltv(b.args[1][0][1], a.args[1][0][1])
    if a.op == "tuple" and b.op == "tuple" or a.op == "struct" and b.op == "struct":
        xs = a.args if a.op == "tuple" else [x for _, x in a.args[1]]
        ys = b.args if b.op == "tuple" else [x for _, x in b.args[1]]
        r, e = ZERO, ONE
        for x, y in zip(xs, ys):
            r = r + e * ltv(x, y)
            e = e * eqv(x, y)
        return r
    if a.op == "enum" and b.op == "enum":
        return A(mk("lto", a, b))
    if a.op == "mkey" and b.op == "mkey" and a.args[0] is b.args[0]:
        return lt(a.args[1], b.args[1])
    if fulltext(a) > fulltext(b) or (fulltext(a) == fulltext(b) and a.uid > b.uid):
        return ONE - A(mk("lto", b, a)) - eqv(a, b)
    return A(mk("lto", a, b))


ORD = ("Less", "Equal", "Greater")


def ordering(lt_, eq_, gt_=None):
    return mkenum("Ordering", [("Less", lt_, ()), ("Equal", eq_, ()), ("Greater", ONE - lt_ - eq_ if gt_ is None else gt_, ())])


def cmpv(a, b):
    if a.op == "struct" and a.args[0] == "Reverse" and b.op == "struct":
        return cmpv(b.args[1][0][1], a.args[1][0][1])
    return ordering(ltv(a, b), eqv(a, b), ltv(b, a))


# ---------------------------------------------------------------- maps
#   opaque map term m:  has(m,k) at(m,k) mkey(m,i) idx(m,k) len(m)
#   mempty ; mset(m,k,v) ; mcomp(bvs, cond, key, val)  (insertions in index order, last wins)
class MTy:
    """types of an opaque map's keys and values (by term)"""

    tab = {}


MEMPTY = mk("mempty")


def mcomp(fvs, cond, key, val):
    if cond is ZERO:
        return MEMPTY
    if not fvs:
        if cond is ONE:
            return mset(MEMPTY, key, val)
    val = under(val, cond)
    key = under(key, cond)
    if fvs and val.op == "poly" and not T.is_int(val):
        val = T.box(val)
    t = close("mcomp", list(fvs), [cond, key, val])
    # identity copy of a map
    k, v = t.args[2], t.args[3]
    return t


BINDERS.add("mcomp")
REBUILD["mcomp"] = lambda fvs, c, k, v: mcomp(fvs, c, k, v)


def mset(m, k, v):
    if m.op == "cases":
        return cases([(mset(x, k, v), c) for x, c in m.args])
    if m.op == "mset" and m.args[1] is k:
        m = m.args[0]
    return mk("mset", m, k, v)


REBUILD["mset"] = mset


def keyed_base(m):
    """m = mcomp over i<len(B) with key mkey(B,i) (+ filter): (B, fv, cond, val) else None"""
    if m.op == "mcomp" and len(m.args[0]) == 1:
        fvs, (c, k, v) = open_binder(m)
        if k.op == "mkey" and k.args[1] is A(fvs[0]):
            return k.args[0], fvs[0], c, v
        if k.op == "mkey" and fvs[0] not in k.args[0].fv:
            l = linear_in(k.args[1], fvs[0])
            if l and l[0] == 1:
                # shifted index
                pass
    return None


def m_len(m):
    if m.op == "mempty":
        return ZERO
    if m.op == "cases":
        return psum([c * m_len(x) for x, c in m.args])
    b = keyed_base(m)
    if b:
        return Sum(b[1], b[2])
    if m.op == "mset":
        return m_len(m.args[0]) + 1 - m_has(m.args[0], m.args[1])
    return A(mk("len", m))


T.LENOF = m_len


def m_has(m, k):
    if m.op == "mempty":
        return ZERO
    if m.op == "cases":
        return psum([c * m_has(x, k) for x, c in m.args])
    if m.op == "mset":
        return OR(eqv(m.args[1], k), m_has(m.args[0], k))
    b = keyed_base(m)
    if b:
        base, i, c, v = b
        h = m_has(base, k)
        return h * subst(c, {i: m_idx(base, k)})
    if m.op == "mcomp":
        fvs, (c, kk, v) = open_binder(m)
        r = c * eqv(kk, k)
        for x in reversed(fvs):
            r = Sum(x, r)
        return ge0(r - 1)
    if k.op == "cases":
        return psum([c * m_has(m, x) for x, c in k.args])
    if k.op == "mkey" and (k.args[0] is m or k.args[0].op == "msym" and k.args[0].args[0] is m):
        return ONE
    return A(mk("has", m, k))


def m_idx(m, k):
    if k.op == "mkey" and k.args[0] is m:
        return k.args[1]
    return A(mk("idx", m, k))


T.NATOPS.add("idx")
REBUILD["has"] = m_has
REBUILD["idx"] = m_idx


def m_at(m, k):
    """value for key k (meaningful when has(m,k))"""
    if m.op == "cases":
        r = None
        for x, c in m.args:
            if x.op == "mempty":
                continue
            y = m_at(x, k)
            r = y if r is None else ite(c, y, r)
        return r if r is not None else mk("never")
    if m.op == "mempty":
        return mk("never")
    if m.op == "mset":
        c = eqv(m.args[1], k)
        if c is ONE:
            return m.args[2]
        if c is ZERO:
            return m_at(m.args[0], k)
        return ite(c, m.args[2], m_at(m.args[0], k))
    b = keyed_base(m)
    if b:
        base, i, c, v = b
        return subst(v, {i: m_idx(base, k)})
    if k.op == "cases":
        r = None
        for x, c in k.args:
            y = m_at(m, x)
            r = y if r is None else ite(c, y, r)
        return r
    return m_expand(m, mk("at", m, k))


def m_expand(m, t):
    ty = map_vty(m)
    if m.op == "mcomp" and ty is None:
        fvs, (c, k, v) = open_binder(m)
        return leafmap(v, lambda path, x: _opaque_leaf(_flds(t, path), x))
    return eta(t, ty) if ty is not None else t


def _flds(t, path):
    for p in path:
        t = mk("fld", t, p)
    return t


def map_vty(m):
    if m.op in ("mset",):
        return map_vty(m.args[0])
    if m.op == "msym":
        return m.args[2]
    return None


def m_key(m, i):
    b = keyed_base(m)
    if b:
        if Sum(b[1], b[2]) is m_len(b[0]):
            return m_key(b[0], i)
    if m.op == "msym":
        kty = m.args[1]
        if kty is not None and kty.k == "prim" and kty.s not in ("str", "char"):
            return eta(mk("mkey", m, P(i)), kty)
    return mk("mkey", m, P(i))


REBUILD["mkey"] = lambda m, i: _mkey_red(m, i)


def _mkey_red(m, i):
    if len(i.args) == 1 and i.args[0][1] == 1 and len(i.args[0][0]) == 1:
        a, e = i.args[0][0][0]
        if e == 1 and a.op == "idx" and a.args[0] is m:
            return a.args[1]
    return m_key(m, i)


_oldidx = m_idx


REBUILD["at"] = lambda m, k: m_at(m, k)


def m_seq(m):
    """sequence of (key, value) pairs in iteration order"""
    if m.op == "mempty":
        return EMPTY
    if m.op == "cases":
        return cases([(m_seq(x), c) for x, c in m.args])
    b = keyed_base(m)
    if b:
        base, i, c, v = b
        return Comp([i], c, tup(_mkey_red(base, A(i)), v))
    i = fresh()
    k = m_key(m, A(i))
    return Comp([i], lt(A(i), m_len(m)), tup(k, m_at(m, k)))


def seq_to_map(s):
    """BTreeMap from a sequence of (k, v)"""
    if s.op == "list":
        m = MEMPTY
        for x in s.args:
            m = mset(m, fld(x, "0"), fld(x, "1"))
        return m
    if s.op == "comp":
        fvs, c, v = open_comp(s)
        return mcomp(fvs, c, fld(v, "0"), fld(v, "1"))
    if s.op == "cases":
        return cases([(seq_to_map(x), c) for x, c in s.args])
    return mk("mof", s)


def m_extend(m, s):
    """m with the pairs of s inserted in order"""
    if m is MEMPTY:
        return seq_to_map(s)
    if s.op == "list":
        for x in s.args:
            m = mset(m, fld(x, "0"), fld(x, "1"))
        return m
    return mk("mext", m, s)


REBUILD["mext"] = m_extend
REBUILD["mof"] = seq_to_map


# ---------------------------------------------------------------- strings
def scat(*ps):
    out = []
    for p in ps:
        if p.op == "cats":
            out.extend(p.args)
        elif p.op == "str" and p.args[0] == "":
            continue
        elif p.op == "disp" and p.args[0].op == "poly" and const_of(p.args[0]) is not None and const_of(p.args[0]).denominator == 1:
            out.append(S(str(int(const_of(p.args[0])))))
        else:
            out.append(p)
    r = []
    for p in out:
        if r and p.op == "str" and r[-1].op == "str":
            r[-1] = S(r[-1].args[0] + p.args[0])
        else:
            r.append(p)
    if not r:
        return S("")
    return r[0] if len(r) == 1 else mk("cats", *r)


REBUILD["cats"] = scat
REBUILD["disp"] = lambda v: scat(mk("disp", v))


def selection(t):
    """a sequence indexed by the positions in a selection, as the selection itself:
    ⟨f(S[i]) | i < |S|⟩ with S = ⟨v | c⟩ becomes ⟨f(v) | c⟩"""
    if t.op != "comp" or len(t.args[0]) != 1:
        return t
    fvs, c, v = open_comp(t)
    i = A(fvs[0])
    found = []
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, Term) and x not in seen and fvs[0] in x.fv:
            seen.add(x)
            if x.op == "nth" and x.args[1] is i and x.args[0].op == "comp" and fvs[0] not in x.args[0].fv:
                found.append(x.args[0])
            else:
                todo += x.args
    if not found or is_prefix(found[0]) or c is not lt(i, seq_len(found[0])):
        return t
    new, c0, _ = open_comp(found[0])
    vals = {}
    for s in found:
        if len(s.args[0]) != len(new):
            return t
        _, c1, w = open_comp(s, new)
        if c1 is not c0:
            return t
        vals[s] = w
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term) or fvs[0] not in x.fv:
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "nth" and x.args[0] in vals and x.args[1] is i:
                r = vals[x.args[0]]
            elif x.op == "num" and x.args[0].op == "nth" and x.args[0].args[1] is i and x.args[0].args[0] in vals and vals[x.args[0].args[0]].op == "poly":
                r = vals[x.args[0].args[0]]
            else:
                r = T.rebuild(x, go)
            memo[x] = r
        return r

    r = go(v)
    return t if fvs[0] in r.fv else Comp(new, c0, r)


# ---------------------------------------------------------------- type-directed expansion
INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
FLOATS = {"f64", "f32"}
TRANSPARENT = {"OrderedFloat", "Box", "Rc", "Arc", "Cow", "NotNan", "Wrapping", "Pin", "NonZero", "Ref", "RefMut", "Cell", "RefCell", "ManuallyDrop"}
PROGRAM = [None]


def stdname(adtkey):
    if adtkey is None:
        return None
    c = adtkey.split("::")[0]
    if c in ("core", "alloc", "std", "ordered_float", "hashbrown"):
        return adtkey.split("::")[-1]
    return adtkey


def tysubst(ty, m):
    """substitute type parameters by name"""
    if not m or ty is None:
        return ty
    if ty.k == "param":
        return m.get(ty.s, ty)
    if ty.k in ("ref", "slice"):
        of = tysubst(ty.of, m)
        if of is ty.of:
            return ty
        s = ("&" + ("mut " if ty.mut else "") + of.s) if ty.k == "ref" else "[" + of.s + (";" + ty.len if ty.len else "") + "]"
        return mkty(s, ty.k, mut=ty.mut, of=of, len=ty.len)
    if ty.k in ("adt", "tuple"):
        args = tuple(tysubst(a, m) for a in ty.args)
        if args == ty.args:
            return ty
        if ty.k == "tuple":
            return mkty("(" + ", ".join(a.s for a in args) + ")", "tuple", args=args)
        return mkty(ty.adt + "<" + ", ".join(a.s for a in args) + ">", "adt", adt=ty.adt, key=ty.key, args=args)
    return ty


def sort_of_ty(ty):
    if ty is not None and ty.k == "prim":
        if ty.s in INTS:
            return "nat" if ty.s[0] == "u" else "int"
        if ty.s in FLOATS:
            return "real"
    return None


def eta(t, ty, depth=0):
    """expand an opaque value of a given type into its structure"""
    if ty is None or depth > 12:
        return t
    k = ty.k
    if k == "ref":
        return eta(t, ty.of, depth)
    if k == "prim":
        s = sort_of_ty(ty)
        if s:
            return A(mk("num", t, s))
        if ty.s == "bool":
            return A(mk("pred", t))
        return t
    if k == "tuple":
        if not ty.args:
            return UNIT
        return mk("tuple", *[eta(mk("fld", t, str(i)), a, depth + 1) for i, a in enumerate(ty.args)])
    if k == "slice":
        i = fresh()
        n = C(int(ty.len)) if ty.len and ty.len.isdigit() else A(mk("len", t))
        return Comp([i], lt(A(i), n), eta(mk("nth", t, A(i)), ty.of, depth + 1))
    if k != "adt":
        return t
    name = stdname(ty.adt)
    if name in TRANSPARENT and ty.args:
        return eta(t, ty.args[0], depth)
    if name in ("Vec", "VecDeque"):
        i = fresh()
        return Comp([i], lt(A(i), A(mk("len", t))), eta(mk("nth", t, A(i)), ty.args[0], depth + 1))
    if name in ("BTreeMap", "HashMap"):
        m = mk("msym", t, ty.args[0], ty.args[1])
        return m if name == "BTreeMap" else mk("msym", mk("hash", t), ty.args[0], ty.args[1])
    if name in ("BTreeSet", "HashSet"):
        return mk("set", mk("msym", t, ty.args[0], mkty("()", "tuple")))
    adt = PROGRAM[0].adts.get(ty.adt) if PROGRAM[0] else None
    if name == "Option":
        return option(ONE - A(mk("is", t, "None")), eta(mk("fld", t, "Some", "0"), ty.args[0], depth + 1))
    if name == "Result":
        return result(A(mk("is", t, "Ok")), eta(mk("fld", t, "Ok", "0"), ty.args[0], depth + 1), eta(mk("fld", t, "Err", "0"), ty.args[1] if len(ty.args) > 1 else None, depth + 1))
    if name == "Range":
        return struct("Range", start=eta(mk("fld", t, "start"), ty.args[0]), end=eta(mk("fld", t, "end"), ty.args[0]))
    if name == "Ordering":
        a, b = A(mk("is", t, "Less")), A(mk("is", t, "Equal"))
        return ordering(a, b)
    if adt and adt["local"]:
        m = dict(zip(adt["gparams"], ty.args))
        if adt["kind"] == "struct":
            fs = adt["variants"][0][1]
            return mk("struct", name, tuple((n, eta(mk("fld", t, n), tysubst(ft, m), depth + 1)) for n, ft in fs))
        if adt["kind"] == "enum":
            out = []
            rest = ONE
            vs = adt["variants"]
            for j, (vn, fs) in enumerate(vs):
                c = A(mk("is", t, vn)) if j < len(vs) - 1 else rest
                rest = rest - c
                out.append((vn, c, tuple((n, eta(mk("fld", t, vn, n), tysubst(ft, m), depth + 1)) for n, ft in fs)))
            return mkenum(name, out)
    return t


MAPOPS = ("msym", "mset", "mcomp", "mempty", "mext", "mof")
REBUILD["msym"] = lambda t, a, b: t if t.op in MAPOPS or t.op == "cases" else mk("msym", t, a, b)
REBUILD["oseq"] = lambda tag, *k: k[0] if tag == "carry" and (is_seq(k[0]) or k[0].op == "cases") else (seq_flat(k[0]) if tag == "flat" else mk("oseq", tag, *k))

"""Decision procedures on value-graph terms: equality of two canonical values under a
guard, by case-splitting on indicator atoms and cross-multiplying denominators."""
import itertools
import terms as T
from terms import *
import values as V
from values import *


class Budget(Exception):
    pass


def feasible(c):
    return P(c) is not ZERO


def zero_leaf(d, n=0):
    """is the indicator-free poly identically zero"""
    if d is ZERO:
        return True
    if d.op != "poly" or n > 12:
        return False
    dens = {}
    for m, c in d.args:
        for a, e in m:
            if e < 0:
                dens[a] = max(dens.get(a, 0), -e)
    if not dens:
        # products of pa atoms may still need expanding
        return False
    # multiply monomial-wise to avoid re-inverting
    out = ZERO
    for m, c in d.args:
        t = T._mkpoly({(): c})
        mm = dict(m)
        for a, e in dens.items():
            mm[a] = mm.get(a, 0) + int(-(-e // 1))
        for a, e in mm.items():
            if e == 0:
                continue
            if a.op == "pa" and e > 0 and e == int(e):
                for _ in range(int(e)):
                    t = t * a.args[0]
            else:
                t = t * T._mkpoly({((a, e),): F1})
        out = out + t
    if out is ZERO:
        return True
    if any(e < 0 for m, _ in out.args for _, e in m):
        return zero_leaf(out, n + 1) if out is not d else False
    return False


SHOW = show
W_, SHOWLEN = 160, 1500


def eq_poly(p, q, ctx=ONE, budget=None, depth=0):
    """p == q wherever ctx = 1.  Returns None if equal, else a counterexample context description"""
    budget = budget if budget is not None else [4000]
    d = P(p) - P(q)
    return _zero(d, ctx, budget, depth, [])


_pf_cache = {}


def pos_facts(lits):
    """first positions of conditions known to hold somewhere satisfy the bounds of their condition"""
    out = []
    for p in {x for a, _ in lits for x in pos_atoms(a)}:
        r = _pf_cache.get(p)
        if r is None:
            (v,), (c,) = open_binder(p)
            e = single_atom(T.Exists(v, c))
            rows = []
            for a in T.common_inds(c):
                if a.op == "ge0" and v in a.fv and T.linear_in(a.args[0], v):
                    q = T.subst(a.args[0], {v: A(p)})
                    d, k = T._lin(q)
                    rows.append((d, k, False))
            r = _pf_cache[p] = (e, rows)
        if r[0] is not None and (r[0], 1) in lits:
            out += r[1]
    return out


_pc_cache = {}
_pall_cache = {}


def _all_pos(a):
    r = _pall_cache.get(a)
    if r is None:
        acc = set()
        seen = set()

        def go(t):
            if isinstance(t, tuple):
                for y in t:
                    go(y)
            elif isinstance(t, Term) and t not in seen:
                seen.add(t)
                if t.op == "pos":
                    acc.add(t)
                if t.op not in T.BINDERS:
                    for y in t.args:
                        go(y)

        go(a)
        r = _pall_cache[a] = frozenset(acc)
    return r


def pos_contradiction(lits):
    """the condition of a first position that exists is false there"""
    vals = dict(lits)
    for p in {x for a, _ in lits for x in _all_pos(a)}:
        r = _pc_cache.get(p)
        if r is None:
            (v,), (c,) = open_binder(p)
            r = _pc_cache[p] = (single_atom(T.Exists(v, c)), T.subst(c, {v: A(p)}))
        if r[0] is None or vals.get(r[0]) != 1:
            continue
        c = P(r[1])
        for a in T.top_inds(c):
            if a in vals:
                c = T.restrict(c, a, vals[a])
            elif a.op in T._ARITH and p in pos_atoms(a):
                c = T.restrict(c, a, 1) if T.restrict(c, a, 0) is ZERO else c
        if c is ZERO:
            return True
    return False


_pa_cache = {}


def pos_atoms(a):
    r = _pa_cache.get(a)
    if r is None:
        acc = set()

        def go(t):
            if isinstance(t, tuple):
                for y in t:
                    go(y)
            elif isinstance(t, Term):
                if t.op == "pos":
                    acc.add(t)
                if t.op not in T.BINDERS:
                    for y in t.args:
                        go(y)

        if a.op in T._ARITH:
            go(a.args[0])
        r = _pa_cache[a] = frozenset(acc)
    return r


def infeasible(lits):
    """linear-arithmetic contradiction among signed indicator literals ((atom, value), ...)"""
    if pos_contradiction(lits):
        return True
    ar = [(a, v) for a, v in lits if a.op in T._ARITH]
    if not ar:
        return False
    pos = tuple(a if v else mk("ge0", -a.args[0] - 1) for a, v in lits if v or a.op == "ge0" and is_int(a.args[0]))
    if len(pos) > 1 and T.contradictory(frozenset(pos)):
        return True
    if negative_product(ar):
        return True
    alts = [[]]
    for a, v in ar:
        cs = T.lin_cons(a, not v)
        if len(cs) > 1 and len(alts) > 8:
            continue
        alts = [x + c for x in alts for c in cs]
    facts = T._idx_facts(list(pos)) + pos_facts(lits)
    for x in alts:
        vs = set()
        for c in x + facts:
            vs |= set(c[0])
        rows = x + facts + T.implicit(vs)
        if T.fm_infeasible(rows):
            continue
        draws = {b for m in vs for b, _ in m if b.op == "draw"}
        more = []
        for b in draws:
            # a number drawn below n >= 1 is below n
            n = P(b.args[1])
            d, k = T._lin(n)
            if T.fm_infeasible(rows + [({m: -c for m, c in d.items()}, -k, False)]):
                d, k = T._lin(n - A(b) - 1)
                more.append((d, k, False))
        if not more or not T.fm_infeasible(rows + more):
            return False
    return True


def negative_product(ar):
    """p >= 0 for a nonlinear p that is negative for all values above the known lower bounds"""
    hard = [a.args[0] if v else -a.args[0] - 1 for a, v in ar if a.op == "ge0" and any(len(m) > 1 or m and m[0][1] > 1 for m, _ in a.args[0].args) and (v or is_int(a.args[0]))]
    if not hard:
        return False
    low = {}
    for a, v in ar:
        if v and a.op == "ge0":
            q = a.args[0]
            x = [(m[0][0], c) for m, c in q.args if m]
            if len(x) == 1 and x[0][1] == 1 and len(q.args) <= 2 and all(len(m) == 1 and m[0][1] == 1 for m, _ in q.args if m):
                k = -sum(c for m, c in q.args if not m)
                low[x[0][0]] = max(k, low.get(x[0][0], k))
    for p in hard:
        tot = {}
        for m, c in p.args:
            if any(e < 0 or e != int(e) for _, e in m):
                break
            rows = {(): c}
            for b, e in m:
                k = low.get(b, 0 if sort_of(b) == "nat" else None)
                if k is None:
                    break
                for _ in range(int(e)):
                    nxt = {}
                    for mm, cc in rows.items():
                        if k:
                            nxt[mm] = nxt.get(mm, 0) + cc * k
                        y = tuple(sorted(mm + (b,)))
                        nxt[y] = nxt.get(y, 0) + cc
                    rows = nxt
            else:
                for mm, cc in rows.items():
                    tot[mm] = tot.get(mm, 0) + cc
                continue
            break
        else:
            if tot.get((), 0) < 0 and all(c <= 0 for mm, c in tot.items() if mm):
                return True
    return False


_inf_cache = {}


def infeasible_c(lits):
    k = (frozenset(lits), T.Facts.key)
    r = _inf_cache.get(k)
    if r is None:
        r = _inf_cache[k] = infeasible(lits)
    return r


def ctx_lits(ctx):
    """literals every model of ctx satisfies"""
    if ctx.op != "poly" or not ctx.args:
        return ()
    return tuple((a, 1) for a in sorted(T.common_inds(ctx)))


def deep_elements(t, acc, seen):
    """element terms anywhere in a term, without variables bound around them"""
    if isinstance(t, tuple):
        for x in t:
            deep_elements(x, acc, seen)
    elif isinstance(t, Term) and t not in seen:
        seen.add(t)
        if t.op == "nth":
            acc.add(t)
        if t.op not in T.BINDERS:
            for x in t.args:
                deep_elements(x, acc, seen)


def instances(lits):
    """statements that hold for all elements, applied to the elements the literals talk about"""
    out = []
    elems, seen = set(), set()
    for a, _ in lits:
        deep_elements(a, elems, seen)
    if not elems:
        return out
    for a, v in lits:
        if a.op != "ge0":
            continue
        for S in sorted(T._sum_atoms(a.args[0])):
            ub = T._univ_body(S)
            if ub is None:
                continue
            x, atoms, u = ub
            if not infeasible_c(((a, v), (mk("ge0", u - 1 - A(S)), 1))):
                continue
            dom = [b for b in atoms if b.op == "ge0" and b.args[0].d.get(((x, 1),)) == -1 and x not in (b.args[0] + A(x)).fv]
            body = [b for b in atoms if b not in dom]
            pats, seen2 = set(), set()
            for b in body:
                deep_elements(b, pats, seen2)
            sols = []
            for p in sorted(pats):
                if x not in p.fv:
                    continue
                for y in sorted(elems):
                    sol = {}
                    if T._unify(p, y, x, sol) and x in sol and sol[x] not in sols:
                        sols.append(sol[x])
            for t in sols[:4]:
                g = ge0(t)
                for b in dom:
                    g = pmul(g, P(T.subst(A(b), {x: t})))
                h = ONE
                for b in body:
                    h = pmul(h, P(T.subst(A(b), {x: t})))
                out.append(ONE - g + pmul(g, h))
    return out


def _zero(d, ctx, budget, depth, path, lits=None, inst=True):
    budget[0] -= 1
    if budget[0] < 0:
        return path + ["(case analysis limit)"]
    if d is ZERO:
        return None
    x = pmul(ctx, d)
    if x is ZERO:
        return None
    if lits is None:
        lits = ctx_lits(ctx)
    for a, v in lits:
        if v and a.op == "samekeys":
            d = use_samekeys(d, *a.args)
            if not inst and use_samekeys(ctx, *a.args) is ZERO:
                return None
    inds = top_inds(d)
    if not inds:
        if zero_leaf(d) or zero_under(d, lits, budget):
            return None
        # the context itself may be contradictory
        rest = [a for a in top_inds(ctx) if (a, 1) not in lits and (a, 0) not in lits]
        if rest and depth < 40:
            a = rest[0]
        else:
            m = implied_eq(d if inst else pmul(ctx, d), lits) if depth < 60 else None
            if m is not None:
                ls2 = tuple((single_atom(P(T.subst(a, m))), v) for a, v in lits)
                ls2 = tuple((a, v) for a, v in ls2 if a is not None)
                return _zero(T.subst(d, m), T.subst(ctx, m), budget, depth + 10, path, ls2, inst)
            if inst:
                more = instances(lits)
                if more or implied_eq(pmul(ctx, d), lits) is not None:
                    c = ctx
                    for p in more:
                        c = pmul(c, p)
                    return _zero(d, c, budget, 0, path, lits, False)
            return path + [SHOW(d)[:SHOWLEN]]
    else:
        a = pick(inds, d)
        if _nested(a):
            known = {x for x, _ in lits}
            rest = [x for x in top_inds(ctx) if x.op in T._ARITH and x not in known and not _nested(x)]
            if rest and depth < 40:
                a = rest[0]
        if _nested(a):
            d2 = align(d, lits, budget)
            if d2 is not d:
                return _zero(d2, ctx, budget, depth, path, lits, inst)
    for v in (1, 0):
        if (a, 1 - v) in lits:
            continue
        ls = lits if (a, v) in lits else lits + ((a, v),)
        if infeasible_c(ls):
            continue
        c = restrict_under(ctx, a, v)
        if a.op in T._ARITH or a.op in ("has", "is", "streq"):
            c = pmul(c, A(a) if v else ONE - A(a))
        if c is ZERO:
            continue
        have = {x for x, _ in ls}
        ls = ls + tuple(x for x in ctx_lits(c) if x[0] not in have)
        dd = restrict_under(d, a, v)
        for b in top_inds(dd):
            if b.op in T._ARITH:
                if infeasible_c(ls + ((b, 1),)):
                    dd = restrict_under(dd, b, 0)
                    continue
                if infeasible_c(ls + ((b, 0),)):
                    dd = restrict_under(dd, b, 1)
                    continue
            y = pmul(c, A(b))
            if y is ZERO:
                dd = restrict_under(dd, b, 0)
            elif y is c:
                dd = restrict_under(dd, b, 1)
        r = _zero(dd, c, budget, depth + 1, path + [("" if v else "not ") + SHOW(a)[:W_]], ls, inst)
        if r is not None:
            return r
    return None


def use_samekeys(t, m, n):
    """under samekeys(m, n): the second map's keys and length are the first's"""
    def f(x):
        if x.op == "samekeys" and set(x.args) == {m, n}:
            return ONE
        if x.op == "len" and x.args[0] is n:
            return A(mk("len", m))
        if x.op == "mkey" and x.args[0] is n:
            return V.m_key(m, T.transform(x.args[1], f))
        if x.op == "has" and x.args[0] is n:
            return V.m_has(m, T.transform(x.args[1], f))
        if x.op == "idx" and x.args[0] is n:
            return V.m_idx(m, T.transform(x.args[1], f))
        return None

    if not T.mentions(t, lambda x: x is n):
        return t
    return T.transform(t, f)


def single_atom(p):
    """the atom a poly consists of, or None"""
    if len(p.args) == 1 and p.args[0][1] == 1 and len(p.args[0][0]) == 1 and p.args[0][0][0][1] == 1:
        return p.args[0][0][0][0]
    return None


def implied_eq(d, lits):
    """an atom of d whose value the literals determine (p >= 0 and p <= 0, p linear): {atom: value}"""
    ps = []
    for a, v in lits:
        if a.op == "ge0" and is_int(a.args[0]):
            ps.append(a.args[0] if v else -a.args[0] - 1)
    mine = {a for m, _ in d.args for a, _ in m} | {a for t in d.args for a in _deep_atoms(t[0])}
    for p in ps:
        if not p.args or any(len(m) > 1 for m, _ in p.args):
            continue
        q = ge0(p - 1)
        if q is ONE:
            continue
        if q is not ZERO:
            if q.op != "poly" or len(q.args) != 1 or len(q.args[0][0]) != 1:
                continue
            if not infeasible_c(lits + ((q.args[0][0][0][0], 1),)):
                continue
        xs = [(m[0][0], c) for m, c in p.args if m and m[0][1] == 1 and sort_of(m[0][0]) != "ind"]
        xs = [(x, c) for x, c in xs if x in mine]
        for x, c in sorted(xs, key=lambda t: (abs(t[1]) != 1, t[0].op != "sum", t[0].op != "sym", fulltext(t[0]))):
            r = T.scale(p - T.scale(A(x), c), Fr(-1) / c)
            if not T.contains_atom(r, x):
                return {x: r}
    return None


def pinned(q, lits):
    """solutions {atom: value} of q = 0 when the literals together with q >= 0 allow only that value"""
    if not q.args or any(len(m) > 1 for m, _ in q.args):
        return []
    g0, g1 = ge0(q), ge0(q - 1)
    a0, a1 = single_atom(g0), single_atom(g1)
    if a1 is None or not infeasible_c(tuple(lits) + ((a1, 1),)):
        return []
    out = []
    for m, c in q.args:
        if m and m[0][1] == 1 and abs(c) == 1 and sort_of(m[0][0]) != "ind":
            x = m[0][0]
            r = T.scale(q - T.scale(A(x), c), Fr(-1) / c)
            if not T.contains_atom(r, x):
                out.append((x, r))
    return out


def _deep_atoms(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, tuple):
        for y in t:
            _deep_atoms(y, acc)
    elif isinstance(t, Term) and t not in acc:
        if t.op not in ("poly",):
            acc.add(t)
        for y in t.args:
            _deep_atoms(y, acc)
    return acc


def sums_of(p):
    return {a for m, _ in p.args for a, e in m if a.op == "sum" and e == 1}


def all_sums(p, acc=None):
    """sums occurring in p as arithmetic operands (also inside denominators)"""
    acc = set() if acc is None else acc
    for m, _ in p.args:
        for a, e in m:
            if a.op == "sum":
                acc.add(a)
            elif a.op == "pa":
                all_sums(a.args[0], acc)
    return acc


def _bodies(S, fvs):
    _, (b,) = open_binder(S, fvs)
    return P(b)


_se_cache = {}
_sig_cache = {}


def sum_sig(S):
    """the factors of a sum's body other than domain conditions on its index (None: not a product)"""
    r = _sig_cache.get(S, 0)
    if r == 0:
        n = len(S.args[0])
        fvs = [mk("fv", -1 - j) for j in range(n)]
        b = _bodies(S, fvs)
        if b.op != "poly" or len(b.args) != 1:
            r = None
        else:
            keep = []
            for a, e in b.args[0][0]:
                if a.op in ("ge0", "eq0") and any(T.linear_in(a.args[0], v) for v in fvs if v in a.fv):
                    continue
                if deep_sums(A(a)):
                    continue
                keep.append((a, e) if n == 1 else (a.op, e))
            r = frozenset(keep)
        _sig_cache[S] = r
    return r




def sums_equal(S, R, lits, budget):
    """two sums (or a sum and zero) agreeing under lits, term by term"""
    k = (S, R, frozenset(lits), Facts.key)
    if k in _se_cache:
        return _se_cache[k]
    n = len(S.args[0])
    if R is not None and S.op == "sum":
        x, y = sum_sig(S), sum_sig(R)
        if x is not None and y is not None and x != y:
            _se_cache[k] = False
            return False
    fvs = [fresh() for _ in range(n)]
    b = _bodies(S, fvs)
    r = False
    if R is None:
        r = _zero(b, ONE, [200], 30, [], lits) is None
    else:
        orders = [fvs] if n == 1 else list(itertools.permutations(fvs))
        for o in orders[:6]:
            if _zero(b - _bodies(R, list(o)), ONE, [200], 30, [], lits) is None:
                r = True
                break
    budget[0] -= 3
    _se_cache[k] = r
    return r


def zero_under(d, lits, budget):
    """is the residual zero once sums are compared term by term under the known literals"""
    d2 = align_pos(d, lits, budget)
    if d2 is not d:
        return _zero(d2, ONE, budget, 30, [], lits) is None
    ss = sorted(all_sums(d), key=skey)
    if not ss or len(ss) > 40:
        return False
    if len(ss) > 2 and body_zero(d, lits, budget):
        return True
    if len(ss) > 12:
        return False
    m = {}
    reps = []
    for S in ss:
        n = len(S.args[0])
        for R in reps:
            if len(R.args[0]) == n and sums_equal(S, R, lits, budget):
                m[S] = A(R)
                break
        else:
            if sums_equal(S, None, lits, budget):
                m[S] = ZERO
            else:
                reps.append(S)
    if m:
        d2 = T.subst(d, m)
        if d2 is ZERO or zero_leaf(d2):
            return True
        if d2 is not d and (top_inds(d2)):
            return _zero(d2, ONE, budget, 30, [], lits) is None
        d = d2
    if body_zero(d, lits, budget):
        return True
    d2 = peel(trim(d, lits))
    if d2 is not d:
        budget[0] -= 20
        return _zero(d2, ONE, budget, 30, [], lits) is None
    return False


def trim(d, lits):
    """drop the bounds in the bodies of sums that the literals and the other bounds imply"""
    m = {}
    for S in sorted(all_sums(d), key=skey):
        fvs, (b,) = open_binder(S)
        if b.op != "poly" or len(b.args) != 1 or b.args[0][1] != 1:
            continue
        atoms = dict(b.args[0][0])
        change = False
        for a in sorted((x for x in atoms if x.op == "ge0"), key=fulltext):
            rest = tuple((x, 1) for x in atoms if x is not a and x.op in T._ARITH)
            if infeasible_c(lits + rest + ((a, 0),)):
                del atoms[a]
                change = True
        if change:
            m[S] = T._rebuild_sum(fvs, T._mkpoly({tuple(sorted(atoms.items(), key=lambda x: x[0].uid)): F1}))
    return T.subst(d, m) if m else d


def peel(d):
    """sums whose upper bounds differ by a small constant: take the last terms of the longer one out"""
    ss = sorted(all_sums(d), key=skey)
    ups = {}
    for S in ss:
        ups[S] = sorted({u for _, u in outer_binders(S)}, key=fulltext)
    every = {u for us in ups.values() for u in us}
    m = {}
    for S in ss:
        for u in ups[S]:
            low = [c for c in (1, 2) if u - c in every]
            if not low:
                continue
            fvs, (b,) = open_binder(S)
            if b.op != "poly" or len(b.args) != 1 or b.args[0][1] != 1:
                continue
            v = [fvs[j] for j, w in outer_binders(S) if w is u][0]
            at = single_atom(ge0(u - A(v)))
            atoms = dict(b.args[0][0])
            if at is None or at not in atoms:
                continue
            del atoms[at]
            rest = T._mkpoly({tuple(sorted(atoms.items(), key=lambda x: x[0].uid)): F1})
            c = max(low)
            r = T._rebuild_sum(fvs, rest * ge0(u - c - A(v)))
            others = [x for x in fvs if x is not v]
            for t in range(c):
                q = ge0(u - t) * T.subst(rest, {v: u - t})
                r = r + (T._rebuild_sum(others, q) if others else q)
            m[S] = r
            break
    return T.subst(d, m) if m else d


def deep_sums(p, acc=None):
    """sums in arithmetic position or inside indicator atoms / denominators"""
    acc = set() if acc is None else acc
    for m, _ in p.args:
        for a, e in m:
            if a.op in ("sum", "pos"):
                acc.add(a)
            elif a.op in ("pa",) + T._ARITH and a.args[0].op == "poly":
                deep_sums(a.args[0], acc)
            elif a.op == "fn":
                for y in a.args[1:]:
                    if isinstance(y, Term) and y.op == "poly":
                        deep_sums(y, acc)
    return acc


def align(d, lits, budget):
    """replace sums that agree under lits by one representative"""
    m, reps = {}, []
    for S in sorted(deep_sums(d), key=skey):
        for R in reps:
            if R.op == S.op and len(R.args[0]) == len(S.args[0]) and sums_equal(S, R, lits, budget):
                m[S] = A(R)
                break
        else:
            reps.append(S)
    return T.subst(d, m) if m else d


def align_pos(d, lits, budget):
    m, reps = {}, []
    for S in sorted((a for a in deep_sums(d) if a.op == "pos"), key=skey):
        for R in reps:
            if sums_equal(S, R, lits, budget):
                m[S] = A(R)
                break
        else:
            reps.append(S)
    return T.subst(d, m) if m else d


_ob_cache = {}


def outer_binders(S):
    """[(index of a binder with a bound free of the binders, bound)]"""
    r = _ob_cache.get(S)
    if r is None:
        r = []
        fvs, (b,) = open_binder(S)
        if b.op == "poly" and len(b.args) == 1:
            for j, v in enumerate(fvs):
                for a, e in b.args[0][0]:
                    if a.op == "ge0" and e == 1 and v in a.fv:
                        l = T.linear_in(a.args[0], v)
                        if l and l[0] == -1 and not any(w in l[1].fv for w in fvs):
                            r.append((j, l[1]))
        _ob_cache[S] = r
    return r


def body_zero(d, lits, budget):
    """d as a single sum over one index of the combined bodies; is the combined body zero"""
    doms = None
    for mo, c in d.args:
        here = set()
        for a, e in mo:
            if a.op == "sum" and e == 1:
                here |= {u for _, u in outer_binders(a)}
        doms = here if doms is None else doms & here
        if not doms:
            return False
    for u in sorted(doms, key=fulltext):
        i = fresh()
        dom = ge0(u - A(i))
        if dom.op != "poly" or len(dom.args) != 1 or dom.args[0][1] != 1 or len(dom.args[0][0]) != 1:
            continue
        at = dom.args[0][0][0][0]
        B = ZERO
        for mo, c in d.args:
            for a, e in mo:
                if a.op == "sum" and e == 1:
                    js = [j for j, w in outer_binders(a) if w is u]
                    if js:
                        break
            fvs, (b,) = open_binder(a)
            b = subst(b, {fvs[js[0]]: A(i)})
            rest = [v for j, v in enumerate(fvs) if j != js[0]]
            if rest:
                b = T.Sum(rest[0], b) if len(rest) == 1 else T._sum_multi(rest, b)
            r = T._mkpoly({tuple(x for x in mo if x[0] is not a): c})
            B = B + r * b
        B = restrict(B, at, 1)
        ls = lits + ((at, 1),)
        if infeasible_c(ls):
            return True
        B = align(B, ls, budget)
        if _zero(B, ONE, budget, 20, [], ls) is None:
            return True
    return False


def refuted(c, budget=None):
    """is the condition c never true"""
    return eq_poly(c, ZERO, ONE, budget) is None


def pick(inds, d):
    """most frequent indicator, structural tie-break"""
    cnt = {}
    for m, _ in d.args:
        for a, e in m:
            if sort_of(a) == "ind":
                cnt[a] = cnt.get(a, 0) + 1
    return max(inds, key=lambda a: (not _nested(a), cnt.get(a, 0), fulltext(a)))


def _nested(a):
    return any(x.op == "sum" for m, _ in (a.args[0].args if a.op in ("ge0", "eq0", "gt0", "eqf0") and a.args[0].op == "poly" else ()) for x, _ in m)


def differ(a, b, ctx=ONE, budget=None):
    """None if the two values are equal wherever ctx holds, else a description of a difference"""
    budget = budget if budget is not None else [4000]
    if a is b or ctx is ZERO:
        return None
    a, b = under(a, ctx), under(b, ctx)
    if a is b:
        return None
    if a.op == "never" or b.op == "never":
        return ["value does not exist on one side: %s / %s" % (SHOW(a)[:100], SHOW(b)[:100])]
    if a.op == "poly" or b.op == "poly":
        if (a.op == "poly" or sort_of(a) != "obj") and (b.op == "poly" or sort_of(b) != "obj") or True:
            r = eq_poly(a, b, ctx, budget)
            return r
    if a.op == "cases" or b.op == "cases":
        if a.op != "cases":
            a, b = b, a
        for x, c in a.args:
            cc = ctx * c
            if cc is ZERO:
                continue
            r = differ(x, b, cc, budget)
            if r is not None:
                return r
        return None
    if a.op != b.op:
        if is_seq(a) and is_seq(b):
            return differ_seq(a, b, ctx, budget)
        if a.op in MAPOPS and b.op in MAPOPS:
            return differ_map(a, b, ctx, budget)
        return ["%s  vs  %s" % (SHOW(a)[:200], SHOW(b)[:200])]
    if a.op == "struct":
        da, db = dict(a.args[1]), dict(b.args[1])
        if a.args[0] != b.args[0] or set(da) != set(db):
            return ["%s vs %s" % (a.args[0], b.args[0])]
        for n in da:
            r = differ(da[n], db[n], ctx, budget)
            if r is not None:
                return ["field " + n] + r
        return None
    if a.op == "tuple":
        if len(a.args) != len(b.args):
            return ["tuple arity"]
        for j, (x, y) in enumerate(zip(a.args, b.args)):
            r = differ(x, y, ctx, budget)
            if r is not None:
                return ["component %d" % j] + r
        return None
    if a.op == "enum":
        if a.args[0] != b.args[0]:
            return ["enum %s vs %s" % (a.args[0], b.args[0])]
        names = {n for n, _, _ in a.args[1]} | {n for n, _, _ in b.args[1]}
        for n in sorted(names):
            ca, cb = vcond(a, n), vcond(b, n)
            r = eq_poly(ca, cb, ctx, budget)
            if r is not None:
                return ["condition of " + n] + r
            c = ctx * ca
            if c is ZERO:
                continue
            fa = next(fs for m, _, fs in a.args[1] if m == n)
            for k, x in fa:
                r = differ(x, vfield(b, n, k), c, budget)
                if r is not None:
                    return [n + "." + k] + r
        return None
    if is_seq(a):
        return differ_seq(a, b, ctx, budget)
    if a.op in MAPOPS:
        return differ_map(a, b, ctx, budget)
    if a.op == "set":
        return differ_map(a.args[0], b.args[0], ctx, budget)
    if a.op == "cats":
        if len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                r = differ(x, y, ctx, budget)
                if r is not None:
                    return r
            return None
    if a.op in ("mkey", "disp", "fmt", "app", "nth", "fld", "at", "num") and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) and isinstance(y, Term):
                r = differ(x, y, ctx, budget)
                if r is not None:
                    return [a.op] + r
            elif x != y:
                return ["%s  vs  %s" % (SHOW(a)[:200], SHOW(b)[:200])]
        return None
    return ["%s  vs  %s" % (SHOW(a)[:200], SHOW(b)[:200])]


def differ_seq(a, b, ctx, budget):
    if a.op == "comp" and b.op == "comp" and len(a.args[0]) == len(b.args[0]):
        fvs, c, v = open_comp(a)
        _, c2, v2 = open_comp(b, fvs)
        if eq_poly(c, c2, ctx, budget) is None:
            return differ(v, v2, ctx * c, budget)
    r = eq_poly(seq_len(a), seq_len(b), ctx, budget)
    if r is not None:
        return ["length"] + r
    i = fresh()
    return differ(seq_nth(a, A(i)), seq_nth(b, A(i)), ctx * lt(A(i), seq_len(a)), budget)


def differ_map(a, b, ctx, budget):
    if a.op == "mcomp" and b.op == "mcomp" and len(a.args[0]) == len(b.args[0]):
        fvs, (c, k, v) = open_binder(a)
        _, (c2, k2, v2) = open_binder(b, fvs)
        if eq_poly(c, c2, ctx, budget) is None and differ(k, k2, ctx * c, budget) is None:
            r = differ(v, v2, ctx * c, budget)
            return r
    ka, kb = keyed_base(a), keyed_base(b)
    k = mk("sym", "@key", "obj")
    r = eq_poly(m_has(a, k), m_has(b, k), ctx, budget)
    if r is not None:
        return ["key set"] + r
    return differ(m_at(a, k), m_at(b, k), ctx * m_has(a, k), budget)

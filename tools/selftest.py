#!/usr/bin/env python3
"""Development test of the analyser itself (no check uses it): a concrete semantics for the term
language, used to test the canonicalising constructors on random expressions and the value graphs
of the metrics against direct Python implementations.

    selftest.py terms [N]        random expressions
    selftest.py metrics DUMP [N] metric value graphs on random stores"""
import math
import os
import random
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/engine", ROOT + "/checks"]
sys.setrecursionlimit(60000)
import terms as T
from terms import *
import values as V
from values import *
import models  # noqa: F401


from program import mkty, prim

KT = mkty("K", "param")


class M(dict):
    """concrete ordered map"""

    @property
    def keys_(self):
        return sorted(self)


class Eval:
    BIG = 9

    def __init__(self, env):
        self.env = env

    def ev(self, t, vs):
        o = t.op
        if o == "poly":
            r = 0
            for m, c in t.args:
                x = c if c.denominator > 1 else int(c)
                # indicators first: they guard partial operations
                err = None
                for a, e in m:
                    if x == 0:
                        break
                    try:
                        y = self.ev(a, vs)
                        if y == 0 and e < 0:
                            y, e = 0.377, 1
                        x = x * (y if e == 1 else float(y) ** float(e) if not (isinstance(y, int) and e > 0 and e == int(e)) else y ** int(e))
                    except (KeyError, ZeroDivisionError, ValueError, IndexError) as ex:
                        err = ex
                if err is not None and x != 0:
                    raise err
                r += x
            return r
        if o in ("fv", "bv"):
            return vs[t]
        if t in self.env:
            return self.env[t]
        f = getattr(self, "e_" + o)
        return f(t, vs)

    def near(self, x):
        return 0 if isinstance(x, float) and abs(x) < 1e-9 else x

    def e_ge0(self, t, vs):
        return int(self.near(self.ev(t.args[0], vs)) >= 0)

    def e_gt0(self, t, vs):
        return int(self.near(self.ev(t.args[0], vs)) > 0)

    def e_eq0(self, t, vs):
        return int(self.near(self.ev(t.args[0], vs)) == 0)

    e_eqf0 = e_eq0

    def e_pa(self, t, vs):
        return self.ev(t.args[0], vs)

    def e_box(self, t, vs):
        return self.ev(t.args[0], vs)

    def e_sum(self, t, vs):
        return self.loop(t.args[0], lambda w: self.ev(t.args[1], w), vs)

    def loop(self, bvs, f, vs):
        if not bvs:
            return f(vs)
        r = 0
        for i in range(self.BIG):
            w = dict(vs)
            w[bvs[0]] = i
            r += self.loop(bvs[1:], f, w)
        return r

    def e_pos(self, t, vs):
        for i in range(self.BIG):
            w = dict(vs)
            w[t.args[0][0]] = i
            if self.ev(t.args[1], w):
                return i
        raise ZeroDivisionError("pos")

    def e_fn(self, t, vs):
        if t.args[0] == "undef":
            return 0.377
        xs = [self.ev(a, vs) for a in t.args[1:]]
        return {"ln": math.log, "exp2": lambda x: 2.0**x, "sqrt": math.sqrt, "abs": abs}[t.args[0]](*xs)

    def e_msym(self, t, vs):
        return self.ev(t.args[0], vs)

    def e_fld(self, t, vs):
        return self.ev(t.args[0], vs)[t.args[1]]

    def e_len(self, t, vs):
        return len(self.ev(t.args[0], vs))

    def e_has(self, t, vs):
        return int(self.ev(t.args[1], vs) in self.ev(t.args[0], vs))

    def e_at(self, t, vs):
        m, k = self.ev(t.args[0], vs), self.ev(t.args[1], vs)
        return m[k] if k in m else hash((t.args[0].uid, k, 1)) % 5

    def e_idx(self, t, vs):
        m, k = self.ev(t.args[0], vs), self.ev(t.args[1], vs)
        return m.keys_.index(k) if k in m else hash((t.args[0].uid, k, 2)) % 5

    def e_undef(self, t, vs):
        return 0.377

    def e_mkey(self, t, vs):
        ks = self.ev(t.args[0], vs).keys_
        i = self.ev(t.args[1], vs)
        return ks[i] if 0 <= i < len(ks) else "none%s" % i

    def e_num(self, t, vs):
        return self.ev(t.args[0], vs)

    def e_perm(self, t, vs):
        (a, b), n, c = t.args[0], t.args[1], t.args[2]
        from functools import cmp_to_key

        n = self.ev(n, vs)

        def lt(x, y):
            w = dict(vs)
            w[a], w[b] = x, y
            return self.ev(c, w)

        return sorted(range(n), key=cmp_to_key(lambda x, y: -1 if lt(x, y) else 1))

    def e_pidx(self, t, vs):
        p = self.ev(t.args[0], vs)
        i = self.ev(t.args[1], vs)
        return p[i] if 0 <= i < len(p) else i


def metrics(dump, n):
    import lab
    import metrics_spec as MS

    L = lab.Lab(dump)
    q, dom = L.one_query()
    R = L.ranking("P", q)[1]
    J = L.judgments(q)[1]
    ID = L.ranking("T", q)[1]
    rnd = random.Random(1)
    scores = {v: L.score(v) for v in L.variants()}
    specs = {v: MS.SPEC[v](R, J, L.K, **({"ideal": ID} if v.startswith("NDCG") else {})) for v in L.variants()}
    bad = 0
    for it in range(n):
        docs = "abcdefg"
        Pm = M({d: rnd.choice([0.5, 1.0, 2.0]) for d in rnd.sample(docs, rnd.randint(1, 5))})
        Jm = M({d: rnd.choice([0, 0, 1, 2]) for d in rnd.sample(docs, rnd.randint(0, 5))})
        k = rnd.randint(0, 7)
        env = {
            mk("sym", "q", "obj"): "Q",
            mk("sym", "k", "nat"): k,
            mk("sym", "P", "obj"): {"map": M({"Q": Pm})},
            mk("sym", "T", "obj"): {"map": M({"Q": Jm})},
        }
        E = Eval(env)
        rk = sorted(Pm, key=lambda d: (-Pm[d], d))
        for v in L.variants():
            want = direct(v, rk, Jm, k)
            for name, t in (("code", scores[v][0]), ("spec", specs[v])):
                try:
                    got = E.ev(t, {})
                except Exception as e:
                    got = repr(e)
                if isinstance(got, str) or abs(got - want) > 1e-9:
                    bad += 1
                    if bad < 20:
                        print("MISMATCH", v, name, "got", got, "want", want, "P", dict(Pm), "J", dict(Jm), "k", k)
    print("metrics: %d stores, %d mismatches" % (n, bad))


def direct(v, rk, J, k):
    kk = k or len(rk)
    top = rk[:kk]
    rel = lambda d: J.get(d, 0) >= 1
    h = sum(map(rel, top))
    R = sum(1 for d in J if J[d] >= 1)
    N = len(J) - R
    if v == "Hits":
        return h
    if v == "Success":
        return int(h > 0)
    if v == "Precision":
        return h / kk
    if v == "Recall":
        return h / R if R else 0
    if v == "F1":
        p, r = h / kk, (h / R if R else 0)
        return 2 * p * r / (p + r) if p + r else 0
    if v == "RPrecision":
        return sum(map(rel, rk[:R])) / R if R else 0
    if v == "AP":
        return sum(sum(map(rel, rk[: i + 1])) / (i + 1) for i in range(len(top)) if rel(top[i])) / R if R else 0
    if v == "RR":
        return next((1 / (i + 1) for i, d in enumerate(top) if rel(d)), 0)
    if v == "Bpref":
        if not R:
            return 0
        s, non = 0, 0
        for d in rk:
            if d in J:
                if rel(d):
                    s += 1 - (min(non, R) / min(N, R) if N else 0)
                else:
                    non += 1
        return s / R
    g = (lambda x: 2**x - 1) if v.endswith("Burges") else (lambda x: x)
    dcg = sum(g(J[d]) / math.log2(i + 2) for i, d in enumerate(top) if d in J)
    if v.startswith("DCG"):
        return dcg
    ideal = sorted(J.values(), reverse=True)
    ideal = ideal[:k] if k else ideal
    i = sum(g(x) / math.log2(j + 2) for j, x in enumerate(ideal))
    return dcg / i if i else 1.0


# ------------------------------------------------------------------ random expressions
class Gen:
    """builds a random expression twice: through the constructors and as a Python closure"""

    def __init__(self, rnd):
        self.r = rnd
        self.nats = [mk("sym", n, "nat") for n in "abc"]
        self.m1 = mk("msym", mk("sym", "m1", "obj"), KT, prim("u32"))
        self.m2 = mk("msym", mk("sym", "m2", "obj"), KT, prim("u32"))

    def num(self, d, vars_):
        r = self.r
        c = r.randint(0, 9 if d > 0 else 3)
        if c <= 1:
            n = r.randint(-2, 3)
            return C(n), lambda e, v: n
        if c == 2 or (c == 3 and not vars_):
            s = r.choice(self.nats)
            return A(s), lambda e, v: e[s]
        if c == 3:
            x = r.choice(vars_)
            return A(x), lambda e, v: v[x]
        if c == 4:
            (p, f), (q, g) = self.num(d - 1, vars_), self.num(d - 1, vars_)
            return p + q, lambda e, v: f(e, v) + g(e, v)
        if c == 5:
            (p, f), (q, g) = self.num(d - 1, vars_), self.num(d - 1, vars_)
            return p - q, lambda e, v: f(e, v) - g(e, v)
        if c == 6:
            (p, f), (q, g) = self.num(d - 1, vars_), self.num(d - 1, vars_)
            return p * q, lambda e, v: f(e, v) * g(e, v)
        if c == 7:
            (b, h), (p, f), (q, g) = self.cond(d - 1, vars_), self.num(d - 1, vars_), self.num(d - 1, vars_)
            return ite(b, p, q), lambda e, v: f(e, v) if h(e, v) else g(e, v)
        if c == 8:
            x = fresh()
            s = r.choice(self.nats + [None])
            (p, f) = self.num(d - 1, vars_ + [x])
            if r.random() < 0.6:
                (b, h) = self.cond(d - 1, vars_ + [x])
            else:
                (b, h) = ONE, (lambda e, v: 1)
            if s is None:
                mm = r.choice([self.m1, self.m2])
                up, uf = m_len(mm), (lambda e, v: len(e[mm.args[0]]))
            else:
                up, uf = A(s), (lambda e, v: e[s])
            return Sum(x, lt(A(x), up) * b * p), lambda e, v: sum(f(e, {**v, x: i}) for i in range(uf(e, v)) if h(e, {**v, x: i}))
        mm = r.choice([self.m1, self.m2])
        k, kf = self.key(vars_)
        return self.guard * m_has(mm, k) * P(m_at(mm, k)), lambda e, v: e[mm.args[0]].get(kf(e, v), 0)

    def key(self, vars_):
        r = self.r
        if vars_ and r.random() < 0.7:
            mm = r.choice([self.m1, self.m2])
            x = r.choice(vars_)

            def f(e, v):
                ks = e[mm.args[0]].keys_
                i = v[x]
                return ks[i] if i < len(ks) else "none%s" % i

            self.guard = lt(A(x), m_len(mm))
            return m_key(mm, A(x)), f
        self.guard = ONE
        s = mk("sym", "key", "obj")
        return s, lambda e, v: e[s]

    def cond(self, d, vars_):
        r = self.r
        c = r.randint(0, 5)
        if c <= 1:
            (p, f), (q, g) = self.num(d - 1, vars_), self.num(d - 1, vars_)
            return le(p, q), lambda e, v: f(e, v) <= g(e, v)
        if c == 2:
            (p, f), (q, g) = self.num(d - 1, vars_), self.num(d - 1, vars_)
            return eq0(p - q), lambda e, v: f(e, v) == g(e, v)
        if c == 3:
            (p, f), (q, g) = self.cond(d - 1, vars_) if d > 0 else self.cond(0, vars_), self.cond(d - 1, vars_) if d > 0 else self.cond(0, vars_)
            return AND(p, q), lambda e, v: f(e, v) and g(e, v)
        if c == 4:
            (p, f) = self.cond(d - 1, vars_) if d > 0 else self.cond(0, vars_)
            return ONE - p, lambda e, v: not f(e, v)
        mm = r.choice([self.m1, self.m2])
        k, kf = self.key(vars_)
        return self.guard * m_has(mm, k), lambda e, v: kf(e, v) in e[mm.args[0]]


def exprs(n, seed):
    import equiv

    bad = 0
    for it in range(n):
        rnd = random.Random(seed * 1000003 + it)
        g = Gen(rnd)
        T.reset_work() if hasattr(T, "reset_work") else None
        try:
            t, f = g.num(3, [])
            u, h = g.num(3, [])
        except RecursionError:
            continue
        if len(t.args if t.op == "poly" else ()) > 60:
            continue
        for _ in range(6):
            env = {s: rnd.randint(0, 4) for s in g.nats}
            keys = "pqrst"
            env[g.m1.args[0]] = M({k: rnd.randint(0, 3) for k in rnd.sample(keys, rnd.randint(0, 4))})
            env[g.m2.args[0]] = M({k: rnd.randint(0, 3) for k in rnd.sample(keys, rnd.randint(0, 4))})
            env[mk("sym", "key", "obj")] = rnd.choice(keys)
            try:
                got = Eval(env).ev(t, {})
            except Exception as e:
                got = repr(e)
            want = f(env, {})
            if got != want:
                bad += 1
                print("MISMATCH seed", it, "got", got, "want", want, {k.args[0]: v for k, v in env.items()})
                print("   ", show(t)[:600])
                break
    print("expressions: %d, %d mismatches" % (n, bad))


if __name__ == "__main__":
    import threading

    threading.stack_size(1 << 29)
    if sys.argv[1] == "metrics":
        tgt = lambda: metrics(sys.argv[2], int((sys.argv[3:] or ["200"])[0]))
    else:
        tgt = lambda: exprs(int((sys.argv[2:] or ["500"])[0]), int((sys.argv[3:] or ["1"])[0]))
    t = threading.Thread(target=tgt)
    t.start()
    t.join()

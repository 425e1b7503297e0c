"""Abstract interpreter over the typed program (THIR) into the value-graph domain.

Branches are joined at their merge points (guarded values, not path enumeration),
loops are summarised in closed form (recurrences), calls to workspace functions are
inlined, library calls go through `models`.  Nothing of the program is executed.
"""
import equiv
import terms as T
from terms import *
import values as V
from values import *
from program import norm, Ty, mkty, prim


class Unsupported(Exception):
    pass


class Diverged(Exception):
    pass


class St:
    __slots__ = ("store", "base", "rel")

    def __init__(self, store, base, rel):
        self.store, self.base, self.rel = store, base, rel

    @property
    def pc(self):
        return pmul(self.base, self.rel)

    def fork(self, c):
        return St(dict(self.store), self.base, pmul(self.rel, c))

    @property
    def dead(self):
        return self.rel is ZERO


class Frame:
    __slots__ = ("vars", "parent", "body", "tsub", "fn", "crate")

    def __init__(self, body, parent=None, tsub=None):
        self.vars = {}
        self.parent = parent
        self.body = body
        self.tsub = tsub or (parent.tsub if parent else {})
        self.fn = body["path"] if body else "?"

    def root(self, var):
        f = self
        while f is not None:
            r = f.vars.get(var)
            if r is not None:
                return r
            f = f.parent
        raise Unsupported("variable " + var)


class Exit:
    __slots__ = ("kind", "label", "rel", "value", "store")

    def __init__(self, kind, label, rel, value, store):
        self.kind, self.label, self.rel, self.value, self.store = kind, label, rel, value, store


def contains(t, ks, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if not isinstance(x, Term):
            return False
        if x in ks:
            return True
        r = memo.get(x)
        if r is None:
            memo[x] = False
            r = memo[x] = any(go(y) for y in x.args)
        return r

    return go(t)


def lin_coef(p, a):
    """p = b*A(a) + r with a not occurring in b, r  (else None)"""
    b, r = {}, {}
    for m, c in p.args:
        d = dict(m)
        if a in d:
            if d[a] != 1:
                return None
            del d[a]
            b[tuple(sorted(d.items(), key=lambda x: x[0].uid))] = c
        else:
            r[m] = c
    b, r = T._mkpoly(b), T._mkpoly(r)
    if contains(b, {a}) or contains(r, {a}):
        return None
    return b, r


UNSIGNED = {"u8", "u16", "u32", "u64", "u128", "usize"}
SIGNED = {"i8", "i16", "i32", "i64", "i128", "isize"}
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def unify(p, t, m):
    """type pattern p (with parameters) matches t; bindings are added to m"""
    if p.k == "param":
        return m.setdefault(p.s, t).s == t.s
    if p.k != t.k:
        return False
    if p.k == "ref":
        return unify(p.of, t.of, m)
    if p.k == "slice":
        return p.len == t.len and unify(p.of, t.of, m)
    if p.k == "adt":
        return p.adt == t.adt and len(p.args) == len(t.args) and all(unify(a, b, m) for a, b in zip(p.args, t.args))
    if p.k == "tuple":
        return len(p.args) == len(t.args) and all(unify(a, b, m) for a, b in zip(p.args, t.args))
    return p.s == t.s


class Interp:
    def __init__(self, prog):
        self.prog = prog
        PROGRAM[0] = prog
        self.exits = []
        self.obl = []
        self.events = []
        self.unsup = []
        self.silent = 0
        self.nroot = 0
        self.rty = {}
        self.clos = {}
        self.stack = []
        self.binders = []
        self.consts = {}
        self.inlined = set()
        self.calls = 0
        self.sp = None
        import models

        self.models = models.MODELS

    # ------------------------------------------------------------ roots
    def new_root(self, st, v, ty=None):
        self.nroot += 1
        r = self.nroot
        st.store[r] = v
        self.rty[r] = ty
        return r

    def ref(self, root, path=()):
        return mk("ref", root, tuple(path))

    def read(self, st, root, path):
        v = st.store[root]
        for e in path:
            v = self.get(v, e)
        return v

    def get(self, v, e):
        k = e[0]
        if k == "f":
            return fld(v, e[1])
        if k == "i":
            return seq_nth(v, e[1])
        if k == "k":
            return m_at(v, e[1])
        if k == "v":
            return vfield(v, e[1], e[2])
        raise Unsupported("path " + k)

    def put(self, v, path, x):
        if not path:
            return x
        e = path[0]
        k = e[0]
        if v.op == "cases":
            return cases_map(v, lambda y: self.put(y, path, x))
        old = self.get(v, e)
        new = self.put(old, path[1:], x)
        if k == "f":
            if v.op == "struct":
                return mk("struct", v.args[0], tuple((n, new if n == e[1] else y) for n, y in v.args[1]))
            if v.op == "tuple":
                return mk("tuple", *[new if str(j) == e[1] else y for j, y in enumerate(v.args)])
            return mk("setf", v, e[1], new)
        if k == "i":
            return seq_upd(v, e[1], new)
        if k == "k":
            return mset(v, e[1], new)
        if k == "v":
            return with_vfield(v, e[1], e[2], new)

    def write(self, st, place, v):
        root, path = place
        st.store[root] = self.put(st.store[root], path, v)

    def deref(self, st, v):
        while v.op == "ref":
            v = self.read(st, v.args[0], v.args[1])
        return v

    def deep(self, st, v):
        """value with mutable references inside read through"""
        if v.op == "ref":
            return self.deep(st, self.read(st, v.args[0], v.args[1]))
        if v.op == "tuple":
            return mk("tuple", *[self.deep(st, x) for x in v.args])
        return v

    def place_of(self, st, v):
        if v.op == "ref":
            # follow references stored behind references
            x = self.read(st, v.args[0], v.args[1])
            if x.op == "ref":
                return self.place_of(st, x)
            return (v.args[0], v.args[1])
        return None

    # ------------------------------------------------------------ logging
    def oblige(self, st, kind, fail, detail=""):
        """the program stops abnormally when `fail` holds here"""
        fail = P(fail)
        if fail is ZERO:
            if not self.silent:
                self.obl.append((kind, self.fnname(), self.sp, ZERO, detail))
            return
        c = pmul(st.pc, fail)
        if not self.silent:
            self.obl.append((kind, self.fnname(), self.sp, c, detail))
        if c is not ZERO:
            st.rel = pmul(st.rel, ONE - fail)

    def fnname(self):
        return self.stack[-1].fn if self.stack else "?"

    def event(self, st, name, args):
        if not self.silent:
            self.events.append((name, args, st.pc, tuple(self.binders), self.fnname(), self.sp))

    def note(self, msg):
        if not self.silent:
            self.unsup.append((msg, self.fnname(), self.sp))

    # ------------------------------------------------------------ regions
    def enter(self, st):
        sv = (st.base, st.rel, self.exits)
        st.base = pmul(st.base, st.rel)
        st.rel = ONE
        self.exits = []
        return sv

    def leave(self, st, sv, match, value):
        base, rel0, outer = sv
        mine = []
        for x in self.exits:
            if x.rel is ZERO:
                continue
            if match(x):
                mine.append(x)
            else:
                x.rel = pmul(rel0, x.rel)
                if x.rel is not ZERO:
                    outer.append(x)
        self.exits = outer
        st.base = base
        if self.forget is not None:
            for x in mine:
                if x.kind == "return" and self.failure(x.value):
                    x.store = dict(x.store)
                    x.store[self.forget] = mk("str", "lost")
                    x.value = V.Err(mk("app", "failure", "obj"))
        alts = [(x.rel, x.value, x.store) for x in mine]
        if st.rel is not ZERO:
            alts.append((st.rel, value, st.store))
        if not alts:
            st.rel = ZERO
            return mk("never")
        tot = psum([a[0] for a in alts])
        v, store = alts[-1][1], alts[-1][2]
        if len(alts) > 1 and store is st.store and self.forget is not None and all(s.get(self.forget) is mk("str", "lost") for _, _, s in alts[:-1]):
            # every other way out is a failure
            ok = alts[-1][0]
            alts = [(ONE - ok, alts[0][1], alts[0][2]), alts[-1]]
        pc = pmul(base, rel0)
        for c, v1, s1 in reversed(alts[:-1]):
            v = self.choose(pc, c, v1, v)
            store = self.merge_store(c, s1, store, pc)
        st.store = store
        st.rel = pmul(rel0, tot)
        return v

    def choose(self, pc, c, a, b):
        """ite(c, a, b), where one side may equal the other on the single value its condition leaves"""
        if a is not b and a.op == "poly" and b.op == "poly":
            at = equiv.single_atom(c)
            other = False
            if at is None:
                at, other = equiv.single_atom(ONE - c), True
            if at is not None and at.op == "ge0" and is_int(at.args[0]):
                lits = equiv.ctx_lits(pc)
                for v in (0, 1):
                    q = at.args[0] if v else -at.args[0] - 1
                    keep, spec = (b, a) if (v == 1) != other else (a, b)
                    r = equiv.pinned(q, lits)
                    for x, e in r:
                        if subst(keep, {x: e}) is subst(spec, {x: e}):
                            return keep
        return ite(c, a, b)

    def failure(self, v):
        """an error of the program (not of one of its library functions)"""
        if v.op != "enum" or len(v.args[1]) != 1 or v.args[1][0][0] != "Err" or not self.stack:
            return False
        t = self.stack[-1].body["ret"]
        return t.k == "adt" and len(t.args) > 1 and "anyhow" in str(t.args[1])

    def merge_store(self, c, s1, s2, pc=ONE):
        if s1 is s2:
            return s2
        out = dict(s2)
        if self.forget is not None:
            # what was written before the program failed is not tracked
            l1, l2 = [s.get(self.forget) is mk("str", "lost") for s in (s1, s2)]
            if l1 != l2:
                s1, out, keep = dict(s1), dict(s2), s2 if l1 else s1
                for r in self.world.values():
                    if r != self.forget:
                        s1[r] = out[r] = keep[r]
        for r, v in s1.items():
            w = s2.get(r)
            if w is None:
                out[r] = v
            elif w is not v:
                out[r] = self.choose(pc, c, v, w)
        return out

    def simp(self, st, c):
        c = P(c)
        if c is ONE or c is ZERO:
            return c
        x = pmul(st.pc, c)
        if x is ZERO:
            return ZERO
        if x is st.pc:
            return ONE
        return c

    def branch(self, st, c, fa, fb):
        """if c {fa} else {fb}; returns merged value"""
        c = self.simp(st, c)
        if c is ONE:
            return fa(st)
        if c is ZERO:
            return fb(st)
        s1, s2 = st.fork(c), st.fork(ONE - c)
        v1 = fa(s1)
        v2 = fb(s2)
        return self.join(st, c, s1, v1, s2, v2)

    def join(self, st, c, s1, v1, s2, v2):
        if s1.dead:
            st.store, st.rel = settled(s2), s2.rel
            return v2
        if s2.dead:
            st.store, st.rel = settled(s1), s1.rel
            return v1
        pc = st.pc
        st.store = self.merge_store(c, s1.store, s2.store, pc)
        st.rel = s1.rel + s2.rel
        return self.choose(pc, c, v1, v2)

    # ------------------------------------------------------------ calls
    def call_key(self, st, key, args, tsub=None, argnodes=None):
        if key in self.hooks:
            return self.hooks[key](self, st, args, tsub or {})
        body = self.prog.bodies[key]
        if len(self.stack) > 48 or sum(1 for f in self.stack if f.body is body) > 3:
            raise Unsupported("recursion " + body["path"])
        self.inlined.add(body["path"])
        self.calls += 1
        fr = Frame(body, None, tsub or {})
        return self.run_body(st, fr, body, args)

    def run_body(self, st, fr, body, args):
        sp = self.sp
        self.stack.append(fr)
        sv = self.enter(st)
        params = body["params"]
        for p, a in zip(params, args):
            if "pat" in p and p["pat"] is not None:
                self.bind(st, fr, p["pat"], a, None)
        v = self.ev(body["body"], st, fr)
        v = self.leave(st, sv, lambda x: x.kind == "return", v)
        self.stack.pop()
        self.sp = sp
        return v

    def apply(self, st, f, args):
        """call a function value"""
        if f.op == "ref":
            f = self.deref(st, f)
        if f.op == "clos":
            key, fr0 = self.clos[f.args[0]]
            body = self.prog.bodies[key]
            fr = Frame(body, fr0, fr0.tsub)
            self.inlined.add(body["path"])
            # params[0] is the closure environment
            return self.run_body(st, fr, body, [UNIT] + list(args))
        if f.op == "fnval":
            call = self.clos[f.args[0]]
            return self.call(st, call[0], list(args), call[1], None, None)
        if f.op == "cases":
            r = None
            for x, c in reversed(f.args):
                if r is None:
                    r = self.apply(st, x, args)
                else:
                    prev = r
                    raise Unsupported("call of a merged closure")
            return r
        if f.op == "ctorfn":
            if f.args[0] in V.STRUCT_CTORS:
                return mk("struct", f.args[0], tuple((str(i), a) for i, a in enumerate(args)))
            return ctor(f.args[0], f.args[1], *args)
        raise Unsupported("call of " + f.op)

    def call(self, st, f, args, fr, node, argnodes):
        """f: callee record"""
        key = f.get("rkey") or f["key"]
        name = norm(f["path"])
        ty = tysubst(node["t"], fr.tsub) if node else None
        m = self.models.get(name)
        tr = f.get("trait")
        if tr is None and m is not None and key not in self.prog.bodies:
            return m(self, st, Call(f, fr, ty, argnodes, name), args)
        if name in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once",
                    "ops::function::Fn::call") and len(args) == 2:
            g = self.deref(st, args[0])
            tup = self.deref(st, args[1])
            if g.op in ("clos", "fnval", "ctorfn", "cases") and (tup.op == "tuple" or tup is UNIT):
                return self.apply(st, g, list(tup.args) if tup.op == "tuple" else [])
        if tr is not None:
            if key in self.prog.bodies:
                b = self.prog.bodies[key]
                if not (b.get("derived") and m is not None and name in DERIVED_OK):
                    return self.call_key(st, key, args, self.tsub_of(f, b, fr))
            else:
                k2 = self.static_impl(f, fr)
                if k2 is not None:
                    return self.call_key(st, k2[0], args, k2[1])
                k2 = self.dispatch(st, f, args, ty)
                if k2 is not None:
                    return self.call_key(st, k2, args, {})
                if f["key"] in self.prog.bodies:
                    b = self.prog.bodies[f["key"]]
                    return self.call_key(st, f["key"], args, self.tsub_of(f, b, fr))
            if m is not None:
                return m(self, st, Call(f, fr, ty, argnodes, name), args)
        if key in self.prog.bodies:
            b = self.prog.bodies[key]
            return self.call_key(st, key, args, self.tsub_of(f, b, fr))
        if f.get("ctor"):
            return self.make_ctor(f, args)
        return self.opaque(st, f, args, ty, name)

    def tsub_of(self, f, b, fr):
        gn = b.get("gnames")
        ra = f.get("rargs") or f.get("targs") or []
        if not gn or len(gn) != len(ra):
            return {}
        return {n: tysubst(t, fr.tsub) for n, t in zip(gn, ra) if isinstance(t, Ty)}

    def static_impl(self, f, fr):
        """local impl of a trait method for the (substituted) Self type: (body key, type substitution)"""
        ta = f.get("targs") or []
        if not ta or not isinstance(ta[0], Ty):
            return None
        me = tysubst(ta[0], fr.tsub)
        if me.k == "param":
            return None
        tr = f["trait"].split("::")[-1].split("<")[0]
        meth = norm(f["path"]).split("::")[-1]
        hits = []
        for i in self.prog.impls:
            if not i["trait"] or meth not in i["items"] or i["trait"].split("::")[-1].split("<")[0] != tr:
                continue
            m = {}
            if unify(i["self"], me, m):
                hits.append((i, m))
        if len(hits) != 1:
            return None
        i, m = hits[0]
        k = i["items"][meth]
        b = self.prog.bodies.get(k)
        if b is None or b.get("derived") and norm(f["path"]) in DERIVED_OK or "{" in f["trait"]:
            return None
        own = [g for g in b.get("gnames") or [] if g not in m]
        for g, t in zip(reversed(own), reversed(ta)):
            if isinstance(t, Ty):
                m[g] = tysubst(t, fr.tsub)
        return k, m

    def dispatch(self, st, f, args, ty):
        """local impl of a trait method chosen by the run-time shape of the receiver"""
        tr = f["trait"].split("::")[-1].split("<")[0]
        meth = norm(f["path"]).split("::")[-1]
        cands = []
        if args:
            v = self.deref(st, args[0])
            if v.op in ("struct", "enum"):
                cands.append(v.args[0])
        for adt in cands:
            i = self.prog.impl_idx.get((tr, adt))
            if i and meth in i["items"]:
                k = i["items"][meth]
                b = self.prog.bodies.get(k)
                if b is not None and not (b.get("derived") and norm(f["path"]) in DERIVED_OK):
                    return k
        return None

    def opaque(self, st, f, args, ty, name):
        """uninterpreted call: result determined by the arguments; mutable arguments are replaced"""
        vals = [self.deep(st, a) for a in args]
        vals = [self.seal(st, v) for v in vals]
        self.event(st, name, tuple(vals))
        t = mk("app", name, "obj", *vals)
        for j, a in enumerate(args):
            if a.op == "ref":
                pl = self.place_of(st, a)
                if pl:
                    self.write(st, pl, mk("post", t, j))
        for v in vals:
            self.havoc_closures(st, v)
        if ty is not None and ty.k == "never":
            st.rel = ZERO
            return mk("never")
        if ty is None or (ty.k == "tuple" and not ty.args):
            return UNIT
        return eta(t, ty)

    def seal(self, st, v):
        return v

    def havoc_closures(self, st, v):
        pass

    def make_ctor(self, f, args):
        raise Unsupported("ctor " + f["path"])

    # ------------------------------------------------------------ patterns
    def bind(self, st, fr, pat, v, place):
        """bind a pattern; returns the match condition"""
        k = pat["k"]
        if k == "Wild":
            return ONE
        if k == "Bind":
            c = ONE
            if "sub" in pat and pat["sub"]:
                c = self.bind(st, fr, pat["sub"], v, place)
            if pat["mode"] == "refmut":
                if place is None:
                    place = (self.new_root(st, v), ())
                v = self.ref(*place)
            elif pat["mode"] == "ref":
                v = self.deref(st, v) if v.op == "ref" and False else v
            ty = tysubst(pat["t"], fr.tsub)
            fr.vars[pat["var"]] = self.new_root(st, v, ty)
            return c
        if k == "Deref":
            if v.op == "ref":
                pl = (v.args[0], v.args[1])
                return self.bind(st, fr, pat["sub"], self.read(st, *pl), pl)
            return self.bind(st, fr, pat["sub"], v, place)
        if v.op == "ref":
            v0 = v
            place = (v.args[0], v.args[1])
            v = self.read(st, *place)
        if k == "Leaf":
            c = ONE
            for n, p in pat["sub"]:
                c = c * self.bind(st, fr, p, fld(v, n), place and (place[0], place[1] + (("f", n),)))
            return c
        if k == "Variant":
            vn = pat["variant"]
            c = vcond(v, vn)
            for n, p in pat["sub"]:
                x = vfield(v, vn, n)
                if x.op == "fld":
                    x = eta(x, tysubst(p["t"], fr.tsub)) if p.get("t") is not None else x
                c = c * self.bind(st, fr, p, x, place and (place[0], place[1] + (("v", vn, n),)))
            return c
        if k == "Const":
            return eqv(v, self.const_value(pat["v"]))
        if k == "Range":
            c = ONE
            x = P(v)
            if pat.get("lo") is not None:
                c = c * le(self.const_value(pat["lo"]), x)
            if pat.get("hi") is not None:
                h = self.const_value(pat["hi"])
                c = c * (le(x, h) if pat.get("incl") else lt(x, h))
            return c
        if k == "Or":
            rem, tot = ONE, ZERO
            binds = []
            for p in pat["pats"]:
                before = dict(fr.vars)
                c = self.bind(st, fr, p, v, place)
                binds.append((c, {x: r for x, r in fr.vars.items() if before.get(x) != r}))
                tot = tot + rem * c
                rem = rem * (ONE - c)
            # merge bindings
            vs = {}
            for c, b in reversed(binds):
                for x, r in b.items():
                    if x in vs:
                        st.store[vs[x]] = ite(c, st.store[r], st.store[vs[x]])
                    else:
                        vs[x] = r
            fr.vars.update(vs)
            return tot
        if k == "Slice":
            v = self.as_seq(st, v)
            pre, mid, suf = pat["prefix"], pat.get("slice"), pat["suffix"]
            n = seq_len(v)
            k0 = len(pre) + len(suf)
            c = ge0(n - k0) if mid is not None else eq0(n - k0)
            for j, p in enumerate(pre):
                c = c * self.bind(st, fr, p, seq_nth(v, C(j)), place and (place[0], place[1] + (("i", C(j)),)))
            for j, p in enumerate(suf):
                idx = n - len(suf) + j
                c = c * self.bind(st, fr, p, seq_nth(v, idx), place and (place[0], place[1] + (("i", idx),)))
            if mid is not None:
                c = c * self.bind(st, fr, mid, seq_take(seq_drop(v, C(len(pre))), n - k0), None)
            return c
        raise Unsupported("pattern " + k)

    def const_value(self, v):
        if "n" in v:
            return C(v["n"])
        if "f" in v:
            return self.floatlit(v["f"])
        if "b" in v:
            return ONE if v["b"] else ZERO
        if "str" in v:
            return S(v["str"])
        if "c" in v:
            return mk("chr", v["c"]) if False else C(v["c"])
        if "bytes" in v:
            return lst(*[C(x) for x in v["bytes"]])
        d = v.get("dbg", "")
        if "valtree: Branch([" in d and d.startswith(("Value { ty: str,", "Value { ty: &str,", "Value { ty: &'static str,")):
            bs = d[d.index("Branch([") + 8:].split("]")[0]
            try:
                return S(bytes(int(b.strip()[:-3]) for b in bs.split(",") if b.strip()).decode("utf8"))
            except ValueError:
                pass
        raise Unsupported("constant " + str(v)[:60])

    def floatlit(self, s):
        s = str(s).replace("_", "")
        for suf in ("f64", "f32"):
            if s.endswith(suf):
                s = s[:-3]
        if "nan" in s.lower():
            return A(mk("num", mk("sym", "NaN", "obj"), "real"))
        if "inf" in s.lower():
            x = A(mk("num", mk("sym", "inf", "obj"), "real"))
            return -x if s.startswith("-") else x
        if s.replace("0.", ".").startswith(".69314718055994"):
            return T.ln(C(2))  # f64::consts::LN_2
        return C(Fr(s))

    # ------------------------------------------------------------ expressions
    def ev(self, x, st, fr):
        if st.rel is ZERO:
            return mk("never")
        if "sp" in x:
            self.sp = x["sp"]
        return getattr(self, "e_" + x["k"], self.e_unknown)(x, st, fr)

    def e_unknown(self, x, st, fr):
        raise Unsupported("expression " + x["k"])

    def e_Scope(self, x, st, fr):
        e = x["e"]
        if e["k"] == "Loop":
            return self.run_loop(x["id"], e, st, fr)
        sv = self.enter(st)
        v = self.ev(e, st, fr)
        lab = x["id"]
        return self.leave(st, sv, lambda y: y.kind == "break" and y.label == lab, v)

    def e_Block(self, x, st, fr):
        for s in x["stmts"]:
            if st.rel is ZERO:
                return mk("never")
            if s["k"] == "Let":
                self.e_let(s, st, fr)
            else:
                self.ev(s["e"], st, fr)
        if x.get("e") is not None:
            return self.ev(x["e"], st, fr)
        return UNIT if st.rel is not ZERO else mk("never")

    def e_let(self, s, st, fr):
        if s.get("init") is None:
            # declared, assigned later
            self.declare(s["pat"], st, fr)
            return
        place = None
        if has_refmut(s["pat"]):
            place = self.place(s["init"], st, fr)
            v = self.read(st, *place) if place else self.ev(s["init"], st, fr)
        else:
            v = self.ev(s["init"], st, fr)
        if st.rel is ZERO:
            return
        c = self.bind(st, fr, s["pat"], v, place)
        if s.get("else") is not None:
            c = self.simp(st, c)
            if c is ONE:
                return
            s2 = st.fork(ONE - c)
            self.ev(s["else"], s2, fr)
            st.rel = pmul(st.rel, c)

    def declare(self, pat, st, fr):
        if pat["k"] == "Bind":
            fr.vars[pat["var"]] = self.new_root(st, mk("never"), tysubst(pat["t"], fr.tsub))
        for n, p in pat.get("sub") or [] if isinstance(pat.get("sub"), list) else []:
            self.declare(p, st, fr)

    def e_If(self, x, st, fr):
        if has_letcond(x["c"]):
            # bindings made by the condition live in the store of the true branch
            s0 = st
            c = self.cond(x["c"], st, fr)
        else:
            c = P(self.ev(x["c"], st, fr))
        if st.rel is ZERO:
            return mk("never")
        return self.branch(st, c, lambda s: self.ev(x["a"], s, fr), lambda s: self.ev(x["b"], s, fr) if x.get("b") is not None else UNIT)

    def cond(self, x, st, fr):
        """condition that may bind variables"""
        k = x["k"]
        if k == "Scope":
            return self.cond(x["e"], st, fr)
        if k == "LetCond":
            place = None
            if has_refmut(x["pat"]):
                place = self.place(x["e"], st, fr)
            v = self.ev(x["e"], st, fr)
            if st.rel is ZERO:
                return ZERO
            return self.bind(st, fr, x["pat"], v, place)
        if k == "Logic" and x["op"] == "And":
            c1 = self.simp(st, self.cond(x["l"], st, fr))
            if c1 is ZERO:
                return ZERO
            if c1 is ONE:
                return self.cond(x["r"], st, fr)
            s1 = st.fork(c1)
            c2 = self.cond(x["r"], s1, fr)
            st.store = self.merge_store(c1, s1.store, st.store)
            st.rel = s1.rel + pmul(st.rel, ONE - c1)
            return c1 * c2
        return P(self.ev(x, st, fr))

    def e_LetCond(self, x, st, fr):
        return self.cond(x, st, fr)

    def e_Logic(self, x, st, fr):
        if has_letcond(x):
            return self.cond(x, st, fr)
        c1 = self.simp(st, P(self.ev(x["l"], st, fr)))
        if st.rel is ZERO:
            return mk("never")
        if x["op"] == "And":
            return self.branch(st, c1, lambda s: P(self.ev(x["r"], s, fr)), lambda s: ZERO)
        return self.branch(st, c1, lambda s: ONE, lambda s: P(self.ev(x["r"], s, fr)))

    def e_Match(self, x, st, fr):
        if x.get("src") == "ForLoopDesugar":
            return self.for_loop(x, st, fr)
        place = None
        if any(has_refmut(a["pat"]) for a in x["arms"]):
            place = self.place(x["e"], st, fr)
        v = self.ev(x["e"], st, fr)
        if st.rel is ZERO:
            return mk("never")
        rem = ONE
        out = []
        entry = st
        cur = st
        for i, a in enumerate(x["arms"]):
            s = cur.fork(ONE)
            c = self.bind(s, fr, a["pat"], v, place)
            c = self.simp(s, c)
            if c is ZERO:
                continue
            s.rel = pmul(s.rel, c)
            if a.get("guard") is not None:
                g = self.cond(a["guard"], s, fr) if has_letcond(a["guard"]) else P(self.ev(a["guard"], s, fr))
                g = self.simp(s, g)
                c = c * g
                if c is ZERO:
                    continue
                s.rel = pmul(s.rel, g)
                # state changes made by guards survive
            y = self.ev(a["body"], s, fr)
            if not s.dead:
                out.append((c, y, s))
            rem = ONE - c
            cur = cur.fork(ONE - c)
            if cur.rel is ZERO or pmul(cur.base, cur.rel) is ZERO:
                break
        if not out:
            st.rel = ZERO
            return mk("never")
        c, v, s = out[-1]
        st.store, rel = (settled(s) if len(out) == 1 and i else s.store), s.rel
        val = v
        # conditions are sequential: arm k taken iff c_k and no earlier arm
        for c, y, s in reversed(out[:-1]):
            val = ite(c, y, val)
            st.store = self.merge_store(c, s.store, st.store)
            rel = rel + s.rel
        st.rel = rel
        return val

    # ---- calls
    def e_Call(self, x, st, fr):
        f = x.get("f")
        if f is None:
            fv = self.ev(x["fe"], st, fr)
            args = [self.ev(a, st, fr) for a in x["args"]]
            if st.rel is ZERO:
                return mk("never")
            self.sp = x.get("sp", self.sp)
            return self.apply(st, fv, args)
        args = []
        for a in x["args"]:
            args.append(self.ev(a, st, fr))
            if st.rel is ZERO:
                return mk("never")
        self.sp = x.get("sp", self.sp)
        return self.call(st, f, args, fr, x, x["args"])

    def e_Var(self, x, st, fr):
        return st.store[fr.root(x["var"])]

    e_Upvar = e_Var

    def e_Deref(self, x, st, fr):
        v = self.ev(x["e"], st, fr)
        if v.op == "ref":
            return self.read(st, v.args[0], v.args[1])
        return v

    def e_Borrow(self, x, st, fr):
        if not x["mut"]:
            return self.ev(x["e"], st, fr)
        p = self.place(x["e"], st, fr)
        if st.rel is ZERO:
            return mk("never")
        if p is None:
            v = self.ev(x["e"], st, fr)
            p = (self.new_root(st, v, tysubst(x["e"].get("t"), fr.tsub)), ())
        return self.ref(*p)

    def place(self, x, st, fr):
        k = x["k"]
        if k == "Scope":
            return self.place(x["e"], st, fr)
        if k in ("Var", "Upvar"):
            return (fr.root(x["var"]), ())
        if k == "Deref":
            v = self.ev(x["e"], st, fr)
            if v.op == "ref":
                return (v.args[0], v.args[1])
            return self.place(x["e"], st, fr)
        if k == "Borrow":
            return self.place(x["e"], st, fr)
        if k == "Field":
            p = self.place(x["e"], st, fr)
            return p and self.through(st, p, ("f", x["name"]))
        if k == "Index":
            p = self.place(x["e"], st, fr)
            if p is None:
                return None
            i = P(self.ev(x["i"], st, fr))
            s = self.as_seq(st, self.read(st, *p))
            self.sp = x.get("sp", self.sp)
            self.oblige(st, "index", ONE - lt(i, seq_len(s)) * ge0(i))
            return self.through(st, p, ("i", i))
        return None

    def through(self, st, p, e):
        v = self.read(st, *p)
        if v.op == "ref":
            p = (v.args[0], v.args[1])
        return (p[0], p[1] + (e,))

    def e_Field(self, x, st, fr):
        v = self.ev(x["e"], st, fr)
        v = self.deref(st, v)
        if v.op == "never":
            return v
        r = fld(v, x["name"])
        if r.op == "fld":
            r = eta(r, tysubst(x["t"], fr.tsub))
        return r

    def e_Index(self, x, st, fr):
        v = self.deref(st, self.ev(x["e"], st, fr))
        i = self.ev(x["i"], st, fr)
        if st.rel is ZERO:
            return mk("never")
        s = self.as_seq(st, v)
        i = P(i)
        self.sp = x.get("sp", self.sp)
        self.oblige(st, "index", ONE - lt(i, seq_len(s)) * ge0(i))
        r = seq_nth(s, i)
        return r if r.op != "nth" else eta(r, tysubst(x["t"], fr.tsub))

    def as_seq(self, st, v):
        v = self.deref(st, v)
        if is_seq(v):
            return v
        if v.op == "cases" and all(is_seq(y) for y, _ in v.args):
            return v
        if v.op == "it":
            return self.force(st, v)
        if v.op == "never":
            return EMPTY
        if v.op in ("app", "fld", "nth", "post", "num", "sym", "at", "cases"):
            return v
        raise Unsupported("not a sequence: " + v.op)

    def e_Lit(self, x, st, fr):
        if "n" in x:
            v = C(x["n"])
            return v
        if "f" in x:
            return self.floatlit(x["f"])
        return self.const_value(x)

    def e_Const(self, x, st, fr):
        for k in ("n", "b"):
            if k in x:
                return self.const_value(x)
        if "f64" in x:
            return self.floatlit(x["f64"])
        f = x["f"]
        key = f.get("rkey") or f["key"]
        b = self.prog.bodies.get(key)
        if b is not None:
            v = self.consts.get(key)
            if v is None:
                v = self.consts[key] = self.call_key(st, key, [])
            return v
        return eta(mk("const", norm(f["path"])), tysubst(x["t"], fr.tsub))

    def e_Static(self, x, st, fr):
        key = x.get("key")
        b = self.prog.bodies.get(key)
        t = str(tysubst(x["t"], fr.tsub))
        if b is not None and not any(c in t for c in ("Atomic", "Mutex", "RwLock", "Cell", "OnceLock", "*mut")):
            v = self.consts.get(key)
            if v is None:
                v = self.consts[key] = self.call_key(st, key, [])
            return v
        return mk("const", str(x.get("path") or key))

    def e_Zst(self, x, st, fr):
        return UNIT

    def e_Fn(self, x, st, fr):
        self.nroot += 1
        f = x["f"]
        if f.get("ctor") or f.get("kind") == "Ctor":
            pass
        t = mk("fnval", self.nroot)
        self.clos[self.nroot] = (f, fr)
        return t

    def e_Closure(self, x, st, fr):
        body = self.prog.bodies.get(x["key"])
        if body is None:
            raise Unsupported("closure body missing")
        caps = body.get("caps") or []
        f2 = fr
        ups = x.get("upvars") or []
        if any(c == "val" for c in caps) and len(caps) == len(ups):
            f2 = Frame(body, fr, fr.tsub)
            for c, u in zip(caps, ups):
                if c == "val":
                    v = base_var(u)
                    if v is not None:
                        r = fr.root(v)
                        f2.vars[v] = self.new_root(st, st.store[r], self.rty.get(r))
        self.nroot += 1
        self.clos[self.nroot] = (x["key"], f2)
        return mk("clos", self.nroot)

    def e_Tuple(self, x, st, fr):
        return mk("tuple", *[self.ev(e, st, fr) for e in x["es"]]) if x["es"] else UNIT

    def e_Array(self, x, st, fr):
        return lst(*[self.ev(e, st, fr) for e in x["es"]])

    def e_Repeat(self, x, st, fr):
        v = self.ev(x["e"], st, fr)
        n = x["n"]
        if isinstance(n, dict):
            n = n.get("n")
        if str(n).isdigit():
            return lst(*[v] * int(n)) if int(n) <= 64 else rep(v, C(int(n)))
        return rep(v, A(mk("sym", "N:" + str(n), "nat")))

    def e_Adt(self, x, st, fr):
        fs = [(n, self.ev(e, st, fr)) for n, e in x["fields"]]
        if st.rel is ZERO:
            return mk("never")
        adt = stdname(x["adt"])
        if x.get("enum"):
            fs = sorted(fs)
            return mk("enum", adt, ((x["variant"], ONE, tuple(fs)),))
        if x.get("base") is not None:
            b = self.ev(x["base"], st, fr) if x["base"] is not True else mk("defaults", adt)
        else:
            b = None
        if adt in TRANSPARENT and len(fs) == 1:
            return fs[0][1]
        d = dict(fs)
        info = self.prog.adts.get(x["adt"])
        order = [n for n, _ in info["variants"][0][1]] if info else [n for n, _ in fs]
        out = []
        for n in order:
            if n in d:
                out.append((n, d[n]))
            elif b is not None:
                out.append((n, fld(b, n)))
        if not info:
            out = fs
        return mk("struct", adt, tuple(out))

    def e_Assign(self, x, st, fr):
        v = self.ev(x["r"], st, fr)
        if st.rel is ZERO:
            return mk("never")
        p = self.place(x["l"], st, fr)
        if p is None:
            raise Unsupported("assignment target")
        if st.rel is not ZERO:
            self.write(st, p, v)
        return UNIT

    def e_AssignOp(self, x, st, fr):
        r = self.ev(x["r"], st, fr)
        if st.rel is ZERO:
            return mk("never")
        p = self.place(x["l"], st, fr)
        if p is None:
            raise Unsupported("assignment target")
        l = self.read(st, *p)
        self.sp = x.get("sp", self.sp)
        v = self.arith(st, x["op"].replace("Assign", ""), l, r, tysubst(x["l"]["t"], fr.tsub))
        if st.rel is not ZERO:
            self.write(st, p, v)
        return UNIT

    def e_Bin(self, x, st, fr):
        l = self.ev(x["l"], st, fr)
        r = self.ev(x["r"], st, fr)
        if st.rel is ZERO:
            return mk("never")
        self.sp = x.get("sp", self.sp)
        return self.arith(st, x["op"], self.deref(st, l), self.deref(st, r), tysubst(x["l"].get("t"), fr.tsub))

    def arith(self, st, op, a, b, ty):
        ts = ty.s.lstrip("&").replace("mut ", "") if ty is not None else "f64"
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(op, a, b)
        if ts == "bool":
            a, b = P(a), P(b)
            return {"BitAnd": lambda: a * b, "BitOr": lambda: OR(a, b), "BitXor": lambda: a + b - 2 * a * b}[op]()
        a, b = P(a), P(b)
        if op == "Add":
            self.overflow(st, ts, a + b)
            return a + b
        if op == "Mul":
            self.overflow(st, ts, a * b)
            return a * b
        if op == "Sub":
            if ts in UNSIGNED:
                self.oblige(st, "sub underflow", ONE - ge0(a - b))
            return a - b
        if op == "Div":
            if ts in UNSIGNED or ts in SIGNED:
                z = self.simp(st, eq0(b))
                self.oblige(st, "division by zero", z)
                return idiv(a, b)
            return self.fdiv(st, a, b)
        if op == "Rem":
            if ts in UNSIGNED or ts in SIGNED:
                self.oblige(st, "division by zero", self.simp(st, eq0(b)))
                return imod(a, b)
            return fnum("frem", a, b)
        if op == "Shl":
            k = const_of(b)
            if k is not None:
                self.overflow(st, ts, scale(a, Fr(2) ** int(k)))
                return scale(a, Fr(2) ** int(k))
            k = const_of(a)
            n = BITS.get(ts, 64)
            if k is not None and k > 0:
                # no bit is lost below this shift
                self.warn(st, "overflow", ge0(b - (n - (ts in SIGNED) - int(k).bit_length() + 1)), ts)
                return scale(exp2(b), k)
            self.warn(st, "overflow", ge0(b - n), ts)
            return A(mk("num", mk("shl", a, b), "nat"))
        if op == "Shr":
            k = const_of(b)
            if k is not None:
                return idiv(a, C(2 ** int(k)))
        return A(mk("num", mk("bitop", op, a, b), "nat"))

    def warn(self, st, kind, fail, detail=""):
        """an obligation that does not restrict what follows"""
        c = pmul(st.pc, fail)
        if not self.silent and c is not ZERO:
            self.obl.append((kind, self.fnname(), self.sp, c, detail))

    def overflow(self, st, ts, v):
        """integer arithmetic on input numbers leaves the range of its type (counts are assumed not to)"""
        n = BITS.get(ts)
        if n is None or self.silent or v.op != "poly" or len(v.args) > 6 or st.pc.op == "poly" and len(st.pc.args) > 40:
            return
        atoms = {a for m, _ in v.args for a, _ in m}
        if not any(_input(a) for a in atoms) or any(a.op == "sum" for a in atoms):
            return
        self.warn(st, "overflow", ge0(v - 2 ** (n - (ts in SIGNED))), ts)

    def fdiv(self, st, a, b):
        if not self.silent:
            z = eq0(P(b))
            self.obl.append(("float division by zero", self.fnname(), self.sp, pmul(st.pc, z) if z is not ZERO else ZERO, ""))
        return div(a, b, st.pc)

    def compare(self, op, a, b):
        if a.op == "poly" or b.op == "poly":
            a, b = P(a), P(b)
            if op == "Eq":
                return eq0(a - b)
            if op == "Ne":
                return ONE - eq0(a - b)
            if op == "Lt":
                return lt(a, b)
            if op == "Gt":
                return lt(b, a)
            if op == "Le":
                return le(a, b)
            return le(b, a)
        if op == "Eq":
            return eqv(a, b)
        if op == "Ne":
            return ONE - eqv(a, b)
        if op == "Lt":
            return ltv(a, b)
        if op == "Gt":
            return ltv(b, a)
        if op == "Le":
            return ONE - ltv(b, a)
        return ONE - ltv(a, b)

    def e_Un(self, x, st, fr):
        v = self.ev(x["e"], st, fr)
        if st.rel is ZERO:
            return mk("never")
        v = P(self.deref(st, v))
        if x["op"] == "Neg":
            return -v
        if x["t"].s == "bool":
            return ONE - v
        return A(mk("num", mk("bitnot", v), "nat"))

    def e_Cast(self, x, st, fr):
        v = self.ev(x["e"], st, fr)
        if st.rel is ZERO:
            return v
        src = tysubst(x["e"].get("t"), fr.tsub)
        dst = tysubst(x["t"], fr.tsub)
        if v.op == "poly" and src is not None and src.s in SIGNED and not is_nonneg(v) and self.simp(st, ge0(v)) is ONE:
            return self.cast(v, src, dst, True)
        return self.cast(v, src, dst)

    def cast(self, v, src, dst, nonneg=False):
        if v.op == "enum":
            return A(mk("num", mk("discr", v), "int"))
        if v.op != "poly":
            return v
        s, d = (src.s if src else "?"), dst.s
        if d == "f32" and s not in ("f32", "i8", "u8", "i16", "u16", "bool"):
            # loses digits
            return lift(lambda q: q if is_f32(const_of(q)) else A(mk("fn", "f32", q)), v)
        if d in ("f64", "f32"):
            return v
        if d in BITS:
            if s in ("bool", "char"):
                return v
            if s in ("f64", "f32"):
                if is_int(v) and (is_nonneg(v) or d in SIGNED):
                    return v
                return trunc(v, d)
            if s in BITS:
                su, du = s in UNSIGNED, d in UNSIGNED
                bs, bd = BITS[s], BITS[d]
                if su and (bd > bs or (du and bd >= bs) or (bs == 64 and bd == 64)):
                    return v
                if not su and not du and bd >= bs:
                    return v
                if not su and du and bd >= bs and (nonneg or is_nonneg(v)):
                    return v
                if not su and bd >= bs and bs == 64 and (nonneg or is_nonneg(v)):
                    return v
                k = const_of(v)
                if k is not None:
                    w = int(k) % (1 << bd)
                    if not du and w >= 1 << (bd - 1):
                        w -= 1 << bd
                    return C(w)
                if bs == 64 and su and all(a.op in ("len", "fv", "bv", "sum") or is_int_size(a) for m, _ in v.args for a, e in m):
                    # sizes and positions: narrower target may truncate
                    pass
                return lift(lambda q: q if const_of(q) is not None and 0 <= const_of(q) < (1 << (bd - 1)) else A(mk("cast", d, q)), v)
        return v

    def e_NeverToAny(self, x, st, fr):
        return self.ev(x["e"], st, fr)

    def e_Coerce(self, x, st, fr):
        return self.ev(x["e"], st, fr)

    def e_Break(self, x, st, fr):
        v = self.ev(x["e"], st, fr) if x.get("e") is not None else UNIT
        if st.rel is not ZERO:
            self.exits.append(Exit("break", x["label"], st.rel, v, dict(st.store)))
            st.rel = ZERO
        return mk("never")

    def e_Continue(self, x, st, fr):
        if st.rel is not ZERO:
            self.exits.append(Exit("continue", x["label"], st.rel, UNIT, dict(st.store)))
            st.rel = ZERO
        return mk("never")

    def e_Return(self, x, st, fr):
        v = self.ev(x["e"], st, fr) if x.get("e") is not None else UNIT
        if st.rel is not ZERO:
            self.exits.append(Exit("return", None, st.rel, v, dict(st.store)))
            st.rel = ZERO
        return mk("never")

    # ------------------------------------------------------------ loops
    world = None  # cells of the modelled outside world (engine/ext.py)
    forget = None  # cell set when the program fails (what it wrote is then not tracked)
    expand = 0  # loops over constant ranges up to this length are unrolled
    given = {}  # values of command line arguments that are not arbitrary
    hooks = {}  # body key -> replacement semantics
    unroll = 0  # bound on the iterations of loops over known data

    def for_loop(self, x, st, fr):
        # match into_iter(arg) { iter => 'label loop { match next(&mut iter) { None => break, Some(pat) => body } } }
        it = self.ev(x["e"], st, fr)
        if st.rel is ZERO:
            return mk("never")
        body = x["arms"][0]["body"]
        while body["k"] == "Scope" and body["e"]["k"] != "Loop":
            body = body["e"]
        label = body["id"]
        inner = body["e"]["e"] if "e" in body["e"] else body["e"]["body"]
        m = find_match(inner)
        arm = [a for a in m["arms"] if a["pat"]["k"] == "Variant" and a["pat"]["variant"] == "Some"][0]
        pat = arm["pat"]["sub"][0][1]
        seq = self.force(st, it) if it.op == "it" else self.as_seq(st, it)

        def step(s, elem):
            self.bind(s, fr, pat, elem, None)
            self.ev(arm["body"], s, fr)

        return self.loop_over(seq, label, step, st)

    def loop_over(self, seq, label, step, st):
        """for elem in seq { step } with break/continue to `label`"""
        sv = self.enter(st)
        self.iterate(seq, label, step, st)
        self.leave(st, sv, lambda y: y.kind == "break" and y.label == label, UNIT)
        return UNIT if st.rel is not ZERO else mk("never")

    def iterate(self, seq, label, step, st):
        if st.rel is ZERO:
            return
        op = seq.op
        if op == "list":
            for v in seq.args:
                if st.rel is ZERO:
                    return
                self.one_iter(label, step, st, v)
            return
        if op == "cat":
            for p in seq.args:
                self.iterate(p, label, step, st)
            return
        if op == "comp":
            fvs, c, v = open_comp(seq)
            if not fvs:
                self.branch(st, c, lambda s: self.one_iter(label, step, s, v), lambda s: UNIT)
                return
            if self.expand and len(fvs) == 1:
                k = V.const_bound(fvs[0], c)
                if k is not None and k <= self.expand:
                    for j in range(k):
                        m = {fvs[0]: C(j)}
                        cj, vj = P(subst(c, m)), subst(v, m)
                        if st.rel is ZERO:
                            return
                        self.branch(st, cj, lambda s: self.one_iter(label, step, s, vj), lambda s: UNIT)
                    return
            self.nest(fvs, 0, c, v, label, step, st)
            return
        if op == "cases" and len(seq.args) <= 4:
            # same body under either alternative
            lens = [seq_len(y) for y, _ in seq.args]
            if not all(is_prefix(y) for y, _ in seq.args):
                alts = list(seq.args)

                def go(k, s):
                    y, c = alts[k]
                    if k == len(alts) - 1:
                        return self.iterate(y, label, step, s) or UNIT
                    return self.branch(s, c, lambda s1: self.iterate(y, label, step, s1) or UNIT, lambda s2: go(k + 1, s2))

                go(0, st)
                return
        i = fresh()
        n = seq_len(seq)
        self.nest([i], 0, lt(A(i), n), seq_nth(seq, A(i)), label, step, st)

    def one_iter(self, label, step, st, v):
        sv = self.enter(st)
        step(st, v)
        self.leave(st, sv, lambda y: y.kind == "continue" and y.label == label, UNIT)
        return UNIT

    def nest(self, fvs, k, c, v, label, step, st):
        if k == len(fvs) - 1:
            self.sym_loop(fvs[k], c, lambda s: self.one_iter(label, step, s, v), st)
        else:
            # outer binders: domain part that involves only binders up to k (over-approximated by "some inner index exists")
            d = c
            for x in reversed(fvs[k + 1:]):
                d = Exists(x, d)
            self.sym_loop(fvs[k], d, lambda s: self.nest(fvs, k + 1, c, v, label, step, s), st)

    def run_loop(self, label, e, st, fr):
        body = e.get("e") or e.get("body")
        w = while_next(body)
        if w is not None and var_uses(fr.body, w[0]) == 1:
            # while let Some(pat) = iter.next() { body } over an iterator nobody else touches
            var, pat, inner, nxt = w
            p = self.place_of(st, self.ev(nxt["args"][0], st, fr))
            x = self.read(st, *p) if p is not None else None
            if x is not None and (x.op == "it" or is_seq(x)):
                seq = self.force(st, x) if x.op == "it" else x
                self.write(st, p, mk("itp", seq, seq_len(seq)))

                def each(s, elem):
                    self.bind(s, fr, pat, elem, None)
                    self.ev(inner, s, fr)

                return self.loop_over(seq, label, each, st)
        v = fresh()

        def step(s):
            self.one_iter(label, lambda s1, _: self.ev(body, s1, fr), s, UNIT)

        if self.unroll:
            sv = self.enter(st)
            for _ in range(self.unroll):
                if st.rel is ZERO:
                    break
                step(st)
            if st.rel is not ZERO:
                raise Unsupported("loop without a known number of iterations")
            return self.leave(st, sv, lambda y: y.kind == "break" and y.label == label, mk("never"))
        sv = self.enter(st)
        self.sym_loop(v, ONE, step, st)
        return self.leave(st, sv, lambda y: y.kind == "break" and y.label == label, mk("never"))

    def sym_loop(self, v, dom, step, st):
        """for v = 0,1,2,.. : if dom {step}.  Exits out of the loop are re-raised in closed form."""
        if self.simp(st, dom) is ZERO:
            return
        infinite = dom is ONE
        base = pmul(st.base, st.rel)
        rel0 = st.rel
        outer = self.exits
        # ---- discovery of the loop-carried state
        self.silent += 1
        unsup0 = None
        cells = {}
        try:
            for _ in range(8):
                s = St(dict(st.store), base, dom)
                for r, cl in cells.items():
                    s.store[r] = cl.carry
                self.exits = []
                n0 = self.nroot
                step(s)
                end = s.store
                ch = [r for r in st.store if r <= n0 and r in end and end[r] is not st.store[r] and r not in cells] if not s.dead else []
                retry = False
                for r, cl in list(cells.items()):
                    if s.dead:
                        break
                    if end[r] is not cl.carry and not cl.check(self, end[r]):
                        retry = True
                for r in ch:
                    cells[r] = Cell(self, r, st.store[r], self.rty.get(r), end[r])
                if not ch and not retry:
                    break
            else:
                raise Unsupported("loop state does not stabilise")
            dead_end = s.dead
            if not dead_end:
                news = {}
                for r, cl in cells.items():
                    news[r] = ite(dom, end[r], cl.carry) if not infinite else end[r]
                live = s.rel
        finally:
            self.silent -= 1
            self.exits = outer
        # ---- recurrences
        if dead_end or not cells:
            at_v = {r: st.store[r] for r in cells}
            at_end = at_v
        else:
            at_v, at_end = solve(self, cells, news, v, infinite, dom, live)
        # ---- final pass with the state at the beginning of iteration v
        s = St(dict(st.store), base, dom)
        for r, x in at_v.items():
            s.store[r] = x
        self.exits = []
        self.binders.append((v, dom))
        step(s)
        self.binders.pop()
        ex = [x for x in self.exits if x.rel is not ZERO and pmul(base, x.rel) is not ZERO]
        self.exits = outer
        # ---- leave
        endstore = dict(st.store)
        endstore.update(at_end)
        if not ex:
            if infinite:
                st.rel = ZERO
            st.store = endstore
            return
        X = psum([x.rel for x in ex])
        E = ONE if infinite else Exists(v, X)
        p = Pos(v, X)
        tot = ZERO
        for k, x in enumerate(ex):
            if len(ex) == 1:
                Ek = E
            elif k == len(ex) - 1:
                Ek = E - tot
            else:
                Ek = E * subst(x.rel, {v: p})
            tot = tot + Ek
            r = pmul(rel0, Ek)
            if r is ZERO:
                continue
            m = {v: p}
            store = {q: (subst(y, m) if v in y.fv else y) for q, y in x.store.items()}
            val = subst(x.value, m) if x.value is not None and v in x.value.fv else x.value
            # p is a feasible position only under E
            self.exits.append(Exit(x.kind, x.label, r, under(val, Ek), store))
        st.store = endstore
        st.rel = ZERO if infinite else pmul(rel0, ONE - E)

    # ------------------------------------------------------------ iterators
    def force(self, st, it):
        """run the pending stages of an iterator value; returns the sequence of items"""
        if it.op == "ref":
            it = self.deref(st, it)
        if it.op == "cases":
            if all(x.op == "it" for x, _ in it.args):
                return cases([(self.force(st, x), c) for x, c in it.args])
        if it.op != "it":
            return self.as_seq(st, it)
        seq, stages = it.args
        stages = list(stages)
        # positional stages commute with item-wise ones
        moved = True
        while moved:
            moved = False
            for i in range(1, len(stages)):
                a, b = stages[i - 1], stages[i]
                if a[0] == "map" and b[0] in ("take", "skip", "rev", "step"):
                    stages[i - 1], stages[i] = b, a
                    moved = True
                elif a[0] == "enum" and b[0] == "take":
                    stages[i - 1], stages[i] = b, a
                    moved = True
        for sg in stages:
            seq = self.stage(st, seq, sg)
            if st.rel is ZERO:
                return EMPTY
        return seq

    def stage(self, st, seq, sg):
        k = sg[0]
        if k == "map":
            return self.seq_apply(st, seq, lambda s, x: self.apply(s, sg[1], [x]))
        if k == "filter":
            pairs = self.seq_apply(st, seq, lambda s, x: tup(P(self.apply(s, sg[1], [x])), x))
            return seq_map(seq_filter(pairs, lambda y: P(fld(y, "0"))), lambda y: fld(y, "1"))
        if k == "filter_map":
            return seq_flat(self.seq_apply(st, seq, lambda s, x: self.apply(s, sg[1], [x])))
        if k == "flat_map":
            inner = self.seq_apply(st, seq, lambda s, x: self.items(s, self.apply(s, sg[1], [x])))
            return seq_flat(inner)
        if k == "flatten":
            return seq_flat(self.seq_apply(st, seq, lambda s, x: self.items(s, x)))
        if k == "take":
            return seq_take(seq, sg[1])
        if k == "skip":
            return seq_drop(seq, sg[1])
        if k == "rev":
            return seq_rev(seq)
        if k == "enum":
            return seq_enumerate(seq)
        if k == "zip":
            return seq_zip(seq, sg[1])
        if k == "step":
            n = sg[1]
            j = fresh()
            return Comp([j], lt(A(j) * n, seq_len(seq)), seq_nth(seq, A(j) * n))
        if k == "take_while":
            c = self.seq_apply(st, seq, lambda s, x: ONE - P(self.apply(s, sg[1], [x])))
            i = fresh()
            cond = seq_dom(c, i) * seq_nth(c, A(i))
            E = Exists(i, cond)
            return seq_take(seq, E * Pos(i, cond) + (ONE - E) * seq_len(seq))
        if k == "skip_while":
            c = self.seq_apply(st, seq, lambda s, x: ONE - P(self.apply(s, sg[1], [x])))
            i = fresh()
            cond = seq_dom(c, i) * seq_nth(c, A(i))
            E = Exists(i, cond)
            return seq_drop(seq, E * Pos(i, cond) + (ONE - E) * seq_len(seq))
        if k == "inspect":
            self.seq_apply(st, seq, lambda s, x: self.apply(s, sg[1], [x]))
            return seq
        if k == "scan":
            root = self.new_root(st, sg[1])
            r = self.seq_apply(st, seq, lambda s, x: self.apply(s, sg[2], [self.ref(root), x]))
            i = fresh()
            some = seq_dom(r, i) * (ONE - vcond(seq_nth(r, A(i)), "Some"))
            E = Exists(i, some)
            r = seq_take(r, E * Pos(i, some) + (ONE - E) * seq_len(r)) if E is not ZERO else r
            return seq_map(r, lambda y: vfield(y, "Some", "0"))
        if k == "map_while":
            r = self.seq_apply(st, seq, lambda s, x: self.apply(s, sg[1], [x]))
            i = fresh()
            stop = seq_dom(r, i) * (ONE - vcond(seq_nth(r, A(i)), "Some"))
            E = Exists(i, stop)
            r = seq_take(r, E * Pos(i, stop) + (ONE - E) * seq_len(r)) if E is not ZERO else r
            return seq_map(r, lambda y: vfield(y, "Some", "0"))
        raise Unsupported("iterator stage " + k)

    def items(self, st, v):
        """IntoIterator::into_iter(v), forced"""
        import models

        return self.force(st, models.into_iter(self, st, v, None))

    def seq_apply(self, st, seq, f):
        """sequence of f(elem); f may change state (then run as a loop)"""
        op = seq.op
        if op == "list":
            out = []
            for x in seq.args:
                out.append(f(st, x))
                if st.rel is ZERO:
                    return EMPTY
            return lst(*out)
        if op == "cat":
            return cat(*[self.seq_apply(st, p, f) for p in seq.args])
        if op == "cases":
            if all(is_prefix(x) for x, _ in seq.args):
                i = fresh()
                return self.seq_apply(st, Comp([i], lt(A(i), seq_len(seq)), seq_nth(seq, A(i))), f)
            return cases([(self.seq_apply(st, x, f), c) for x, c in seq.args])
        if op == "comp":
            fvs, c, v = open_comp(seq)
        else:
            i = fresh()
            fvs, c, v = [i], lt(A(i), seq_len(seq)), seq_nth(seq, A(i))
        # try as a pure function of the element
        s = St(dict(st.store), pmul(st.base, st.rel), c)
        n0 = self.nroot
        lens = (len(self.obl), len(self.events), len(self.unsup))
        outer = self.exits
        self.exits = []
        for x in fvs:
            self.binders.append((x, c))
        y = f(s, v)
        for x in fvs:
            self.binders.pop()
        self.exits = outer
        if s.rel is ZERO:
            # every call diverges
            e = c
            for x in reversed(fvs):
                e = Exists(x, e)
            st.rel = pmul(st.rel, ONE - e)
            return EMPTY
        changed = any(r <= n0 and s.store.get(r) is not w for r, w in st.store.items())
        if not changed:
            if s.rel is not c:
                bad = c - s.rel
                e = bad
                for x in reversed(fvs):
                    e = Exists(x, e) if x is not fvs[0] else Exists(x, e)
                st.rel = pmul(st.rel, ONE - e)
            for r, w in s.store.items():
                if r > n0 and r not in st.store:
                    st.store[r] = w
            return Comp(fvs, c, y)
        del self.obl[lens[0]:], self.events[lens[1]:], self.unsup[lens[2]:]
        acc = self.new_root(st, EMPTY)

        def step(s2, x):
            y2 = f(s2, x)
            if s2.rel is not ZERO:
                s2.store[acc] = cat(s2.store[acc], lst(y2))

        self.loop_over(Comp(fvs, c, v), "@apply%d" % acc, step, st)
        return st.store.get(acc, EMPTY)


def _input(a):
    """an integer that comes from outside (an argument, a grade), not a counter"""
    if a.op == "sym":
        return True
    if a.op != "num":
        return False
    t = a.args[0]
    while isinstance(t, Term) and t.op in ("nth", "fld", "at", "msym"):
        t = t.args[0]
    return isinstance(t, Term) and t.op in ("sym", "app")


class Call:
    __slots__ = ("f", "fr", "ty", "argnodes", "name")

    def __init__(self, f, fr, ty, argnodes, name):
        self.f, self.fr, self.ty, self.argnodes, self.name = f, fr, ty, argnodes, name

    def argty(self, i):
        if self.argnodes and i < len(self.argnodes):
            t = self.argnodes[i].get("t")
            return tysubst(t, self.fr.tsub) if t is not None else None
        if i == 0 and not self.argnodes:
            # a function passed as a value: the types its trait is instantiated with
            head = self.name.split("::")[0]
            if head in ("ToString", "PartialOrd", "PartialEq", "Ord", "Add", "Sub", "Mul", "Div", "Neg", "Into", "TryInto"):
                return self.targ(0)
            if head in ("From", "TryFrom"):
                return self.targ(1)
        return None

    def targ(self, i):
        ts = self.f.get("targs") or []
        return tysubst(ts[i], self.fr.tsub) if i < len(ts) and isinstance(ts[i], Ty) else None


DERIVED_OK = {"Clone::clone", "PartialEq::eq", "PartialEq::ne", "Ord::cmp", "PartialOrd::partial_cmp", "PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge", "Debug::fmt", "Hash::hash"}


def cases_map(v, f):
    return cases([(f(x), c) for x, c in v.args])


def has_refmut(p):
    k = p["k"]
    if k == "Bind":
        return p["mode"] == "refmut" or bool(p.get("sub") and has_refmut(p["sub"]))
    if k in ("Leaf", "Variant"):
        return any(has_refmut(q) for _, q in p["sub"])
    if k == "Deref":
        return has_refmut(p["sub"])
    if k == "Or":
        return any(has_refmut(q) for q in p["pats"])
    if k == "Slice":
        return any(has_refmut(q) for q in p["prefix"] + p["suffix"])
    return False


def has_letcond(x):
    k = x["k"]
    if k == "LetCond":
        return True
    if k == "Scope":
        return has_letcond(x["e"])
    if k == "Logic":
        return has_letcond(x["l"]) or has_letcond(x["r"])
    return False


def strip_scope(x):
    while True:
        if x["k"] == "Scope":
            x = x["e"]
        elif x["k"] == "Block" and not x["stmts"] and x.get("e") is not None:
            x = x["e"]
        elif x["k"] == "Block" and len(x["stmts"]) == 1 and x.get("e") is None and x["stmts"][0]["k"] != "Let":
            x = x["stmts"][0]["e"]
        elif x["k"] in ("NeverToAny", "Coerce"):
            x = x["e"]
        else:
            return x


def while_next(body):
    """(iterator variable, pattern, loop body, next call) of  while let Some(pat) = it.next() {..}"""
    x = strip_scope(body)
    if x["k"] == "If":
        c = strip_scope(x["c"])
        if c["k"] != "LetCond" or x.get("b") is None or strip_scope(x["b"])["k"] != "Break":
            return None
        pat, e, inner = c["pat"], c["e"], x["a"]
    elif x["k"] == "Match" and x.get("src") != "ForLoopDesugar" and len(x["arms"]) == 2:
        some = [a for a in x["arms"] if a["pat"]["k"] == "Variant" and a["pat"].get("variant") == "Some" and a.get("guard") is None]
        none = [a for a in x["arms"] if a not in some]
        if len(some) != 1 or strip_scope(none[0]["body"])["k"] != "Break":
            return None
        pat, e, inner = some[0]["pat"], x["e"], some[0]["body"]
    else:
        return None
    if pat["k"] != "Variant" or pat.get("variant") != "Some" or len(pat["sub"]) != 1:
        return None
    e = strip_scope(e)
    if e["k"] != "Call" or e.get("f") is None or norm(e["f"]["path"]) != "Iterator::next":
        return None
    v = base_var(e["args"][0])
    if v is None:
        return None
    return v, pat["sub"][0][1], inner, e


_uses = {}


def var_uses(body, var):
    k = id(body)
    if k not in _uses:
        n = {}
        todo = [body]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if x.get("k") in ("Var", "Upvar") and "var" in x:
                    n[x["var"]] = n.get(x["var"], 0) + 1
                todo.extend(y for y in x.values() if isinstance(y, (dict, list)))
            elif isinstance(x, (list, tuple)):
                todo.extend(y for y in x if isinstance(y, (dict, list, tuple)))
        _uses[k] = (body, n)
    return _uses[k][1].get(var, 0)


def base_var(u):
    while True:
        k = u["k"]
        if k in ("Var", "Upvar"):
            return u["var"]
        if k in ("Scope", "Borrow", "Deref", "Field"):
            if k == "Field":
                return None
            u = u["e"]
            continue
        return None


def find_match(x):
    while x["k"] != "Match":
        if x["k"] == "Block":
            if x.get("e") is not None:
                x = x["e"]
            else:
                x = x["stmts"][0]["e"]
        else:
            x = x["e"]
    return x


def is_int_size(a):
    return False


def rep(v, n):
    i = fresh()
    return Comp([i], lt(A(i), n), v, unroll=False)


def trunc(v, d):
    return lift(lambda q: C(int(const_of(q))) if const_of(q) is not None else A(mk("trunc", d, q)), v)


def idiv(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb:
        return C(int(ca) // int(cb))
    if cb == 1:
        return a
    return lift(lambda p, q: C(int(const_of(p)) // int(const_of(q))) if const_of(p) is not None and const_of(q) else A(mk("floordiv", p, q)), a, b)


def imod(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb:
        return C(int(ca) % int(cb))
    return lift(lambda p, q: C(int(const_of(p)) % int(const_of(q))) if const_of(p) is not None and const_of(q) else A(mk("mod", p, q)), a, b)


REBUILD["floordiv"] = idiv
REBUILD["mod"] = imod
REBUILD["trunc"] = lambda d, v: trunc(v, d)
REBUILD["cast"] = lambda d, v: A(mk("cast", d, v)) if const_of(v) is None else v
T.INDOPS.add("bitbool")


# ---------------------------------------------------------------- loop-carried cells
_cellid = [0]


class Cell:
    """a root modified by a loop: symbolic value at the start of an iteration"""

    def __init__(self, I, root, v0, ty, new0):
        _cellid[0] += 1
        self.root = root
        self.v0 = v0
        self.ty = ty
        self.K = mk("carry", _cellid[0])
        self.grow = {}
        self.leaves = []
        self.carry = self.shape(I, v0, ty, self.K, new0)

    def check(self, I, new):
        """False when the assumed shape is wrong (then it is rebuilt coarser)"""
        return True

    def shape(self, I, v0, ty, k, new):
        while ty is not None and (ty.k == "ref" or (ty.k == "adt" and stdname(ty.adt) in TRANSPARENT and ty.args)):
            ty = ty.of if ty.k == "ref" else ty.args[0]
        op = v0.op
        if op == "poly":
            s = sort_of_ty(ty)
            if ty is not None and ty.k == "prim" and ty.s == "bool":
                return A(mk("pred", k))
            if s is None:
                n = new if new.op == "poly" else v0
                s = "real" if not (is_int(v0) and is_int(n)) else ("nat" if is_nonneg(v0) and is_nonneg(n) else "int")
                if ty is None and V._is_bool(v0) and V._is_bool(n) and not (const_of(v0) is not None and const_of(n) is not None):
                    return A(mk("pred", k))
            return A(mk("num", k, s))
        if op == "struct":
            adt = None
            fts = {}
            if ty is not None and ty.k == "adt":
                adt = I.prog.adts.get(ty.adt)
                if adt and adt["kind"] == "struct" and adt["variants"]:
                    m = dict(zip(adt["gparams"], ty.args))
                    fts = {n: tysubst(t, m) for n, t in adt["variants"][0][1]}
            nf_ = dict(new.args[1]) if new.op == "struct" else {}
            return mk("struct", v0.args[0], tuple((n, self.shape(I, x, fts.get(n), mk("fld", k, n), nf_.get(n, x)) if nf_.get(n, None) is not x else x) for n, x in v0.args[1]))
        if op == "tuple":
            tys = ty.args if ty is not None and ty.k == "tuple" else [None] * len(v0.args)
            nw = new.args if new.op == "tuple" else v0.args
            return mk("tuple", *[self.shape(I, x, t, mk("fld", k, str(j)), y) for j, (x, t, y) in enumerate(zip(v0.args, tys, nw))])
        if op == "it":
            # remaining items: position advances
            return v0 if new is v0 else mk("it", self.shape(I, v0.args[0], None, mk("fld", k, "seq"), new.args[0] if new.op == "it" else v0.args[0]), v0.args[1])
        if is_seq(v0) or (op == "cases" and all(is_seq(x) for x, _ in v0.args)):
            et = None
            if ty is not None:
                if ty.k == "slice":
                    et = ty.of
                elif ty.k == "adt" and ty.args:
                    et = ty.args[0]
            ln = seq_len(new) if is_seq(new) or new.op == "cases" else None
            if ln is seq_len(v0) and v0 is not EMPTY and (is_prefix(v0) or v0.op in ("list", "cat", "cases")):
                i = fresh()
                x0 = seq_nth(v0, A(i))
                y0 = seq_nth(new, A(i))
                if v0.op == "list":
                    return lst(*[self.shape(I, x, et, mk("nth", k, C(j)), seq_nth(new, C(j))) for j, x in enumerate(v0.args)])
                return Comp([i], lt(A(i), seq_len(v0)), self.shape(I, x0, et, mk("nth", k, A(i)), y0), unroll=False)
            # append: opaque prefix
            return mk("oseq", "carry", k)
        if op in MAPOPS:
            kt = vt = None
            if ty is not None and ty.k == "adt" and len(ty.args) >= 2:
                kt, vt = ty.args[0], ty.args[1]
            elif v0.op == "msym":
                kt, vt = v0.args[1], v0.args[2]
            return mk("msym", k, kt, vt)
        if op == "set":
            t = ty.args[0] if ty is not None and ty.k == "adt" and ty.args else None
            return mk("set", mk("msym", k, t, mkty("()", "tuple")))
        if op == "enum" or op == "cases":
            if ty is not None and ty.k == "adt":
                v = eta(k, ty)
                if v.op == "enum":
                    return v
            if op == "enum" and new.op == "enum" and v0.args[0] == "Option":
                n = new if vcond(new, "Some") is not ZERO else v0
                pl = vfield(n, "Some", "0")
                return option(ONE - A(mk("is", k, "None")), self.shape(I, pl, None, mk("fld", k, "Some", "0"), pl))
        return k if op != "ref" else v0


def leaf_pairs(v0, cv, new, out, cond_path=()):
    """parallel walk of initial / carry / new value: list of (kind, base term, v0, carry, new, binders)"""
    if cv is new:
        out.append(("same", None, v0, cv, new, cond_path))
        return
    op = cv.op
    if op == "poly":
        out.append(("num", None, v0, cv, P(new), cond_path))
    elif op == "struct" and new.op == "struct" and v0.op == "struct":
        for (n, a), (_, b), (_, c) in zip(v0.args[1], cv.args[1], new.args[1]):
            leaf_pairs(a, b, c, out, cond_path)
    elif op == "tuple" and new.op == "tuple":
        for a, b, c in zip(v0.args, cv.args, new.args):
            leaf_pairs(a, b, c, out, cond_path)
    else:
        out.append((op, None, v0, cv, new, cond_path))


def solve(I, cells, news, v, infinite, dom=ONE, live=ONE):
    """closed forms: (state before iteration v, state after the loop)"""
    order = sorted(cells)
    Ks = {cells[r].K: r for r in order}
    done = {}  # K -> (prefix value builder)
    at_v, at_end = {}, {}
    sub_v = {}  # carry base term -> value at v
    pending = list(order)
    progress = True
    while pending and progress:
        progress = False
        for r in list(pending):
            cl = cells[r]
            new = news[r]
            if sub_v:
                new = subst(new, sub_v)
            unsolved = {cells[q].K for q in pending if q != r}
            try:
                res = solve_value(I, cl.v0, cl.carry, new, cl.K, unsolved, v)
            except NoSolve:
                continue
            pv, ev_ = res
            at_v[r] = pv
            at_end[r] = ev_
            sub_v[cl.K] = key_value(cl, pv)
            pending.remove(r)
            progress = True
    if pending and len(pending) > 0:
        # split structured cells further is not attempted: opaque fold of the remaining state
        reps = {}
        for j, r in enumerate(pending):
            reps[cells[r].K] = mk("cv", j)
        nn = []
        for r in pending:
            x = subst(news[r], sub_v) if sub_v else news[r]
            if live is not dom and live is not ONE:
                # some paths leave the loop: the state they leave does not matter here
                lv_ = subst(live, sub_v) if sub_v else live
                x = V.under(x, lv_)
                x = x if infinite else ite(dom, x, cells[r].carry)
            nn.append(subst(x, reps))
        inits = tuple(cells[r].v0 for r in pending)
        lv = max([x.lvl for x in nn] + [0])
        bv = mk("bv", lv + 1)
        body = tuple(subst(x, {v: bv}) for x in nn)
        f = mk("fold", (bv,), mk("tuplex", *body), mk("tuplex", *inits))
        for j, r in enumerate(pending):
            cl = cells[r]
            tv = mk("fld", mk("foldat", f, A(v)), str(j))
            te = mk("fld", mk("foldat", f, A(mk("sym", "end", "nat"))), str(j))
            at_v[r] = subst(cl.carry, {cl.K: tv})
            at_end[r] = subst(cl.carry, {cl.K: te})
            sub_v[cl.K] = tv
        I.note("loop state summarised as an opaque fold")
    return at_v, at_end


BINDERS.add("fold")
REBUILD["fold"] = lambda fvs, body, inits: _mkfold(fvs, body, inits)


def _mkfold(fvs, body, inits):
    return close("fold", fvs, [body, inits])


def settled(s):
    """the store of a path whose alternatives are gone: merged values are resolved"""
    if s.dead:
        return s.store
    pc = s.pc
    if pc is ONE:
        return s.store
    return {r: V.under(x, pc) if x.op == "cases" or x.op == "struct" and any(y.op == "cases" for _, y in x.args[1]) else x for r, x in s.store.items()}


class NoSolve(Exception):
    pass


def key_value(cl, pv):
    """value to substitute for the carry symbol itself"""
    return mk("whole", cl.carry_shape, pv) if False else Whole.make(pv)


class Whole:
    """substituting the base symbol K by a structured value: projections fld/nth/num/pred/is reduce on it"""

    @staticmethod
    def make(pv):
        if pv.op == "it":
            return mk("struct", "@it", (("seq", pv.args[0]),))
        return pv


def solve_value(I, v0, cv, new, K, unsolved, v):
    """-> (value before iteration v, value after the loop) or NoSolve"""
    if cv is new:
        return v0, v0
    op = cv.op
    if new.op == "cases" and op in ("struct", "tuple"):
        raise NoSolve
    if op == "struct":
        if new.op != "struct":
            raise NoSolve
        return solve_fields(I, v0, cv, new, K, unsolved, v, "struct")
    if op == "tuple":
        if new.op != "tuple":
            raise NoSolve
        return solve_fields(I, v0, cv, new, K, unsolved, v, "tuple")
    if op == "poly":
        return solve_num(I, P(v0), cv, P(new), K, unsolved, v)
    if op == "it":
        if new.op != "it" or new.args[1] != cv.args[1]:
            raise NoSolve
        a, b = solve_value(I, v0.args[0], cv.args[0], new.args[0], K, unsolved, v)
        return mk("it", a, cv.args[1]), mk("it", b, cv.args[1])
    if op == "oseq":
        parts_ = V._flat_parts(new)
        if parts_[0] is cv:
            d = cat(*parts_[1:])
            if contains(d, unsolved | {K}):
                raise NoSolve
            j = fresh()
            dj = subst(d, {v: A(j)})
            return cat(v0, flat_over([j], lt(A(j), A(v)), dj)), cat(v0, flat_over([j], ONE, dj))
        if parts_[-1] is cv and len(parts_) == 2 and False:
            pass
        raise NoSolve
    if op in ("comp", "list"):
        # element-wise
        if op == "list":
            if new.op != "list" or len(new.args) != len(cv.args):
                new = lst(*[seq_nth(new, C(j)) for j in range(len(cv.args))])
            rs = [solve_value(I, seq_nth(v0, C(j)), c, n, K, unsolved, v) for j, (c, n) in enumerate(zip(cv.args, new.args))]
            return lst(*[a for a, _ in rs]), lst(*[b for _, b in rs])
        fvs, c, x = open_comp(cv)
        if len(fvs) != 1:
            raise NoSolve
        i = fvs[0]
        y = seq_nth(new, A(i))
        try:
            a, b = solve_value(I, seq_nth(v0, A(i)), x, y, K, unsolved, v)
        except NoSolve:
            a, b = solve_inplace(v0, x, y, i, c, K, unsolved, v)
        return Comp([i], c, a, unroll=False), Comp([i], c, b, unroll=False)
    if op == "msym" or op == "set":
        m = new
        c0 = cv
        if op == "set":
            if new.op == "cases" and all(x.op == "set" for x, _ in new.args):
                new = mk("set", cases([(x.args[0], c) for x, c in new.args]))
            if new.op != "set" or v0.op != "set":
                raise NoSolve
            m, c0, v0 = new.args[0], cv.args[0], v0.args[0]
        r = map_delta(m, c0)
        if r is None or r == []:
            raise NoSolve
        # insertions (cond, key, val) in order
        for t in r:
            if contains(t, unsolved | {K}):
                raise NoSolve
        j = fresh()
        out = []
        for bound in (lt(A(j), A(v)), ONE):
            if len(r) != 1:
                raise NoSolve
            c, k, x = [subst(t, {v: A(j)}) for t in r[0]]
            mm = mcomp([j], bound * c, k, x)
            if v0 is not MEMPTY:
                mm = mk("mext", v0, mk("mins", mm))
            out.append(mk("set", mm) if op == "set" else mm)
        return out[0], out[1]
    if op == "enum":
        return solve_enum(I, v0, cv, new, K, unsolved, v)
    raise NoSolve


def solve_inplace(v0, x, y, i, c, K, unsolved, v):
    """every iteration replaces the element of its own index by a function of that element"""
    E = eq0(A(i) - A(v))
    if under(y, ONE - E) is not x:
        raise NoSolve
    here = {i: A(v)}
    g = subst(y, here)
    old = subst(x, here)
    was = seq_nth(v0, A(v))
    reps = leaf_pairs(old, was)
    if reps is None:
        raise NoSolve
    g = under(subst(g, reps), subst(c, here))
    if contains(g, unsolved | {K}):
        raise NoSolve
    g = subst(g, {v: A(i)})
    before = lt(A(i), A(v))
    return cases([(g, before), (seq_nth(v0, A(i)), ONE - before)]), g


def leaf_pairs(a, b):
    """the atoms a structured carry is made of -> the parts of the value b of the same shape"""
    if a.op == "poly":
        t = leaf_atom(a)
        return None if t is None else {t: P(b)}
    if a.op in ("tuple", "list") and b.op == a.op and len(a.args) == len(b.args):
        ps = list(zip(a.args, b.args))
    elif a.op == "struct" and b.op == "struct" and len(a.args[1]) == len(b.args[1]):
        ps = [(x, y) for (_, x), (_, y) in zip(a.args[1], b.args[1])]
    else:
        return None
    out = {}
    for x, y in ps:
        r = leaf_pairs(x, y)
        if r is None:
            return None
        out.update(r)
    return out


def is_f32(k):
    import struct

    return k is not None and struct.unpack("f", struct.pack("f", float(k)))[0] == k


def map_delta(m, base):
    """m = base with conditional insertions -> [(cond,key,val)]"""
    if m is base:
        return []
    if m.op == "mset":
        r = map_delta(m.args[0], base)
        return None if r is None else r + [(ONE, m.args[1], m.args[2])]
    if m.op == "cases":
        nz = [(x, c) for x, c in m.args if x is not base]
        if len(nz) == 1:
            r = map_delta(nz[0][0], base)
            return None if r is None else [(c * nz[0][1], k, x) for c, k, x in r]
    return None


def solve_fields(I, v0, cv, new, K, unsolved, v, kind):
    """fields may depend on each other: iterate, substituting solved ones"""
    if kind == "struct":
        names = [n for n, _ in cv.args[1]]
        items = {n: (a, b, c) for (n, a), (_, b), (_, c) in zip(v0.args[1], cv.args[1], new.args[1])}
    else:
        names = [str(j) for j in range(len(cv.args))]
        items = {n: (a, b, c) for n, a, b, c in zip(names, v0.args, cv.args, new.args)}
    res = {}
    pend = list(names)
    prog = True
    sub = {}
    while pend and prog:
        prog = False
        for n in list(pend):
            a, b, c = items[n]
            if sub:
                c = subst(c, sub)
            other = {items[q][1] for q in pend if q != n}
            try:
                r = solve_value(I, a, b, c, K, unsolved | set(base_terms(items, pend, n)), v)
            except NoSolve:
                continue
            res[n] = r
            for t in leaf_atoms(b):
                pass
            sub.update(pair_sub(b, r[0]))
            pend.remove(n)
            prog = True
    if pend:
        raise NoSolve
    out = []
    for w in (0, 1):
        if kind == "struct":
            out.append(mk("struct", cv.args[0], tuple((n, res[n][w]) for n in names)))
        else:
            out.append(mk("tuple", *[res[n][w] for n in names]))
    return out[0], out[1]


def leaf_atoms(b):
    return []


def pair_sub(carry, val):
    """substitution carry-leaf-atom -> value"""
    if carry.op == "poly":
        if len(carry.args) == 1 and len(carry.args[0][0]) == 1 and carry.args[0][1] == 1:
            return {carry.args[0][0][0][0]: val}
        return {}
    if carry.op == "oseq":
        return {carry: val}
    if carry.op == "msym":
        return {carry: val}
    return {}


def base_terms(items, pend, n):
    s = set()
    for q in pend:
        if q != n:
            s |= set(pair_sub(items[q][1], ZERO).keys())
            b = items[q][1]
            if b.op not in ("poly", "oseq", "msym"):
                s |= set(_all_bases(b))
    return s


def _all_bases(b):
    out = []
    if b.op == "poly" or b.op in ("oseq", "msym"):
        return list(pair_sub(b, ZERO).keys())
    if b.op == "struct":
        for _, x in b.args[1]:
            out += _all_bases(x)
    elif b.op == "tuple":
        for x in b.args:
            out += _all_bases(x)
    return out


def leaf_atom(cv):
    if len(cv.args) == 1 and cv.args[0][1] == 1 and len(cv.args[0][0]) == 1 and cv.args[0][0][0][1] == 1:
        return cv.args[0][0][0][0]
    return None


def sum_upto(j, body, v):
    return Sum(j, lt(A(j), A(v)) * body), Sum(j, body)


def solve_num(I, x0, cv, new, K, unsolved, v):
    a = leaf_atom(cv)
    if a is None:
        raise NoSolve
    x = mk("sym", "@x", "ind" if a.op == "pred" else sort_of(a))
    nw = subst(new, {a: A(x)}) if contains(new, {a}) else new
    if contains(nw, unsolved | {K}):
        raise NoSolve
    lc = lin_coef(nw, x)
    j = fresh()
    J = {v: A(j)}
    if lc is not None:
        b, r = lc
        if b is ONE:
            d = subst(r, J)
            pv, ev_ = sum_upto(j, d, v)
            return x0 + pv, x0 + ev_
        if b * b is b:
            c = ONE - b
            if a.op == "pred" or (b * r) is ZERO:
                if a.op == "pred":
                    # x' = b x + r  with x, x' boolean
                    c = ONE - b
                    val = r * c
                    if not (b * r is ZERO):
                        raise NoSolve
                cj, rj = subst(c, J), subst(r, J)
                k = None
                for q in (ZERO, ONE):
                    if r is scale(c, const_of(q)):
                        k = q
                if k is None:
                    # constant value under c ?
                    q = under(r, c)
                    qc = const_of(q)
                    if qc is not None and r is scale(c, qc):
                        k = q
                out = []
                for bound in (lt(A(j), A(v)), ONE):
                    if k is not None:
                        E = Exists(j, bound * cj)
                        out.append(E * k + (ONE - E) * x0)
                        continue
                    Sc = Sum(j, bound * cj)
                    if Sc * Sc is Sc:
                        out.append(Sum(j, bound * rj) + (ONE - Sc) * x0)
                        continue
                    E = ge0(Sc - 1)
                    lp = A(mk_lpos(j, bound * cj))
                    out.append(E * subst(subst(under(r, c), J), {j: lp}) + (ONE - E) * x0)
                return out[0], out[1]
    # running extremum
    e = extremum(nw, x)
    if e is not None:
        kind, q, c = e
        qj, cj = subst(q, J), subst(c, J)
        out = []
        for bound in (lt(A(j), A(v)), ONE):
            out.append(extremum_of(kind, [(x0, ONE, None)], [(qj, bound * cj, j)]))
        return out[0], out[1]
    raise NoSolve


def mk_lpos(j, cond):
    return close("lpos", [j], [cond])


BINDERS.add("lpos")
T.NATOPS.add("lpos")
REBUILD["lpos"] = lambda fvs, c: A(mk_lpos(fvs[0], c))


def extremum(nw, x):
    """nw = max(x, q) (or min) possibly guarded: -> (kind, q, guard)"""
    cands = []
    for m, _ in nw.args:
        for at, e in m:
            if at.op in ("ge0", "gt0") and contains(at, {x}):
                lc = lin_coef(at.args[0], x)
                if lc and const_of(lc[0]) in (1, -1):
                    k = const_of(lc[0])
                    q = scale(lc[1], -1 / k)
                    cands.append(q)
                    if at.op == "ge0":
                        cands.append(q + 1)
                        cands.append(q - 1)
    X = A(x)
    for q in cands:
        for kind, f in (("max", T.fmax), ("min", T.fmin)):
            y = f(X, q)
            if y is nw:
                return kind, q, ONE
            # guarded: nw = c*max + (1-c)*x
            d1, d0 = nw - X, y - X
            inds = [i for i in top_inds(nw) if not contains(i, {x})]
            if inds and len(inds) < 5:
                c = ONE
                r1 = nw
                for i in inds:
                    if restrict(nw, i, 0) is X:
                        c = c * A(i)
                        r1 = restrict(r1, i, 1)
                if r1 is y or r1 is under(y, c):
                    return kind, q, c
    return None


T.BINDERS.add("ext")


def extremum_of(kind, singles, fams):
    """max/min over single values (x, cond) and families (value, cond, binder)"""
    its = []
    for x, c, _ in singles:
        its.append(mk("exi", (), c, P(x)))
    for q, c, j in fams:
        if c is ZERO:
            continue
        t = close("exi", list(j) if isinstance(j, (list, tuple)) else [j], [c, P(q)])
        its.append(t)
    its = sorted(set(its), key=lambda t: fulltext(t))
    if len(its) == 1 and not its[0].args[0]:
        return its[0].args[2]
    return A(mk("fn", kind + "of", *its))


BINDERS.add("exi")
REBUILD["exi"] = lambda fvs, c, q: close("exi", list(fvs), [c, q])


def solve_enum(I, v0, cv, new, K, unsolved, v):
    """Option-like carried state"""
    if new.op != "enum":
        raise NoSolve
    names = [n for n, _, _ in cv.args[1]]
    if set(names) != {"None", "Some"}:
        # enum without payload: each variant condition is last-writer
        raise NoSolve
    pc_ = vcond(cv, "Some")
    # atom for 'is None'
    at = None
    for m, c in pc_.args:
        for a, e in m:
            if a.op == "is":
                at = a
    x = mk("sym", "@n", "ind")
    nn = subst(vcond(new, "None"), {at: A(x)}) if at is not None else None
    if nn is None:
        raise NoSolve
    lc = lin_coef(nn, x)
    if lc is None or contains(nn, unsolved | {K}):
        raise NoSolve
    b, r = lc
    if r is not ZERO:
        raise NoSolve
    # None stays None iff b ; Some is never reset
    s = ONE - b  # set condition while None
    payn = vfield(new, "Some", "0")
    pay0 = vfield(cv, "Some", "0")
    j = fresh()
    J = {v: A(j)}
    pn = subst(payn, {at: A(x)})
    # first-writer: payload' = (1-x)*payload + x*val
    first = ite(ONE - A(x), pay0, payn)
    y1 = under(subst(payn, {at: ONE}), s) if True else None
    y0 = subst(payn, {at: ZERO})
    out = []
    if y0 is pay0 and not contains(y1, unsolved | {K}):
        cj = subst(s, J)
        vj = subst(y1, J)
        for bound in (lt(A(j), A(v)), ONE):
            E = Exists(j, bound * cj)
            val = subst(vj, {j: Pos(j, bound * cj)})
            some0 = vcond(v0, "Some")
            e = option(E, val)
            out.append(e if some0 is ZERO else ite(some0, v0, e))
        return out[0], out[1]
    # running extremum with an Option accumulator: None -> Some(q), Some(m) -> Some(ext(m,q))
    if y0.op == "poly" and y1.op == "poly" and not contains(y1, unsolved | {K}):
        a = leaf_atom(pay0)
        if a is not None:
            xx = mk("sym", "@x", sort_of(a))
            e = extremum(subst(y0, {a: A(xx)}), xx)
            if e is not None and e[1] is y1 and vcond(v0, "Some") is ZERO:
                kind, q, c = e
                for bound in (lt(A(j), A(v)), ONE):
                    cj = subst(s, J)
                    E = Exists(j, bound * cj)
                    out.append(option(E, extremum_of(kind, [], [(subst(q, J), bound * cj, j)])))
                return out[0], out[1]
    # last-writer
    raise NoSolve


V.STRUCT_CTORS = set()

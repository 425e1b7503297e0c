"""Abstract test bench: runs the abstract interpreter on public entry points with
opaque inputs and gives access to the resulting symbolic values."""
import sys

sys.setrecursionlimit(40000)
import terms as T
from terms import *
import values as V
from values import *
import interp as IP
import models
import ext
import frames
from program import Program, mkty, prim, strip_generics
from equiv import differ, eq_poly

LIB = "elinor"


class Missing(Exception):
    """an anchor the check needs is not in the analysed tree"""


class Finding:
    def __init__(self, where, what, key=None):
        self.where = where
        self.what = what
        self.key = key or "%s: %s" % (where, what.split("\n")[0][:160])


class Lab:
    def __init__(self, outdir, crates=("elinor",)):
        self.prog = Program(outdir, list(crates))
        V.PROGRAM[0] = self.prog
        self.runs = 0
        self.compared = 0
        self.cache = {}
        self.functions = set()
        self.obligations = 0
        self.calls = 0
        self.unsup = []

    # -------------------------------------------------------------- lookup
    def fn(self, path, crate=None):
        """body whose path ends with `path` (generic arguments ignored)"""
        hits = []
        for b in self.prog.bodies.values():
            if b["kind"] not in ("Fn", "AssocFn"):
                continue
            p = strip_generics(b["path"]).replace("::::", "::")
            if p == path or p.endswith("::" + path):
                hits.append(b)
        if len(hits) != 1:
            raise Missing("function %s (%d candidates)" % (path, len(hits)))
        return hits[0]

    def has_fn(self, path):
        try:
            self.fn(path)
            return True
        except Missing:
            return False

    def adt(self, path):
        c = [(k, a) for k, a in self.prog.adts.items() if (a["path"] == path or a["path"].endswith("::" + path)) and a["local"]]
        if len(c) != 1:
            raise Missing("type %s (%d candidates)" % (path, len(c)))
        return c[0]

    def span(self, body):
        return body.get("span") or body["path"]

    # -------------------------------------------------------------- runs
    def interp(self):
        self.last = IP.Interp(self.prog)
        return self.last

    def position(self):
        """where the last abstract run stopped"""
        I = getattr(self, "last", None)
        if I is None or not I.stack:
            return "(analysis)"
        return "%s (%s)" % (strip_generics(I.stack[-1].body["path"]), I.sp)

    def run(self, path, args, tsub=None, I=None, st=None):
        I = I or self.interp()
        st = st or IP.St({}, ONE, ONE)
        b = self.fn(path) if isinstance(path, str) else path
        n0, c0 = len(I.unsup), I.calls
        v = I.call_key(st, b["key"], list(args), tsub or {})
        self.runs += 1
        self.functions |= I.inlined
        self.calls += I.calls - c0
        self.unsup += I.unsup[n0:]
        return Run(self, I, st, v, b)

    def eta_args(self, path, tsub=None, names=None):
        b = self.fn(path) if isinstance(path, str) else path
        out = []
        for i, p in enumerate(b["params"]):
            t = tysubst(p["t"], tsub) if tsub else p["t"]
            out.append(eta(mk("sym", (names[i] if names else "p%d" % i), "obj"), t))
        return out

    # -------------------------------------------------------------- stores
    def store(self, name, score):
        """a relevance store built from an arbitrary builder"""
        key = ("store", name, score)
        if key not in self.cache:
            b = self.fn("RelevanceStoreBuilder::build")
            ts = {"T": prim(score)}
            a = self.eta_args(b, ts, [name])
            r = self.run(b, a, ts)
            self.cache[key] = (r.value, r)
        return self.cache[key][0]

    def trues(self):
        return self.store("T", "u32")

    def preds(self):
        return self.store("P", "f64")

    def metric(self, variant, k=None):
        key, a = self.adt("metrics::Metric")
        names = {vn: fs for vn, fs in a["variants"]}
        if variant not in names:
            raise Missing("metric variant " + variant)
        if names[variant]:
            return mk("enum", V.stdname(key), ((variant, ONE, ((names[variant][0][0], k),)),))
        return mk("enum", V.stdname(key), ((variant, ONE, ()),))

    K = property(lambda self: A(mk("sym", "k", "nat")))

    def has_k(self, variant):
        return bool({vn: fs for vn, fs in self.adt("metrics::Metric")[1]["variants"]}[variant])

    def variants(self):
        return [vn for vn, _ in self.adt("metrics::Metric")[1]["variants"]]

    def evaluation(self, variant, k=None):
        """the abstract result of evaluate() on arbitrary stores"""
        key = ("eval", variant, k)
        if key not in self.cache:
            m = self.metric(variant, self.K if k is None else k)
            r = self.run("elinor::evaluate", [self.trues(), self.preds(), m])
            self.cache[key] = r
        return self.cache[key]

    def one_query(self):
        """an arbitrary predicted query: (key, condition that it is predicted)"""
        if "q" not in self.cache:
            q = mk("sym", "q", "obj")
            r = self.run("RelevanceStore::get_sorted", [self.preds(), q])
            self.cache["q"] = (q, vcond(r.deep(), "Some"))
        return self.cache["q"]

    def ranking(self, which, q):
        key = ("rank", which, q)
        if key not in self.cache:
            st = self.trues() if which == "T" else self.preds()
            r = self.run("RelevanceStore::get_sorted", [st, q])
            self.cache[key] = r.deep()
        v = self.cache[key]
        return vcond(v, "Some"), vfield(v, "Some", "0")

    def judgments(self, q):
        key = ("map", q)
        if key not in self.cache:
            r = self.run("RelevanceStore::get_map", [self.trues(), q])
            self.cache[key] = r.deep()
        v = self.cache[key]
        return vcond(v, "Some"), vfield(v, "Some", "0")

    def score(self, variant, k=None):
        """(score of an arbitrary predicted query, condition under which it exists, Run)"""
        r = self.evaluation(variant, k)
        ok = vcond(r.value, "Ok")
        ev = vfield(r.value, "Ok", "0")
        s = self.run("Evaluation::scores", [ev]).deep()
        q, dom = self.one_query()
        ctx = ok * dom
        present = m_has(s, q)
        return m_at(s, q), ctx, present, r

    # -------------------------------------------------------------- reporting
    def fn_names(self):
        return [strip_generics(f) for f in self.functions if any(strip_generics(f).startswith(c) or ("<" + c) in f or (" " + c) in f for c in ("elinor",))]

    def where_metric(self, variant):
        """the functions only this metric goes through, with their source location"""
        if "common" not in self.cache:
            sets = [self.evaluation(v).I.inlined for v in self.variants()]
            cnt = {}
            for x in sets:
                for f in x:
                    cnt[f] = cnt.get(f, 0) + 1
            self.cache["common"] = {f for f, n in cnt.items() if n > 2}
        own = sorted(self.evaluation(variant).I.inlined - self.cache["common"])
        own = own or ["metrics::compute_metric"]
        return "; ".join("%s (%s)" % (strip_generics(f), self.loc(f)) for f in own[:3])

    def loc(self, path):
        for b in self.prog.bodies.values():
            if b["path"] == path:
                return b.get("span") or b.get("sp") or "?"
        return "?"

    # -------------------------------------------------------------- comparison
    def same(self, got, want, ctx=ONE):
        self.compared += 1
        d = differ(got, want, ctx)
        if d is None:
            return None
        if T.has_box(got) or T.has_box(want):
            d = differ(T.unbox(got), T.unbox(want), T.unbox(ctx))
        return d


def with_return(I, st, body):
    """run a reference body that may leave early through ret()"""
    sv = I.enter(st)
    v = body(st)
    return I.leave(st, sv, lambda x: x.kind == "return", v)


def ret(I, st, v):
    if st.rel is not ZERO:
        I.exits.append(IP.Exit("return", None, st.rel, v, dict(st.store)))
        st.rel = ZERO
    return mk("never")


class Run:
    def __init__(self, lab, I, st, value, body):
        self.lab, self.I, self.st, self.value, self.body = lab, I, st, value, body

    def deep(self):
        return deep(self.I, self.st, self.value)

    def seq(self, v=None):
        """the sequence an iterator (or collection) value yields"""
        v = self.value if v is None else v
        return deep(self.I, self.st, models.seqarg(self.I, self.st, v))

    def live_obligations(self):
        return [o for o in self.I.obl if o[3] is not ZERO]


def deep(I, st, v):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "ref":
                r = go(I.read(st, x.args[0], x.args[1]))
            elif has_ref(x):
                r = T.rebuild(x, go) if x.op not in ("enum", "struct", "tuple") else mk(x.op, *[go(a) for a in x.args])
            else:
                r = x
            memo[x] = r
        return r

    return go(v)


_hr = {}


def has_ref(t):
    if isinstance(t, tuple):
        return any(has_ref(x) for x in t)
    if not isinstance(t, Term):
        return False
    r = _hr.get(t)
    if r is None:
        r = _hr[t] = t.op == "ref" or any(has_ref(x) for x in t.args)
    return r

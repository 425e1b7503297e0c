"""Loads the typed-program dumps (one JSON per workspace crate)."""
import json
import os
import re


class Ty:
    __slots__ = ("s", "k", "mut", "of", "adt", "key", "args", "len")
    _pool = {}

    def __repr__(self):
        return self.s

    @property
    def name(self):
        """last path segment of an ADT"""
        return self.adt.split("::")[-1] if self.k == "adt" else None


UNIT = None


def mkty(s, k="other", **kw):
    t = Ty._pool.get(s)
    if t is None:
        t = Ty()
        t.s, t.k = s, k
        t.mut = kw.get("mut", False)
        t.of = kw.get("of")
        t.adt = kw.get("adt")
        t.key = kw.get("key")
        t.args = kw.get("args", ())
        t.len = kw.get("len")
        Ty._pool[s] = t
    return t


def prim(s):
    return mkty(s, "prim")


_gen = re.compile(r"::<")


def strip_generics(p):
    """remove balanced  ::<...>  groups"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            i += 2
            while i < n:
                if p[i] == "<":
                    d += 1
                elif p[i] == ">" and p[i - 1] != "-":
                    d -= 1
                    if d == 0:
                        i += 1
                        break
                i += 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def split_path(p):
    segs = []
    d = 0
    cur = ""
    i = 0
    while i < len(p):
        if p[i] in "<([":
            d += 1
        elif p[i] in ">)]" and not (p[i] == ">" and p[i - 1] == "-"):
            d -= 1
        if d == 0 and p.startswith("::", i):
            segs.append(cur)
            cur = ""
            i += 2
            continue
        cur += p[i]
        i += 1
    segs.append(cur)
    return segs


_norm = {}


def norm(path):
    """Type::method name of a callee path"""
    r = _norm.get(path)
    if r is None:
        segs = split_path(strip_generics(path))
        segs = [_seg(x) for x in segs]
        r = _norm[path] = "::".join(segs[-2:])
    return r


def _seg(x):
    m = re.match(r"^<impl (.*)>$", x)
    if m:
        x = m.group(1)
        if " for " in x:
            x = x.split(" for ", 1)[1]
        if x.startswith("["):
            return "slice"
        x = x.lstrip("&").strip()
        x = re.sub(r"<.*>$", "", x)
        return x.split("::")[-1]
    m = re.match(r"^<(.*) as (.*)>$", x)
    if m:
        t = re.sub(r"<.*>$", "", m.group(2))
        return t.split("::")[-1]
    return x


class Program:
    def __init__(self, outdir, crates):
        self.bodies = {}
        self.adts = {}
        self.adt_by_name = {}
        self.impls = []
        self.crates = []
        self.bypath = {}
        for c in crates:
            fn = os.path.join(outdir, c + ".json")
            with open(fn) as f:
                d = json.load(f)
            self.crates.append(d["crate"])
            tys = self._types(d["types"])
            for a in d["adts"]:
                v = {
                    "path": a["path"],
                    "kind": a["kind"],
                    "local": a["local"],
                    "gparams": a.get("gparams", []),
                    "variants": [(n, [(f[0], tys[f[1]] if len(f) > 1 else None) for f in fs]) for n, fs in a["variants"]],
                }
                old = self.adts.get(a["key"])
                if old is None or (v["local"] and not old["local"]):
                    self.adts[a["key"]] = v
            for i in d["impls"]:
                self.impls.append({"self": tys[i["self"]], "trait": i.get("trait"), "derived": i.get("derived", False), "items": dict(map(tuple, i["items"])), "sp": i["sp"]})
            for b in d["bodies"]:
                self._tie(b, tys)
                b["crate"] = d["crate"]
                self.bodies[b["key"]] = b
                self.bypath.setdefault(b["path"], b)
            if d["errors"]:
                self.errors = d["errors"]
        self.impl_idx = {}
        for i in self.impls:
            if i["trait"] and i["self"].k == "adt":
                self.impl_idx[(i["trait"].split("::")[-1].split("<")[0], i["self"].adt)] = i

    def _types(self, lst):
        out = [None] * len(lst)

        def get(i):
            if out[i] is not None:
                return out[i]
            x = lst[i]
            key = x["s"] + ("#" + x["key"] if x["k"] == "closure" else "")
            if x["k"] not in ("prim", "param", "closure"):
                # the same text may name different types in different crates
                sub = [get(a) for a in x.get("args", [])] + ([get(x["of"])] if "of" in x else [])
                key = (x["k"], x["key"] if x["k"] == "adt" else x["s"] if not sub else "", x.get("mut", False), x.get("len"), tuple(map(id, sub)))
            t = Ty._pool.get(key)
            if t is not None:
                out[i] = t
                return t
            t = Ty()
            Ty._pool[key] = t
            out[i] = t
            t.s = x["s"]
            t.k = x["k"]
            t.mut = x.get("mut", False)
            t.adt = x["key"] if x["k"] == "adt" else None
            t.key = x.get("key")
            t.len = x.get("len")
            t.of = get(x["of"]) if "of" in x else None
            t.args = tuple(get(a) for a in x.get("args", []))
            return t

        for i in range(len(lst)):
            get(i)
        return out

    def _tie(self, x, tys):
        """replace type indices by Ty objects, in place"""
        if isinstance(x, dict):
            for k in ("t", "ret", "selfty"):
                v = x.get(k)
                if isinstance(v, int) and not isinstance(v, bool):
                    x[k] = tys[v]
            if "targs" in x:
                x["targs"] = [tys[i] if isinstance(i, int) else i for i in x["targs"]]
            if "rargs" in x:
                x["rargs"] = [tys[i] if isinstance(i, int) else i for i in x["rargs"]]
            for k, v in x.items():
                if isinstance(v, (dict, list)) and k not in ("targs", "rargs"):
                    self._tie(v, tys)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    self._tie(v, tys)

    def fn(self, path):
        """body of a function by path suffix (unique) or None"""
        c = [b for b in self.bodies.values() if strip_generics(b["path"]) == path or strip_generics(b["path"]).endswith("::" + path)]
        c = [b for b in c if b["kind"] in ("Fn", "AssocFn")]
        return c[0] if len(c) == 1 else None

"""Conditions over one input string as regular languages (see engine/lang.py)."""
import terms as T
from terms import *
import values as V
from values import *
import lang
from lang import NotRegular


def lit(t):
    """constant string or char"""
    if t.op == "str":
        return t.args[0]
    if t.op == "poly":
        k = const_of(t)
        if k is not None:
            return chr(int(k))
    if t.op == "ref":
        return lit(t.args[-1])
    raise NotRegular("not a constant text: %s" % T.show(t)[:80])


def app(t, *names):
    return t.op == "app" and t.args[0] in names


class Langs:
    """pieces of and conditions on the string symbol s"""

    def __init__(self, s):
        self.s = s
        self.pieces = {}
        self.atoms = {}
        self.regexes = {}

    def bad(self, t):
        raise NotRegular("not a regular condition on the input: %s" % T.show(t)[:160])

    def regex(self, t):
        if t.op == "struct" and t.args[0] == "Regex":
            p = fld(t, "pat").args[0]
            r = self.regexes.get(p)
            if r is None:
                r = self.regexes[p] = lang.Regex(p)
            return r
        self.bad(t)

    def group(self, t):
        """t: Captures::name(caps, key) / Captures::get(caps, k) -> marked language"""
        caps, key = t.args[2:4]
        if caps.op == "fld" and app(caps.args[0], "Regex::captures"):
            re, src = caps.args[0].args[2:4]
            k = key.args[0] if key.op == "str" else const_of(P(key))
            if k is None:
                self.bad(t)
            return lang.compose(self.piece(src), self.regex(re).group(k if isinstance(k, str) else int(k)))
        self.bad(t)

    def piece(self, t):
        r = self.pieces.get(t)
        if r is None:
            r = self.pieces[t] = self._piece(t)
        return r

    def _piece(self, t):
        if t is self.s:
            return lang.whole(lang.anything())
        if app(t, "Match::as_str", "Captures::as_str"):
            return self.piece(t.args[2])
        if app(t, "Index::index") and len(t.args) == 4:
            return self.group(t)
        if t.op == "fld" and t.args[1] == "Some":
            u = t.args[0]
            if app(u, "Captures::name", "Captures::get"):
                return self.group(u)
            if app(u, "str::strip_prefix", "str::strip_suffix"):
                return lang.compose(self.piece(u.args[2]), lang.strip(lit(u.args[3]), u.args[0].split("_")[1]))
        if t.op == "fld" and t.args[1] in ("0", "1"):
            u = t.args[0]
            if u.op == "fld" and u.args[1] == "Some" and app(u.args[0], "str::split_once", "str::rsplit_once"):
                u = u.args[0]
                return lang.compose(self.piece(u.args[2]), lang.cut(lit(u.args[3]), "first" if u.args[0] == "str::split_once" else "last", "before" if t.args[1] == "0" else "after"))
        if t.op == "nth":
            k = const_of(P(t.args[1])) if isinstance(t.args[1], Term) else int(t.args[1])
            u = t.args[0]
            if k is not None and app(u, "str::split") and 0 <= k <= 8:
                return lang.compose(self.piece(u.args[2]), lang.field(lit(u.args[3]), int(k)))
            if k is not None and app(u, "str::splitn") and 0 <= k <= 8:
                n = const_of(P(u.args[3]))
                if n is not None and k < n:
                    return lang.compose(self.piece(u.args[2]), lang.field(lit(u.args[4]), int(k), rest=k == n - 1))
        if app(t, "str::trim", "str::trim_start", "str::trim_end"):
            return lang.compose(self.piece(t.args[2]), lang.trim(lang.SPACE, t.args[0] != "str::trim_end", t.args[0] != "str::trim_start"))
        if app(t, "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches") and len(lit(t.args[3])) == 1:
            return lang.compose(self.piece(t.args[2]), lang.trim(frozenset(lit(t.args[3])), "end" not in t.args[0], "start" not in t.args[0]))
        if app(t, "String::as_str", "AsRef::as_ref", "str::to_string", "ToString::to_string", "Borrow::borrow"):
            return self.piece(t.args[2])
        self.bad(t)

    def lang(self, a):
        r = self.atoms.get(a)
        if r is None:
            r = self.atoms[a] = self._lang(a)
        return r

    def exists(self, u):
        """strings on which the option / result valued call u is Some / Ok"""
        if app(u, "Regex::captures", "Regex::is_match", "Regex::find"):
            return lang.pre(self.piece(u.args[3]), self.regex(u.args[2]).matches())
        if app(u, "Captures::name", "Captures::get"):
            return lang.erase(self.group(u))
        if app(u, "str::strip_prefix"):
            return lang.pre(self.piece(u.args[2]), lang.prefix(lit(u.args[3])))
        if app(u, "str::strip_suffix"):
            return lang.pre(self.piece(u.args[2]), lang.suffix(lit(u.args[3])))
        if app(u, "str::split_once", "str::rsplit_once", "str::find", "str::rfind"):
            return lang.pre(self.piece(u.args[2]), lang.containing(lit(u.args[3])))
        if u.op == "app" and u.args[0].startswith("parse::"):
            return lang.pre(self.piece(u.args[2]), lang.numeral(u.args[0][7:]))
        self.bad(u)

    def _lang(self, a):
        if a.op == "is":
            r = self.exists(a.args[0])
            return r if a.args[1] in ("Some", "Ok") else lang.minus(lang.anything(), r)
        if a.op == "streq":
            return lang.pre(self.piece(a.args[0]), lang.literal(a.args[1].args[0]))
        if a.op in ("pred", "has") or a.op == "eqo":
            u = a.args[0]
            if app(u, "Regex::is_match"):
                return self.exists(u)
            if app(u, "str::starts_with"):
                return lang.pre(self.piece(u.args[2]), lang.prefix(lit(u.args[3])))
            if app(u, "str::ends_with"):
                return lang.pre(self.piece(u.args[2]), lang.suffix(lit(u.args[3])))
            if app(u, "str::contains"):
                return lang.pre(self.piece(u.args[2]), lang.containing(lit(u.args[3])))
            if app(u, "str::is_empty"):
                return lang.pre(self.piece(u.args[2]), lang.literal(""))
            if app(u, "str::eq_ignore_ascii_case"):
                return lang.pre(self.piece(u.args[2]), lang.literal_nocase(lit(u.args[3])))
            self.bad(a)
        if a.op in ("ge0", "eq0"):
            d, k = T._lin(a.args[0])
            if len(d) == 1:
                (m, c), = d.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len" and abs(c) == 1:
                    u = m[0][0].args[0]
                    c, k = int(c), int(k)
                    if a.op == "ge0":
                        # c * n + k >= 0
                        return self.count(u, -k) if c > 0 else lang.minus(lang.anything(), self.count(u, k + 1))
                    n = -k if c > 0 else k
                    return lang.minus(self.count(u, n), self.count(u, n + 1))
        self.bad(a)

    def count(self, u, n):
        """strings on which the sequence u has at least n elements"""
        if n <= 0:
            return lang.anything()
        if app(u, "str::split"):
            return lang.pre(self.piece(u.args[2]), lang.at_least(lit(u.args[3]), n))
        if app(u, "str::splitn"):
            m = const_of(P(u.args[3]))
            if m is not None:
                return lang.pre(self.piece(u.args[2]), lang.at_least(lit(u.args[4]), n)) if n <= m else lang.nothing()
        if n == 1 and (u is self.s or app(u, "chars", "bytes")):
            u = u if u is self.s else u.args[2]
            return lang.minus(lang.anything(), lang.pre(self.piece(u), lang.literal("")))
        self.bad(u)

    def leaves(self, ps, dom=None, depth=0):
        """(language, values of ps) for every feasible truth assignment of the conditions in ps"""
        dom = lang.anything() if dom is None else dom
        a = None
        ps = [T.unbox(p) if T.has_box(p) else p for p in ps]
        for p in ps:
            for b in top_inds(p):
                a = b
                break
            if a is not None:
                break
        if a is None:
            yield dom, ps
            return
        l = self.lang(a)
        for v, d in ((1, lang.inter(dom, l)), (0, lang.minus(dom, l))):
            if not d.empty():
                yield from self.leaves([T.restrict(p, a, v) for p in ps], d, depth + 1)

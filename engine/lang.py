"""Regular languages over an opaque input string.

A condition on the input (it matches a pattern, a piece of it equals a literal, a piece of it
parses as a number) is a regular language; a piece of the input is a *marked* language: the set
of strings with two markers around the piece.  Everything is decided on minimal automata.

The alphabet is ASCII plus one letter per class of non-ASCII characters the patterns can tell apart."""
import functools

ASCII = [chr(i) for i in range(128)]
ND, LO, UP, WS, AL, NU, OT = "<Nd>", "<Ll>", "<Lu>", "<Ws>", "<Al>", "<No>", "<Ot>"
SIG = ASCII + [ND, LO, UP, WS, AL, NU, OT]
OPEN, CLOSE = "<<", ">>"
ALL = frozenset(SIG)
DIGITS = frozenset("0123456789")
UDIGITS = DIGITS | {ND}
SPACE = frozenset("\t\n\x0b\x0c\r ") | {WS}
WORD = frozenset(c for c in ASCII if c.isalnum() or c == "_") | {ND, LO, UP, AL}
MARKED = tuple(SIG) + (OPEN, CLOSE)


class NotRegular(Exception):
    pass


# ---------------------------------------------------------------- automata
class Nfa:
    """fragments: start, end; transitions on sets of letters; epsilon edges"""

    def __init__(self):
        self.n = 0
        self.tr = []
        self.eps = []

    def state(self):
        self.tr.append([])
        self.eps.append([])
        self.n += 1
        return self.n - 1


class Dfa:
    """complete minimal automaton over `sig`; states 0..n-1, 0 initial, numbered canonically"""

    def __init__(self, sig, delta, acc):
        self.sig, self.delta, self.acc = sig, delta, acc
        self.key = (sig is MARKED, tuple(tuple(r) for r in delta), tuple(sorted(acc)))

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def empty(self):
        return not self.acc

    def accepts(self, w):
        q = 0
        ix = {a: i for i, a in enumerate(self.sig)}
        for c in w:
            q = self.delta[q][ix[c]]
        return q in self.acc

    def example(self):
        """a shortest accepted word"""
        seen = {0: ""}
        todo = [0]
        while todo:
            nxt = []
            for q in todo:
                if q in self.acc:
                    return seen[q]
                pref = sorted(range(len(self.sig)), key=lambda i: (self.sig[i] not in "abcdefghijklmnopqrstuvwxyz0123456789@", i))
                for i in pref:
                    r = self.delta[q][i]
                    if r not in seen:
                        seen[r] = seen[q] + self.sig[i]
                        nxt.append(r)
            todo = nxt
        return None


def determinize(sig, start, step, accepting):
    """subset-style construction from hashable states; step(state) -> list of successors by letter"""
    ids = {start: 0}
    order = [start]
    delta = []
    i = 0
    while i < len(order):
        row = []
        for t in step(order[i]):
            j = ids.get(t)
            if j is None:
                j = ids[t] = len(order)
                order.append(t)
                if j > 20000:
                    raise NotRegular("automaton too large")
            row.append(j)
        delta.append(row)
        i += 1
    acc = {i for i, s in enumerate(order) if accepting(s)}
    return minimize(sig, delta, acc)


def minimize(sig, delta, acc):
    n = len(delta)
    part = [1 if i in acc else 0 for i in range(n)]
    k = len(set(part))
    while True:
        m = {}
        new = []
        for i in range(n):
            key = (part[i], tuple(part[j] for j in delta[i]))
            new.append(m.setdefault(key, len(m)))
        part = new
        if len(m) == k:
            break
        k = len(m)
    ids = {part[0]: 0}
    rep = [0]
    rows = []
    i = 0
    first = {}
    for s in range(n):
        first.setdefault(part[s], s)
    while i < len(rep):
        row = []
        for j in delta[rep[i]]:
            p = part[j]
            if p not in ids:
                ids[p] = len(rep)
                rep.append(first[p])
            row.append(ids[p])
        rows.append(row)
        i += 1
    return Dfa(sig, rows, frozenset(ids[part[r]] for r in acc if part[r] in ids))


def from_nfa(nfa, start, end, sig=tuple(SIG)):
    def closure(s):
        s = set(s)
        todo = list(s)
        while todo:
            for t in nfa.eps[todo.pop()]:
                if t not in s:
                    s.add(t)
                    todo.append(t)
        return frozenset(s)

    def step(S):
        out = []
        for a in sig:
            out.append(closure({t for q in S for letters, t in nfa.tr[q] if a in letters}))
        return out

    return determinize(sig, closure({start}), step, lambda S: end in S)


SIG = tuple(SIG)


def product(a, b, f):
    assert a.sig == b.sig
    return determinize(
        a.sig,
        (0, 0),
        lambda s: list(zip(a.delta[s[0]], b.delta[s[1]])),
        lambda s: f(s[0] in a.acc, s[1] in b.acc),
    )


@functools.lru_cache(None)
def inter(a, b):
    return product(a, b, lambda x, y: x and y)


@functools.lru_cache(None)
def union(a, b):
    return product(a, b, lambda x, y: x or y)


@functools.lru_cache(None)
def minus(a, b):
    return product(a, b, lambda x, y: x and not y)


def subset(a, b):
    return minus(a, b).empty()


# ---------------------------------------------------------------- regular expressions
# syntax trees: ("set", letters) ("cat", xs) ("alt", xs) ("rep", x, lo, hi, greedy) ("grp", index, name, x) ("bol",) ("eol",)
class Parser:
    def __init__(self, s):
        self.s, self.i = s, 0
        self.groups = {}
        self.ngroup = 0

    def bad(self, what):
        raise NotRegular("regular expression %r: %s" % (self.s, what))

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def eat(self, t):
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def parse(self):
        x = self.alt()
        if self.i != len(self.s):
            self.bad("trailing text")
        return x

    def alt(self):
        xs = [self.seq()]
        while self.eat("|"):
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = []
        while self.peek() not in ("", "|", ")"):
            xs.append(self.post())
        return ("cat", xs)

    def post(self):
        x = self.atom()
        while True:
            if self.eat("*"):
                lo, hi = 0, None
            elif self.eat("+"):
                lo, hi = 1, None
            elif self.eat("?"):
                lo, hi = 0, 1
            elif self.peek() == "{":
                j = self.s.find("}", self.i)
                body = self.s[self.i + 1:j].split(",")
                try:
                    lo = int(body[0])
                    hi = lo if len(body) == 1 else (int(body[1]) if body[1].strip() else None)
                except ValueError:
                    self.bad("repetition")
                self.i = j + 1
            else:
                return x
            self.eat("?")
            x = ("rep", x, lo, hi)

    def atom(self):
        if self.eat("("):
            if self.eat("?:"):
                x = self.alt()
            else:
                name = None
                if self.eat("?P<") or self.eat("?<"):
                    j = self.s.index(">", self.i)
                    name = self.s[self.i:j]
                    self.i = j + 1
                elif self.peek() == "?":
                    self.bad("flags")
                self.ngroup += 1
                g = self.ngroup
                if name:
                    self.groups[name] = g
                x = ("grp", g, self.alt())
            if not self.eat(")"):
                self.bad("unclosed group")
            return x
        if self.eat("["):
            return ("set", self.cls())
        if self.eat("^"):
            return ("bol",)
        if self.eat("$"):
            return ("eol",)
        if self.eat("."):
            return ("set", ALL - {"\n"})
        if self.eat("\\"):
            if self.eat("A"):
                return ("bol",)
            if self.eat("z"):
                return ("eol",)
            return ("set", self.esc())
        c = self.s[self.i]
        self.i += 1
        return ("set", self.lit(c))

    def lit(self, c):
        if ord(c) > 127:
            self.bad("non-ASCII character")
        return frozenset(c)

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        t = {"d": UDIGITS, "s": SPACE, "w": WORD}.get(c.lower())
        if t is not None:
            return t if c.islower() else ALL - t
        if c in "nrt":
            return frozenset({"n": "\n", "r": "\r", "t": "\t"}[c])
        if c.isalnum():
            self.bad("escape \\" + c)
        return self.lit(c)

    def cls(self):
        neg = self.eat("^")
        r = set()
        firstc = True
        while True:
            if self.i >= len(self.s):
                self.bad("unclosed class")
            if self.peek() == "]" and not firstc:
                self.i += 1
                break
            firstc = False
            if self.s.startswith("[:", self.i):
                j = self.s.index(":]", self.i)
                n = self.s[self.i + 2:j]
                t = {"digit": DIGITS, "alpha": frozenset(c for c in ASCII if c.isalpha()), "alnum": frozenset(c for c in ASCII if c.isalnum()), "lower": frozenset(c for c in ASCII if c.islower()), "upper": frozenset(c for c in ASCII if c.isupper())}.get(n)
                if t is None:
                    self.bad("class " + n)
                r |= t
                self.i = j + 2
                continue
            if self.peek() == "[" or self.s.startswith("&&", self.i) or self.s.startswith("--", self.i):
                self.bad("nested class")
            if self.eat("\\"):
                t = self.esc()
            else:
                t = self.lit(self.s[self.i])
                self.i += 1
            if self.peek() == "-" and self.s[self.i + 1:self.i + 2] not in ("]", "") and len(t) == 1:
                self.i += 1
                if self.eat("\\"):
                    u = self.esc()
                else:
                    u = self.lit(self.s[self.i])
                    self.i += 1
                if len(u) != 1:
                    self.bad("range")
                t = frozenset(chr(k) for k in range(ord(min(t)), ord(min(u)) + 1))
            r |= t
        return frozenset(ALL - r if neg else r)


class Regex:
    """a pattern; language of matching strings and marked languages of its groups"""

    def __init__(self, pattern):
        self.pattern = pattern
        p = Parser(pattern)
        self.tree = p.parse()
        self.groups = p.groups
        self.ngroup = p.ngroup
        self._cache = {}

    def compile(self, mark=None):
        """automaton of the whole string (unanchored ends may skip text); with `mark`, the group's markers are letters"""
        r = self._cache.get(mark)
        if r is not None:
            return r
        n = Nfa()

        def frag(x):
            s = n.state()
            k = x[0]
            if k == "set":
                e = n.state()
                n.tr[s].append((x[1], e))
                return s, e
            if k == "cat":
                e = s
                for y in x[1]:
                    a, b = frag(y)
                    n.eps[e].append(a)
                    e = b
                return s, e
            if k == "alt":
                e = n.state()
                for y in x[1]:
                    a, b = frag(y)
                    n.eps[s].append(a)
                    n.eps[b].append(e)
                return s, e
            if k == "rep":
                _, y, lo, hi = x
                if hi is not None and hi > 60 or lo > 60:
                    raise NotRegular("repetition too large")
                if mark and has_group(y, mark) and (lo, hi) not in ((0, 1), (1, 1)):
                    raise NotRegular("captured group inside a repetition")
                e = s
                for _ in range(lo):
                    a, b = frag(y)
                    n.eps[e].append(a)
                    e = b
                if hi is None:
                    a, b = frag(y)
                    f = n.state()
                    n.eps[e] += [a, f]
                    n.eps[b] += [a, f]
                    return s, f
                f = n.state()
                for _ in range(hi - lo):
                    n.eps[e].append(f)
                    a, b = frag(y)
                    n.eps[e].append(a)
                    e = b
                n.eps[e].append(f)
                return s, f
            if k == "grp":
                a, b = frag(x[2])
                if mark == x[1]:
                    e, c, d = n.state(), n.state(), n.state()
                    n.tr[s].append((frozenset([OPEN]), c))
                    n.eps[c].append(a)
                    n.tr[b].append((frozenset([CLOSE]), e))
                    return s, e
                n.eps[s].append(a)
                return s, b
            raise NotRegular("anchor in the middle of a pattern")

        body, pre, post = self.tree, True, True
        if body[0] == "cat":
            xs = list(body[1])
            if xs and xs[0] == ("bol",):
                pre = False
                xs = xs[1:]
            if xs and xs[-1] == ("eol",):
                post = False
                xs = xs[:-1]
            body = ("cat", xs)
        s, e = frag(body)
        s0, e0 = n.state(), n.state()
        n.eps[s0].append(s)
        n.eps[e].append(e0)
        if pre:
            n.tr[s0].append((ALL, s0))
        if post:
            n.tr[e0].append((ALL, e0))
        r = from_nfa(n, s0, e0, MARKED if mark else SIG)
        self._cache[mark] = r
        return r

    def matches(self):
        return self.compile()

    def group(self, g):
        """marked language of group g (number or name)"""
        if isinstance(g, str):
            if g not in self.groups:
                raise NotRegular("no group " + g)
            g = self.groups[g]
        if g > self.ngroup:
            raise NotRegular("no group %d" % g)
        if not g:
            xs = self.tree[1] if self.tree[0] == "cat" else []
            if not xs or xs[0] != ("bol",) or xs[-1] != ("eol",):
                raise NotRegular("whole match of an unanchored pattern")
            return whole(self.matches())
        r = self.compile(g)
        m = inter(r, WELL())
        if not functional(m):
            raise NotRegular("group %s of %r is ambiguous" % (g, self.pattern))
        if not inter(erase(m), erase(minus(r, m))).empty():
            raise NotRegular("group %s of %r may or may not take part in a match" % (g, self.pattern))
        return m


def has_group(x, g):
    if x[0] == "grp":
        return x[1] == g or has_group(x[2], g)
    if x[0] == "rep":
        return has_group(x[1], g)
    if x[0] in ("cat", "alt"):
        return any(has_group(y, g) for y in x[1])
    return False


# ---------------------------------------------------------------- simple languages
def of_tree(t):
    r = Regex("")
    r.tree = ("cat", [("bol",), t, ("eol",)])
    return r.matches()


def lits(w):
    for c in w:
        if ord(c) > 127:
            raise NotRegular("non-ASCII literal")
    return ("cat", [("set", frozenset(c)) for c in w])


ANY = ("rep", ("set", ALL), 0, None)


@functools.lru_cache(None)
def literal(w):
    return of_tree(lits(w))


@functools.lru_cache(None)
def literal_nocase(w):
    return of_tree(("cat", [("set", frozenset({c.lower(), c.upper()})) for c in w]))


@functools.lru_cache(None)
def prefix(w):
    return of_tree(("cat", [lits(w), ANY]))


@functools.lru_cache(None)
def suffix(w):
    return of_tree(("cat", [ANY, lits(w)]))


@functools.lru_cache(None)
def containing(w):
    return of_tree(("cat", [ANY, lits(w), ANY]))


@functools.lru_cache(None)
def every(letters, lo=0):
    return of_tree(("rep", ("set", letters), lo, None))


@functools.lru_cache(None)
def anything():
    return of_tree(ANY)


@functools.lru_cache(None)
def nothing():
    return minus(anything(), anything())


def _max_digits(limit):
    """decimal numerals without sign whose value is at most limit"""
    d = str(limit)

    # states: ("z",) only zeros so far; (i, tight) i significant digits read; dead
    def step(s):
        out = []
        for a in SIG:
            if a not in DIGITS or s == "dead":
                out.append("dead")
                continue
            if s in ("start", "z"):
                if a == "0":
                    out.append("z")
                    continue
                out.append((1, 0 if a == d[0] else (-1 if a < d[0] else 1)))
                continue
            i, c = s
            if i >= len(d):
                out.append("dead")
                continue
            c2 = c or (0 if a == d[i] else (-1 if a < d[i] else 1))
            out.append((i + 1, c2))
        return out

    def acc(s):
        if s in ("start", "dead"):
            return False
        if s == "z":
            return True
        i, c = s
        return i < len(d) or i == len(d) and c <= 0

    return determinize(SIG, "start", step, acc)


LIMIT = {"u8": 2**8 - 1, "u16": 2**16 - 1, "u32": 2**32 - 1, "u64": 2**64 - 1, "usize": 2**64 - 1, "u128": 2**128 - 1}


@functools.lru_cache(None)
def numeral(ty):
    """strings an unsigned integer type parses"""
    if ty not in LIMIT:
        raise NotRegular("parse::<%s>" % ty)
    d = _max_digits(LIMIT[ty])
    return union(d, concat(literal("+"), d))


def concat(a, b):
    n = Nfa()
    o1 = [n.state() for _ in a.delta]
    o2 = [n.state() for _ in b.delta]
    for off, x in ((o1, a), (o2, b)):
        for q, row in enumerate(x.delta):
            by = {}
            for i, t in enumerate(row):
                by.setdefault(t, set()).add(x.sig[i])
            for t, ls in by.items():
                n.tr[off[q]].append((frozenset(ls), off[t]))
    end = n.state()
    for q in a.acc:
        n.eps[o1[q]].append(o2[0])
    for q in b.acc:
        n.eps[o2[q]].append(end)
    return from_nfa(n, o1[0], end, a.sig)


# ---------------------------------------------------------------- marked languages
@functools.lru_cache(None)
def WELL():
    """words with exactly one well-formed pair of markers"""
    def step(s):
        out = []
        for a in MARKED:
            if a == OPEN:
                out.append(1 if s == 0 else 3)
            elif a == CLOSE:
                out.append(2 if s == 1 else 3)
            else:
                out.append(s)
        return out

    return determinize(MARKED, 0, step, lambda s: s == 2)


@functools.lru_cache(None)
def whole(dom):
    """the piece is the whole string, for strings in dom"""
    return mark3(literal(""), dom, literal(""))


@functools.lru_cache(None)
def mark3(a, b, c):
    """{u << v >> w : u in a, v in b, w in c}"""
    ix = len(SIG)
    n = Nfa()
    offs = []
    for x in (a, b, c):
        o = [n.state() for _ in x.delta]
        offs.append(o)
        for q, row in enumerate(x.delta):
            by = {}
            for i, t in enumerate(row):
                by.setdefault(t, set()).add(SIG[i])
            for t, ls in by.items():
                n.tr[o[q]].append((frozenset(ls), o[t]))
    end = n.state()
    for q in a.acc:
        n.tr[offs[0][q]].append((frozenset([OPEN]), offs[1][0]))
    for q in b.acc:
        n.tr[offs[1][q]].append((frozenset([CLOSE]), offs[2][0]))
    for q in c.acc:
        n.eps[offs[2][q]].append(end)
    return from_nfa(n, offs[0][0], end, MARKED)


@functools.lru_cache(None)
def erase(m):
    """the unmarked strings of a marked language"""
    oi, ci = len(SIG), len(SIG) + 1

    def closure(S):
        S = set(S)
        todo = list(S)
        while todo:
            q = todo.pop()
            for t in (m.delta[q][oi], m.delta[q][ci]):
                if t not in S:
                    S.add(t)
                    todo.append(t)
        return frozenset(S)

    return determinize(SIG, closure({0}), lambda S: [closure({m.delta[q][i] for q in S}) for i in range(len(SIG))], lambda S: bool(S & m.acc))


@functools.lru_cache(None)
def inside(lang):
    """marked words whose piece is in lang"""
    return mark3(anything(), lang, anything())


@functools.lru_cache(None)
def pre(m, lang):
    """strings whose piece (as marked by m) exists and lies in lang"""
    return erase(inter(m, inside(lang)))


@functools.lru_cache(None)
def restrict(m, dom):
    """m on the strings of dom only"""
    def step(s):
        out = []
        for i, a in enumerate(MARKED):
            out.append((m.delta[s[0]][i], s[1] if a in (OPEN, CLOSE) else dom.delta[s[1]][i]))
        return out

    return determinize(MARKED, (0, 0), step, lambda s: s[0] in m.acc and s[1] in dom.acc)


@functools.lru_cache(None)
def compose(outer, inner):
    """the piece `inner` marks within the piece `outer` marks"""
    oi, ci = len(SIG), len(SIG) + 1
    # nondeterministic: outer's markers are guessed (epsilon), inner's markers are read inside
    def closure(S):
        S = set(S)
        todo = list(S)
        while todo:
            q, p, ph = todo.pop()
            nxt = []
            if ph == 0:
                nxt.append((outer.delta[q][oi], 0, 1))
            if ph == 1 and p in inner.acc:
                nxt.append((outer.delta[q][ci], p, 2))
            for t in nxt:
                if t not in S:
                    S.add(t)
                    todo.append(t)
        return frozenset(S)

    def step(S):
        out = []
        for i, a in enumerate(MARKED):
            T = set()
            for q, p, ph in S:
                if a in (OPEN, CLOSE):
                    if ph == 1:
                        T.add((q, inner.delta[p][i], 1))
                elif ph == 1:
                    T.add((outer.delta[q][i], inner.delta[p][i], 1))
                else:
                    T.add((outer.delta[q][i], p, ph))
            out.append(closure(T))
        return out

    return inter(determinize(MARKED, closure({(0, 0, 0)}), step, lambda S: any(ph == 2 and q in outer.acc for q, p, ph in S)), WELL())


@functools.lru_cache(None)
def functional(m):
    """no string carries two different markings"""
    oi, ci = len(SIG), len(SIG) + 1
    live = alive(m)
    start = (0, 0, 0, 0, False)
    seen = {start}
    todo = [start]
    while todo:
        p, q, a, b, d = todo.pop()
        if p in m.acc and q in m.acc and a == 2 and b == 2 and d:
            return False
        nxt = []
        if a < 2:
            nxt.append((m.delta[p][oi + a], q, a + 1, b, d))
        if b < 2:
            nxt.append((p, m.delta[q][oi + b], a, b + 1, d))
        dd = d or a != b
        for i in range(len(SIG)):
            nxt.append((m.delta[p][i], m.delta[q][i], a, b, dd))
        for t in nxt:
            if t not in seen and t[0] in live and t[1] in live:
                seen.add(t)
                todo.append(t)
    return True


@functools.lru_cache(None)
def alive(m):
    """states from which acceptance is reachable"""
    back = {}
    for q, row in enumerate(m.delta):
        for t in set(row):
            back.setdefault(t, set()).add(q)
    r = set(m.acc)
    todo = list(r)
    while todo:
        for q in back.get(todo.pop(), ()):
            if q not in r:
                r.add(q)
                todo.append(q)
    return frozenset(r)


# ---------------------------------------------------------------- pieces made by str methods
@functools.lru_cache(None)
def before_first(d):
    """text before the first occurrence of d (strings containing d)"""
    return _cut(d, "first", "before")


@functools.lru_cache(None)
def no_occ(d):
    return minus(anything(), containing(d))


@functools.lru_cache(None)
def until(d):
    """strings u such that u + d contains d only at its end"""
    if len(d) == 1:
        return no_occ(d)
    raise NotRegular("multi-character delimiter")


def _cut(d, which, side):
    u = until(d)
    lit = literal(d)
    tail = anything() if which == "first" else no_occ(d)
    head = u if which == "first" else anything()
    if side == "before":
        return mark3(literal(""), head, concat(lit, tail))
    return mark3(concat(head, lit), tail, literal(""))


@functools.lru_cache(None)
def cut(d, which, side):
    """split_once (which = first) / rsplit_once (which = last)"""
    return _cut(d, which, side)


@functools.lru_cache(None)
def field(d, k, rest=False):
    """k-th piece of split(d); with rest, everything after the k-th delimiter"""
    u, lit = until(d), literal(d)
    head = literal("")
    for _ in range(k):
        head = concat(head, concat(u, lit))
    if rest:
        return mark3(head, anything(), literal(""))
    return mark3(head, u, union(literal(""), concat(lit, anything())))


@functools.lru_cache(None)
def at_least(d, k):
    """strings whose split(d) has at least k pieces"""
    u, lit = until(d), literal(d)
    head = literal("")
    for _ in range(k - 1):
        head = concat(head, concat(u, lit))
    return concat(head, anything())


@functools.lru_cache(None)
def strip(w, end):
    return mark3(literal(w), anything(), literal("")) if end == "prefix" else mark3(literal(""), anything(), literal(w))


@functools.lru_cache(None)
def trim(letters, left=True, right=True):
    inner = minus(anything(), union(concat(every(letters, 1), anything()) if left else nothing(), concat(anything(), every(letters, 1)) if right else nothing()))
    return mark3(every(letters) if left else literal(""), inner, every(letters) if right else literal(""))

"""Models of polars data frames and prettytable tables (used when the world of ext.py is installed).

A data frame read from a file is opaque: its column names are an arbitrary sequence and its cells arbitrary
optional values.  A frame built by the program is a list of Series."""
import terms as T
from terms import *
import values as V
from values import *
import models
import ext
from ext import over, full, outcome, put, result_of


def app(name, *args):
    return mk("app", name, "obj", *args)


def frame_of(path, sep):
    """the frame read from a CSV file"""
    return struct("DataFrame", src=app("frame", path, sep))


def names(d):
    return app("names", d)


def height_of(d):
    return A(mk("num", app("height", d), "nat"))


def optional(t):
    """opaque Option"""
    return option(A(mk("is", t, "Some")), mk("fld", t, "Some", "0"))


def src_column(d, name):
    i = fresh()
    return struct("Series", name=name, values=Comp([i], lt(A(i), height_of(d)), optional(app("cell", d, name, A(i)))), kind=app("dtype", d, name))


def columns_of(v):
    d = field(v, "src")
    if d is None:
        return fld(v, "columns")
    ns = names(d)
    j = fresh()
    return Comp([j], lt(A(j), A(mk("len", ns))), src_column(d, mk("nth", ns, A(j))))


def field(v, n):
    return dict(v.args[1]).get(n) if v.op == "struct" else None


def height(v):
    d = field(v, "src")
    if d is not None:
        return height_of(d)
    cs = fld(v, "columns")
    return seq_len(fld(seq_nth(cs, ZERO), "values"))


def get_column(v, name):
    """(found, Series)"""
    d = field(v, "src")
    if d is not None:
        ns = names(d)
        i = fresh()
        seq = Comp([i], lt(A(i), A(mk("len", ns))), mk("nth", ns, A(i)))
        return P(seq_exists(seq, lambda n: eqv(n, name))), src_column(d, name)
    m = field(v, "means")
    if m is not None:
        t = app("mean", m, name)
        return A(mk("is", app("io::mean", m, name), "Ok")), struct("Series", name=name, values=lst(optional(t)), kind=app("dtype", t))
    cs = fld(v, "columns")
    if cs.op != "list":
        raise models.Unsupported("column of a frame with unknown columns %s"%(T.show(cs)[:300]))
    # column names of a frame are distinct
    for c in cs.args:
        if fld(c, "name") is name:
            return ONE, c
    found, r = ZERO, None
    for c in reversed(cs.args):
        e = P(eqv(fld(c, "name"), name))
        if e is ZERO:
            continue
        r = c if r is None else ite(e, c, r)
        found = e + (ONE - e) * found
    return (found, r) if r is not None else (ZERO, struct("Series", name=name, values=EMPTY, kind=S("none")))


def isframe(v):
    return v.op == "struct" and v.args[0] == "DataFrame"


def isseries(v):
    return v.op == "struct" and v.args[0] == "Series"


# ---------------------------------------------------------------- reading
@over("CsvReadOptions::with_parse_options")
def f_with_parse(I, st, call, args):
    return struct("CsvRead", parse=full(I, st, args[1]), base=full(I, st, args[0]), ty=S(call.argty(1).s if call.argty(1) else ""))


@over("CsvReadOptions::try_into_reader_with_file_path")
def f_reader(I, st, call, args):
    o = full(I, st, args[0])
    p = full(I, st, args[1])
    path = vfield(p, "Some", "0")
    return outcome(I, st, "open", path, effect=lambda s: struct("CsvReader", options=o, path=path))


def plain_default(t):
    return t.op == "app" and t.args[0].startswith("default ")


def separator(o):
    """the separator when every other option has its default value, otherwise all options"""
    if o.op == "struct" and o.args[0] == "CsvRead":
        base, parse = fld(o, "base"), fld(o, "parse")
        if parse.op == "struct":
            sep = None
            for n, x in parse.args[1]:
                if n == "separator":
                    sep = x
                elif not defaulted(x, n):
                    return o
            if sep is not None and untouched(base):
                return C(44) if defaulted(sep, "separator") else sep
        elif untouched(parse) and untouched(base):
            return C(44)
    elif untouched(o):
        return C(44)
    return o


def untouched(t):
    if t.op == "struct":
        return all(defaulted(x, n) for n, x in t.args[1])
    return plain_default(t)


def defaulted(x, n):
    """x is field n of a default value"""
    seen = False
    for y in subterms(x):
        if y.op == "fld" and plain_default(y.args[0]):
            seen = True
        if y.op == "fld" and y.args[1] != n and plain_default(y.args[0]):
            return False
    return seen


def subterms(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            yield x
            todo += x.args


@over("CsvParseOptions::with_separator")
def f_sep(I, st, call, args):
    o = full(I, st, args[0])
    if o.op != "struct":
        return None
    return mk("struct", o.args[0], tuple((n, full(I, st, args[1]) if n == "separator" else x) for n, x in o.args[1]))


@over("SerReader::finish", "CsvReader::finish")
def f_finish(I, st, call, args):
    r = full(I, st, args[0])
    if not (r.op == "struct" and r.args[0] == "CsvReader"):
        return None
    f = frame_of(fld(r, "path"), separator(fld(r, "options")))
    return outcome(I, st, "frame", fld(f, "src"), effect=lambda s: f)


# ---------------------------------------------------------------- access
@over("DataFrame::get_columns", "DataFrame::iter", "DataFrame::columns")
def f_columns(I, st, call, args):
    v = full(I, st, args[0])
    return columns_of(v) if isframe(v) else None


@over("DataFrame::get_column_names", "DataFrame::get_column_names_str", "DataFrame::get_column_names_owned")
def f_names(I, st, call, args):
    v = full(I, st, args[0])
    return seq_map(columns_of(v), lambda c: fld(c, "name")) if isframe(v) else None


@over("DataFrame::height")
def f_height(I, st, call, args):
    v = full(I, st, args[0])
    return height(v) if isframe(v) else None


@over("DataFrame::width")
def f_width(I, st, call, args):
    v = full(I, st, args[0])
    return seq_len(columns_of(v)) if isframe(v) else None


@over("DataFrame::shape")
def f_shape(I, st, call, args):
    v = full(I, st, args[0])
    return tup(height(v), seq_len(columns_of(v))) if isframe(v) else None


@over("DataFrame::column")
def f_column(I, st, call, args):
    v = full(I, st, args[0])
    if not isframe(v):
        return None
    n = full(I, st, args[1])
    ok, c = get_column(v, n)
    return result_of(ok, c, app("error", v, n))


@over("SeriesTrait::name", "Series::name", "Column::name")
def f_name(I, st, call, args):
    v = full(I, st, args[0])
    return fld(v, "name") if isseries(v) else None


@over("SeriesTrait::len", "Series::len", "Column::len")
def f_len(I, st, call, args):
    v = full(I, st, args[0])
    return seq_len(fld(v, "values")) if isseries(v) else None


@over("SeriesTrait::is_empty", "Series::is_empty")
def f_is_empty(I, st, call, args):
    v = full(I, st, args[0])
    return eq0(seq_len(fld(v, "values"))) if isseries(v) else None


def constant_kind(v):
    k = field(v, "kind")
    return k.args[0] if k is not None and k.op == "str" else None


@over("SeriesTrait::get", "Series::get", "Column::get")
def f_get(I, st, call, args):
    v = full(I, st, args[0])
    if not isseries(v):
        return None
    i = P(full(I, st, args[1]))
    s = fld(v, "values")
    k = constant_kind(v)
    x = seq_nth(s, i)
    c = lt(i, seq_len(s))
    if k is None:
        return result_of(c, app("anyvalue", x), app("error", v, i))
    return result_of(c, ctor("AnyValue", k, x), app("error", v, i))


@over("Series::f64", "Column::f64")
def f_f64(I, st, call, args):
    v = full(I, st, args[0])
    if not isseries(v):
        return None
    k = constant_kind(v)
    if k is not None:
        return result_of(ONE if k == "Float64" else ZERO, seq_map(fld(v, "values"), Some), app("error", v))
    return result_of(A(mk("is", app("io::f64", fld(v, "kind")), "Ok")), seq_map(fld(v, "values"), lambda o: option(vcond(o, "Some"), A(mk("num", vfield(o, "Some", "0"), "real")))), app("error", v))


@over("Series::cast", "Series::strict_cast", "SeriesTrait::cast", "Column::cast")
def f_cast(I, st, call, args):
    v = full(I, st, args[0])
    t = full(I, st, args[1])
    if not isseries(v) or constant_kind(v) is not None or t.op != "enum" or len(t.args[1]) != 1:
        return None
    n = t.args[1][0][0]
    if n != "String":
        return None
    vs = seq_map(fld(v, "values"), lambda o: option(vcond(o, "Some"), app("text", vfield(o, "Some", "0"))))
    return result_of(A(mk("is", app("io::cast", fld(v, "kind")), "Ok")), struct("Series", name=fld(v, "name"), values=vs, kind=S("Text")), app("error", v))


@over("Series::str", "Column::str")
def f_str(I, st, call, args):
    v = full(I, st, args[0])
    if not isseries(v):
        return None
    k = constant_kind(v)
    if k == "Text":
        return result_of(ONE, fld(v, "values"), app("error", v))
    if k is not None:
        return result_of(ONE if k == "String" else ZERO, seq_map(fld(v, "values"), Some), app("error", v))
    # the texts of a column of strings are its values
    return result_of(A(mk("is", app("io::str", fld(v, "kind")), "Ok")), seq_map(fld(v, "values"), lambda o: option(vcond(o, "Some"), app("text", vfield(o, "Some", "0")))), app("error", v))


@over("ChunkedArray::get")
def f_ca_get(I, st, call, args):
    s = full(I, st, args[0])
    if not is_seq(s):
        return None
    i = P(full(I, st, args[1]))
    I.oblige(st, "index", ONE - lt(i, seq_len(s)))
    return seq_nth(s, i)


@over("ChunkedArray::first")
def f_ca_first(I, st, call, args):
    s = full(I, st, args[0])
    if not is_seq(s):
        return None
    x = seq_nth(s, ZERO)
    c = lt(ZERO, seq_len(s))
    return option(P(c) * P(vcond(x, "Some")), vfield(x, "Some", "0"))


@over("ChunkedArray::len")
def f_ca_len(I, st, call, args):
    s = full(I, st, args[0])
    return seq_len(s) if is_seq(s) else None


@over("ChunkedArray::iter", "ChunkedArray::into_iter", "ChunkedArray::into_no_null_iter", "StringChunked::iter")
def f_ca_iter(I, st, call, args):
    s = full(I, st, args[0])
    if not is_seq(s):
        return None
    if call.name.endswith("no_null_iter"):
        return seq_map(s, lambda o: vfield(o, "Some", "0"))
    return s


@over("ChunkedArray::null_count", "Series::null_count", "SeriesTrait::null_count")
def f_null_count(I, st, call, args):
    v = full(I, st, args[0])
    s = fld(v, "values") if isseries(v) else v
    if not is_seq(s) or isseries(v) and constant_kind(v) is not None:
        return None
    return seq_len(seq_filter(s, lambda o: ONE - P(vcond(o, "Some"))))


# ---------------------------------------------------------------- lazy frames
@over("IntoLazy::lazy")
def f_lazy(I, st, call, args):
    v = full(I, st, args[0])
    return v if isframe(v) else None


@over("LazyFrame::collect")
def f_collect(I, st, call, args):
    v = full(I, st, args[0])
    if not isframe(v):
        return None
    return result_of(A(mk("is", app("io::collect", *[x for _, x in v.args[1]]), "Ok")), v, app("error", v))


@over("dsl::col", "functions::col")
def f_col(I, st, call, args):
    return struct("Expr", col=full(I, st, args[0]), name=full(I, st, args[0]), mean=ZERO)


@over("Expr::alias")
def f_alias(I, st, call, args):
    e = full(I, st, args[0])
    return struct("Expr", col=fld(e, "col"), name=full(I, st, args[1]), mean=fld(e, "mean")) if e.op == "struct" else None


@over("Expr::exclude")
def f_exclude(I, st, call, args):
    # excluded columns are not looked up
    return full(I, st, args[0])


@over("Expr::mean")
def f_mean(I, st, call, args):
    e = full(I, st, args[0])
    return struct("Expr", col=fld(e, "col"), name=fld(e, "name"), mean=ONE) if e.op == "struct" else None


@over("LazyFrame::select")
def f_select(I, st, call, args):
    v = full(I, st, args[0])
    es = full(I, st, I.items(st, args[1]))
    if not isframe(v) or es.op != "list" or any(e.op != "struct" for e in es.args):
        return None
    src = field(v, "src")
    out = []
    for e in es.args:
        c = fld(e, "col")
        if c.op == "str" and c.args[0] == "*":
            if src is not None and len(es.args) == 1:
                return struct("DataFrame", means=src) if fld(e, "mean") is ONE else v
            return None
        if fld(e, "mean") is ONE:
            if src is None:
                return None
            t = app("mean", src, c)
            out.append(struct("Series", name=fld(e, "name"), values=lst(optional(t)), kind=app("dtype", t)))
            continue
        _, s = get_column(v, c)
        out.append(struct("Series", name=fld(e, "name"), values=fld(s, "values"), kind=fld(s, "kind")))
    return struct("DataFrame", columns=lst(*out))


@over("DataFrame::hstack")
def f_hstack(I, st, call, args):
    v = full(I, st, args[0])
    es = full(I, st, I.items(st, args[1]))
    if not isframe(v) or "columns" not in dict(v.args[1]) or es.op != "list" or any(e.op != "struct" for e in es.args):
        return None
    ok = A(mk("is", app("io::hstack", v, es), "Ok"))
    return result_of(ok, struct("DataFrame", columns=lst(*(fld(v, "columns").args + es.args))), app("error", v, es))


@over("JoinArgs::new")
def f_join_args(I, st, call, args):
    return struct("JoinArgs", how=full(I, st, args[0]))


def join(a, b, h):
    """rows of a with the columns of the (only) row of b with the same value of column h"""
    _, ka = get_column(a, h)
    _, kb = get_column(b, h)
    out = list(fld(a, "columns").args)
    keys = fld(ka, "values")
    have = {fld(c, "name") for c in out}
    for c in fld(b, "columns").args:
        if fld(c, "name") is h:
            continue
        col = fld(c, "values")
        vs = seq_map(keys, lambda k: optional(app("joined", k, fld(kb, "values"), col)))
        n = fld(c, "name")
        if n in have:
            n = scat(n, S("_right"))
        out.append(struct("Series", name=n, values=vs, kind=fld(c, "kind")))
    return struct("DataFrame", columns=lst(*out))


@over("LazyFrame::join", "LazyFrame::left_join", "LazyFrame::inner_join", "DataFrameJoinOps::left_join", "DataFrameJoinOps::inner_join")
def f_join(I, st, call, args):
    a, b = full(I, st, args[0]), full(I, st, args[1])
    if not (isframe(a) and isframe(b)) or "columns" not in dict(a.args[1]) or "columns" not in dict(b.args[1]):
        return None
    keys = []
    for x in args[2:4]:
        k = full(I, st, x)
        if is_seq(k):
            if k.op != "list" or len(k.args) != 1:
                return None
            k = k.args[0]
        keys.append(k)
    if not all(k.op == "struct" and k.args[0] == "Expr" for k in keys) or keys[0] is not keys[1]:
        return None
    if call.name == "LazyFrame::join":
        how = full(I, st, args[4])
        how = fld(how, "how") if how.op == "struct" else how
        if how.op != "enum" or [x[0] for x in how.args[1]] not in (["Left"], ["Inner"]):
            return None
    return join(a, b, fld(keys[0], "col"))


# ---------------------------------------------------------------- pretty tables
@over("Table::new")
def f_table(I, st, call, args):
    return struct("Table", titles=EMPTY, rows=EMPTY, format=S(""))


@over("Row::new", "Row::from")
def f_row(I, st, call, args):
    return full(I, st, I.items(st, args[0]))


@over("Cell::new")
def f_cell(I, st, call, args):
    return full(I, st, args[0])


def upd(I, st, ref, n, f):
    p = I.place_of(st, ref)
    v = I.read(st, *p)
    I.write(st, (p[0], p[1] + (("f", n),)), f(fld(v, n)))


@over("Table::set_titles")
def f_titles(I, st, call, args):
    r = full(I, st, args[1])
    upd(I, st, args[0], "titles", lambda _: r)
    return UNIT


@over("Table::add_row")
def f_add_row(I, st, call, args):
    r = full(I, st, args[1])
    upd(I, st, args[0], "rows", lambda x: cat(x, lst(r)))
    return args[0]


@over("Table::set_format")
def f_format(I, st, call, args):
    r = full(I, st, args[1])
    upd(I, st, args[0], "format", lambda _: r)
    return UNIT


def table_text(titles, rows, *fmt):
    return app("table", titles, rows, *fmt)


@over("Table::printstd")
def f_print(I, st, call, args):
    t = full(I, st, args[0])
    if not (t.op == "struct" and t.args[0] == "Table"):
        return None
    put(I, st, "out", table_text(fld(t, "titles"), fld(t, "rows"), fld(t, "format")))
    put(I, st, "out", S("\n"))
    return A(mk("num", app("printed", t), "nat"))

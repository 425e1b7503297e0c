"""Models of serialization, files, standard output and tables."""
import terms as T
from terms import *
import values as V
from values import *
from program import mkty, prim
from interp import Unsupported, Exit
from models import model, scat

S = V.S


def full(I, st, v):
    """value with every reference inside it read through"""
    import lab

    return lab.deep(I, st, v)


# ---------------------------------------------------------------- serde
def impl_item(I, trait, adt, item):
    i = I.prog.impl_idx.get((trait, adt))
    k = i["items"].get(item) if i else None
    if k is None or k not in I.prog.bodies:
        raise Unsupported("no %s::%s for %s" % (trait, item, adt))
    return k


def update(I, st, ref, f):
    """replace the object behind a mutable reference"""
    p = I.place_of(st, ref)
    if p is None:
        raise Unsupported("update through an unknown reference")
    v = I.read(st, *p)
    new, r = f(v)
    I.write(st, p, new)
    return r


@model("Serializer::serialize_struct", "Serializer::serialize_map")
def m_ser_struct(I, st, call, args):
    return Ok(struct("SerObj", fields=mk("list")))


def ser_push(I, st, ref, name, v):
    v = full(I, st, v)

    def f(o):
        if o.op != "struct" or o.args[0] != "SerObj":
            raise Unsupported("serialization into " + o.op)
        return struct("SerObj", fields=mk("list", *(fld(o, "fields").args + (mk("tuple", name, v),)))), Ok(UNIT)

    return update(I, st, ref, f)


@model("SerializeStruct::serialize_field", "SerializeMap::serialize_entry")
def m_ser_field(I, st, call, args):
    return ser_push(I, st, args[0], I.deref(st, args[1]), args[2])


@model("SerializeStruct::skip_field")
def m_ser_skip(I, st, call, args):
    return Ok(UNIT)


@model("SerializeStruct::end", "SerializeMap::end")
def m_ser_end(I, st, call, args):
    return Ok(I.deref(st, args[0]))


@model("Deserializer::deserialize_struct", "Deserializer::deserialize_map", "Deserializer::deserialize_any")
def m_de_struct(I, st, call, args):
    d = I.deref(st, args[0])
    vis = I.deref(st, args[-1])
    if d.op != "struct" or d.args[0] != "ObjDe":
        raise Unsupported("deserialization from " + d.op)
    acc = struct("MapAcc", items=fld(d, "items"))
    return I.call_key(st, impl_item(I, "Visitor", vis.args[0], "visit_map"), [vis, acc], {})


@model("Deserializer::deserialize_identifier", "Deserializer::deserialize_str", "Deserializer::deserialize_string")
def m_de_ident(I, st, call, args):
    d = I.deref(st, args[0])
    vis = I.deref(st, args[-1])
    if d.op != "struct" or d.args[0] != "KeyDe":
        raise Unsupported("deserialization from " + d.op)
    return I.call_key(st, impl_item(I, "Visitor", vis.args[0], "visit_str"), [vis, fld(d, "key")], {})


@model("MapAccess::next_key")
def m_next_key(I, st, call, args):
    p = I.place_of(st, args[0])
    acc = I.read(st, *p)
    items = fld(acc, "items")
    if items.op != "list":
        raise Unsupported("object with unknown fields")
    if not items.args:
        return Ok(NONE)
    t = call.ty.args[0].args[0]
    key = items.args[0].args[0]
    if t.k == "adt" and ("Deserialize", t.adt) in I.prog.impl_idx:
        r = I.call_key(st, impl_item(I, "Deserialize", t.adt, "deserialize"), [struct("KeyDe", key=key)], {})
        if st.rel is ZERO:
            return r
        r = I.deref(st, r)
        if vcond(r, "Ok") is not ONE:
            raise Unsupported("key that may be rejected")
        return Ok(Some(vfield(r, "Ok", "0")))
    if t.k == "adt" and t.name == "String" or t.k == "ref":
        return Ok(Some(key))
    raise Unsupported("map key of type " + str(t))


@model("MapAccess::next_value")
def m_next_value(I, st, call, args):
    def f(acc):
        items = fld(acc, "items")
        v = items.args[0].args[1]
        return struct("MapAcc", items=mk("list", *items.args[1:])), v

    v = update(I, st, args[0], f)
    t = call.ty.args[0]
    if t.k == "adt" and t.name == "IgnoredAny":
        return Ok(UNIT)
    if t.k != "param":
        # a conversion applied to the stored value
        return Ok(eta(mk("app", "deserialize::" + str(t), "obj", v), t))
    return Ok(v)


@model("de::missing_field", "Error::missing_field", "Error::duplicate_field", "Error::unknown_field", "Error::custom", "Error::invalid_length")
def m_de_error(I, st, call, args):
    e = mk("app", call.name, "obj", *[full(I, st, a) for a in args])
    return Err(e) if call.name == "de::missing_field" else e


# ---------------------------------------------------------------- files and standard output
# The outside world is a handful of cells: the text written so far to standard output and to the
# output file (complete lines + the line being written), the path and state of that file, and
# whether every write so far succeeded.
CELLS = ("out", "outl", "file", "filel", "path", "made", "dirty", "intact", "lost")


def world(I, st):
    """install the world cells"""
    I.world = {}
    for c in CELLS:
        I.world[c] = I.new_root(st, {"out": mk("list"), "file": mk("list"), "outl": S(""), "filel": S(""), "path": S(""), "made": ZERO, "dirty": S("clean"), "intact": S("ok"), "lost": S("no")}[c])
    return I.world


def cell(I, st, c):
    return st.store[I.world[c]]


def setcell(I, st, c, v):
    I.write(st, (I.world[c], ()), v)


def has_newline(t):
    if t.op == "str":
        return "\n" in t.args[0]
    if t.op in ("cats", "cases"):
        return any(has_newline(x if t.op == "cats" else x[0]) for x in t.args)
    return False


def textual(t):
    """bytes as text"""
    if t.op == "list":
        ks = [const_of(P(x)) if x.op == "poly" else None for x in t.args]
        if None not in ks:
            return S(bytes(int(k) for k in ks).decode("latin1"))
    return t


def put(I, st, which, text):
    text = textual(text)
    if text.op == "poly":
        raise Unsupported("written bytes")
    if text.op == "cases" and has_newline(text):
        def go(k, s):
            x, c = text.args[k]
            if k == len(text.args) - 1:
                put(I, s, which, x)
                return UNIT
            return I.branch(s, c, lambda s1: put(I, s1, which, x) or UNIT, lambda s2: go(k + 1, s2))

        go(0, st)
        return
    if text.op == "cats":
        for x in text.args:
            put(I, st, which, x)
        return
    if text.op == "str" and "\n" in text.args[0]:
        parts = text.args[0].split("\n")
        for p in parts[:-1]:
            line = scat(cell(I, st, which + "l"), S(p))
            setcell(I, st, which, cat(cell(I, st, which), lst(line)))
            setcell(I, st, which + "l", S(""))
        text = S(parts[-1])
        if not parts[-1]:
            return
    setcell(I, st, which + "l", scat(cell(I, st, which + "l"), text))


def outcome(I, st, what, *data, effect=None):
    """result of an operating system call that may fail"""
    t = mk("app", "io::" + what, "obj", *data)
    ok = A(mk("is", t, "Ok"))

    def good(s):
        return Ok(effect(s) if effect else UNIT)

    def bad(s):
        setcell(I, s, "intact", S("broken"))
        return Err(mk("fld", t, "Err", "0"))

    return I.branch(st, ok, good, bad)


def sink(I, st, v):
    """('file', buffered) / ('out', False) for a writer value, None when unknown"""
    v = I.deref(st, v)
    if v.op == "struct":
        if v.args[0] == "FileW":
            return "file", False
        if v.args[0] == "BufW":
            s = sink(I, st, fld(v, "inner"))
            return (s[0], True) if s else None
        if v.args[0] == "StdoutW":
            return "out", False
    return None


def write_to(I, st, k, text):
    which, buffered = k
    if which == "out":
        put(I, st, "out", text)
        return Ok(UNIT)

    def eff(s):
        put(I, s, "file", text)
        if buffered:
            setcell(I, s, "dirty", S("dirty"))
        return UNIT

    # the failure may depend on where in the output the text goes
    return outcome(I, st, "write", scat(cell(I, st, "filel"), textual(text)), effect=eff)


def over(*names):
    """model used when the world is installed (and the first argument is a known handle)"""
    import models

    def d(f):
        for n in names:
            old = models.MODELS.get(n)

            def m(I, st, call, args, old=old, f=f):
                if I.world is not None:
                    r = f(I, st, call, args)
                    if r is not None:
                        return r
                if old is not None:
                    return old(I, st, call, args)
                return I.opaque(st, call.f, args, call.ty, call.name)

            models.MODELS[n] = m
        return f

    return d


def pathof(I, st, v):
    return full(I, st, v)


@over("Path::display", "Path::to_string_lossy")
def w_path_text(I, st, call, args):
    return mk("app", "Path::to_string_lossy", "obj", pathof(I, st, args[0]))


@over("File::open")
def w_open(I, st, call, args):
    p = pathof(I, st, args[0])
    return outcome(I, st, "open", p, effect=lambda s: struct("FileR", path=p))


@over("File::create")
def w_create(I, st, call, args):
    p = pathof(I, st, args[0])

    def eff(s):
        setcell(I, s, "path", p)
        setcell(I, s, "made", P(cell(I, s, "made")) + 1)
        setcell(I, s, "file", mk("list"))
        setcell(I, s, "filel", S(""))
        setcell(I, s, "dirty", S("clean"))
        return struct("FileW", path=p)

    return outcome(I, st, "create", p, effect=eff)


@over("BufWriter::new", "BufWriter::with_capacity", "LineWriter::new")
def w_bufwriter(I, st, call, args):
    return struct("BufW", inner=I.deref(st, args[-1])) if sink(I, st, args[-1]) else None


@over("io::stdout", "stdio::stdout")
def w_stdout(I, st, call, args):
    return struct("StdoutW")


@over("Stdout::lock")
def w_lock(I, st, call, args):
    return I.deref(st, args[0])


@over("Write::write_all")
def w_write_all(I, st, call, args):
    k = sink(I, st, args[0])
    return write_to(I, st, k, I.deref(st, args[1])) if k else None


@over("Write::write_fmt")
def w_write_fmt(I, st, call, args):
    k = sink(I, st, args[0])
    return write_to(I, st, k, args[1]) if k else None


@over("Write::flush", "BufWriter::into_inner", "File::sync_all")
def w_flush(I, st, call, args):
    k = sink(I, st, args[0])
    if k is None:
        return None
    if k[0] == "out":
        return Ok(UNIT)
    v = I.deref(st, args[0])

    def eff(s):
        if call.name != "File::sync_all":
            setcell(I, s, "dirty", S("clean"))
        return fld(v, "inner") if call.name == "BufWriter::into_inner" else UNIT

    return outcome(I, st, "flush", effect=eff)


@over("io::_print", "stdio::_print")
def w_print(I, st, call, args):
    put(I, st, "out", args[0])
    return UNIT


@over("io::_eprint", "stdio::_eprint")
def w_eprint(I, st, call, args):
    return UNIT


def contents(p):
    return mk("app", "fs::text", "obj", p)


def reader(I, st, v):
    """path of the file behind a reader value"""
    v = I.deref(st, v)
    while v.op == "struct" and v.args[0] == "BufR":
        v = I.deref(st, fld(v, "inner"))
    return fld(v, "path") if v.op == "struct" and v.args[0] == "FileR" else None


@over("BufReader::new", "BufReader::with_capacity")
def w_bufreader(I, st, call, args):
    return struct("BufR", inner=I.deref(st, args[-1])) if reader(I, st, args[-1]) is not None else None


@over("BufRead::lines")
def w_lines(I, st, call, args):
    p = reader(I, st, args[0])
    if p is None:
        return None
    t = mk("app", "lines", "obj", contents(p))
    i = fresh()
    r = mk("app", "io::line", "obj", p, A(i))
    return mk("it", Comp([i], lt(A(i), A(mk("len", t))), result_of(A(mk("is", r, "Ok")), mk("nth", t, A(i)), mk("fld", r, "Err", "0"))), ())


def result_of(ok, v, e):
    import models

    return models.result(ok, v, e)


@over("fs::read_to_string", "io::read_to_string")
def w_read_all(I, st, call, args):
    p = reader(I, st, args[0]) or pathof(I, st, args[0])
    return outcome(I, st, "read", p, effect=lambda s: contents(p))


@over("Read::read_to_string")
def w_read_string(I, st, call, args):
    p = reader(I, st, args[0])
    if p is None:
        return None

    def eff(s):
        q = I.place_of(s, args[1])
        I.write(s, q, scat(I.read(s, *q), contents(p)))
        return A(mk("len", contents(p)))

    return outcome(I, st, "read", p, effect=eff)


# ---------------------------------------------------------------- JSON
def json(I, st, v):
    return mk("app", "json", "obj", full(I, st, v))


@over("serde_json::to_writer", "ser::to_writer")
def w_json_writer(I, st, call, args):
    k = sink(I, st, args[0])
    return write_to(I, st, k, json(I, st, args[1])) if k else None


@over("serde_json::to_string", "serde_json::to_vec", "ser::to_string", "ser::to_vec")
def w_json_string(I, st, call, args):
    t = json(I, st, args[0])
    return outcome(I, st, "json", t, effect=lambda s: t)


def tyname(t):
    if t.k == "adt":
        return t.name + ("<%s>" % ",".join(tyname(a) for a in t.args) if t.args else "")
    if t.k == "ref":
        return tyname(t.of)
    return t.s


def parsed(ty, text):
    """result of reading a value of the type from JSON text"""
    r = mk("app", "json::parse", "obj", S(tyname(ty)), text)
    return result_of(A(mk("is", r, "Ok")), eta(mk("fld", r, "Ok", "0"), ty), mk("fld", r, "Err", "0"))


@over("serde_json::from_str", "de::from_str", "serde_json::from_slice")
def w_json_parse(I, st, call, args):
    return parsed(call.ty.args[0], full(I, st, args[0]))


@over("Context::context", "Context::with_context")
def w_context(I, st, call, args):
    v = I.deref(st, args[0])
    if v.op in ("enum", "cases"):
        # the error only gains a message
        ok = vcond(v, "Ok") if call.argty(0) is None or call.argty(0).name == "Result" else vcond(v, "Some")
        x = vfield(v, "Ok", "0") if call.argty(0) is None or call.argty(0).name == "Result" else vfield(v, "Some", "0")
        return result_of(P(ok), x, mk("app", "context", "obj"))
    return None


# ---------------------------------------------------------------- data frames
@over("PlSmallStr::from_str", "PlSmallStr::from_static", "PlSmallStr::from_string", "PlSmallStr::as_str", "PlSmallStr::to_string", "PlSmallStr::as_ref")
def w_smallstr(I, st, call, args):
    return I.deref(st, args[0])


@over("NamedFrom::new", "Series::new", "Series::from_vec", "Column::new")
def w_series(I, st, call, args):
    v = full(I, st, args[1])
    return struct("Series", name=full(I, st, args[0]), values=full(I, st, I.items(st, v)), kind=S(kind_of(call.argty(1))))


KINDS = {"f64": "Float64", "f32": "Float32", "u64": "UInt64", "i64": "Int64", "u32": "UInt32", "i32": "Int32", "bool": "Boolean"}


def kind_of(t):
    """data type of a column made from values of the Rust type t (a sequence)"""
    while t is not None and t.k == "ref":
        t = t.of
    if t is None:
        return "?"
    e = t.of if t.k == "slice" else t.args[0] if t.args else t
    while e.k == "ref":
        e = e.of
    if e.k == "prim":
        return "String" if e.s == "str" else KINDS.get(e.s, e.s)
    return "String" if e.name in ("String", "Cow") else "?" + str(e.name)


@over("Series::with_name")
def w_with_name(I, st, call, args):
    v = I.deref(st, args[0])
    return struct("Series", name=full(I, st, args[1]), values=fld(v, "values"), kind=fld(v, "kind"))


@over("Series::rename")
def w_rename(I, st, call, args):
    v = I.deref(st, args[0])
    I.write(st, I.place_of(st, args[0]), struct("Series", name=full(I, st, args[1]), values=fld(v, "values"), kind=fld(v, "kind")))
    return args[0]


@over("DataFrame::new")
def w_frame(I, st, call, args):
    cs = full(I, st, I.items(st, args[0]))
    if cs.op == "list" and all(c.op == "struct" for c in cs.args):
        # a frame can be built from columns of equal length with different names
        ns = [fld(c, "name") for c in cs.args]
        n = [seq_len(fld(c, "values")) for c in cs.args]
        if all(x.op in ("str", "cats") for x in ns) and all(eqv(a, b) is ZERO for i, a in enumerate(ns) for b in ns[:i]) and all(x is n[0] for x in n):
            return Ok(struct("DataFrame", columns=cs))
    t = mk("app", "io::frame", "obj", cs)
    return result_of(A(mk("is", t, "Ok")), struct("DataFrame", columns=cs), mk("fld", t, "Err", "0"))


@over("SerWriter::new", "CsvWriter::new")
def w_csv(I, st, call, args):
    if call.ty.name != "CsvWriter":
        return None
    k = sink(I, st, args[0])
    return struct("CsvW", inner=args[0], options=lst(tup(S("with_separator"), C(44)))) if k else None


@over("CsvWriter::with_separator", "CsvWriter::include_header", "CsvWriter::with_quote_char", "CsvWriter::with_float_precision", "CsvWriter::with_null_value", "CsvWriter::with_float_scientific",
      "CsvWriter::with_quote_style", "CsvWriter::with_line_terminator", "CsvWriter::include_bom")
def w_csv_option(I, st, call, args):
    v = I.deref(st, args[0])
    if v.op != "struct":
        return None
    o = {x.args[0].args[0]: x for x in fld(v, "options").args}
    n = call.name.split("::")[-1]
    o[n] = tup(S(n), full(I, st, args[1]))
    if CSV_DEFAULT.get(n) is o[n].args[1]:
        del o[n]
    return struct("CsvW", inner=fld(v, "inner"), options=mk("list", *[o[k] for k in sorted(o)]))


CSV_DEFAULT = {"include_header": ONE, "include_bom": ZERO}


@over("CsvWriter::with_batch_size", "CsvWriter::n_threads")
def w_csv_tuning(I, st, call, args):
    return args[0]


@over("SerWriter::finish", "CsvWriter::finish")
def w_csv_finish(I, st, call, args):
    v = I.deref(st, args[0])
    if v.op != "struct":
        return None
    k = sink(I, st, fld(v, "inner"))
    df = full(I, st, args[1])
    text = mk("app", "csv", "obj", fld(df, "columns"), fld(v, "options"))

    def eff(s):
        put(I, s, k[0], text)
        put(I, s, k[0], S("\n"))
        if k[1]:
            setcell(I, s, "dirty", S("dirty"))
        return UNIT

    return outcome(I, st, "write", text, effect=eff)

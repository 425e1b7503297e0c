"""Semantics of the library functions the program calls (std, statrs, rand, regex, ...)."""
import terms as T
from terms import *
import values as V
from values import *
from program import norm, Ty, mkty, prim
import interp as IP
import lang
from interp import Unsupported, UNSIGNED, SIGNED, BITS, rep, idiv, imod, trunc, extremum_of

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def val(I, st, v):
    return I.deref(st, v)


def Int(st, I, v):
    return P(I.deref(st, v))


# ---------------------------------------------------------------- identity-like
@model(
    "Deref::deref", "AsRef::as_ref", "Borrow::borrow", "Clone::clone", "ToOwned::to_owned", "Into::into", "From::from", "String::as_str",
    "Vec::as_slice", "slice::to_vec", "slice::into_vec", "String::into_boxed_str", "Vec::into_boxed_slice", "Box::new", "Rc::new", "Arc::new",
    "Iterator::copied", "Iterator::cloned", "Iterator::by_ref", "Option::copied", "Option::cloned", "Option::as_ref", "Option::as_deref",
    "Result::as_ref", "Result::copied", "Result::cloned", "hint::black_box", "must_use", "hint::must_use", "__private::must_use", "convert::identity",
    "String::into_string", "str::to_owned", "str::to_string", "str::as_ref", "str::as_bytes", "String::as_bytes", "String::into_bytes", "OrderedFloat::into_inner",
    "Cow::into_owned", "Path::new", "PathBuf::as_path", "Path::to_path_buf", "PathBuf::into_boxed_path", "Iterator::fuse", "str::as_str", "Iterator::into_iter", "box_new", "Cow::Borrowed", "slice::as_slice",
    "slice::as_ref", "Vec::as_ref", "OrderedFloat::from", "f64::from", "f64::into", "String::from", "Vec::from", "slice::to_owned", "Option::as_slice", "PathBuf::from",
    "Iterator::peekable",
    "boxed::into_vec",
)
def m_ident(I, st, call, args):
    v = args[0]
    if call.name in ("From::from", "Into::into"):
        return convert(I, st, call, v)
    if v.op == "ref" and call.name not in ("Iterator::by_ref",):
        return I.deref(st, v)
    return v


def convert(I, st, call, v):
    """From/Into between types"""
    dst = call.ty
    src = call.argty(0)
    if call.name == "Into::into" and dst is not None and dst.k == "adt" and src is not dst:
        i = I.prog.impl_idx.get(("From", dst.adt))
        if i and "from" in i["items"]:
            # several From impls may exist: choose by parameter type
            for j in I.prog.impls:
                if j["trait"] and j["trait"].split("::")[-1].startswith("From<") and j["self"].k == "adt" and j["self"].adt == dst.adt:
                    b = I.prog.bodies.get(j["items"].get("from"))
                    if b is not None and src is not None and b["params"][0].get("t") is src:
                        return I.call_key(st, j["items"]["from"], [v])
    v = I.deref(st, v) if v.op == "ref" else v
    if dst is None:
        return v
    n = stdname(dst.adt) if dst.k == "adt" else None
    if v.op == "list" and n in ("BTreeMap", "HashMap"):
        return seq_to_map(v)
    if is_seq(v) and n in ("BTreeSet", "HashSet"):
        return mk("set", seq_to_map(seq_map(v, lambda x: tup(x, UNIT))))
    if n == "Option" and src is not dst:
        return Some(v)
    if n in ("Error",):
        return mk("app", "error", "obj", I.deep(st, v))
    return v


@model("Option::take")
def m_take_opt(I, st, call, args):
    return m_mem_replace(I, st, call, [args[0], NONE])


@model("mem::replace", "Option::replace")
def m_mem_replace(I, st, call, args):
    p = I.place_of(st, args[0])
    old = I.read(st, *p)
    I.write(st, p, Some(args[1]) if call.name == "Option::replace" else args[1])
    return old


@model("mem::take")
def m_mem_take(I, st, call, args):
    p = I.place_of(st, args[0])
    old = I.read(st, *p)
    I.write(st, p, default_of(I, st, call.ty))
    return old


@model("mem::swap")
def m_mem_swap(I, st, call, args):
    p, q = I.place_of(st, args[0]), I.place_of(st, args[1])
    a, b = I.read(st, *p), I.read(st, *q)
    I.write(st, p, b)
    I.write(st, q, a)
    return UNIT


@model("mem::drop")
def m_drop(I, st, call, args):
    I.event(st, "drop", (I.deep(st, args[0]),))
    return UNIT


@model("DerefMut::deref_mut", "BorrowMut::borrow_mut", "AsMut::as_mut", "Vec::as_mut_slice", "slice::as_mut")
def m_mutident(I, st, call, args):
    return args[0]


@model("Option::as_mut", "Option::as_deref_mut")
def m_as_mut(I, st, call, args):
    p = I.place_of(st, args[0])
    v = I.read(st, *p)
    return option(vcond(v, "Some"), I.ref(p[0], p[1] + (("v", "Some", "0"),)))


# ---------------------------------------------------------------- Default
def default_of(I, st, ty):
    if ty is None:
        raise Unsupported("default of unknown type")
    if ty.k == "prim":
        if ty.s == "bool" or sort_of_ty(ty):
            return ZERO
        return S("")
    if ty.k == "tuple":
        return mk("tuple", *[default_of(I, st, t) for t in ty.args]) if ty.args else UNIT
    if ty.k == "adt":
        n = stdname(ty.adt)
        if n in ("Vec", "VecDeque"):
            return EMPTY
        if n in ("BTreeMap", "HashMap"):
            return MEMPTY
        if n in ("BTreeSet", "HashSet"):
            return mk("set", MEMPTY)
        if n == "String":
            return S("")
        if n == "Option":
            return NONE
        if n in TRANSPARENT and ty.args:
            return default_of(I, st, ty.args[0])
        i = I.prog.impl_idx.get(("Default", ty.adt))
        if i and "default" in i["items"] and i["items"]["default"] in I.prog.bodies:
            return I.call_key(st, i["items"]["default"], [])
    if ty.k == "slice":
        return EMPTY
    return eta(mk("app", "default " + ty.s, "obj"), ty)


@model("Default::default", "Option::unwrap_or_default", "Result::unwrap_or_default")
def m_default(I, st, call, args):
    if call.name != "Default::default":
        v = I.deref(st, args[0])
        ok = okname(v, call)
        return ite(vcond(v, ok), vfield(v, ok, "0"), default_of(I, st, call.ty))
    return default_of(I, st, call.ty)


@model("Vec::new", "String::new", "BTreeMap::new", "HashMap::new", "BTreeSet::new", "HashSet::new", "Vec::with_capacity", "HashMap::with_capacity", "HashSet::with_capacity", "String::with_capacity", "VecDeque::new", "Vec::with_capacity_in")
def m_new(I, st, call, args):
    if call.ty is None:
        # used as a function value
        n = call.name.split("::")[0]
        return S("") if n == "String" else EMPTY if n in ("Vec", "VecDeque") else mk("set", MEMPTY) if n.endswith("Set") else MEMPTY
    return default_of(I, st, call.ty)


# ---------------------------------------------------------------- Option / Result
def okname(v, call, i=0):
    if v.op == "enum":
        return "Some" if v.args[0] == "Option" else "Ok"
    if v.op == "cases":
        return okname(v.args[0][0], call)
    t = call.argty(i) if call else None
    if t is not None:
        while t.k == "ref":
            t = t.of
        if t.k == "adt" and t.name == "Result":
            return "Ok"
    return "Some"


def okc(v, call):
    n = okname(v, call)
    return vcond(v, n)


def okv(I, v, call):
    n = okname(v, call)
    return vfield(v, n, "0")


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def m_unwrap(I, st, call, args):
    v = I.deref(st, args[0])
    c = okc(v, call)
    I.oblige(st, "unwrap", ONE - c, call.name)
    if st.rel is ZERO:
        return mk("never")
    return under(okv(I, v, call), c)


@model("Option::unwrap_unchecked", "Result::unwrap_unchecked")
def m_unwrap_un(I, st, call, args):
    return m_unwrap(I, st, call, args)


@model("Result::unwrap_err", "Result::expect_err")
def m_unwrap_err(I, st, call, args):
    v = I.deref(st, args[0])
    I.oblige(st, "unwrap", vcond(v, "Ok"), call.name)
    return vfield(v, "Err", "0")


@model("Option::is_some", "Result::is_ok")
def m_is_some(I, st, call, args):
    return okc(I.deref(st, args[0]), call)


@model("Option::is_none", "Result::is_err")
def m_is_none(I, st, call, args):
    return ONE - okc(I.deref(st, args[0]), call)


def maybe(I, st, v, call, f, g):
    """f(payload) if Some/Ok else g()"""
    c = okc(v, call)
    return I.branch(st, c, lambda s: f(s, under(okv(I, v, call), c)), g)


@model("Option::is_some_and", "Result::is_ok_and")
def m_is_some_and(I, st, call, args):
    return maybe(I, st, I.deref(st, args[0]), call, lambda s, x: P(I.apply(s, args[1], [x])), lambda s: ZERO)


@model("Option::is_none_or")
def m_is_none_or(I, st, call, args):
    return maybe(I, st, I.deref(st, args[0]), call, lambda s, x: P(I.apply(s, args[1], [x])), lambda s: ONE)


def rewrap(v, call, x):
    return Some(x) if okname(v, call) == "Some" else Ok(x)


def fail_of(v, call):
    return NONE if okname(v, call) == "Some" else Err(vfield(v, "Err", "0"))


@model("Option::map", "Result::map")
def m_opt_map(I, st, call, args):
    v = I.deref(st, args[0])
    return maybe(I, st, v, call, lambda s, x: rewrap(v, call, I.apply(s, args[1], [x])), lambda s: fail_of(v, call))


@model("Option::and_then", "Result::and_then")
def m_and_then(I, st, call, args):
    v = I.deref(st, args[0])
    return maybe(I, st, v, call, lambda s, x: I.apply(s, args[1], [x]), lambda s: fail_of(v, call))


@model("Option::and", "Result::and")
def m_and(I, st, call, args):
    v = I.deref(st, args[0])
    return ite(okc(v, call), args[1], fail_of(v, call))


@model("Option::or", "Result::or")
def m_or(I, st, call, args):
    v = I.deref(st, args[0])
    return ite(okc(v, call), v, I.deref(st, args[1]))


@model("Option::or_else", "Result::or_else")
def m_or_else(I, st, call, args):
    v = I.deref(st, args[0])
    c = okc(v, call)
    return I.branch(st, c, lambda s: under(v, c), lambda s: I.apply(s, args[1], [] if okname(v, call) == "Some" else [vfield(v, "Err", "0")]))


@model("Option::xor")
def m_xor(I, st, call, args):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    ca, cb = okc(a, call), okc(b, call)
    return ite(ca * (ONE - cb), a, ite(cb * (ONE - ca), b, NONE))


@model("Option::filter")
def m_opt_filter(I, st, call, args):
    v = I.deref(st, args[0])

    def f(s, x):
        return option(P(I.apply(s, args[1], [x])), x)

    return maybe(I, st, v, call, f, lambda s: NONE)


@model("Option::unwrap_or", "Result::unwrap_or")
def m_unwrap_or(I, st, call, args):
    v = I.deref(st, args[0])
    return ite(okc(v, call), okv(I, v, call), args[1])


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwrap_or_else(I, st, call, args):
    v = I.deref(st, args[0])
    return maybe(I, st, v, call, lambda s, x: x, lambda s: I.apply(s, args[1], [] if okname(v, call) == "Some" else [vfield(v, "Err", "0")]))


@model("Option::map_or", "Result::map_or")
def m_map_or(I, st, call, args):
    v = I.deref(st, args[0])
    return maybe(I, st, v, call, lambda s, x: I.apply(s, args[2], [x]), lambda s: args[1])


@model("Option::map_or_else", "Result::map_or_else")
def m_map_or_else(I, st, call, args):
    v = I.deref(st, args[0])
    return maybe(I, st, v, call, lambda s, x: I.apply(s, args[2], [x]), lambda s: I.apply(s, args[1], [] if okname(v, call) == "Some" else [vfield(v, "Err", "0")]))


@model("Option::ok_or")
def m_ok_or(I, st, call, args):
    v = I.deref(st, args[0])
    return result(okc(v, call), okv(I, v, call), args[1])


@model("Option::ok_or_else")
def m_ok_or_else(I, st, call, args):
    v = I.deref(st, args[0])
    return maybe(I, st, v, call, lambda s, x: Ok(x), lambda s: Err(I.apply(s, args[1], [])))


@model("Result::ok")
def m_ok(I, st, call, args):
    v = I.deref(st, args[0])
    return option(vcond(v, "Ok"), vfield(v, "Ok", "0"))


@model("Result::err")
def m_err(I, st, call, args):
    v = I.deref(st, args[0])
    return option(vcond(v, "Err"), vfield(v, "Err", "0"))


@model("Result::map_err")
def m_map_err(I, st, call, args):
    v = I.deref(st, args[0])
    c = vcond(v, "Ok")
    return I.branch(st, c, lambda s: Ok(vfield(v, "Ok", "0")), lambda s: Err(I.apply(s, args[1], [vfield(v, "Err", "0")])))


@model("Option::transpose", "Result::transpose")
def m_transpose(I, st, call, args):
    v = I.deref(st, args[0])
    if okname(v, call) == "Some":
        c = vcond(v, "Some")
        x = vfield(v, "Some", "0")
        ok = vcond(x, "Ok") if c is not ZERO else ONE
        if c is ZERO:
            return Ok(NONE)
        good = option(c, vfield(x, "Ok", "0"))
        return result(ONE - c * (ONE - ok), good, vfield(x, "Err", "0"))
    c = vcond(v, "Ok")
    x = vfield(v, "Ok", "0")
    some = vcond(x, "Some")
    return option(ONE - c * (ONE - some), result(c, vfield(x, "Some", "0"), vfield(v, "Err", "0")))


@model("Option::flatten", "Result::flatten")
def m_flatten_opt(I, st, call, args):
    v = I.deref(st, args[0])
    return maybe(I, st, v, call, lambda s, x: x, lambda s: fail_of(v, call))


@model("Option::zip")
def m_opt_zip(I, st, call, args):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    return option(okc(a, call) * vcond(b, "Some"), tup(vfield(a, "Some", "0"), vfield(b, "Some", "0")))


@model("Option::iter", "Option::into_iter", "Result::iter")
def m_opt_iter(I, st, call, args):
    return into_iter(I, st, args[0], call)


@model("Option::get_or_insert_with", "Option::get_or_insert")
def m_goiw(I, st, call, args):
    p = I.place_of(st, args[0])
    v = I.read(st, *p)
    c = vcond(v, "Some")

    def g(s):
        x = I.apply(s, args[1], []) if call.name.endswith("with") else args[1]
        I.write(s, p, Some(x))
        return UNIT

    I.branch(st, c, lambda s: UNIT, g)
    return I.ref(p[0], p[1] + (("v", "Some", "0"),))


@model("Option::insert")
def m_opt_insert(I, st, call, args):
    p = I.place_of(st, args[0])
    I.write(st, p, Some(args[1]))
    return I.ref(p[0], p[1] + (("v", "Some", "0"),))


@model("bool::then")
def m_then(I, st, call, args):
    c = P(I.deref(st, args[0]))
    return I.branch(st, c, lambda s: Some(I.apply(s, args[1], [])), lambda s: NONE)


@model("bool::then_some")
def m_then_some(I, st, call, args):
    return option(P(I.deref(st, args[0])), args[1])


@model("Try::branch")
def m_branch(I, st, call, args):
    v = I.deref(st, args[0])
    c = okc(v, call)
    bad = NONE if okname(v, call) == "Some" else Err(vfield(v, "Err", "0") if c is not ONE else UNIT)
    return mkenum("ControlFlow", [("Break", ONE - c, (("0", bad),)), ("Continue", c, (("0", under(okv(I, v, call), c)),))])


@model("FromResidual::from_residual")
def m_from_residual(I, st, call, args):
    v = args[0]
    if v.op == "enum" and v.args[0] == "Result":
        e = vfield(v, "Err", "0")
        dst = call.ty
        src = call.argty(0)
        if dst is not None and dst.k == "adt" and dst.name == "Result" and src is not None and src.k == "adt" and len(src.args) > 1:
            de, se = dst.args[-1] if len(dst.args) > 1 else None, src.args[1]
            if de is not None and de is not se and de.k == "adt":
                for j in I.prog.impls:
                    if j["trait"] and j["trait"].split("::")[-1].startswith("From<") and j["self"].k == "adt" and j["self"].adt == de.adt:
                        b = I.prog.bodies.get(j["items"].get("from"))
                        if b is not None and b["params"][0].get("t") is se:
                            return Err(I.call_key(st, j["items"]["from"], [e]))
                if stdname(de.adt) not in TRANSPARENT and e.op != "app":
                    e = mk("app", "error", "obj", I.deep(st, e))
        return Err(e)
    return v


@model("Try::from_output")
def m_from_output(I, st, call, args):
    return rewrap(eta(mk("sym", "x", "obj"), call.ty), call, args[0])


# ---------------------------------------------------------------- panics
@model(
    "panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::panic_explicit", "panicking::unreachable_display", "rt::begin_panic", "option::expect_failed",
    "panicking::assert_failed", "rt::panic_fmt", "panicking::panic_nounwind", "process::abort", "panicking::unreachable", "panicking::todo", "panicking::panic_const", "panicking::panic_str_2015",
    "panicking::panic_str", "rt::panic_display",
)
def m_panic(I, st, call, args):
    I.oblige(st, "panic", ONE, call.name)
    st.rel = ZERO
    return mk("never")


@model("process::exit")
def m_exit(I, st, call, args):
    I.event(st, "exit", (I.deep(st, args[0]),))
    st.rel = ZERO
    return mk("never")


# ---------------------------------------------------------------- comparison
@model("PartialEq::eq", "PartialEq::ne", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_cmpop(I, st, call, args):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    op = call.name.split("::")[1].capitalize()
    if a.op == "it":
        a = I.force(st, a)
    return I.compare(op, a, b)


@model("Iterator::eq", "Iterator::ne")
def m_itereq(I, st, call, args):
    a = I.items(st, args[0])
    b = I.items(st, args[1])
    c = eqv(a, b)
    return c if call.name.endswith("eq") else ONE - c


@model("Ord::cmp", "f64::total_cmp", "OrderedFloat::cmp")
def m_cmp(I, st, call, args):
    return cmpv(I.deref(st, args[0]), I.deref(st, args[1]))


@model("Iterator::cmp", "Iterator::partial_cmp")
def m_itercmp(I, st, call, args):
    a, b = I.items(st, args[0]), I.items(st, args[1])
    l, e = A(mk("lto", mk("seqkey", a), mk("seqkey", b))), eqv(a, b)
    return ordering(l, e) if call.name.endswith("::cmp") else Some(ordering(l, e))


@model("PartialOrd::partial_cmp")
def m_partial_cmp(I, st, call, args):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    o = cmpv(a, b)
    c = ONE
    t = call.argty(0)
    while t is not None and t.k == "ref":
        t = t.of
    if t is not None and t.k == "prim" and t.s in FLOATS and a.op == "poly" and b.op == "poly":
        c = (ONE - nan(a)) * (ONE - nan(b))
    return option(c, o)


def nan(p):
    return nf(P(p))


@model("Ordering::reverse")
def m_rev_ord(I, st, call, args):
    v = I.deref(st, args[0])
    return ordering(vcond(v, "Greater"), vcond(v, "Equal"), vcond(v, "Less"))


@model("Ordering::then")
def m_ord_then(I, st, call, args):
    v, w = I.deref(st, args[0]), I.deref(st, args[1])
    e = vcond(v, "Equal")
    return ordering(vcond(v, "Less") + e * vcond(w, "Less"), e * vcond(w, "Equal"), vcond(v, "Greater") + e * vcond(w, "Greater"))


@model("Ordering::then_with")
def m_ord_then_with(I, st, call, args):
    v = I.deref(st, args[0])
    e = vcond(v, "Equal")
    w = I.branch(st, e, lambda s: I.apply(s, args[1], []), lambda s: ctor("Ordering", "Equal"))
    if w.op == "never":
        return v
    return ordering(vcond(v, "Less") + e * vcond(w, "Less"), e * vcond(w, "Equal"), vcond(v, "Greater") + e * vcond(w, "Greater"))


@model("Ordering::is_lt", "Ordering::is_gt", "Ordering::is_eq", "Ordering::is_ne", "Ordering::is_le", "Ordering::is_ge")
def m_ord_is(I, st, call, args):
    v = I.deref(st, args[0])
    l, e, g = (vcond(v, x) for x in ORD)
    return {"is_lt": l, "is_gt": g, "is_eq": e, "is_ne": l + g, "is_le": l + e, "is_ge": e + g}[call.name.split("::")[1]]


@model("Ord::max", "cmp::max", "f64::max", "usize::max", "i32::max", "u32::max")
def m_max(I, st, call, args):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    if a.op == "poly" or b.op == "poly":
        return fmax2(P(a), P(b))
    return ite(ltv(b, a), a, b)


@model("Ord::min", "cmp::min", "f64::min", "usize::min")
def m_min(I, st, call, args):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    if a.op == "poly" or b.op == "poly":
        return fmin2(P(a), P(b))
    return ite(ltv(b, a), b, a)


def is_inf(p):
    """+1/-1 when p is the infinity constant, 0 for NaN constant, None otherwise"""
    if len(p.args) == 1:
        m, c = p.args[0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "num" and m[0][0].args[0].op == "sym":
            s = m[0][0].args[0].args[0]
            if s == "NaN":
                return 0
            if s == "inf":
                return 1 if c > 0 else -1
    return None


def fmax2(a, b):
    for x, y in ((a, b), (b, a)):
        i = is_inf(x)
        if i in (0, -1):
            return y
    return T.fmax(a, b)


def fmin2(a, b):
    for x, y in ((a, b), (b, a)):
        i = is_inf(x)
        if i in (0, 1):
            return y
    return T.fmin(a, b)


@model("Ord::clamp", "f64::clamp")
def m_clamp(I, st, call, args):
    v, lo, hi = [P(I.deref(st, x)) for x in args]
    I.oblige(st, "clamp", lt(hi, lo))
    return fmin2(fmax2(v, lo), hi)


# ---------------------------------------------------------------- numbers
def _num1(name):
    def f(I, st, call, args):
        return fnum(name, P(I.deref(st, args[0])))

    return f


@model("f64::abs", "i32::abs", "i64::abs", "f32::abs", "isize::abs", "i32::unsigned_abs", "f64::copysign")
def m_abs(I, st, call, args):
    return absv(P(I.deref(st, args[0])))


@model("f64::sqrt")
def m_sqrt(I, st, call, args):
    return sqrt(P(args[0]))


@model("f64::ln")
def m_ln(I, st, call, args):
    return ln(P(args[0]))


@model("f64::log2")
def m_log2(I, st, call, args):
    return log2(P(args[0]))


@model("f64::log10")
def m_log10(I, st, call, args):
    return div(ln(P(args[0])), ln(C(10)))


@model("f64::log")
def m_log(I, st, call, args):
    return div(ln(P(args[0])), ln(P(args[1])))


@model("f64::ln_1p")
def m_ln1p(I, st, call, args):
    return ln(P(args[0]) + 1)


@model("f64::exp2")
def m_exp2(I, st, call, args):
    return exp2(P(args[0]))


for _n in ("exp", "floor", "ceil", "round", "sin", "cos", "tan", "cbrt", "tanh", "atan", "signum", "fract", "to_bits", "exp_m1", "ilog2"):
    MODELS["f64::" + _n] = _num1(_n)


@model("f64::trunc")
def m_ftrunc(I, st, call, args):
    return trunc(P(args[0]), "i")


@model("f64::powi")
def m_powi(I, st, call, args):
    b, k = P(args[0]), P(args[1])
    n = const_of(k)
    if n is not None and abs(n) <= 64:
        n = int(n)
        return ppow(b, n) if n >= 0 else div(ONE, ppow(b, -n), st.pc)
    if const_of(b) == 2:
        return exp2(k)
    return fnum("pow", b, k)


@model("f64::powf")
def m_powf(I, st, call, args):
    b, k = P(args[0]), P(args[1])
    n = const_of(k)
    if n is not None and n.denominator == 1 and abs(n) <= 64:
        n = int(n)
        return ppow(b, n) if n >= 0 else div(ONE, ppow(b, -n), st.pc)
    if n == Fr(1, 2):
        return sqrt(b)
    if const_of(b) == 2:
        return exp2(k)
    return fnum("pow", b, k)


@model("f64::recip")
def m_recip(I, st, call, args):
    return I.fdiv(st, ONE, P(args[0]))


@model("f64::mul_add")
def m_mul_add(I, st, call, args):
    return P(args[0]) * P(args[1]) + P(args[2])


@model("f64::hypot")
def m_hypot(I, st, call, args):
    return sqrt(P(args[0]) * P(args[0]) + P(args[1]) * P(args[1]))


@model("f64::is_nan")
def m_is_nan(I, st, call, args):
    return nan(P(I.deref(st, args[0])))


@model("f64::is_finite")
def m_is_finite(I, st, call, args):
    return ONE - nan(P(I.deref(st, args[0])))


@model("f64::is_infinite")
def m_is_infinite(I, st, call, args):
    return ZERO


@model("f64::is_sign_negative")
def m_is_neg(I, st, call, args):
    return lt(P(args[0]), ZERO)


@model("f64::is_sign_positive")
def m_is_pos(I, st, call, args):
    return ONE - lt(P(args[0]), ZERO)


def _intmodels():
    for t in sorted(IP.BITS):

        def wrap(f):
            return f

        def pow_(I, st, call, args, t=t):
            b, k = P(I.deref(st, args[0])), P(I.deref(st, args[1]))
            n = const_of(k)
            top = IP.BITS[t] - (t in SIGNED)
            if n is not None and n <= 64:
                r = ppow(b, int(n)) if n else ONE
                I.overflow(st, t, r)
                return r
            c = const_of(b)
            if c is not None and c > 1:
                e = 0
                while c ** e < 2 ** top:
                    e += 1
                I.warn(st, "overflow", ge0(k - e), t)
            else:
                I.warn(st, "overflow", ge0(k - 2), t)
            if const_of(b) == 2:
                return exp2(k)
            return A(mk("num", mk("ipow", b, k), "nat"))

        MODELS[t + "::pow"] = pow_

        def sat_sub(I, st, call, args, t=t):
            a, b = P(I.deref(st, args[0])), P(I.deref(st, args[1]))
            if t in UNSIGNED:
                return ge0(a - b) * (a - b)
            return a - b

        MODELS[t + "::saturating_sub"] = sat_sub

        def chk_sub(I, st, call, args, t=t):
            a, b = P(I.deref(st, args[0])), P(I.deref(st, args[1]))
            return option(ge0(a - b) if t in UNSIGNED else ONE, a - b)

        MODELS[t + "::checked_sub"] = chk_sub
        MODELS[t + "::saturating_add"] = lambda I, st, call, args: P(I.deref(st, args[0])) + P(I.deref(st, args[1]))
        MODELS[t + "::checked_add"] = lambda I, st, call, args: Some(P(I.deref(st, args[0])) + P(I.deref(st, args[1])))
        MODELS[t + "::checked_mul"] = lambda I, st, call, args: Some(P(I.deref(st, args[0])) * P(I.deref(st, args[1])))
        MODELS[t + "::saturating_mul"] = lambda I, st, call, args: P(I.deref(st, args[0])) * P(I.deref(st, args[1]))

        def chk_div(I, st, call, args, t=t):
            a, b = P(I.deref(st, args[0])), P(I.deref(st, args[1]))
            return option(ONE - eq0(b), idiv(a, b))

        MODELS[t + "::checked_div"] = chk_div

        def chk_rem(I, st, call, args, t=t):
            a, b = P(I.deref(st, args[0])), P(I.deref(st, args[1]))
            return option(ONE - eq0(b), imod(a, b))

        MODELS[t + "::checked_rem"] = chk_rem
        MODELS[t + "::abs_diff"] = lambda I, st, call, args: absv(P(I.deref(st, args[0])) - P(I.deref(st, args[1])))
        for nm in ("wrapping_add", "wrapping_sub", "wrapping_mul"):

            def wr(I, st, call, args, t=t, nm=nm):
                a, b = P(I.deref(st, args[0])), P(I.deref(st, args[1]))
                return A(mk("num", mk("wrap", nm, t, a, b), "nat" if t in UNSIGNED else "int"))

            MODELS[t + "::" + nm] = wr
        MODELS[t + "::is_positive"] = lambda I, st, call, args: lt(ZERO, P(args[0]))
        MODELS[t + "::is_negative"] = lambda I, st, call, args: lt(P(args[0]), ZERO)
        MODELS[t + "::div_ceil"] = lambda I, st, call, args: idiv(P(args[0]) + P(args[1]) - 1, P(args[1]))


_intmodels()


@model("TryFrom::try_from", "TryInto::try_into")
def m_try_from(I, st, call, args):
    v = I.deref(st, args[0])
    dst = call.ty.args[0] if call.ty is not None and call.ty.k == "adt" and call.ty.args else None
    if v.op == "poly" and dst is not None and dst.k == "prim" and dst.s in BITS:
        b = BITS[dst.s]
        src = call.argty(0)
        lo, hi = (0, 2 ** b - 1) if dst.s in UNSIGNED else (-(2 ** (b - 1)), 2 ** (b - 1) - 1)
        c = ge0(v - lo)
        s = src.s if src is not None else "?"
        if not (s in BITS and ((s in UNSIGNED and (BITS[s] < b or (BITS[s] == b and dst.s in UNSIGNED))) or (s in SIGNED and dst.s in SIGNED and BITS[s] <= b))):
            if not (s in SIGNED and BITS[s] <= b and dst.s in UNSIGNED):
                c = c * ge0(C(hi) - v)
        return result(c, v, mk("app", "TryFromIntError", "obj"))
    if is_seq(v):
        return Ok(v)
    t = mk("app", "try_from", "obj", v)
    return eta(t, call.ty)


# operator traits on references and foreign types
def _op(op):
    def f(I, st, call, args):
        a, b = I.deref(st, args[0]), I.deref(st, args[1])
        ta = call.argty(0)
        while ta is not None and ta.k == "ref":
            ta = ta.of
        if a.op == "poly" and b.op == "poly":
            if ta is not None and ta.k == "adt" and ta.args:
                ta = ta.args[0]
            return I.arith(st, op, a, b, ta)
        if op == "Add" and (call.ty is not None and call.ty.name == "String" or a.op in ("str", "cats")):
            return scat(a, b)
        return I.opaque(st, call.f, args, call.ty, call.name)

    return f


for _o in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor"):
    MODELS[_o + "::" + {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor"}.get(_o, _o.lower())] = _op(_o)


def _opassign(op):
    def f(I, st, call, args):
        p = I.place_of(st, args[0])
        a, b = I.read(st, *p), I.deref(st, args[1])
        ta = call.argty(0)
        while ta is not None and ta.k == "ref":
            ta = ta.of
        if a.op == "poly" and b.op == "poly":
            if ta is not None and ta.k == "adt" and ta.args:
                ta = ta.args[0]
            I.write(st, p, I.arith(st, op, a, b, ta))
        elif op == "Add":
            I.write(st, p, scat(a, b))
        else:
            raise Unsupported(op + " assign")
        return UNIT

    return f


for _o in ("Add", "Sub", "Mul", "Div", "Rem"):
    MODELS[_o + "Assign::" + _o.lower() + "_assign"] = _opassign(_o)


@model("Neg::neg")
def m_neg(I, st, call, args):
    return -P(I.deref(st, args[0]))


@model("Not::not")
def m_not(I, st, call, args):
    return ONE - P(I.deref(st, args[0]))


# ---------------------------------------------------------------- iterators
def it(seq, *stages):
    return mk("it", seq, tuple(stages))


def coll(v):
    """collection name by type"""
    t = v
    while t is not None and t.k == "ref":
        t = t.of
    return stdname(t.adt) if t is not None and t.k == "adt" else None


def perm_seq(tok, s):
    n = seq_len(s)
    i = fresh()
    return Comp([i], lt(A(i), n), seq_nth(s, pidx(tok, A(i))), unroll=False)


def pidx(tok, i):
    i = P(i)
    if tok.op == "perm" and len(i.args):
        # reversed permutation
        n = tok.args[1]
        l = None
        r = n - 1 - i
        if _simple_index(r) and not _simple_index(i):
            return pidx(rev_perm(tok), r)
    return A(mk("pidx", tok, i))


def _simple_index(p):
    return (len(p.args) == 1 and len(p.args[0][0]) == 1 and p.args[0][1] == 1 and p.args[0][0][0][1] == 1) or const_of(p) is not None


def rev_perm(tok):
    fvs, (n, c) = open_binder(tok)
    return mkperm(fvs[1], fvs[0], n, c)


def mkperm(a, b, n, less):
    return close("perm", [a, b], [n, less])


T.BINDERS.add("perm")
REBUILD["perm"] = lambda fvs, n, c: mkperm(fvs[0], fvs[1], n, c)
T.NATOPS.add("pidx")
REBUILD["pidx"] = lambda t, i: pidx(t, i)


def hash_order(s):
    return perm_seq(mk("hashorder", s), s)


def into_iter(I, st, v, call):
    ty = call.argty(0) if call is not None else None
    if v.op == "ref":
        p = I.place_of(st, v)
        x = I.read(st, *p)
        if x.op in ("it", "itp"):
            return v if x.op == "itp" else x
        if is_seq(x) or x.op == "cases" and is_seq(x.args[0][0]):
            return it(mut_refs(I, st, p, x))
        if x.op in MAPOPS or (x.op == "cases" and x.args[0][0].op in MAPOPS):
            i = fresh()
            k = fld(seq_nth(m_seq(x), A(i)), "0")
            return it(Comp([i], seq_dom(m_seq(x), i), tup(k, I.ref(p[0], p[1] + (("k", k),)))))
        if x.op == "enum":
            return it(guard_seq(vcond(x, "Some"), lst(I.ref(p[0], p[1] + (("v", "Some", "0"),)))))
        v = x
    if v.op in ("it",):
        return v
    if v.op == "itp":
        return it(seq_drop(v.args[0], v.args[1]))
    if is_seq(v):
        return it(v)
    if v.op == "struct":
        n = v.args[0]
        if n == "Range":
            return it(rng_seq(fld(v, "start"), fld(v, "end")))
        if n == "RangeInclusive":
            return it(rng_seq(fld(v, "start"), P(fld(v, "end")) + 1))
        if n == "RangeFrom":
            i = fresh()
            return it(mkraw_comp(i, P(fld(v, "start")) + A(i)))
        raise Unsupported("iteration over " + str(n))
    hashed = coll(ty) in ("HashMap", "HashSet")
    if v.op in MAPOPS:
        s = m_seq(v)
        return it(hash_order(s) if hashed else s)
    if v.op == "set":
        s = seq_map(m_seq(v.args[0]), lambda x: fld(x, "0"))
        return it(hash_order(s) if hashed else s)
    if v.op == "enum" and v.args[0] in ("Option", "Result"):
        ok = "Some" if v.args[0] == "Option" else "Ok"
        c = vcond(v, ok)
        return it(guard_seq(c, lst(vfield(v, ok, "0"))) if c is not ZERO else EMPTY)
    if v.op == "cases":
        alts = [(into_iter(I, st, x, call), c) for x, c in v.args]
        if all(a.op == "it" and not a.args[1] for a, _ in alts):
            r = None
            for a, c in reversed(alts):
                r = a.args[0] if r is None else ite(c, a.args[0], r)
            return it(r)
        return cases(alts)
    return it(v)


def mkraw_comp(i, v):
    bv = mk("bv", v.lvl + 1)
    return mk("comp", (bv,), ONE, subst(v, {i: bv}))


def mut_refs(I, st, p, x):
    n = seq_len(x)
    if x.op == "list":
        return lst(*[I.ref(p[0], p[1] + (("i", C(j)),)) for j in range(len(x.args))])
    i = fresh()
    return Comp([i], lt(A(i), n), I.ref(p[0], p[1] + (("i", A(i)),)), unroll=False)


@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "BTreeMap::iter", "HashMap::iter", "BTreeSet::iter", "HashSet::iter", "Vec::into_iter", "VecDeque::iter", "slice::into_iter")
def m_iter(I, st, call, args):
    v = args[0]
    if call.name != "IntoIterator::into_iter" and v.op == "ref":
        v = I.deref(st, v)
    return into_iter(I, st, v, call)


@model("slice::iter_mut", "Vec::iter_mut", "BTreeMap::iter_mut", "HashMap::iter_mut", "Option::iter_mut")
def m_iter_mut(I, st, call, args):
    return into_iter(I, st, args[0], call)


@model("BTreeMap::values_mut", "HashMap::values_mut")
def m_values_mut(I, st, call, args):
    v = into_iter(I, st, args[0], call)
    return it(seq_map(v.args[0], lambda x: fld(x, "1")))


@model("BTreeMap::keys", "HashMap::keys", "BTreeMap::into_keys", "HashMap::into_keys")
def m_keys(I, st, call, args):
    v = into_iter(I, st, I.deref(st, args[0]), call)
    return it(seq_map(v.args[0], lambda x: fld(x, "0")))


@model("BTreeMap::values", "HashMap::values", "BTreeMap::into_values", "HashMap::into_values")
def m_values(I, st, call, args):
    v = into_iter(I, st, I.deref(st, args[0]), call)
    return it(seq_map(v.args[0], lambda x: fld(x, "1")))


@model("Vec::drain", "BTreeMap::drain", "HashMap::drain")
def m_drain(I, st, call, args):
    p = I.place_of(st, args[0])
    v = I.read(st, *p)
    if len(args) > 1:
        r = I.deref(st, args[1])
        if not (r.op == "struct" and r.args[0] == "RangeFull"):
            raise Unsupported("partial drain")
    I.write(st, p, EMPTY if is_seq(v) else MEMPTY)
    return into_iter(I, st, v, call)


def addstage(I, st, v, *sg):
    if v.op == "ref":
        # adapter over a borrowed iterator: consumes from the place
        p = I.place_of(st, v)
        x = I.read(st, *p)
        if x.op in ("it", "itp"):
            s = x.args[0] if x.op == "it" and not x.args[1] else (I.force(st, x) if x.op == "it" else seq_drop(x.args[0], x.args[1]))
            if sg[0] == "take":
                I.write(st, p, mk("itp", s, T.fmin(P(sg[1]), seq_len(s))))
            else:
                I.write(st, p, mk("itp", s, seq_len(s)))
            return it(s, sg)
        v = x
    if v.op != "it":
        v = into_iter(I, st, v, None)
    if v.op == "cases":
        return cases([(addstage(I, st, x, *sg), c) for x, c in v.args])
    return mk("it", v.args[0], v.args[1] + (tuple(sg),))


def _stage(name, k):
    def f(I, st, call, args):
        return addstage(I, st, args[0], k, *args[1:])

    MODELS["Iterator::" + name] = f


for _n, _k in (("map", "map"), ("filter", "filter"), ("filter_map", "filter_map"), ("flat_map", "flat_map"), ("flatten", "flatten"), ("take", "take"), ("skip", "skip"), ("rev", "rev"), ("enumerate", "enum"), ("step_by", "step"), ("take_while", "take_while"), ("skip_while", "skip_while"), ("inspect", "inspect"), ("map_while", "map_while")):
    _stage(_n, _k)


@model("Iterator::scan")
def m_scan(I, st, call, args):
    return addstage(I, st, args[0], "scan", args[1], args[2])


@model("Iterator::zip", "iter::zip")
def m_zip(I, st, call, args):
    b = I.items(st, args[1])
    a = args[0] if call.name == "Iterator::zip" else into_iter(I, st, args[0], call)
    return addstage(I, st, a, "zip", b)


@model("Iterator::chain")
def m_chain(I, st, call, args):
    a = I.force(st, args[0])
    return it(cat(a, I.items(st, args[1])))


@model("iter::once")
def m_once(I, st, call, args):
    return it(lst(args[0]))


@model("iter::empty")
def m_empty_it(I, st, call, args):
    return it(EMPTY)


@model("iter::repeat")
def m_repeat_it(I, st, call, args):
    i = fresh()
    return it(mkraw_comp(i, args[0]))


@model("iter::repeat_n")
def m_repeat_n(I, st, call, args):
    return it(rep(args[0], P(args[1])))


@model("iter::repeat_with", "iter::from_fn")
def m_repeat_with(I, st, call, args):
    i = fresh()
    if call.name.endswith("with"):
        f = args[0]
        return mk("it", mkraw_comp(i, UNIT), (("call0", f),))
    raise Unsupported("iter::from_fn")


@model("iter::successors")
def m_succ(I, st, call, args):
    raise Unsupported("iter::successors")


def seqarg(I, st, v):
    """items of an iterator argument (by value or &mut)"""
    if v.op == "ref":
        p = I.place_of(st, v)
        x = I.read(st, *p)
        if x.op == "itp":
            s = seq_drop(x.args[0], x.args[1])
            I.write(st, p, mk("itp", x.args[0], seq_len(x.args[0])))
            return s
        if x.op == "it":
            s = I.force(st, x)
            I.write(st, p, mk("itp", s, seq_len(s)))
            return s
        return I.items(st, v)
    return I.force(st, v) if v.op in ("it", "cases") else I.items(st, v)


@model("Iterator::sum")
def m_sum(I, st, call, args):
    s = seqarg(I, st, args[0])
    n = coll(call.ty)
    if n in ("Result", "Option"):
        good, bad, s = seq_results(I, s, "Ok" if n == "Result" else "Some")
        v = seq_fold_sum(s)
        return result(good, v, bad) if n == "Result" else option(good, v)
    v = seq_fold_sum(s)
    if call.ty is not None and IP.BITS.get(call.ty.s, 64) < 64 and v.op == "poly" and const_of(v) is None:
        I.warn(st, "overflow", ge0(v - 2 ** (IP.BITS[call.ty.s] - (call.ty.s in SIGNED))), call.ty.s)
    return v


@model("Iterator::product")
def m_product(I, st, call, args):
    s = seqarg(I, st, args[0])
    if s.op == "list":
        r = ONE
        for x in s.args:
            r = r * P(x)
        return r
    acc = I.new_root(st, ONE)

    def step(s2, x):
        s2.store[acc] = P(s2.store[acc]) * P(x)

    I.loop_over(s, "@prod%d" % acc, step, st)
    return st.store[acc]


@model("Iterator::count")
def m_count(I, st, call, args):
    return seq_len(seqarg(I, st, args[0]))


@model("Iterator::last", "slice::last")
def m_last(I, st, call, args):
    s = seqarg(I, st, args[0]) if call.name.startswith("Iter") else I.as_seq(st, args[0])
    n = seq_len(s)
    c = ge0(n - 1)
    return option(c, seq_nth(s, n - 1)) if c is not ZERO else NONE


@model("slice::last_mut", "slice::first_mut")
def m_last_mut(I, st, call, args):
    p = I.place_of(st, args[0])
    n = seq_len(I.as_seq(st, I.read(st, *p)))
    i = n - 1 if "last" in call.name else ZERO
    return option(ge0(n - 1), I.ref(p[0], p[1] + (("i", i),)))


@model("slice::first")
def m_first(I, st, call, args):
    s = I.as_seq(st, args[0])
    n = seq_len(s)
    c = ge0(n - 1)
    return option(c, seq_nth(s, ZERO)) if c is not ZERO else NONE


@model("slice::split_first")
def m_split_first(I, st, call, args):
    s = I.as_seq(st, args[0])
    c = ge0(seq_len(s) - 1)
    return option(c, tup(seq_nth(s, ZERO), seq_drop(s, ONE))) if c is not ZERO else NONE


@model("slice::split_last")
def m_split_last(I, st, call, args):
    s = I.as_seq(st, args[0])
    n = seq_len(s)
    c = ge0(n - 1)
    return option(c, tup(seq_nth(s, n - 1), seq_take(s, n - 1))) if c is not ZERO else NONE


@model("Iterator::for_each")
def m_for_each(I, st, call, args):
    s = seqarg(I, st, args[0])
    I.loop_over(s, "@each%d" % I.nroot, lambda s2, x: I.apply(s2, args[1], [x]), st)
    return UNIT


@model("Iterator::try_for_each")
def m_try_for_each(I, st, call, args):
    r = m_try_fold(I, st, call, [args[0], UNIT, None], f=lambda s2, acc, x: I.apply(s2, args[1], [x]))
    return r


@model("Iterator::fold", "Iterator::rfold")
def m_fold(I, st, call, args):
    s = seqarg(I, st, args[0])
    if call.name.endswith("rfold"):
        s = seq_rev(s)
    acc = I.new_root(st, args[1], call.ty)

    def step(s2, x):
        v = I.apply(s2, args[2], [s2.store[acc], x])
        if s2.rel is not ZERO:
            s2.store[acc] = v

    I.loop_over(s, "@fold%d" % acc, step, st)
    return st.store[acc] if st.rel is not ZERO else mk("never")


@model("Iterator::try_fold")
def m_try_fold(I, st, call, args, f=None):
    s = seqarg(I, st, args[0])
    acc = I.new_root(st, args[1], call.argty(1))
    out = I.new_root(st, mk("never"))
    lab = "@tryfold%d" % acc
    kind = "Ok" if coll(call.ty) == "Result" else "Some"
    f = f or (lambda s2, a, x: I.apply(s2, args[2], [a, x]))

    def step(s2, x):
        r = f(s2, s2.store[acc], x)
        if s2.rel is ZERO:
            return
        c = I.simp(s2, vcond(r, kind))

        def good(s3):
            s3.store[acc] = vfield(r, kind, "0")
            return UNIT

        def bad(s3):
            I.exits.append(IP.Exit("break", lab, s3.rel, fail_of(r, None) if r.op != "fld" else r, dict(s3.store)))
            s3.rel = ZERO
            return mk("never")

        I.branch(s2, c, good, bad)

    sv = I.enter(st)
    I.iterate(s, lab, step, st)
    done = Ok(st.store[acc]) if kind == "Ok" else Some(st.store[acc])
    return I.leave(st, sv, lambda y: y.kind == "break" and y.label == lab, done)


@model("Iterator::reduce")
def m_reduce(I, st, call, args):
    s = seqarg(I, st, args[0])
    n = seq_len(s)
    acc = I.new_root(st, NONE)

    def step(s2, x):
        v = s2.store[acc]
        c = vcond(v, "Some")
        y = I.branch(s2, c, lambda s3: I.apply(s3, args[1], [vfield(v, "Some", "0"), x]), lambda s3: x)
        s2.store[acc] = Some(y)

    I.loop_over(s, "@reduce%d" % acc, step, st)
    return st.store[acc]


@model("Iterator::any", "Iterator::all")
def m_any(I, st, call, args):
    s = seqarg(I, st, args[0])
    anyq = call.name.endswith("any")
    r = I.seq_apply(st, s, lambda s2, x: P(I.apply(s2, args[1], [x])) if anyq else ONE - P(I.apply(s2, args[1], [x])))
    e = seq_exists(r, lambda x: P(x))
    return e if anyq else ONE - e


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rposition")
def m_find(I, st, call, args):
    s = seqarg(I, st, args[0])
    n = call.name.split("::")[1]
    if n == "find_map":
        r = I.seq_apply(st, s, lambda s2, x: I.apply(s2, args[1], [x]))
        r = seq_flat(r)
    elif n == "find":
        r = I.stage(st, s, ("filter", args[1]))
    else:
        r = I.seq_apply(st, s, lambda s2, x: P(I.apply(s2, args[1], [x])))
        r = seq_enumerate(r)
        r = seq_map(seq_filter(r, lambda y: P(fld(y, "1"))), lambda y: fld(y, "0"))
        if n == "rposition":
            k = seq_len(r)
            return option(ge0(k - 1), seq_nth(r, k - 1))
    return seq_first(r)


def seq_first(r):
    """Option of the first element"""
    if r.op == "list":
        return Some(r.args[0]) if r.args else NONE
    if r.op == "comp":
        fvs, c, v = open_comp(r)
        if not fvs:
            return option(c, v)
        if len(fvs) == 1:
            E = Exists(fvs[0], c)
            return option(E, subst(v, {fvs[0]: Pos(fvs[0], c)}) if E is not ZERO else v)
        # lexicographically first
        sub = {}
        E = c
        for x in reversed(fvs):
            E = Exists(x, E)
        cc = c
        for k, x in enumerate(fvs):
            d = subst(cc, sub)
            for y in reversed(fvs[k + 1:]):
                d = Exists(y, d)
            sub[x] = Pos(x, d)
        return option(E, subst(v, sub))
    if r.op == "cat":
        a = seq_first(r.args[0])
        b = seq_first(cat(*r.args[1:]))
        c = vcond(a, "Some")
        return a if c is ONE else ite(c, a, b)
    if r.op == "cases":
        x = None
        for y, c in reversed(r.args):
            f = seq_first(y)
            x = f if x is None else ite(c, f, x)
        return x
    n = seq_len(r)
    return option(ge0(n - 1), seq_nth(r, ZERO))


@model("Iterator::nth", "Iterator::next", "Iterator::next_back", "Peekable::peek", "Peekable::next_if")
def m_next(I, st, call, args):
    p = I.place_of(st, args[0])
    if p is None:
        if args[0].op == "it":
            return seq_first(I.force(st, args[0]))
        raise Unsupported("next on a value")
    x = I.read(st, *p)
    if x.op == "cases" and all(y.op == "it" for y, _ in x.args):
        x = it(I.force(st, x))
    if x.op == "struct" or x.op in MAPOPS or x.op == "enum":
        x = into_iter(I, st, x, call)
    if x.op == "it":
        x = mk("itp", I.force(st, x), ZERO)
    if x.op != "itp":
        raise Unsupported("next on " + x.op)
    s, pos = x.args
    pos = V.under(pos, st.pc)
    nm = call.name.split("::")[1]
    if nm == "next_back":
        raise Unsupported("next_back")
    k = P(args[1]) if nm == "nth" else ZERO
    i = pos + k
    s = canon_seq(s)
    c = lt(i, seq_len(s))
    v = seq_nth(s, i)
    if nm == "next":
        I.write(st, p, mk("itp", s, pos + c))
    elif nm == "nth":
        I.write(st, p, mk("itp", s, ite(c, i + 1, seq_len(s))))
    else:
        I.write(st, p, mk("itp", s, pos))
    return option(c, v) if c is not ZERO else NONE


def canon_seq(s):
    return s


def mk_itp(s, p):
    return mk("itp", s, P(p))


REBUILD["itp"] = mk_itp


# extrema
def families(s):
    """-> singles [(val, cond)], fams [(val, cond, fvs)]"""
    sg, fm = [], []
    if s.op == "list":
        for x in s.args:
            sg.append((x, ONE))
    elif s.op == "cat":
        for p in s.args:
            a, b = families(p)
            sg += a
            fm += b
    elif s.op == "comp":
        fvs, c, v = open_comp(s)
        if not fvs:
            sg.append((v, c))
        else:
            fm.append((v, c, fvs))
    else:
        i = fresh()
        fm.append((seq_nth(s, A(i)), seq_dom(s, i), [i]))
    return sg, fm


def ext_seq(kind, s):
    sg, fm = families(s)
    its = []
    if not fm and all(c is ONE for _, c in sg):
        r = None
        for x, _ in sg:
            r = P(x) if r is None else (fmax2 if kind == "max" else fmin2)(r, P(x))
        return r
    return extremum_of(kind, [(P(x), c, None) for x, c in sg], [(P(v), c, f) for v, c, f in fm])


@model("Iterator::max", "Iterator::min")
def m_itmax(I, st, call, args):
    s = seqarg(I, st, args[0])
    return ext_opt(I, st, s, call.name.split("::")[1])


def ext_opt(I, st, s, kind):
    n = seq_len(s)
    c = ge0(n - 1)
    if c is ZERO:
        return NONE
    x = seq_nth(s, ZERO) if s.op != "comp" else open_comp(s)[2]
    if x.op == "poly":
        return option(c, ext_seq(kind, s))
    return option(c, mk("app", kind, "obj", s))


@model("Iterator::max_by", "Iterator::min_by", "Iterator::max_by_key", "Iterator::min_by_key")
def m_max_by(I, st, call, args):
    s = seqarg(I, st, args[0])
    nm = call.name.split("::")[1]
    kind = nm[:3]
    n = seq_len(s)
    c = ge0(n - 1)
    if c is ZERO:
        return NONE
    x = seq_nth(s, ZERO) if s.op != "comp" else open_comp(s)[2]
    if nm.endswith("key"):
        keys = I.seq_apply(st, s, lambda s2, y: I.apply(s2, args[1], [y]))
        if keys is s and x.op == "poly":
            return option(c, ext_seq(kind, s))
        return option(c, eta(mk("app", "arg" + kind, "obj", keys, s), call.ty.args[0] if call.ty is not None and call.ty.args else None))
    if x.op == "poly":
        a = A(mk("sym", "@a", "real"))
        b = A(mk("sym", "@b", "real"))
        # evaluate the comparator on the elements for its obligations
        i, j = fresh(), fresh()
        s1 = st.fork(ONE)
        s1.rel = pmul(s1.rel, lt(A(i), n) * lt(A(j), n))
        I.apply(s1, args[1], [seq_nth(s, A(i)), seq_nth(s, A(j))])
        I.silent += 1
        try:
            o = I.apply(st.fork(ONE), args[1], [a, b])
        finally:
            I.silent -= 1
        L = vcond(o, "Less")
        L = subst(subst(L, {}), {})
        L = drop_nf(L)
        if L is lt(a, b) or L is drop_nf(lt(a, b)):
            return option(c, ext_seq(kind, s))
        if L is lt(b, a) or L is drop_nf(lt(b, a)):
            return option(c, ext_seq("min" if kind == "max" else "max", s))
    i, j = fresh(), fresh()
    o = I.apply(st.fork(ONE), args[1], [seq_nth(s, A(i)), seq_nth(s, A(j))])
    t = close("argext", [i, j], [vcond(o, "Less"), seq_len(s)])
    k = A(mk("num", mk("arg" + kind, t), "nat"))
    return option(c, seq_nth(s, k))


T.BINDERS.add("argext")
REBUILD["argext"] = lambda fvs, a, b: close("argext", list(fvs), [a, b])


def drop_nf(p):
    for a in [x for x in top_inds(p) if x.op == "nf"]:
        p = restrict(p, a, 0)
    return p


# ---------------------------------------------------------------- collect
def seq_results(I, s, ok):
    """sequence of Result/Option -> (all ok, first error, ok payloads)"""
    if s.op == "list":
        good = ONE
        bad = None
        errs = []
        vals = []
        for x in s.args:
            c = vcond(x, ok)
            if ok == "Ok":
                e = vfield(x, "Err", "0")
                errs.append((good * (ONE - c), e))
            good = good * c
            vals.append(vfield(x, ok, "0"))
        for c, e in reversed(errs):
            if c is ZERO or e.op == "never":
                continue
            bad = e if bad is None else ite(c, e, bad)
        return good, bad if bad is not None else UNIT, lst(*vals)
    bads = seq_filter(s, lambda x: ONE - vcond(x, ok))
    bn = seq_len(bads)
    good = ONE - ge0(bn - 1)
    err = UNIT
    if good is not ONE and ok == "Ok":
        f = seq_first(bads)
        err = vfield(vfield(f, "Some", "0"), "Err", "0")
    return good, err, seq_map(s, lambda x: under(vfield(x, ok, "0"), vcond(x, ok)))


def collect_to(I, st, s, ty):
    n = coll(ty)
    if n in ("Result", "Option"):
        inner = ty.args[0]
        good, err, vals = seq_results(I, s, "Ok" if n == "Result" else "Some")
        v = collect_to(I, st, vals, inner)
        return result(good, v, err) if n == "Result" else option(good, v)
    if n in ("Vec", "VecDeque", None):
        return s
    if n in ("BTreeMap", "HashMap"):
        return seq_to_map(s)
    if n in ("BTreeSet", "HashSet"):
        return mk("set", seq_to_map(seq_map(s, lambda x: tup(x, UNIT))))
    if n == "String":
        return strjoin(s, S(""))
    if n in TRANSPARENT and ty.args:
        return collect_to(I, st, s, ty.args[0])
    return mk("app", "collect " + str(n), "obj", s)


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(I, st, call, args):
    s = seqarg(I, st, args[0]) if call.name.startswith("Iterator") else I.items(st, args[0])
    s = deep_elems(I, st, s)
    return collect_to(I, st, s, call.ty)


def deep_elems(I, st, s):
    return s


@model("Iterator::partition")
def m_partition(I, st, call, args):
    s = seqarg(I, st, args[0])
    pairs = I.seq_apply(st, s, lambda s2, x: tup(P(I.apply(s2, args[1], [x])), x))
    a = seq_map(seq_filter(pairs, lambda y: P(fld(y, "0"))), lambda y: fld(y, "1"))
    b = seq_map(seq_filter(pairs, lambda y: ONE - P(fld(y, "0"))), lambda y: fld(y, "1"))
    t = call.ty.args[0]
    return tup(collect_to(I, st, a, t), collect_to(I, st, b, t))


@model("Iterator::unzip")
def m_unzip(I, st, call, args):
    s = seqarg(I, st, args[0])
    t = call.ty.args
    return tup(collect_to(I, st, seq_map(s, lambda x: fld(x, "0")), t[0]), collect_to(I, st, seq_map(s, lambda x: fld(x, "1")), t[1]))


@model("Iterator::size_hint")
def m_size_hint(I, st, call, args):
    return tup(A(mk("num", mk("app", "size_hint", "obj"), "nat")), NONE)


@model("ExactSizeIterator::len")
def m_it_len(I, st, call, args):
    v = I.deref(st, args[0])
    if v.op == "itp":
        return seq_len(v.args[0]) - v.args[1]
    return seq_len(I.force(st, v))


# ---------------------------------------------------------------- slices / Vec / maps
@model("slice::len", "Vec::len", "BTreeMap::len", "HashMap::len", "HashSet::len", "BTreeSet::len", "str::len", "String::len", "VecDeque::len")
def m_length(I, st, call, args):
    v = I.deref(st, args[0])
    return length(I, st, v)


def length(I, st, v):
    if v.op == "set":
        return m_len(v.args[0])
    if v.op in MAPOPS or v.op == "cases" and v.args[0][0].op in MAPOPS:
        return m_len(v)
    if v.op == "str":
        return C(len(v.args[0].encode()))
    if v.op == "cats":
        return psum(length(I, st, x) for x in v.args)
    return seq_len(v)


@model("slice::is_empty", "Vec::is_empty", "BTreeMap::is_empty", "HashMap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty", "str::is_empty", "String::is_empty", "VecDeque::is_empty", "ExactSizeIterator::is_empty")
def m_is_empty(I, st, call, args):
    return eq0(length(I, st, I.deref(st, args[0])))


@model("Range::is_empty", "RangeInclusive::is_empty")
def m_range_empty(I, st, call, args):
    v = I.deref(st, args[0])
    a, b = P(fld(v, "start")), P(fld(v, "end"))
    return ge0(a - b) if v.args[0] == "Range" else lt(b, a)


@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains")
def m_range_contains(I, st, call, args):
    v = I.deref(st, args[0])
    x = P(I.deref(st, args[1]))
    n = v.args[0]
    c = ONE
    if n in ("Range", "RangeInclusive", "RangeFrom"):
        c = c * le(P(fld(v, "start")), x)
    if n in ("Range", "RangeTo"):
        c = c * lt(x, P(fld(v, "end")))
    if n in ("RangeInclusive", "RangeToInclusive"):
        c = c * le(x, P(fld(v, "end")))
    return c


@model("RangeInclusive::new")
def m_ri_new(I, st, call, args):
    return struct("RangeInclusive", start=args[0], end=args[1])


@model("RangeInclusive::start", "RangeInclusive::end")
def m_ri_get(I, st, call, args):
    return fld(I.deref(st, args[0]), call.name.split("::")[1])


@model("Vec::push", "VecDeque::push_back")
def m_push(I, st, call, args):
    p = I.place_of(st, args[0])
    I.write(st, p, cat(I.as_seq(st, I.read(st, *p)), lst(args[1])))
    return UNIT


@model("Vec::extend", "Vec::extend_from_slice", "Extend::extend", "Vec::append")
def m_extend_(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.items(st, I.deref(st, args[1]) if args[1].op == "ref" and call.name != "Extend::extend" else args[1])
    v = I.read(st, *p)
    if v.op == "set":
        I.write(st, p, mk("set", m_extend(v.args[0], seq_map(s, lambda x: tup(x, UNIT)))))
    elif v.op in MAPOPS:
        I.write(st, p, m_extend(v, s))
    elif v.op in ("str", "cats"):
        I.write(st, p, scat(v, strjoin(s, S(""))))
    else:
        I.write(st, p, cat(v, s))
    if call.name == "Vec::append":
        q = I.place_of(st, args[1])
        I.write(st, q, EMPTY)
    return UNIT


@model("Vec::pop")
def m_pop(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.read(st, *p)
    n = seq_len(s)
    c = ge0(n - 1)
    if c is ZERO:
        return NONE
    I.write(st, p, seq_take(s, n - c))
    return option(c, seq_nth(s, n - 1))


@model("Vec::clear", "BTreeMap::clear", "HashMap::clear", "String::clear", "HashSet::clear")
def m_clear(I, st, call, args):
    p = I.place_of(st, args[0])
    v = I.read(st, *p)
    I.write(st, p, mk("set", MEMPTY) if v.op == "set" else MEMPTY if v.op in MAPOPS else S("") if v.op in ("str", "cats") else EMPTY)
    return UNIT


@model("Vec::truncate")
def m_truncate(I, st, call, args):
    p = I.place_of(st, args[0])
    I.write(st, p, seq_take(I.read(st, *p), P(args[1])))
    return UNIT


@model("Vec::resize")
def m_resize(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.read(st, *p)
    n = P(args[1])
    d = n - seq_len(s)
    I.write(st, p, cat(seq_take(s, n), rep(args[2], d * ge0(d))))
    return UNIT


@model("Vec::insert")
def m_vec_insert(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.read(st, *p)
    i = P(args[1])
    I.oblige(st, "index", lt(seq_len(s), i))
    I.write(st, p, cat(seq_take(s, i), lst(args[2]), seq_drop(s, i)))
    return UNIT


@model("Vec::remove")
def m_vec_remove(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.read(st, *p)
    i = P(args[1])
    I.oblige(st, "index", ONE - lt(i, seq_len(s)))
    x = seq_nth(s, i)
    I.write(st, p, cat(seq_take(s, i), seq_drop(s, i + 1)))
    return x


@model("Vec::retain", "VecDeque::retain")
def m_retain(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.read(st, *p)
    I.write(st, p, I.stage(st, s, ("filter", args[1])))
    return UNIT


@model("Vec::reserve", "Vec::shrink_to_fit", "String::reserve", "HashMap::reserve")
def m_nop(I, st, call, args):
    return UNIT


@model("slice::reverse")
def m_reverse(I, st, call, args):
    p = I.place_of(st, args[0])
    I.write(st, p, seq_rev(I.read(st, *p)))
    return UNIT


@model("slice::swap")
def m_swap(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.read(st, *p)
    i, j = P(args[1]), P(args[2])
    n = seq_len(s)
    I.oblige(st, "index", ONE - lt(i, n) * lt(j, n))
    a, b = seq_nth(s, i), seq_nth(s, j)
    I.write(st, p, seq_upd(seq_upd(s, i, b), j, a))
    return UNIT


@model("slice::fill")
def m_fill(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.read(st, *p)
    I.write(st, p, rep(args[1], seq_len(s)))
    return UNIT


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copy_from(I, st, call, args):
    p = I.place_of(st, args[0])
    s, t = I.read(st, *p), I.as_seq(st, args[1])
    I.oblige(st, "length mismatch", ONE - eq0(seq_len(s) - seq_len(t)))
    I.write(st, p, t)
    return UNIT


@model("Clone::clone_from")
def m_clone_from(I, st, call, args):
    I.write(st, I.place_of(st, args[0]), I.deref(st, args[1]))
    return UNIT


@model("slice::contains", "Vec::contains")
def m_contains(I, st, call, args):
    s, x = I.as_seq(st, args[0]), I.deref(st, args[1])
    return seq_exists(s, lambda y: eqv(y, x))


@model("slice::concat")
def m_concat(I, st, call, args):
    s = I.as_seq(st, args[0])
    if call.ty is not None and call.ty.name == "String":
        return strjoin(s, S(""))
    return seq_flat(s)


@model("slice::windows")
def m_windows(I, st, call, args):
    s = I.as_seq(st, args[0])
    k = const_of(P(args[1]))
    if k is None or k < 1 or k > 8:
        raise Unsupported("windows")
    k = int(k)
    i = fresh()
    return it(Comp([i], lt(A(i) + (k - 1), seq_len(s)), lst(*[seq_nth(s, A(i) + j) for j in range(k)])))


@model("slice::chunks", "slice::chunks_exact")
def m_chunks(I, st, call, args):
    s = I.as_seq(st, args[0])
    k = P(args[1])
    i, j = fresh(), fresh()
    n = seq_len(s)
    exact = call.name.endswith("exact")
    inner = Comp([j], lt(A(j), k) * (ONE if exact else lt(A(i) * k + A(j), n)), seq_nth(s, A(i) * k + A(j)))
    return it(Comp([i], (le((A(i) + 1) * k, n) if exact else lt(A(i) * k, n)), inner))


@model("slice::split_at")
def m_split_at(I, st, call, args):
    s = I.as_seq(st, args[0])
    k = P(args[1])
    I.oblige(st, "index", lt(seq_len(s), k))
    return tup(seq_take(s, k), seq_drop(s, k))


@model("slice::get", "Vec::get")
def m_slice_get(I, st, call, args):
    s = I.as_seq(st, args[0])
    i = I.deref(st, args[1])
    if i.op == "struct":
        a, b, ok = range_bounds(I, st, i, seq_len(s))
        return option(ok, seq_take(seq_drop(s, a), b - a))
    i = P(i)
    c = lt(i, seq_len(s))
    return option(c, seq_nth(s, i)) if c is not ZERO else NONE


@model("slice::get_mut")
def m_slice_get_mut(I, st, call, args):
    p = I.place_of(st, args[0])
    i = P(I.deref(st, args[1]))
    c = lt(i, seq_len(I.read(st, *p)))
    return option(c, I.ref(p[0], p[1] + (("i", i),)))


def range_bounds(I, st, r, n):
    k = r.args[0]
    a = P(fld(r, "start")) if k in ("Range", "RangeFrom", "RangeInclusive") else ZERO
    b = n
    if k in ("Range", "RangeTo"):
        b = P(fld(r, "end"))
    if k in ("RangeInclusive", "RangeToInclusive"):
        b = P(fld(r, "end")) + 1
    ok = le(a, b) * le(b, n)
    return a, b, ok


def _found(t, v):
    """an offset that comes from searching the text"""
    if isinstance(t, tuple):
        return any(_found(y, v) for y in t)
    if not isinstance(t, Term):
        return False
    if t.op == "app" and str(t.args[0]).rsplit("::", 1)[-1] in ("find", "rfind", "match_indices", "char_indices", "start", "end"):
        return True
    return any(_found(y, v) for y in t.args)


@model("Index::index")
def m_index(I, st, call, args):
    v = I.deref(st, args[0])
    i = I.deref(st, args[1])
    if v.op in MAPOPS or (v.op == "cases" and v.args[0][0].op in MAPOPS):
        I.oblige(st, "missing key", ONE - m_has(v, i))
        return m_at(v, i)
    ty = call.argty(0)
    while ty is not None and ty.k == "ref":
        ty = ty.of
    if v.op in ("str", "cats") or ty is not None and ty.s in ("str", "String", "std::string::String"):
        if i.op == "struct":
            ends = [P(x) for n, x in i.args[1] if n in ("start", "end") and x.op == "poly"]
            if not all(x is ZERO or x is seq_len(v) or _found(x, v) for x in ends):
                I.warn(st, "char boundary", ONE)
        return mk("app", "str_index", "obj", v, i)
    if i.op == "struct":
        s = I.as_seq(st, v)
        a, b, ok = range_bounds(I, st, i, seq_len(s))
        I.oblige(st, "slice index", ONE - ok)
        return seq_take(seq_drop(s, a), b - a)
    if i.op != "poly":
        return I.opaque(st, call.f, [v, i], call.ty, call.name)
    s = I.as_seq(st, v)
    i = P(i)
    I.oblige(st, "index", ONE - lt(i, seq_len(s)) * ge0(i))
    r = seq_nth(s, i)
    return r if r.op != "nth" else eta(r, call.ty)


@model("IndexMut::index_mut")
def m_index_mut(I, st, call, args):
    p = I.place_of(st, args[0])
    i = P(I.deref(st, args[1])) if I.deref(st, args[1]).op == "poly" else None
    if i is None:
        raise Unsupported("index_mut by range")
    s = I.as_seq(st, I.read(st, *p))
    I.oblige(st, "index", ONE - lt(i, seq_len(s)) * ge0(i))
    return I.ref(p[0], p[1] + (("i", i),))


@model("slice::join", "Join::join", "slice::connect")
def m_join(I, st, call, args):
    return strjoin(I.as_seq(st, args[0]), I.deref(st, args[1]))


def strjoin(s, sep):
    if s.op == "list":
        out = []
        for j, x in enumerate(s.args):
            if j:
                out.append(sep)
            out.append(x)
        return scat(*out)
    return mk("app", "join", "obj", s, sep)


# sorting
def sorted_seq(I, st, s, less, eq, stable=True):
    """less/eq: functions of two elements"""
    if s.op == "list" and len(s.args) <= 1:
        return s
    n = seq_len(s)
    a, b = fresh(), fresh()
    x, y = seq_nth(s, A(a)), seq_nth(s, A(b))
    dom = lt(A(a), n) * lt(A(b), n)
    s1 = St_fork(st, dom)
    I.binders.append((a, dom))
    I.binders.append((b, dom))
    L, E = less(s1, x, y)
    I.binders.pop()
    I.binders.pop()
    L, E = under(L, dom), under(E, dom)
    E2 = E * (ONE - eq0(A(a) - A(b)))
    E2 = pmul(E2, dom)
    if stable or E2 is ZERO:
        l2 = L + E * lt(A(a), A(b))
    else:
        l2 = L + E * A(mk("pred", mk("unstable", A(a), A(b))))
    l2 = under(l2, dom)
    tok = mkperm(a, b, n, l2)
    if const_of(l2 - lt(A(a), A(b))) == 0 or under(l2, dom) is under(lt(A(a), A(b)), dom):
        return s
    return perm_seq(tok, s)


def St_fork(st, dom):
    s1 = st.fork(ONE)
    s1.rel = pmul(s1.rel, dom)
    return s1


@model("slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort", "slice::sort_unstable", "slice::sort_by_cached_key")
def m_sort(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.as_seq(st, I.read(st, *p))
    nm = call.name.split("::")[1]
    if nm.endswith("key"):
        def less(s1, x, y):
            k1, k2 = I.apply(s1, args[1], [x]), I.apply(s1, args[1], [y])
            return ltv(k1, k2), eqv(k1, k2)
    elif nm.endswith("by"):
        def less(s1, x, y):
            o = I.apply(s1, args[1], [x, y])
            return vcond(o, "Less"), vcond(o, "Equal")
    else:
        def less(s1, x, y):
            return ltv(x, y), eqv(x, y)
    I.write(st, p, sorted_seq(I, st, s, less, None, "unstable" not in nm))
    return UNIT


@model("Vec::dedup", "Vec::dedup_by_key", "Vec::dedup_by")
def m_dedup(I, st, call, args):
    p = I.place_of(st, args[0])
    s = I.as_seq(st, I.read(st, *p))
    I.write(st, p, mk("oseq", "dedup", s))
    return UNIT


@model("slice::binary_search", "slice::binary_search_by", "slice::binary_search_by_key")
def m_bsearch(I, st, call, args):
    raise Unsupported("binary search")


# maps
def mp(I, st, v):
    v = I.deref(st, v)
    return v.args[0] if v.op == "set" else v


@model("BTreeMap::get", "HashMap::get")
def m_map_get(I, st, call, args):
    m, k = mp(I, st, args[0]), I.deref(st, args[1])
    c = m_has(m, k)
    return option(c, m_at(m, k)) if c is not ZERO else NONE


@model("BTreeMap::get_key_value", "HashMap::get_key_value")
def m_map_getkv(I, st, call, args):
    m, k = mp(I, st, args[0]), I.deref(st, args[1])
    c = m_has(m, k)
    return option(c, tup(k, m_at(m, k))) if c is not ZERO else NONE


@model("BTreeMap::get_mut", "HashMap::get_mut")
def m_map_get_mut(I, st, call, args):
    p = I.place_of(st, args[0])
    m, k = I.read(st, *p), I.deref(st, args[1])
    c = m_has(m, k)
    return option(c, I.ref(p[0], p[1] + (("k", k),))) if c is not ZERO else NONE


@model("BTreeMap::contains_key", "HashMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def m_contains_key(I, st, call, args):
    return m_has(mp(I, st, args[0]), I.deref(st, args[1]))


@model("BTreeMap::insert", "HashMap::insert")
def m_map_insert(I, st, call, args):
    p = I.place_of(st, args[0])
    m = I.read(st, *p)
    k, v = I.deep(st, args[1]), args[2]
    c = m_has(m, k)
    old = option(c, m_at(m, k)) if c is not ZERO else NONE
    I.write(st, p, mset(m, k, v))
    return old


@model("HashSet::insert", "BTreeSet::insert")
def m_set_insert(I, st, call, args):
    p = I.place_of(st, args[0])
    m = I.read(st, *p).args[0]
    k = I.deep(st, args[1])
    c = m_has(m, k)
    I.write(st, p, mk("set", mset(m, k, UNIT)))
    return ONE - c


@model("BTreeMap::remove", "HashMap::remove")
def m_map_remove(I, st, call, args):
    p = I.place_of(st, args[0])
    m, k = I.read(st, *p), I.deref(st, args[1])
    c = m_has(m, k)
    I.write(st, p, mk("app", "mremove", "obj", m, k) if c is not ZERO else m)
    return option(c, m_at(m, k)) if c is not ZERO else NONE


@model("BTreeMap::first_key_value", "BTreeMap::last_key_value")
def m_first_kv(I, st, call, args):
    s = m_seq(mp(I, st, args[0]))
    n = seq_len(s)
    return option(ge0(n - 1), seq_nth(s, ZERO if "first" in call.name else n - 1))


@model("BTreeMap::retain", "HashMap::retain")
def m_map_retain(I, st, call, args):
    raise Unsupported("map retain")


@model("BTreeMap::entry", "HashMap::entry")
def m_entry(I, st, call, args):
    p = I.place_of(st, args[0])
    k = I.deep(st, args[1])
    m = I.read(st, *p)
    c = m_has(m, k)
    occ = mk("tuple", I.ref(*p), k)
    return mkenum("Entry", [("Occupied", c, (("0", occ),)), ("Vacant", ONE - c, (("0", occ),))])


def entry_parts(I, e):
    for v in ("Occupied", "Vacant"):
        if vcond(e, v) is not ZERO:
            t = vfield(e, v, "0")
            return t.args[0], t.args[1]
    raise Unsupported("entry")


def or_insert(I, st, e, mkval):
    r, k = entry_parts(I, e)
    p = (r.args[0], r.args[1])
    c = vcond(e, "Occupied")

    def ins(s):
        v = mkval(s)
        I.write(s, p, mset(I.read(s, *p), k, v))
        return UNIT

    I.branch(st, c, lambda s: UNIT, ins)
    return I.ref(p[0], p[1] + (("k", k),))


@model("Entry::or_default")
def m_or_default(I, st, call, args):
    t = call.ty
    while t is not None and t.k == "ref":
        t = t.of
    return or_insert(I, st, args[0], lambda s: default_of(I, s, t))


@model("Entry::or_insert")
def m_or_insert(I, st, call, args):
    return or_insert(I, st, args[0], lambda s: args[1])


@model("Entry::or_insert_with")
def m_or_insert_with(I, st, call, args):
    return or_insert(I, st, args[0], lambda s: I.apply(s, args[1], []))


@model("Entry::and_modify")
def m_and_modify(I, st, call, args):
    e = args[0]
    r, k = entry_parts(I, e)
    p = (r.args[0], r.args[1])

    def mod(s):
        I.apply(s, args[1], [I.ref(p[0], p[1] + (("k", k),))])
        return UNIT

    I.branch(st, vcond(e, "Occupied"), mod, lambda s: UNIT)
    return e


@model("VacantEntry::insert", "OccupiedEntry::insert", "VacantEntry::insert_entry")
def m_entry_insert(I, st, call, args):
    t = args[0] if args[0].op == "tuple" else I.deref(st, args[0])
    r, k = t.args
    p = (r.args[0], r.args[1])
    old = None
    if call.name.startswith("Occ"):
        old = m_at(I.read(st, *p), k)
    I.write(st, p, mset(I.read(st, *p), k, args[1]))
    return old if old is not None else I.ref(p[0], p[1] + (("k", k),))


@model("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def m_entry_get(I, st, call, args):
    t = args[0] if args[0].op == "tuple" else I.deref(st, args[0])
    r, k = t.args
    return I.ref(r.args[0], r.args[1] + (("k", k),))


@model("OccupiedEntry::key", "VacantEntry::key", "Entry::key")
def m_entry_key(I, st, call, args):
    t = args[0] if args[0].op in ("tuple", "enum") else I.deref(st, args[0])
    return t.args[1] if t.op == "tuple" else entry_parts(I, t)[1]


# ---------------------------------------------------------------- vec! plumbing
@model("Box::new_uninit", "Box::new_uninit_in")
def m_new_uninit(I, st, call, args):
    return UNIT


@model("intrinsics::write_box_via_move")
def m_write_box(I, st, call, args):
    return args[1]


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init")
def m_assume_init(I, st, call, args):
    return args[0]


@model("vec::from_elem")
def m_from_elem(I, st, call, args):
    n = P(args[1])
    k = const_of(n)
    if k is not None and k <= 16:
        return lst(*[args[0]] * int(k))
    return rep(args[0], n)


@model("array::from_fn")
def m_array_from_fn(I, st, call, args):
    n = int(call.ty.len)
    return lst(*[I.apply(st, args[0], [C(j)]) for j in range(n)])


# ---------------------------------------------------------------- strings / formatting
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp", "Argument::new_lower_hex")
def m_argument(I, st, call, args):
    v = I.deref(st, args[0])
    kind = call.name.split("_", 1)[1]
    t = call.argty(0)
    return mk("fmtarg", kind, display(I, st, v, t, kind))


def display(I, st, v, t, kind="display"):
    while t is not None and t.k == "ref":
        t = t.of
    v = I.deref(st, v)
    if kind == "display":
        if v.op in ("str", "cats"):
            return v
        if v.op == "cases":
            return cases([(display(I, st, x, t, kind), c) for x, c in v.args])
        if v.op in ("struct", "enum"):
            adt = t.adt if t is not None and t.k == "adt" else v.args[0]
            i = I.prog.impl_idx.get(("Display", adt)) or I.prog.impl_idx.get(("Display", v.args[0]))
            if i and i["items"].get("fmt") in I.prog.bodies:
                buf = I.new_root(st, struct("Formatter", buf=S(""), prec=NONE))
                I.call_key(st, i["items"]["fmt"], [v, I.ref(buf)])
                if st.rel is ZERO:
                    return S("")
                return fld(st.store[buf], "buf")
        if v.op == "poly":
            return V.scat(mk("disp", v))
        if t is not None and (t.k == "prim" and t.s == "str" or t.k == "adt" and t.name in ("String", "PlSmallStr", "Cow", "Display")):
            return v
        return mk("disp", v)
    return mk(kind, I.deep(st, v))


@model("Formatter::write_fmt", "Write::write_fmt")
def m_write_fmt(I, st, call, args):
    p = I.place_of(st, args[0])
    if p is None:
        I.event(st, "write", (I.deep(st, args[0]), args[1]))
        return Ok(UNIT)
    v = I.read(st, *p)
    if v.op == "struct" and v.args[0] == "Formatter":
        I.write(st, (p[0], p[1] + (("f", "buf"),)), scat(fld(v, "buf"), args[1]))
        return Ok(UNIT)
    if v.op in ("str", "cats"):
        I.write(st, p, scat(v, args[1]))
        return Ok(UNIT)
    return io_write(I, st, p, v, args[1])


def io_write(I, st, p, v, data):
    I.event(st, "write", (v, data))
    t = mk("app", "io", "obj", v, data)
    if p is not None:
        I.write(st, p, mk("post", "write", v, data))
    return result(A(mk("is", t, "Ok")), UNIT, mk("fld", t, "Err", "0"))


@model("Write::write_all", "Write::write")
def m_write_all(I, st, call, args):
    p = I.place_of(st, args[0])
    v = I.read(st, *p) if p else args[0]
    r = io_write(I, st, p, v, I.deref(st, args[1]))
    return r


@model("Write::flush")
def m_flush(I, st, call, args):
    p = I.place_of(st, args[0])
    v = I.read(st, *p) if p else args[0]
    I.event(st, "flush", (v,))
    t = mk("app", "flush", "obj", v)
    if p is not None:
        I.write(st, p, mk("post", "flush", v))
    return result(A(mk("is", t, "Ok")), UNIT, mk("fld", t, "Err", "0"))


@model("Formatter::write_str", "String::push_str", "Write::write_str", "String::push", "Formatter::pad", "Write::write_char")
def m_write_str(I, st, call, args):
    p = I.place_of(st, args[0])
    v = I.read(st, *p)
    x = I.deref(st, args[1])
    if x.op == "poly":
        k = const_of(x)
        x = S(chr(int(k))) if k is not None else mk("disp", mk("chr", x))
    if v.op == "struct":
        I.write(st, (p[0], p[1] + (("f", "buf"),)), scat(fld(v, "buf"), x))
    else:
        I.write(st, p, scat(v, x))
    return UNIT if call.name.startswith("String") else Ok(UNIT)


@model("Display::fmt")
def m_display_fmt(I, st, call, args):
    p = I.place_of(st, args[1])
    v = I.read(st, *p)
    d = display(I, st, args[0], call.argty(0))
    I.write(st, (p[0], p[1] + (("f", "buf"),)), scat(fld(v, "buf"), d))
    return Ok(UNIT)


@model("Arguments::from_str", "Arguments::new_const")
def m_args_from_str(I, st, call, args):
    v = I.deref(st, args[0])
    if v.op == "list":
        return scat(*v.args)
    return v


ALTERNATE = 0x60800020


@model("Arguments::new", "Arguments::new_v1")
def m_args_new(I, st, call, args):
    tmpl = I.deref(st, args[0])
    av = I.deref(st, args[1])
    if tmpl.op == "str":
        bs = [ord(c) for c in tmpl.args[0]]
    else:
        bs = [int(const_of(x)) for x in tmpl.args]
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(S(bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
        elif n == 0x80:
            k = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(S(bytes(bs[i:i + k]).decode("utf8", "replace")))
            i += k
        else:
            spec = []
            if n & 1:
                spec.append("flags%d" % (bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24))
                i += 4
            if n & 2:
                spec.append("w%d" % (bs[i] | bs[i + 1] << 8))
                i += 2
            if n & 4:
                spec.append("p%d" % (bs[i] | bs[i + 1] << 8))
                i += 2
            if n & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            a = av.args[nxt]
            nxt += 1
            d = a.args[1] if a.op == "fmtarg" else mk("disp", a)
            if spec == ["flags%d" % ALTERNATE] and a.op == "fmtarg" and a.args[0] == "display":
                # '#' changes nothing for the primitive types, nor for an impl that does not ask for it
                spec = []
            out.append(mk("fmt", ",".join(spec), d) if spec else d)
    return scat(*out)


@model("fmt::format", "__private::format_err", "Error::msg", "anyhow::format_err", "fmt::format_inner")
def m_format(I, st, call, args):
    return args[0]


@model("ToString::to_string")
def m_to_string(I, st, call, args):
    v = I.deref(st, args[0])
    return display(I, st, v, call.argty(0))


@model("io::_print", "io::_eprint")
def m_print(I, st, call, args):
    I.event(st, "print" if call.name == "io::_print" else "eprint", (args[0],))
    return UNIT


@model("str::parse")
def m_parse(I, st, call, args):
    s = I.deref(st, args[0])
    t = call.targ(0)
    return parse_to(I, st, s, t)


def parse_to(I, st, s, t):
    if t is not None and t.k == "adt":
        i = I.prog.impl_idx.get(("FromStr", t.adt))
        if i and i["items"].get("from_str") in I.prog.bodies:
            return I.call_key(st, i["items"]["from_str"], [s])
        if t.name == "String":
            return Ok(s)
    while t is not None and t.k == "adt" and t.name == "OrderedFloat" and t.args:
        t = t.args[0]
    ts = t.s if t is not None else "?"
    h = PARSE_HOOK[0]
    if h is not None:
        r = h(I, st, s, ts)
        if r is not None:
            return r
    x = mk("app", "parse::" + ts, "obj", s)
    return result(A(mk("is", x, "Ok")), eta(mk("fld", x, "Ok", "0"), t), mk("fld", x, "Err", "0"))


PARSE_HOOK = [None]


@model("FromStr::from_str")
def m_from_str(I, st, call, args):
    t = call.ty.args[0] if call.ty is not None and call.ty.args else None
    return parse_to(I, st, I.deref(st, args[0]), t)


@model("str::lines", "str::split_whitespace", "str::chars", "str::bytes", "str::split_ascii_whitespace", "str::char_indices")
def m_str_seq(I, st, call, args):
    s = I.deref(st, args[0])
    n = call.name.split("::")[1]
    if n == "split_ascii_whitespace":
        n = "split_whitespace"
    t = mk("app", n, "obj", s)
    i = fresh()
    x = mk("nth", t, A(i))
    if n in ("bytes", "chars"):
        x = A(mk("num", x, "nat"))
    return it(Comp([i], lt(A(i), A(mk("len", t))), x))


@model("Regex::new")
def m_regex_new(I, st, call, args):
    v = I.deref(st, args[0])
    if v.op == "str":
        try:
            lang.Regex(v.args[0])
            return Ok(struct("Regex", pat=v))
        except lang.NotRegular:
            pass
    return I.opaque(st, call.f, args, call.ty, call.name)


@model("LazyLock::new", "LazyCell::new")
def m_lazy(I, st, call, args):
    return I.apply(st, args[0], [])


@model("str::split", "str::splitn", "str::rsplit", "str::split_terminator")
def m_str_split(I, st, call, args):
    t = mk("app", call.name, "obj", *[I.deref(st, a) if a.op != "clos" else a for a in args])
    i = fresh()
    return it(Comp([i], lt(A(i), A(mk("len", t))), mk("nth", t, A(i))))


# ---------------------------------------------------------------- statistics (statrs)
@model("Statistics::mean")
def m_st_mean(I, st, call, args):
    s = I.items(st, args[0])
    return I.fdiv(st, seq_fold_sum(s), seq_len(s))


@model("Statistics::variance", "Statistics::std_dev", "Statistics::population_variance", "Statistics::population_std_dev")
def m_st_var(I, st, call, args):
    s = I.items(st, args[0])
    n = seq_len(s)
    m = div(seq_fold_sum(s), n, st.pc)
    ss = seq_fold_sum(s, lambda x: (P(x) - m) * (P(x) - m))
    pop = "population" in call.name
    v = I.fdiv(st, ss, n if pop else n - 1)
    return sqrt(v) if "std" in call.name else v


@model("Statistics::max", "Statistics::min")
def m_st_max(I, st, call, args):
    s = I.items(st, args[0])
    return ext_seq(call.name.split("::")[1], s)


@model("StudentsT::new")
def m_t_new(I, st, call, args):
    l, s, f = [P(x) for x in args]
    c = (ONE - nan(l)) * gt0(s) * gt0(f)
    return result(c, struct("StudentsT", location=l, scale=s, freedom=f), mk("app", "DistError", "obj"))


@model("FisherSnedecor::new")
def m_f_new(I, st, call, args):
    a, b = [P(x) for x in args]
    c = gt0(a) * gt0(b)
    return result(c, struct("FisherSnedecor", freedom_1=a, freedom_2=b), mk("app", "DistError", "obj"))


@model("Normal::new")
def m_n_new(I, st, call, args):
    a, b = [P(x) for x in args]
    return result(gt0(b), struct("Normal", mean=a, std=b), mk("app", "DistError", "obj"))


@model("ContinuousCDF::sf", "ContinuousCDF::cdf")
def m_sf(I, st, call, args):
    d = I.deref(st, args[0])
    x = P(args[1])
    # the F distribution's cdf requires a non-negative argument only by value; nothing panics on it
    name = d.args[0]
    ps = [v for _, v in d.args[1]]
    if name == "StudentsT":
        # location/scale family
        l, s, f = ps
        x = div(x - l, s, st.pc)
        ps = [f]
    r = fnum(name + ".sf", x, *ps)
    return r if call.name.endswith("sf") else ONE - r


@model("ContinuousCDF::inverse_cdf")
def m_icdf(I, st, call, args):
    d = I.deref(st, args[0])
    x = P(args[1])
    name = d.args[0]
    ps = [v for _, v in d.args[1]]
    # statrs panics outside [0, 1]
    fail = ONE - le(ZERO, x) * le(x, ONE)
    I.oblige(st, "quantile domain", fail, name)
    if name == "StudentsT":
        l, s, f = ps
        return l + s * fnum(name + ".icdf", x, f)
    return fnum(name + ".icdf", x, *ps)


# ---------------------------------------------------------------- random numbers
@model("SeedableRng::seed_from_u64")
def m_seed(I, st, call, args):
    t = call.ty
    return struct("Rng", alg=mk("str", t.s if t is not None else "?"), seed=P(args[0]), pos=ZERO)


@model("rand::thread_rng", "rand::rng", "SeedableRng::from_entropy", "SeedableRng::from_os_rng")
def m_thread_rng(I, st, call, args):
    I.event(st, "entropy", ())
    return struct("Rng", alg=mk("str", "entropy"), seed=A(mk("num", mk("entropy", I.fnname()), "nat")), pos=ZERO)


@model("rand::random")
def m_random(I, st, call, args):
    I.event(st, "entropy", ())
    return eta(mk("entropy", I.fnname()), call.ty)


def rng_step(I, st, r):
    p = I.place_of(st, r)
    if p is None:
        v = r
        return v
    v = I.read(st, *p)
    if v.op == "struct" and v.args[0] == "Rng":
        I.write(st, (p[0], p[1] + (("f", "pos"),)), P(fld(v, "pos")) + 1)
    return v


def rng_tok(v):
    if v.op == "struct" and v.args[0] == "Rng":
        return mk("rng", fld(v, "alg"), fld(v, "seed"), fld(v, "pos"))
    return mk("rng", v)


@model("Rng::gen_range", "Rng::random_range", "UniformSampler::sample_single")
def m_gen_range(I, st, call, args):
    v = rng_step(I, st, args[0])
    r = I.deref(st, args[1])
    if r.op != "struct":
        raise Unsupported("gen_range bounds")
    lo = P(fld(r, "start"))
    hi = P(fld(r, "end"))
    if r.args[0] == "RangeInclusive":
        hi = hi + 1
    I.oblige(st, "empty range", ge0(lo - hi) if is_int(lo) and is_int(hi) else ONE - lt(lo, hi))
    return lo + A(mk("draw", rng_tok(v), hi - lo))


T.NATOPS.add("draw")


@model("Rng::gen", "Rng::random", "RngCore::next_u64", "RngCore::next_u32", "Rng::gen_bool")
def m_gen(I, st, call, args):
    v = rng_step(I, st, args[0])
    return eta(mk("gen", rng_tok(v), call.ty.s if call.ty is not None else "u64", *args[1:]), call.ty)


@model("SliceRandom::shuffle")
def m_shuffle(I, st, call, args):
    v = rng_step(I, st, args[1])
    p = I.place_of(st, args[0])
    s = I.as_seq(st, I.read(st, *p))
    tok = mk("shuffle", rng_tok(v), seq_len(s))
    if s.op == "list" and len(s.args) <= 1:
        return UNIT
    I.write(st, p, perm_seq(tok, s))
    return UNIT


@model("SliceRandom::choose")
def m_choose(I, st, call, args):
    v = rng_step(I, st, args[1])
    s = I.as_seq(st, args[0])
    n = seq_len(s)
    return option(ge0(n - 1), seq_nth(s, A(mk("draw", rng_tok(v), n))))


@model("SliceRandom::choose_multiple")
def m_choose_multiple(I, st, call, args):
    v = rng_step(I, st, args[1])
    s = I.as_seq(st, args[0])
    tok = mk("shuffle", rng_tok(v), seq_len(s))
    return it(seq_take(perm_seq(tok, s), P(args[2])))


# ---------------------------------------------------------------- files
@model("File::open", "File::create", "fs::read_to_string", "fs::write", "OpenOptions::open")
def m_file(I, st, call, args):
    vals = [I.deep(st, a) for a in args]
    I.event(st, call.name, tuple(vals))
    t = mk("app", call.name, "obj", *vals)
    return result(A(mk("is", t, "Ok")), mk("fld", t, "Ok", "0") if call.name != "fs::write" else UNIT, mk("fld", t, "Err", "0"))


@model("BufReader::new", "io::stdin")
def m_bufreader(I, st, call, args):
    return args[0] if args else mk("app", "stdin", "obj")


@model("BufWriter::new", "BufWriter::with_capacity", "LineWriter::new")
def m_bufwriter(I, st, call, args):
    t = mk("app", "BufWriter", "obj", args[-1])
    I.event(st, "bufwriter", (t,))
    return t


@model("BufRead::lines", "io::lines", "Lines::new")
def m_lines(I, st, call, args):
    t = mk("app", "lines", "obj", I.deep(st, args[0]))
    i = fresh()
    x = mk("nth", t, A(i))
    r = result(A(mk("is", x, "Ok")), mk("fld", x, "Ok", "0"), mk("fld", x, "Err", "0"))
    return it(Comp([i], lt(A(i), A(mk("len", t))), r))


@model("__private::format_err", "Error::new", "Error::from")
def m_err_new(I, st, call, args):
    return mk("app", "error", "obj", *[I.deep(st, a) for a in args])


@model("Context::context", "Context::with_context")
def m_context(I, st, call, args):
    v = I.deref(st, args[0])
    ok = okname(v, call)
    return result(vcond(v, ok), vfield(v, ok, "0"), mk("app", "error", "obj"))


# clap
@model("Parser::parse")
def m_clap_parse(I, st, call, args):
    v = eta(mk("sym", "args", "obj"), call.ty)
    if I.given:
        v = mk("struct", v.args[0], tuple((f, I.given.get(f, x)) for f, x in v.args[1]))
    return v

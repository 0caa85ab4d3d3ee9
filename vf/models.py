"""What the std (and tempfile/pest) functions the code calls mean, in terms."""
import re
from . import terms as t
from .terms import mk, sw, const, num, TRUE, FALSE, UNIT, EMPTY, some, NONE, ok, err
from .mirflow import Dead, DEAD, leaf, map_leaves, merge, treeval, CONT, St, unset, norm, assume_bool

MODELS = {}
PATTERNS = []


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


def val(E, st, x):
    return E.snapshot(st, x)


def deep(E, st, x):
    """value behind (nested) references, also inside tuples"""
    x = E.snapshot(st, x)
    if x.op == "tup" and any(y.op == "mref" for y in x.a[0]):
        return t.tup([deep(E, st, y) for y in x.a[0]])
    return x


def ident(E, st, d, a):
    return a[0]


def snap(E, st, d, a):
    return val(E, st, a[0])


for n in ("std::convert::From::from std::convert::Into::into std::borrow::ToOwned::to_owned std::convert::AsMut::as_mut "
          "std::borrow::BorrowMut::borrow_mut std::ops::DerefMut::deref_mut std::boxed::Box::new "
          "std::hint::must_use std::string::String::as_mut_str std::vec::Vec::as_mut_slice std::vec::Vec::into_boxed_slice slice::into_vec "
          "std::string::String::into_bytes std::string::String::into_boxed_str std::rc::Rc::new std::sync::Arc::new std::mem::ManuallyDrop::new "
          "std::boxed::box_assume_init_into_vec_unsafe std::boxed::Box::assume_init std::iter::IntoIterator::into_iter::id std::hint::black_box "
          "std::borrow::Cow::into_owned std::path::PathBuf::into_os_string std::path::PathBuf::into_boxed_path std::ffi::OsString::into_boxed_os_str std::ffi::OsStr::new std::path::Path::new std::boxed::Box::leak std::pin::Pin::new std::convert::identity").split():
    MODELS[n] = ident
for n in ("std::clone::Clone::clone std::ops::Deref::deref std::convert::AsRef::as_ref std::borrow::Borrow::borrow std::string::String::as_str "
          "str::to_owned std::vec::Vec::as_slice slice::to_vec std::string::String::as_bytes str::as_bytes std::iter::Iterator::by_ref::val "
          "std::path::PathBuf::as_path std::path::Path::to_path_buf std::path::Path::as_os_str std::boxed::Box::as_ref std::rc::Rc::clone std::sync::Arc::clone "
          "std::ffi::OsStr::to_os_string std::ffi::OsString::as_os_str std::path::PathBuf::as_os_str").split():
    MODELS[n] = snap


@model("std::convert::From::from", "std::convert::Into::into")
def m_from(E, st, d, a):
    inner = d.get("inner")
    if inner and inner["key"] in E.F.fns and E.F.fns[inner["key"]]["local"]:
        return E.run_fn(st, E.F.fns[inner["key"]], a)
    tgt = d["args"][-1] if d["path"].endswith("into") else (d["args"][0] if d["args"] else "")
    v = a[0]
    tgt = str(tgt)
    if re.match(r"std::(collections::(hash_set::|hash::set::)?(HashSet|BTreeSet)|collections::BTreeSet)", tgt.replace("alloc::", "std::")):
        return t.setof(val(E, st, v))
    if "HashMap" in tgt.split("<")[0] or "BTreeMap" in tgt.split("<")[0]:
        return mk("map", val(E, st, v))
    return v


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def m_tryfrom(E, st, d, a):
    inner = d.get("inner")
    if inner and inner["key"] in E.F.fns and E.F.fns[inner["key"]]["local"]:
        return E.run_fn(st, E.F.fns[inner["key"]], a)
    p = d["_path"]
    if p.startswith("<T as std::convert::TryFrom"):
        return ok(E.apply(st, E.fnval(d["inner"]), a)) if False else ok(a[0])
    args = d.get("args", [])
    if len(args) == 2 and all(re.match(r"[iu](8|16|32|64|128|size)$", x) for x in args):
        dst, src = (args[0], args[1]) if d["path"].endswith("try_from") else (args[1], args[0])
        v = val(E, st, a[0])
        if v.op == "const" and isinstance(t.cval(v), int):
            w = 64 if dst[1:] == "size" else int(dst[1:])
            lo, hi = (0, (1 << w) - 1) if dst[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return ok(v) if lo <= t.cval(v) <= hi else err(mk("call", "TryFromIntError"))
        return t.ite(mk("call", "fits " + dst, v), ok(v), err(mk("call", "TryFromIntError")))
    return None


# ---------------------------------------------------------------- ? and friends
@model("std::ops::Try::branch")
def m_branch(E, st, d, a):
    v = a[0]
    if d["args"] and d["args"][0].replace("core::", "std::").startswith("std::option::Option"):
        return sw(t.disc(v), [("Some", t.ctor(t.CF, "Continue", ("0",), (t.proj(v, "Some", "0"),))), ("None", t.ctor(t.CF, "Break", ("0",), (NONE,)))])
    if d["args"] and d["args"][0].replace("core::", "std::").startswith("std::result::Result"):
        return sw(t.disc(v), [("Ok", t.ctor(t.CF, "Continue", ("0",), (t.proj(v, "Ok", "0"),))), ("Err", t.ctor(t.CF, "Break", ("0",), (err(t.proj(v, "Err", "0")),)))])
    return None


@model("std::ops::FromResidual::from_residual")
def m_residual(E, st, d, a):
    v = a[0]
    dst = d["args"][0].replace("core::", "std::") if d["args"] else ""
    if dst.startswith("std::option::Option"):
        return NONE
    if dst.startswith("std::result::Result"):
        e = t.proj(v, "Err", "0")
        inner = d.get("inner")
        if inner and inner["key"] in E.F.fns and E.F.fns[inner["key"]]["local"]:
            f = E.F.fns[inner["key"]]
            if f["path"].endswith(" as std::convert::From<T>>::from") and f["path"].startswith("<T "):
                return err(e)
            return err(E.run_fn(st, f, [e]))
        return err(e)
    return None


@model("std::ops::Try::from_output")
def m_from_output(E, st, d, a):
    dst = d["args"][0].replace("core::", "std::") if d["args"] else ""
    if dst.startswith("std::option::Option"):
        return some(a[0])
    if dst.startswith("std::result::Result"):
        return ok(a[0])
    return None


def unwrap(E, st, v, good, what, msg=None):
    v = val(E, st, v)
    bad = {"Some": "None", "Ok": "Err", "Err": "Ok"}[good]
    d = E.under(st, t.disc(v))
    l = t.lab_of(d)
    if l != good:
        E.panic(E.cur, E.line, what, assume_lab(st, d, bad), v)
        if l == bad:
            raise Dead()
    return sw(d, [(good, t.proj(v, good, "0"))]) if d.op == "sw" else t.proj(v, good, "0")


def assume_lab(st, d, l):
    return St(st.c, st.f + ((d, l),))


@model("std::option::Option::unwrap", "std::option::Option::expect")
def m_unwrap(E, st, d, a):
    return unwrap(E, st, a[0], "Some", norm(d["path"]))


@model("std::result::Result::unwrap", "std::result::Result::expect")
def m_unwrap2(E, st, d, a):
    return unwrap(E, st, a[0], "Ok", norm(d["path"]))


@model("std::result::Result::unwrap_err", "std::result::Result::expect_err")
def m_unwrap3(E, st, d, a):
    return unwrap(E, st, a[0], "Err", norm(d["path"]))


@model("std::option::Option::as_ref", "std::option::Option::as_deref", "std::option::Option::copied", "std::option::Option::cloned", "std::result::Result::as_ref",
       "std::option::Option::as_slice::none")
def m_asref(E, st, d, a):
    return val(E, st, a[0])


@model("std::option::Option::as_mut", "std::option::Option::as_deref_mut")
def m_asmut(E, st, d, a):
    if a[0].op != "mref":
        return a[0]
    v = val(E, st, a[0])
    return sw(t.disc(v), [("Some", some(mk("mref", a[0].a[0], a[0].a[1] + (("f", "Some", "0"),)))), ("None", NONE)])


@model("std::option::Option::take")
def m_take(E, st, d, a):
    v = val(E, st, a[0])
    E.write_cell(st, a[0].a[0], a[0].a[1], NONE)
    return v


@model("std::mem::take")
def m_mtake(E, st, d, a):
    v = val(E, st, a[0])
    ty = d["args"][0] if d["args"] else ""
    z = default_of(ty)
    if z is None:
        return None
    E.write_cell(st, a[0].a[0], a[0].a[1], z)
    return v


def default_of(ty):
    ty = norm_ty(ty)
    if ty.startswith("std::vec::Vec<") or ty.startswith("std::collections::VecDeque"):
        return EMPTY
    if ty == "std::string::String" or ty == "&str":
        return const("")
    if "HashSet<" in ty.split("<")[0] + "<" or "BTreeSet<" in ty.split("<")[0] + "<":
        return mk("set", EMPTY)
    if "HashMap<" in ty.split("<")[0] + "<" or "BTreeMap<" in ty.split("<")[0] + "<":
        return mk("map", EMPTY)
    if ty.startswith("std::option::Option<"):
        return NONE
    if ty == "bool":
        return FALSE
    if re.match(r"[iu](8|16|32|64|128|size)$", ty):
        return num(0)
    if ty == "()":
        return UNIT
    return None


def norm_ty(ty):
    return re.sub(r"\b(core|alloc)::", "std::", ty)


@model("std::default::Default::default")
def m_default(E, st, d, a):
    return default_of(d["args"][0]) if d["args"] else None


@model("std::mem::replace")
def m_replace(E, st, d, a):
    v = val(E, st, a[0])
    if a[0].op == "mref":
        E.write_cell(st, a[0].a[0], a[0].a[1], a[1])
    return v


@model("std::option::Option::replace")
def m_oreplace(E, st, d, a):
    v = val(E, st, a[0])
    E.write_cell(st, a[0].a[0], a[0].a[1], some(a[1]))
    return v


@model("std::option::Option::insert")
def m_oinsert(E, st, d, a):
    E.write_cell(st, a[0].a[0], a[0].a[1], some(a[1]))
    return mk("mref", a[0].a[0], a[0].a[1] + (("f", "Some", "0"),))


@model("std::mem::swap")
def m_swap(E, st, d, a):
    x, y = val(E, st, a[0]), val(E, st, a[1])
    E.write_cell(st, a[0].a[0], a[0].a[1], y)
    E.write_cell(st, a[1].a[0], a[1].a[1], x)
    return UNIT


@model("std::mem::drop")
def m_drop(E, st, d, a):
    ty = " ".join(d["args"])
    if "NamedTempFile" in ty or "TempPath" in ty or "TempDir" in ty:
        E.event(st, "drop", a[0])
    return UNIT


@model("std::boxed::Box::new_uninit", "std::mem::MaybeUninit::uninit")
def m_uninit(E, st, d, a):
    return mk("sym", "uninit")


@model("std::cmp::PartialEq::eq")
def m_eq(E, st, d, a):
    x, y = deep(E, st, a[0]), deep(E, st, a[1])
    return eqv(E, x, y)


@model("std::cmp::PartialEq::ne")
def m_ne(E, st, d, a):
    return t.not_(eqv(E, deep(E, st, a[0]), deep(E, st, a[1])))


def eqv(E, x, y):
    return t.eq(x, y)


@model("<str as std::cmp::PartialEq>::eq", "<str as std::cmp::PartialEq>::ne")
def m_streq(E, st, d, a):
    return t.eq(val(E, st, a[0]), val(E, st, a[1]))


@model("std::cmp::PartialOrd::lt")
def m_lt(E, st, d, a):
    if is_int(d):
        return t.lt(val(E, st, a[0]), val(E, st, a[1]))


@model("std::cmp::PartialOrd::gt")
def m_gt(E, st, d, a):
    if is_int(d):
        return t.lt(val(E, st, a[1]), val(E, st, a[0]))


@model("std::cmp::PartialOrd::le")
def m_le(E, st, d, a):
    if is_int(d):
        return t.not_(t.lt(val(E, st, a[1]), val(E, st, a[0])))


@model("std::cmp::PartialOrd::ge")
def m_ge(E, st, d, a):
    if is_int(d):
        return t.not_(t.lt(val(E, st, a[0]), val(E, st, a[1])))


def is_int(d):
    return bool(d["args"]) and re.match(r"&*[iu](8|16|32|64|128|size)$", d["args"][0])


@model("std::cmp::max", "std::cmp::Ord::max")
def m_max(E, st, d, a):
    return t.ite(t.lt(a[1], a[0]), a[0], a[1]) if is_int(d) else None


@model("std::cmp::min", "std::cmp::Ord::min")
def m_min(E, st, d, a):
    return t.ite(t.lt(a[1], a[0]), a[1], a[0]) if is_int(d) else None


for _op, _n in (("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul")):
    def _f(E, st, d, a, _n=_n):
        if _n == "add" and d["args"] and "String" in d["args"][0]:
            return t.cat([val(E, st, a[0]), val(E, st, a[1])])
        if is_int(d):
            return t.arith(_n, val(E, st, a[0]), val(E, st, a[1]))
    MODELS["std::ops::" + _op] = _f


@model("std::ops::AddAssign::add_assign")
def m_addassign(E, st, d, a):
    v = val(E, st, a[0])
    if d["args"] and "String" in d["args"][0]:
        r = t.cat([v, val(E, st, a[1])])
    elif is_int(d):
        r = t.arith("add", v, val(E, st, a[1]))
    else:
        return None
    E.write_cell(st, a[0].a[0], a[0].a[1], r)
    return UNIT


@model("std::ops::Not::not")
def m_not(E, st, d, a):
    return t.not_(val(E, st, a[0]))


def derived(E, st, path, d, a, fn):
    if path == "std::clone::Clone::clone":
        return val(E, st, a[0])
    if path == "std::cmp::PartialEq::eq":
        return t.eq(deep(E, st, a[0]), deep(E, st, a[1]))
    if path == "std::cmp::PartialEq::ne":
        return t.not_(t.eq(deep(E, st, a[0]), deep(E, st, a[1])))
    if path.startswith("std::fmt::Debug"):
        return fmt_write(E, st, a[1], [mk("call", "debug", val(E, st, a[0]))])
    if path.startswith("std::cmp::") or path.startswith("std::hash::"):
        return mk("call", path, *[val(E, st, x) for x in a])
    return None


# ---------------------------------------------------------------- containers
def setv(E, st, r, v):
    if r.op == "mref":
        E.write_cell(st, r.a[0], r.a[1], v)
    elif r.op == "sw":
        for l, x in r.a[1]:
            if x.op == "mref":
                old = val(E, st, x)
                E.write_cell(st, x.a[0], x.a[1], sw(r.a[0], [(l2, v if l2 == l else old) for l2, _ in r.a[1]]))


@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::VecDeque::new", "std::collections::VecDeque::with_capacity", "std::collections::LinkedList::new")
def m_vnew(E, st, d, a):
    return EMPTY


@model("std::string::String::new", "std::string::String::with_capacity")
def m_snew(E, st, d, a):
    return const("")


@pattern(r"^std::collections::(\w+::)*(HashSet|BTreeSet)::(new|with_capacity|default|with_hasher|with_capacity_and_hasher)$")
def m_setnew(E, st, d, a):
    return mk("set", EMPTY)


@pattern(r"^std::collections::(\w+::)*(HashMap|BTreeMap)::(new|with_capacity)$")
def m_mapnew(E, st, d, a):
    return mk("map", EMPTY)


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def m_push(E, st, d, a):
    setv(E, st, a[0], t.seq([val(E, st, a[0]), t.one(a[1])]))
    return UNIT


@model("std::collections::VecDeque::push_front")
def m_pushf(E, st, d, a):
    setv(E, st, a[0], t.seq([t.one(a[1]), val(E, st, a[0])]))
    return UNIT


@model("std::vec::Vec::insert")
def m_vinsert(E, st, d, a):
    v = val(E, st, a[0])
    if a[1].op == "const" and t.cval(a[1]) == 0:
        setv(E, st, a[0], t.seq([t.one(a[2]), v]))
        return UNIT
    if a[1] is t.length(v):
        setv(E, st, a[0], t.seq([v, t.one(a[2])]))
        return UNIT
    els = t.elements(v)
    if els is not None and a[1].op == "const" and t.cval(a[1]) <= len(els):
        els.insert(t.cval(a[1]), a[2])
        setv(E, st, a[0], t.lst(els))
        return UNIT
    return None


@model("std::vec::Vec::append", "std::collections::VecDeque::append")
def m_append(E, st, d, a):
    setv(E, st, a[0], t.seq([val(E, st, a[0]), val(E, st, a[1])]))
    setv(E, st, a[1], EMPTY)
    return UNIT


@model("std::vec::Vec::extend_from_slice")
def m_extslice(E, st, d, a):
    setv(E, st, a[0], t.seq([val(E, st, a[0]), val(E, st, a[1])]))
    return UNIT


@model("std::vec::Vec::clear", "std::collections::VecDeque::clear")
def m_vclear(E, st, d, a):
    setv(E, st, a[0], EMPTY)
    return UNIT


@model("std::string::String::clear")
def m_sclear(E, st, d, a):
    setv(E, st, a[0], const(""))
    return UNIT


@model("std::vec::Vec::reserve", "std::string::String::reserve", "std::vec::Vec::shrink_to_fit", "std::string::String::shrink_to_fit", "std::vec::Vec::reserve_exact")
def m_noop(E, st, d, a):
    return UNIT


@pattern(r"^std::collections::(\w+::)*(HashSet|HashMap)::(reserve|shrink_to_fit)$")
def m_noop2(E, st, d, a):
    return UNIT


@model("std::vec::Vec::len", "slice::len", "std::string::String::len", "str::len", "std::collections::VecDeque::len", "std::iter::ExactSizeIterator::len")
def m_len(E, st, d, a):
    v = val(E, st, a[0])
    if v.op == "iter":
        return t.length(materialize(E, st, v))
    return t.length(v)


@pattern(r"^std::collections::(\w+::)*(HashSet|BTreeSet|HashMap|BTreeMap)::len$")
def m_setlen(E, st, d, a):
    v = val(E, st, a[0])
    if v.op == "map":
        return t.length(mk("set", t.mapseq(v.a[0], lambda e: t.proj(e, None, "0"))))
    return t.length(v)


@model("std::vec::Vec::is_empty", "slice::is_empty", "std::string::String::is_empty", "str::is_empty", "std::collections::VecDeque::is_empty")
def m_isempty(E, st, d, a):
    v = val(E, st, a[0])
    d0 = d["_path"]
    if "str" in d0.lower() and "vec" not in d0.lower():
        return t.eq(v, const(""))
    return t.eq(t.length(v), num(0))


@pattern(r"^std::collections::(\w+::)*(HashSet|BTreeSet|HashMap|BTreeMap)::is_empty$")
def m_setempty(E, st, d, a):
    v = val(E, st, a[0])
    return t.eq(t.length(v.a[0] if v.op in ("set", "map") else v), num(0))


@pattern(r"^std::collections::(\w+::)*(HashSet|BTreeSet)::insert$")
def m_setinsert(E, st, d, a):
    v = val(E, st, a[0])
    s = unset(v)
    if s is None:
        return None
    new = t.not_(t.has(s, a[1]))
    setv(E, st, a[0], t.setof(t.seq([s, t.one(a[1])])))
    return new


@pattern(r"^std::collections::(\w+::)*(HashSet|BTreeSet|HashMap|BTreeMap)::clear$")
def m_setclear(E, st, d, a):
    setv(E, st, a[0], mk("set" if "Set::" in d["_path"] else "map", EMPTY))
    return UNIT


@pattern(r"^std::collections::(\w+::)*(HashSet|BTreeSet)::(contains)$")
def m_setcontains(E, st, d, a):
    s = unset(val(E, st, a[0]))
    return None if s is None else t.has(s, val(E, st, a[1]))


@pattern(r"^std::collections::(\w+::)*(HashSet|BTreeSet)::(iter|drain|into_iter)$")
def m_setiter(E, st, d, a):
    v = val(E, st, a[0])
    return mk("iter", E.unordered(v), ())


@model("slice::contains", "std::collections::VecDeque::contains")
def m_contains(E, st, d, a):
    return t.has(val(E, st, a[0]), deep(E, st, a[1]))


def mapget(v, k):
    """last binding of k in an insertion sequence of pairs"""
    e, p = t.fresh("e"), t.fresh("p")
    r = t.rev(v.a[0])
    c = t.eq(t.proj(e, None, "0"), k)
    hit = t.anyof(r, e, p, c)
    return hit, t.proj(t.first(r, e, p, c), None, "1")


@pattern(r"^std::collections::(\w+::)*(HashMap|BTreeMap)::insert$")
def m_mapinsert(E, st, d, a):
    v = val(E, st, a[0])
    if v.op != "map":
        return None
    hit, old = mapget(v, a[1])
    setv(E, st, a[0], mk("map", t.seq([v.a[0], t.one(t.tup([a[1], a[2]]))])))
    return t.ite(hit, some(old), NONE)


@pattern(r"^std::collections::(\w+::)*(HashMap|BTreeMap)::get$")
def m_mapget(E, st, d, a):
    v = val(E, st, a[0])
    if v.op != "map":
        return mk("call", "map.get", v, val(E, st, a[1]))
    hit, old = mapget(v, val(E, st, a[1]))
    return t.ite(hit, some(old), NONE)


@pattern(r"^std::collections::(\w+::)*(HashMap|BTreeMap)::contains_key$")
def m_mapcontains(E, st, d, a):
    v = val(E, st, a[0])
    if v.op != "map":
        return None
    return mapget(v, val(E, st, a[1]))[0]


@pattern(r"^std::collections::(\w+::)*(HashMap|BTreeMap)::(keys|values|into_keys|into_values)$")
def m_mapkeys(E, st, d, a):
    v = val(E, st, a[0])
    i = "0" if "keys" in d["_path"].rsplit("::", 1)[1] else "1"
    if v.op != "map":
        return None
    s = E.unordered(v)
    return None if s.op == "unordered" else mk("iter", t.mapseq(s, lambda e: t.proj(e, None, i)), ())


@pattern(r"^std::collections::(\w+::)*(HashMap|BTreeMap)::get_mut$")
def m_mapgetmut(E, st, d, a):
    v = val(E, st, a[0])
    if v.op != "map" or a[0].op != "mref":
        return None
    k = val(E, st, a[1])
    return t.ite(mapget(v, k)[0], some(mk("mref", a[0].a[0], a[0].a[1] + (("m", k),))), NONE)


@pattern(r"^std::collections::(\w+::)*(HashMap|BTreeMap)::entry$")
def m_mapentry(E, st, d, a):
    """an entry: the place of the key in the map, and whether it is bound"""
    v = val(E, st, a[0])
    if v.op != "map" or a[0].op != "mref":
        return None
    return mk("entry", mk("mref", a[0].a[0], a[0].a[1] + (("m", a[1]),)), mapget(v, a[1])[0])


def either(E, st, cond, yes, no):
    """run one of two continuations, which may write to the state"""
    c = E.under(st, cond)
    if t.is_const(c):
        return (yes if c is TRUE else no)(st)
    subs = []
    for l, f in ((True, yes), (False, no)):
        s2 = assume_bool(st, c, l)
        try:
            s2.c[("rv",)] = f(s2)
            subs.append((l, leaf("r", s2)))
        except Dead:
            subs.append((l, DEAD))
    m = merge(("node", c, subs))
    if m is None:
        raise Dead()
    v = m.c.pop(("rv",))
    st.c = m.c
    return v


@pattern(r"^std::collections::(\w+::)*Entry::(or_insert|or_insert_with|or_insert_with_key|or_default|and_modify|key)$")
def m_entry(E, st, d, a):
    n = d["_path"].rsplit("::", 1)[-1]
    x = val(E, st, a[0]) if n == "key" else a[0]
    if x.op != "entry":
        return None
    at, hit = x.a
    if n == "key":
        return at.a[1][-1][1]
    if n == "and_modify":
        either(E, st, hit, lambda s: E.apply(s, a[1], [at]), lambda s: UNIT)
        return x

    def fill(s):
        z = a[1] if n == "or_insert" else default_of(d["args"][1]) if n == "or_default" and len(d["args"]) > 1 else E.apply(
            s, a[1], [at.a[1][-1][1]] if n == "or_insert_with_key" else []) if n != "or_default" else None
        if z is None:
            z = mk("ext", "default value of an entry")
        E.write_cell(s, at.a[0], at.a[1], z)
        return UNIT
    either(E, st, hit, lambda s: UNIT, fill)
    return at


@model("std::vec::from_elem")
def m_fromelem(E, st, d, a):
    n = a[1]
    if t.is_const(n):
        return t.seq([t.one(a[0])] * t.cval(n)) if 0 < t.cval(n) <= 512 else EMPTY if t.cval(n) == 0 else None
    return t.mapseq(n.a[0] if n.op == "len" else t.rng(num(0), n), lambda e: a[0])


@model("slice::first", "std::collections::VecDeque::front")
def m_first(E, st, d, a):
    v = val(E, st, a[0])
    return t.get(v, num(0))


@model("slice::last", "std::collections::VecDeque::back")
def m_last(E, st, d, a):
    v = val(E, st, a[0])
    els = t.elements(v)
    if els is not None:
        return some(els[-1]) if els else NONE
    return t.ite(t.eq(t.length(v), num(0)), NONE, some(t.index(v, t.arith("sub", t.length(v), num(1)))))


@model("slice::get")
def m_get(E, st, d, a):
    v = val(E, st, a[0])
    i = a[1]
    if i.op == "ctor":
        return None
    return t.get(v, i)


@model("std::ops::Index::index")
def m_index(E, st, d, a):
    v = val(E, st, a[0])
    i = val(E, st, a[1])
    if v.op == "map":
        hit, old = mapget(v, i)
        E.panic(E.cur, E.line, "missing key", st, i)
        return old
    if i.op == "ctor":
        check_range(E, st, v, i, norm_ty(d["args"][0]) if d.get("args") else "")
        return rangeslice(v, i)
    c = E.under(st, t.lt(i, t.length(v)))
    if c is not TRUE:
        E.panic(E.cur, E.line, "index", assume_bool(st, c, False), i)
    return t.index(v, i)


@model("std::ops::IndexMut::index_mut")
def m_indexmut(E, st, d, a):
    if a[0].op != "mref":
        return None
    return mk("mref", a[0].a[0], a[0].a[1] + (("i", a[1]),))


def check_range(E, st, v, r, ty):
    """panics of a slice with literal bounds"""
    n = r.a[0].rsplit("::", 1)[-1]
    lo = t.proj(r, None, "start") if n in ("Range", "RangeFrom", "RangeInclusive") else num(0)
    hi = t.proj(r, None, "end") if n in ("Range", "RangeTo", "RangeInclusive", "RangeToInclusive") else lo
    if not (t.is_const(lo) and t.is_const(hi)):
        r = textslice(v, lo, hi) if v.op == "cat" and "Inclusive" not in n and n != "RangeFrom" else None
        if r is not None and r.op == "call" and r.a[0] == "cut":
            E.panic(E.cur, E.line, "slice at a place counted from an end, within a text", st, v)
        return
    k = t.cval(hi) + (1 if "Inclusive" in n else 0)
    if t.cval(lo) > k:
        E.panic(E.cur, E.line, "slice bounds %d > %d" % (t.cval(lo), k), st, v)
        return
    text = ty.split("<")[0] in ("str", "std::string::String", "&str")
    bad = E.under(st, t.lt(t.length(v), num(k)))
    if bad is not FALSE and not (text and minlen(E, v) >= k):
        E.panic(E.cur, E.line, "slice to %d of a shorter sequence" % k, assume_bool(st, bad, True), v)
    if text:
        for j in (t.cval(lo), k):
            if not boundary(E, v, j):
                E.panic(E.cur, E.line, "slice at %d, not a character boundary" % j, st, v)


def pieces(v):
    return list(v.a[0]) if v.op == "cat" else [v]


def minlen(E, v):
    n = 0
    for p in pieces(v):
        if t.is_const(p):
            n += len(str(t.cval(p)).encode())
        elif p.op == "sym":
            n += E.textclass.get(p.a[0], (0, False))[0]
    return n


def boundary(E, v, k):
    """is byte k of the text v surely between characters?"""
    n = 0
    for p in pieces(v):
        if k <= n:
            return True
        if t.is_const(p):
            b = str(t.cval(p)).encode()
            if k < n + len(b):
                return b[k - n] & 0xC0 != 0x80
            n += len(b)
        else:
            return p.op == "sym" and E.textclass.get(p.a[0], (0, False))[1]
    return True


def rangeslice(v, r):
    n = r.a[0].rsplit("::", 1)[-1]
    if n == "RangeFull":
        return v
    lo = t.proj(r, None, "start") if n in ("Range", "RangeFrom") else num(0)
    hi = t.proj(r, None, "end") if n in ("Range", "RangeTo") else t.length(v)
    return slice_(v, lo, hi)


def slice_(v, lo, hi):
    if lo is num(0) and hi is t.length(v):
        return v
    els = t.elements(v)
    if els is not None and lo.op == "const" and hi.op == "const":
        return t.lst(els[t.cval(lo):t.cval(hi)])
    if lo.op == "const" and hi is t.length(v):
        ps = t.parts_of(v)
        k = t.cval(lo)
        while k and ps and ps[0].op == "one":
            ps.pop(0)
            k -= 1
        if k == 0:
            return t.seq(ps)
    if v.op == "cat" or t.is_const(v) and isinstance(t.cval(v), str):
        r = textslice(v, lo, hi)
        if r is not None:
            return r
    return mk("call", "slice", v, lo, hi)


def textslice(v, lo, hi):
    """the part of a text between two byte positions counted from its ends or from those of its pieces"""
    out, at = [], num(0)
    for p in pieces(v):
        n = t.length(p)
        u, w = t.linear(t.arith("sub", lo, at)), t.linear(t.arith("sub", hi, at))
        at = t.arith("add", at, n)
        if u is None or w is None:
            return None
        if t.is_const(n):
            k = t.cval(n)
            for x in (u, w):        # a bound by what comes before or behind: none of this piece, or all of it
                if any(c < 0 for c in x[1].values()) and (x[0] > 0 or any(c > 0 for c in x[1].values())):
                    return None
            i = (k if min(u[1].values()) > 0 else 0) if u[1] else max(0, min(k, u[0]))
            j = (k if min(w[1].values()) > 0 else 0) if w[1] else max(0, min(k, w[0]))
            if u[1] and min(u[1].values()) > 0 and u[0] < 0 or w[1] and min(w[1].values()) > 0 and w[0] < k:
                return None
            try:
                out.append(const(str(t.cval(p)).encode()[i:max(i, j)].decode()))
            except UnicodeDecodeError:
                return None
            continue
        # a piece of unknown length: all of it or none
        rest = t.linear(t.arith("sub", hi, at))
        past = t.linear(t.arith("sub", lo, at))
        low = lambda x: x[0] >= 0 and all(c > 0 for c in x[1].values())
        high = lambda x: x[0] <= 0 and all(c < 0 for c in x[1].values())
        if high(u) and low(rest):
            out.append(p)
        elif not (low(past) or high(w)):
            return mk("call", "cut", v, lo, hi)     # within it
    return t.cat(out)


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_back", "std::collections::VecDeque::pop_front")
def m_pop(E, st, d, a):
    v = val(E, st, a[0])
    front = d["_path"].endswith("pop_front")
    if a[0].op == "mref" and E.loops:
        L = E.loops[-1]
        cp = (a[0].a[0], a[0].a[1])
        if L.driver is None and cp[0] in L.st0.c and E.walk(st, L.start[cp[0]], cp[1]) is v and not t.elements(v):
            base = v if front else t.rev(v)
            marker = mk("drv", L.more)
            L.driver = (cp, base, EMPTY, marker, v)
            setv(E, st, a[0], marker)
            return sw(L.more, [(True, some(L.e)), (False, NONE)])
    els = t.elements(v)
    if els is not None:
        if not els:
            return NONE
        if front:
            setv(E, st, a[0], t.lst(els[1:]))
            return some(els[0])
        setv(E, st, a[0], t.lst(els[:-1]))
        return some(els[-1])
    ps = t.parts_of(v)
    if ps[-1 if not front else 0].op == "one":
        if front:
            setv(E, st, a[0], t.seq(ps[1:]))
            return some(ps[0].a[0])
        setv(E, st, a[0], t.seq(ps[:-1]))
        return some(ps[-1].a[0])
    i = num(0) if front else t.arith("sub", t.length(v), num(1))
    e = t.eq(t.length(v), num(0))
    rest = mk("call", "tail" if front else "butlast", v)
    setv(E, st, a[0], t.ite(e, EMPTY, rest))
    return t.ite(e, NONE, some(t.index(v, i)))


@model("slice::reverse")
def m_vrev(E, st, d, a):
    setv(E, st, a[0], t.rev(val(E, st, a[0])))
    return UNIT


@model("std::env::var", "std::env::var_os")
def m_env(E, st, d, a):
    return mk("call", "env", val(E, st, a[0]))


@pattern(r"^(slice|std::slice::ascii::<impl \[u8\]>)::(trim_ascii\w*|strip_prefix|strip_suffix)$")
def m_bytes_trim(E, st, d, a):
    n = d["_path"].rsplit("::", 1)[-1]
    return mk("call", n, *[val(E, st, x) for x in a])


def consts(v):
    els = t.elements(v)
    return [t.cval(x) for x in els] if els is not None and all(t.is_const(x) for x in els) and len({type(t.cval(x)) for x in els}) <= 1 else None


@model("slice::binary_search")
def m_bsearch(E, st, d, a):
    """of known values; of an unsorted slice, what std gives (any answer is allowed there)"""
    cs, k = consts(val(E, st, a[0])), deep(E, st, a[1])
    if cs is None or not t.is_const(k):
        return None
    k, size, base = t.cval(k), len(cs), 0
    while size > 1:
        half = size // 2
        base = base if cs[base + half] > k else base + half
        size -= half
    if cs and cs[base] == k:
        return ok(num(base))
    return err(num(base + (cs[base] < k) if cs else 0))


@pattern(r"^(slice|std::vec::Vec)::(sort\w*|dedup\w*|retain\w*|truncate|drain|split_off|swap|swap_remove|remove|rotate_\w+|fill|resize)$")
def m_reorder(E, st, d, a):
    n = d["_path"].rsplit("::", 1)[-1]
    v = val(E, st, a[0])
    if n == "drain":
        rng = a[1]
        if rng.op == "ctor" and rng.a[0].endswith("RangeFull"):
            setv(E, st, a[0], EMPTY)
            return mk("iter", v, ())
        return None
    if n == "retain":
        e, p = t.fresh("e"), t.fresh("p")
        c = pure(E, st, a[1], [e])
        if c is None:
            return None
        setv(E, st, a[0], t.fm(v, e, p, t.ite(c, t.one(e), EMPTY)))
        return UNIT
    if n in ("remove", "swap_remove"):
        els = t.elements(v)
        if els is not None and a[1].op == "const":
            x = els.pop(t.cval(a[1]))
            setv(E, st, a[0], t.lst(els))
            return x
        setv(E, st, a[0], mk("call", "vec." + n, v, a[1]))
        return t.index(v, a[1])
    els, cs = t.elements(v), consts(v)
    if cs is not None and n in ("sort", "sort_unstable", "dedup"):
        o = sorted(range(len(cs)), key=lambda i: cs[i]) if n != "dedup" else [i for i in range(len(cs)) if not i or cs[i] != cs[i - 1]]
        setv(E, st, a[0], t.lst([els[i] for i in o]))
        return UNIT
    if n == "dedup" and v.op == "call" and v.a[0] in ("vec.sort", "vec.sort_unstable"):
        setv(E, st, a[0], t.setof(v.a[1]))      # each once, in an order of its own
        return UNIT
    rest = [val(E, st, x) for x in a[1:]]
    if els is not None and all(t.is_const(x) for x in rest):
        r = [t.cval(x) for x in rest]
        if n == "truncate" or n == "split_off" and r[0] <= len(els):
            setv(E, st, a[0], t.lst(els[:r[0]]))
            return UNIT if n == "truncate" else t.lst(els[r[0]:])
        if n == "swap" and max(r) < len(els):
            els[r[0]], els[r[1]] = els[r[1]], els[r[0]]
            setv(E, st, a[0], t.lst(els))
            return UNIT
    setv(E, st, a[0], mk("call", "vec." + n, v, *rest))
    return UNIT if n not in ("split_off",) else mk("call", "vec.split_off.tail", v, *rest)


@pattern(r"^std::array::<impl \[T; N\]>::map$")
def m_arraymap(E, st, d, a):
    els = t.elements(val(E, st, a[0]))
    if els is None:
        return None
    return t.lst([E.apply(st, a[1], [x]) for x in els])


@model("slice::concat", "std::slice::Concat::concat")
def m_concat(E, st, d, a):
    v = val(E, st, a[0])
    if d["args"] and ("str" in d["args"][-1].lower()):
        return t.strcat(v)
    e, p = t.fresh("e"), t.fresh("p")
    return t.fm(v, e, p, e)


@model("slice::join", "std::slice::Join::join")
def m_join(E, st, d, a):
    return t.join(val(E, st, a[0]), val(E, st, a[1]))


@pattern(r"^itertools::Itertools::join$")
def m_itjoin(E, st, d, a):
    return None


# ---------------------------------------------------------------- strings
@model("std::string::String::push_str", "std::string::String::push")
def m_pushstr(E, st, d, a):
    setv(E, st, a[0], t.cat([val(E, st, a[0]), val(E, st, a[1])]))
    return UNIT


@model("std::string::String::insert_str", "std::string::String::insert")
def m_insstr(E, st, d, a):
    if a[1].op == "const" and t.cval(a[1]) == 0:
        setv(E, st, a[0], t.cat([val(E, st, a[2]), val(E, st, a[0])]))
        return UNIT
    return None


@model("str::strip_prefix", "str::strip_suffix")
def m_strip(E, st, d, a):
    n = "strip_prefix" if d["_path"].endswith("prefix") else "strip_suffix"
    x, y = val(E, st, a[0]), val(E, st, a[1])
    if x.op == "cat" and y.op == "const" and x.a[0][0 if n == "strip_prefix" else -1].op == "const":
        xs, q = list(x.a[0]), t.cval(y)
        s = t.cval(xs[0 if n == "strip_prefix" else -1])
        if n == "strip_prefix" and s.startswith(q):
            return some(t.cat([const(s[len(q):])] + xs[1:]))
        if n == "strip_suffix" and s.endswith(q):
            return some(t.cat(xs[:-1] + [const(s[:len(s) - len(q)])]))
        if len(s) >= len(q):
            return NONE
    if x.op == "const" and y.op == "const":
        s, q = t.cval(x), t.cval(y)
        if n == "strip_prefix":
            return some(const(s[len(q):])) if s.startswith(q) else NONE
        return some(const(s[:len(s) - len(q)])) if s.endswith(q) else NONE
    return t.ite(mk("call", "str.starts_with" if n == "strip_prefix" else "str.ends_with", x, y), some(mk("call", "str." + n, x, y)), NONE)


@pattern(r"^(str|std::string::String)::(trim\w*|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|replace|replacen|repeat|starts_with|ends_with|contains|is_ascii|find|rfind|lines|split\w*|rsplit\w*|chars|bytes|char_indices|escape_\w+|strip_\w+|eq_ignore_ascii_case|parse|truncate|to_string|make_ascii_\w+|matches|get)$")
def m_str(E, st, d, a):
    n = d["_path"].rsplit("::", 1)[-1]
    x = [val(E, st, y) for y in a]
    if n == "to_string":
        return x[0]
    if n in ("chars", "bytes", "char_indices", "lines") or n.startswith("split") or n.startswith("rsplit"):
        if n == "split_once" or n == "rsplit_once":
            c = mk("call", "str.contains", *x)
            return t.ite(c, some(t.tup([mk("call", f"str.{n}.0", *x), mk("call", f"str.{n}.1", *x)])), NONE)
        if x[0].op == "const":
            s = t.cval(x[0])
            if n == "split_whitespace":
                return mk("iter", t.lst([const(q) for q in s.split()]), ())
            if n == "lines":
                return mk("iter", t.lst([const(q) for q in s.splitlines()]), ())
            if n in ("split", "split_terminator") and len(x) > 1 and x[1].op == "const" and isinstance(t.cval(x[1]), str) and t.cval(x[1]):
                qs = s.split(t.cval(x[1]))
                return mk("iter", t.lst([const(q) for q in (qs[:-1] if n != "split" and not qs[-1] else qs)]), ())
            if n == "split_ascii_whitespace":
                return mk("iter", t.lst([const(q) for q in s.split()]), ())
            if n == "chars":
                return mk("iter", t.lst([const(q) for q in s]), ())
        if n == "split_whitespace":
            return mk("iter", words(x[0]), ())
        return mk("iter", mk("call", "str." + n, *x), ())
    if all(y.op == "const" for y in x):
        s = t.cval(x[0])
        simple = {"trim": lambda: s.strip(), "to_lowercase": lambda: s.lower(), "to_uppercase": lambda: s.upper(), "to_ascii_lowercase": lambda: s.lower(),
                  "to_ascii_uppercase": lambda: s.upper(), "trim_start": lambda: s.lstrip(), "trim_end": lambda: s.rstrip()}
        if n in simple:
            return const(simple[n]())
        if n in ("starts_with", "ends_with", "contains") and isinstance(t.cval(x[1]), str):
            q = t.cval(x[1])
            return const({"starts_with": s.startswith(q), "ends_with": s.endswith(q), "contains": q in s}[n])
        if n == "replace" and len(x) == 3:
            return const(s.replace(t.cval(x[1]), t.cval(x[2])))
        if n == "repeat":
            return const(s * t.cval(x[1]))
    if n == "parse":
        inner = d.get("inner")
        if inner and inner["key"] in E.F.fns and E.F.fns[inner["key"]]["local"]:
            return E.run_fn(st, E.F.fns[inner["key"]], a)
        return mk("call", "parse " + (d["args"][-1] if d["args"] else ""), x[0])
    if n in ("truncate",) or n.startswith("make_"):
        setv(E, st, a[0], mk("call", "str." + n, *x))
        return UNIT
    if x[0].op == "sw" and len(x) == 1:
        return sw(x[0].a[0], [(l, m_str(E, st, d, [y])) for l, y in x[0].a[1]])
    return mk("call", "str." + n, *x)


def words(s):
    """split_whitespace of a term, where the pieces are separated by literal blanks"""
    if s.op == "const":
        return t.lst([const(q) for q in t.cval(s).split()])
    if s.op == "sw":
        return sw(s.a[0], [(l, words(x)) for l, x in s.a[1]])
    if s.op == "join" and t.is_const(s.a[1]) and t.cval(s.a[1]).strip() == "":
        e, p = t.fresh("e"), t.fresh("p")
        return t.fm(s.a[0], e, p, words(e))
    if s.op == "cat":
        runs, cur = [], []
        for x in s.a[0]:
            if x.op == "const":
                q = t.cval(x)
                ws = q.split()
                if not ws:
                    runs.append(cur)
                    cur = []
                    continue
                if q[:1].isspace():
                    runs.append(cur)
                    cur = []
                for k, w in enumerate(ws):
                    if k:
                        runs.append(cur)
                        cur = []
                    cur = cur + [const(w)]
                if q[-1:].isspace():
                    runs.append(cur)
                    cur = []
            else:
                cur = cur + [x]
        runs.append(cur)
        return t.seq([words(r[0]) if len(r) == 1 else mk("call", "str.split_whitespace", t.cat(r)) for r in runs if r])
    return mk("call", "str.split_whitespace", s)


@model("std::string::String::from_utf8_lossy")
def m_lossy(E, st, d, a):
    return mk("call", "utf8_lossy", val(E, st, a[0]))


@model("std::string::String::from_utf8", "std::str::from_utf8")
def m_utf8(E, st, d, a):
    v = val(E, st, a[0])
    return t.ite(mk("call", "is_utf8", v), ok(mk("call", "utf8_lossy", v)), err(mk("call", "utf8_error", v)))


@pattern(r"^std::string::String::from$")
def m_sfrom(E, st, d, a):
    return val(E, st, a[0])


# formatting
def template(b):
    i, out = 0, []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(b[i:i + n]).decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(bytes(b[i:i + ln]).decode("utf8", "replace"))
            i += ln
        elif n & 0xC0 == 0xC0:
            spec = {}
            if n & 1:
                spec["flags"] = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            if n & 2:
                spec["width"] = b[i] | b[i + 1] << 8
                i += 2
            if n & 4:
                spec["prec"] = b[i] | b[i + 1] << 8
                i += 2
            if n & 8:
                spec["arg"] = b[i] | b[i + 1] << 8
                i += 2
            out.append(spec)
        else:
            return None
    return out


@model("std::fmt::Arguments::new", "std::fmt::rt::<impl std::fmt::Arguments<'_>>::new", "std::fmt::rt::<impl std::fmt::Arguments<'a>>::new")
def m_argsnew(E, st, d, a):
    els = t.elements(val(E, st, a[0]))
    args = t.elements(val(E, st, a[1])) if len(a) > 1 else []
    if els is None or args is None or not all(x.op == "const" for x in els):
        return mk("ext", "format", *[val(E, st, x) for x in a])
    tp = template([t.cval(x) for x in els])
    if tp is None:
        return mk("ext", "format", *args)
    out, nxt = [], 0
    for piece in tp:
        if isinstance(piece, str):
            out.append(const(piece))
            continue
        k = piece.get("arg", nxt)
        nxt = k + 1
        x = args[k] if k < len(args) else mk("ext", "fmtarg")
        x = x.a[1] if x.op == "fmtarg" else x
        if "width" in piece or "prec" in piece or piece.get("flags", 0) not in (0, 0xE0000020):
            x = mk("call", f"pad{sorted(piece.items())}", x)
        out.append(x)
    return mk("fmtargs", t.cat(out))


@model("std::fmt::Arguments::from_str", "std::fmt::Arguments::new_const", "std::fmt::rt::<impl std::fmt::Arguments<'a>>::from_str", "std::fmt::rt::<impl std::fmt::Arguments<'_>>::new_const")
def m_argsstr(E, st, d, a):
    v = val(E, st, a[0])
    els = t.elements(v)
    if els is not None:
        v = t.cat(els)
    return mk("fmtargs", v)


def display(E, st, d, v, kind):
    inner = d.get("inner")
    if inner:
        fn = E.F.fns.get(inner["key"])
        if fn is not None and fn["local"] and not fn["poly"] and not (kind == "debug" and inner.get("derived")):
            cell = ("fmt", next(E.frames))
            st.c[cell] = const("")
            E.run_fn(st, fn, [v, mk("mref", cell, ())])
            return st.c.pop(cell)
    if kind == "debug":
        return mk("call", "debug", v)
    if v.op == "ctor":  # through references
        fn = E.F.fns.get("<%s as std::fmt::Display>::fmt" % v.a[0])
        if fn is not None and fn["local"] and not fn["poly"]:
            cell = ("fmt", next(E.frames))
            st.c[cell] = const("")
            E.run_fn(st, fn, [v, mk("mref", cell, ())])
            return st.c.pop(cell)
    return todisplay(v, d)


def todisplay(v, d=None):
    if v.op == "const":
        x = t.cval(v)
        return const(str(x).lower() if isinstance(x, bool) else str(x))
    if v.op == "sw":
        return sw(v.a[0], [(l, todisplay(x, d)) for l, x in v.a[1]])
    if v.op in ("cat", "join", "strcat"):
        return v
    ty = (d or {}).get("args") or [""]
    if re.match(r"&*[iu](8|16|32|64|128|size)$", ty[-1]):
        return mk("call", "dec", v)
    if re.match(r"&*(str|std::string::String|char|std::borrow::Cow<'?_?,? ?str>)$", norm_ty(ty[-1])) or "Cow<" in ty[-1] or ty[-1] == "":
        return v
    if v.op == "call" and v.a[0] in ("utf8_lossy",):
        return v
    return mk("call", "display", v)


@model("std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::<'_>::new_display")
def m_argd(E, st, d, a):
    return mk("fmtarg", "display", display(E, st, d, deep(E, st, a[0]), "display"))


@model("std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::<'_>::new_debug")
def m_argdbg(E, st, d, a):
    return mk("fmtarg", "debug", display(E, st, d, deep(E, st, a[0]), "debug"))


@pattern(r"^std::fmt::rt::Argument(::<'_>)?::new_(lower_hex|upper_hex|octal|binary|lower_exp|pointer)$")
def m_arghex(E, st, d, a):
    return mk("fmtarg", "hex", mk("call", d["_path"].rsplit("_", 2)[-1], deep(E, st, a[0])))


@model("std::fmt::format", "std::fmt::format::format_inner")
def m_format(E, st, d, a):
    return a[0].a[0] if a[0].op == "fmtargs" else mk("ext", "format", a[0])


def fmt_write(E, st, f, parts):
    v = val(E, st, f)
    if f.op == "mref":
        setv(E, st, f, t.cat([v] + parts))
    return ok(UNIT)


@pattern(r"^std::fmt::(Formatter(::<'a>)?|Write)::write_fmt$")
def m_writefmt(E, st, d, a):
    x = a[1].a[0] if a[1].op == "fmtargs" else mk("ext", "format", a[1])
    return fmt_write(E, st, a[0], [x])


@pattern(r"^std::fmt::(Formatter(::<'a>)?|Write)::(write_str|write_char)$")
def m_writestr(E, st, d, a):
    return fmt_write(E, st, a[0], [val(E, st, a[1])])


@pattern(r"^std::fmt::Formatter(::<'a>)?::pad$")
def m_pad(E, st, d, a):
    return fmt_write(E, st, a[0], [val(E, st, a[1])])


@model("std::fmt::Display::fmt")
def m_dispfmt(E, st, d, a):
    return fmt_write(E, st, a[1], [todisplay(val(E, st, a[0]), d)])


@model("std::fmt::Debug::fmt")
def m_dbgfmt(E, st, d, a):
    return fmt_write(E, st, a[1], [mk("call", "debug", val(E, st, a[0]))])


@pattern(r"^(<.* as )?thiserror::__private\d*::AsDisplay(<.*>)?>?::as_display$")
def m_asdisplay(E, st, d, a):
    return deep(E, st, a[0])


@model("std::string::ToString::to_string")
def m_tostring(E, st, d, a):
    return display(E, st, d, deep(E, st, a[0]), "display")


# ---------------------------------------------------------------- iterators
def as_iter(E, st, v, ty=""):
    """iterator value for anything iterable"""
    if v.op == "iter":
        return v
    if v.op == "mref":
        x = val(E, st, v)
        if x.op == "iter":
            return x
        return mk("iter", x, (mk("stg", "mut", v),))
    if v.op == "ctor":
        n = v.a[0].rsplit("::", 1)[-1]
        if n == "Range":
            return mk("iter", t.rng(t.proj(v, None, "start"), t.proj(v, None, "end")), ())
        if n == "RangeInclusive":
            return mk("iter", t.rng(t.proj(v, None, "start"), t.arith("add", t.proj(v, None, "end"), num(1))), ())
        if n == "RangeFrom":
            return mk("iter", mk("range", t.proj(v, None, "start"), mk("inf")), ())
    if v.op in ("ctor", "sw") and is_option(v):
        return mk("iter", optseq(v), ())
    if v.op in ("set", "map"):
        return mk("iter", E.unordered(v), ())
    if v.op == "sw":
        its = [(l, as_iter(E, st, x)) for l, x in v.a[1]]
        if all(not x.a[1] for _, x in its):
            return mk("iter", sw(v.a[0], [(l, x.a[0]) for l, x in its]), ())
    return mk("iter", v, ())


def is_option(v):
    if v.op == "ctor":
        return v.a[0] == t.OPT
    if v.op == "sw":
        return all(is_option(x) for _, x in v.a[1])
    return False


def optseq(v):
    return sw(t.disc(v), [("Some", t.one(t.proj(v, "Some", "0"))), ("None", EMPTY)])


@model("std::iter::IntoIterator::into_iter")
def m_intoiter(E, st, d, a):
    ty = norm_ty(d["args"][0]) if d["args"] else ""
    v = a[0]
    fn = None
    if v.op == "mref" and ty.startswith("&mut"):
        x = val(E, st, v)
        if x.op == "iter":
            return v
        return as_iter(E, st, v)
    if re.match(r"&*(mut )?std::option::Option<", ty):
        return mk("iter", optseq(val(E, st, v)), ())
    if re.match(r"&*(mut )?std::collections::\S*(HashSet|BTreeSet|HashMap|BTreeMap)<", ty):
        return mk("iter", E.unordered(val(E, st, v)), ())
    return as_iter(E, st, v)


@model("slice::iter", "std::vec::Vec::iter", "std::collections::VecDeque::iter")
def m_iter(E, st, d, a):
    return mk("iter", val(E, st, a[0]), ())


@model("slice::iter_mut")
def m_itermut(E, st, d, a):
    return as_iter(E, st, a[0])


@model("std::option::Option::iter")
def m_optiter(E, st, d, a):
    return mk("iter", optseq(val(E, st, a[0])), ())


@model("std::iter::once")
def m_once(E, st, d, a):
    return mk("iter", t.one(a[0]), ())


@model("std::iter::empty")
def m_empty(E, st, d, a):
    return mk("iter", EMPTY, ())


@model("std::ops::RangeInclusive::new")
def m_ri(E, st, d, a):
    return mk("iter", t.rng(a[0], t.arith("add", a[1], num(1))), ())


STAGES = {"map": "map", "filter": "filter", "filter_map": "filter_map", "inspect": "inspect", "take_while": "take_while", "map_while": "map_while"}


def sel(E, st, v):
    """iterator passed by value or by reference (consumed either way)"""
    if v.op == "mref":
        x = val(E, st, v)
        if x.op == "iter":
            setv(E, st, v, mk("iter", EMPTY, ()))
            return x
        return as_iter(E, st, x)
    return as_iter(E, st, v)


@pattern(r"^std::iter::Iterator::(map|filter|filter_map|inspect|take_while|map_while|enumerate|cloned|copied|by_ref|rev|chain|zip|skip|take|flat_map|flatten|peekable|fuse|step_by|scan|cycle|skip_while|intersperse)$")
def m_adapt(E, st, d, a):
    n = d["_path"].rsplit("::", 1)[-1]
    if not d["path"].endswith(n):
        n = d["path"].rsplit("::", 1)[-1]
    if n == "by_ref":
        return a[0]
    it = sel(E, st, a[0])
    base, stages = it.a[0], it.a[1]
    if n == "take_while":
        s0 = materialize(E, st, it)
        e, p = t.fresh("e"), t.fresh("p")
        x = pure(E, st, a[1], [e]) if t.elements(s0) is None else None
        if x is not None:
            return mk("iter", t.until(s0, e, p, t.not_(x)), ())
    if n in STAGES:
        return mk("iter", base, stages + (mk("stg", STAGES[n], a[1]),))
    if n in ("cloned", "copied", "fuse", "peekable"):
        return it
    if n == "enumerate":
        if all(s.a[0] in ("map", "inspect", "mut", "enumerate") for s in stages):
            return mk("iter", base, stages + (mk("stg", "enumerate"),))
        return mk("iter", materialize(E, st, it), (mk("stg", "enumerate"),))
    if n == "rev":
        if all(s.a[0] == "map" for s in stages):
            return mk("iter", t.rev(base), stages)
        return mk("iter", t.rev(materialize(E, st, it)), ())
    if n == "chain":
        return mk("iter", t.seq([materialize(E, st, it), materialize(E, st, into_it(E, st, a[1]))]), ())
    if n == "zip":
        return mk("iter", zipseq(materialize(E, st, it), materialize(E, st, into_it(E, st, a[1]))), ())
    if n in ("skip", "take"):
        s = base if all(x.a[0] == "map" for x in stages) else materialize(E, st, it)
        rest = stages if s is base else ()
        v = slice_(s, a[1], t.length(s)) if n == "skip" else s if a[1] is t.length(s) else mk("call", "take", s, a[1]) if t.elements(s) is None or a[1].op != "const" else t.lst(t.elements(s)[:t.cval(a[1])])
        return mk("iter", v, rest)
    if n in ("flat_map", "flatten"):
        s = materialize(E, st, it)
        e, p = t.fresh("e"), t.fresh("p")
        x = e if n == "flatten" else pure(E, st, a[1], [e])
        if x is None:
            return None
        ity = norm_ty(d["args"][0]) if d["args"] else ""
        if n == "flatten":
            # items are Options, Results or collections
            inner = flatten_kind(d)
            if inner == "opt":
                x = optseq(e)
            elif inner == "res":
                x = sw(t.disc(e), [("Ok", t.one(t.proj(e, "Ok", "0"))), ("Err", EMPTY)])
            return mk("iter", t.fm(s, e, p, materialize(E, st, as_iter(E, st, x))), ())
        u = norm_ty(d["args"][1]) if len(d["args"]) > 1 else ""
        if u.startswith("std::option::Option"):
            x = optseq(x)
        elif u.startswith("std::result::Result"):
            x = sw(t.disc(x), [("Ok", t.one(t.proj(x, "Ok", "0"))), ("Err", EMPTY)])
        return mk("iter", t.fm(s, e, p, materialize(E, st, as_iter(E, st, x))), ())
    return mk("iter", mk("ext", "adaptor " + n, materialize(E, st, it)), ())


def flatten_kind(d):
    a = norm_ty(" ".join(d["args"]))
    m = re.search(r"(Iter|IntoIter)<(?:'\w+, )?&?([\w:]+)", a)
    if m and m.group(2).endswith("Option"):
        return "opt"
    if m and m.group(2).endswith("Result"):
        return "res"
    return "seq"


def into_it(E, st, v):
    if v.op == "mref":
        x = val(E, st, v)
        if x.op == "iter":
            return x
        return as_iter(E, st, x)
    return as_iter(E, st, v)


def zipseq(a, b):
    ea, eb = t.elements(a), t.elements(b)
    if ea is not None and eb is not None:
        return t.lst([t.tup([x, y]) for x, y in zip(ea, eb)])
    for x, y, flip in ((a, b, False), (b, a, True)):
        if y.op == "range" and y.a[1].op == "inf":
            e, p = t.fresh("e"), t.fresh("p")
            i = t.arith("add", t.length(p), y.a[0])
            return t.fm(x, e, p, t.one(t.tup([i, e] if flip else [e, i])))
    if t.length(a) is t.length(b):
        e, p = t.fresh("e"), t.fresh("p")
        return t.fm(a, e, p, t.one(t.tup([e, t.index(b, t.length(p))])))
    return mk("call", "zip", a, b)


def pure(E, st, f, args):
    """value of a call without effects, None if it has some"""
    s = st.copy()
    try:
        v = E.apply(s, f, args)
    except Dead:
        return mk("absurd")
    for k, x in st.c.items():
        if s.c.get(k) is not x:
            return None
    return v


def materialize(E, st, it):
    if not it.a[1]:
        return it.a[0]
    return collect_vec(E, st, it)


def collect_vec(E, st, it):
    if not it.a[1]:
        return it.a[0]
    cell = ("acc", next(E.frames))
    st.c[cell] = EMPTY

    def body(s, v, L):
        s.c[cell] = t.seq([s.c[cell], t.one(v)])
        return leaf(CONT, s)
    finish(E, st, E.foreach(st, it, body))
    return st.c.pop(cell)


def finish(E, st, tr):
    m = merge(tr)
    if m is None:
        raise Dead()
    st.c = m.c


def loop_result(E, st, it, body, init=None):
    """run body over it; value in a result cell"""
    cell = ("res", next(E.frames))
    if init is not None:
        st.c[cell] = init
    tr = E.foreach(st, it, lambda s, v, L: body(s, v, L, cell))
    return tr, cell


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(E, st, d, a):
    tgt = norm_ty(d["args"][-1] if d["path"].endswith("collect") else d["args"][0])
    inner = d.get("inner")
    it = sel(E, st, a[0])
    if inner and inner["key"] in E.F.fns and E.F.fns[inner["key"]]["local"] and not E.F.fns[inner["key"]]["poly"]:
        return E.run_fn(st, E.F.fns[inner["key"]], [it])
    return collect_as(E, st, it, tgt)


def gen_args(ty):
    i = ty.index("<")
    out, depth, cur = [], 0, ""
    for ch in ty[i + 1:-1]:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def collect_as(E, st, it, tgt):
    if tgt.startswith("std::result::Result<"):
        inner = gen_args(tgt)[0]
        cell, bad = ("acc", next(E.frames)), ("bad", next(E.frames))
        st.c[cell] = EMPTY
        st.c[bad] = mk("sym", "none")

        def body(s, v, L):
            def f(lf):
                s2 = lf[2]
                if lf[1] == "Ok":
                    s2.c[cell] = t.seq([s2.c[cell], t.one(t.proj(v, "Ok", "0"))])
                    return leaf(CONT, s2)
                s2.c[bad] = err(t.proj(v, "Err", "0"))
                return leaf("bad", s2)
            return map_leaves(E.lab_tree(s, E.under(s, t.disc(v)), {"Ok": "Ok", "Err": "Err"}, {}), f)
        tr = E.foreach(st, it, body)

        def g(lf):
            if lf[1] == "done":
                lf[2].c[bad] = ok(wrap(lf[2].c[cell], inner))
            return lf
        tr = map_leaves(tr, lambda lf: g(leaf(lf[1], lf[2].copy())))
        finish(E, st, tr)
        st.c.pop(cell)
        return st.c.pop(bad)
    if tgt.startswith("std::option::Option<"):
        inner = gen_args(tgt)[0]
        cell, bad = ("acc", next(E.frames)), ("bad", next(E.frames))
        st.c[cell] = EMPTY
        st.c[bad] = NONE

        def body(s, v, L):
            def f(lf):
                s2 = lf[2]
                if lf[1] == "Some":
                    s2.c[cell] = t.seq([s2.c[cell], t.one(t.proj(v, "Some", "0"))])
                    return leaf(CONT, s2)
                return leaf("bad", s2)
            return map_leaves(E.lab_tree(s, E.under(s, t.disc(v)), {"Some": "Some", "None": "None"}, {}), f)
        tr = E.foreach(st, it, body)

        def g(lf):
            if lf[1] == "done":
                lf[2].c[bad] = some(wrap(lf[2].c[cell], inner))
            return lf
        finish(E, st, map_leaves(tr, lambda lf: g(leaf(lf[1], lf[2].copy()))))
        st.c.pop(cell)
        return st.c.pop(bad)
    return wrap(collect_vec(E, st, it), tgt)


def wrap(s, tgt):
    h = tgt.split("<")[0]
    if h.endswith("HashSet") or h.endswith("BTreeSet"):
        return t.setof(s)
    if h.endswith("HashMap") or h.endswith("BTreeMap"):
        return mk("map", s)
    if h == "std::string::String" or "str" in h and "Box" in h:
        return t.strcat(s)
    if h in ("std::vec::Vec", "std::boxed::Box", "std::collections::VecDeque", "std::rc::Rc", "std::sync::Arc"):
        return s
    if tgt == "()":
        return UNIT
    return mk("ext", "collect " + h, s)


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(E, st, d, a):
    back = d["path"].endswith("next_back")
    r = a[0]
    if r.op != "mref":
        return None
    it = val(E, st, r)
    if it.op == "mref":  # &mut &mut I
        r = it
        it = val(E, st, r)
    if it.op == "ctor":
        it2 = as_iter(E, st, it)
        if it2.a[0] is it:
            return None
        it = it2
    if it.op != "iter":
        return None
    base, stages = it.a
    if back:
        if any(s.a[0] != "map" for s in stages):
            return None
        base = t.rev(base)
    if E.loops:
        L = E.loops[-1]
        cp = (r.a[0], r.a[1])
        if L.driver is None and cp[0] in L.start:
            old = E.walk(st, L.start[cp[0]], cp[1])
            if old is val(E, st, r):
                marker = mk("drv", L.more)
                L.driver = (cp, base, mk("iter", EMPTY, ()), marker, old)
                if L.probe and t.elements(base) is not None and len(t.elements(base)) <= E.UNROLL:
                    from .mirflow import Listed
                    raise Listed(L)
                setv(E, st, r, marker)
                if L.more is t.FALSE:
                    return NONE

                def body(s, v, L_):
                    return ("leaf", "val", s, some(v))
                tr = E.stages(st.assume(L.more, True), L, L.e, stages, 0, True, body, base)
                st2 = st.assume(L.more, False)
                if tr[0] == "leaf" and tr[1] == "val":
                    for k in list(st.c):
                        if k not in tr[2].c:
                            del st.c[k]
                    # both ends share the state unless a stage changed it
                    if all(tr[2].c.get(k) is v for k, v in st.c.items()) and len(tr[2].c) == len(st.c):
                        return sw(L.more, [(True, tr[3]), (False, NONE)])

                def fix(lf):
                    if lf[1] == CONT:
                        return ("leaf", "skip", lf[2], L.header)
                    if lf[1] == "stop":
                        L.bad = "iterator stops inside"
                        return ("leaf", "val", lf[2], NONE)
                    return lf
                tr = map_leaves(tr, fix)
                if L.more is t.TRUE:
                    return tr
                return ("node", L.more, [(True, tr), (False, ("leaf", "val", st2, NONE))])
        elif L.driver is not None and it.op != "iter":
            L.bad = "iterator advanced twice"
    s = materialize(E, st, mk("iter", base, stages))
    rest = slice_(s, num(1), t.length(s)) if t.elements(s) != [] else EMPTY
    els = t.elements(s)
    if els is not None:
        setv(E, st, r, mk("iter", t.lst(els[1:]) if not back else t.rev(t.lst(els[1:])), ()))
        return some(els[0]) if els else NONE
    setv(E, st, r, mk("iter", rest if not back else t.rev(rest), ()))
    return t.get(s, num(0))


def cond_tree(E, st, c):
    return E.decide(st, E.under(st, c), [(0, "no")], "yes", {})


@model("std::iter::Iterator::any", "std::iter::Iterator::all")
def m_any(E, st, d, a):
    is_any = d["path"].endswith("any")
    it = sel(E, st, a[0])

    def body(s, v, L, cell):
        c = E.apply(s, a[1], [v])

        def f(lf):
            hit = (lf[1] == "yes") == is_any
            if hit:
                lf[2].c[cell] = const(is_any)
                return leaf("hit", lf[2])
            return leaf(CONT, lf[2])
        return map_leaves(cond_tree(E, s, c), f)
    tr, cell = loop_result(E, st, it, wrapdead(body), const(not is_any))
    finish(E, st, tr)
    return st.c.pop(cell)


def wrapdead(body):
    def g(s, v, L, cell):
        try:
            return body(s, v, L, cell)
        except Dead:
            return DEAD
    return g


@model("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map")
def m_find(E, st, d, a):
    n = d["path"].rsplit("::", 1)[-1]
    it = sel(E, st, a[0])
    if n == "position" and any(s.a[0] not in ("map", "mut", "enumerate", "inspect") for s in it.a[1]):
        it = mk("iter", materialize(E, st, it), ())

    def body(s, v, L, cell):
        c = E.apply(s, a[1], [v])
        if n == "find_map":
            def f(lf):
                if lf[1] == "Some":
                    lf[2].c[cell] = c
                    return leaf("hit", lf[2])
                return leaf(CONT, lf[2])
            return map_leaves(E.lab_tree(s, E.under(s, t.disc(c)), {"Some": "Some", "None": "None"}, {}), f)

        def f(lf):
            if lf[1] == "yes":
                lf[2].c[cell] = some(v if n == "find" else t.length(L.p))
                return leaf("hit", lf[2])
            return leaf(CONT, lf[2])
        return map_leaves(cond_tree(E, s, c), f)
    tr, cell = loop_result(E, st, it, wrapdead(body), NONE)
    finish(E, st, tr)
    return st.c.pop(cell)


@model("std::iter::Iterator::for_each")
def m_foreach(E, st, d, a):
    it = sel(E, st, a[0])
    fcell = ("clo", next(E.frames))
    st.c[fcell] = a[1]

    def body(s, v, L, cell):
        E.apply(s, mk("mref", fcell, ()), [v])
        return leaf(CONT, s)
    tr, cell = loop_result(E, st, it, wrapdead(body))
    finish(E, st, tr)
    st.c.pop(fcell, None)
    return UNIT


@model("std::iter::Iterator::try_for_each")
def m_tryforeach(E, st, d, a):
    it = sel(E, st, a[0])
    fcell = ("clo", next(E.frames))
    st.c[fcell] = a[1]
    tgt = norm_ty(d["args"][-1])
    res = any(norm_ty(x).startswith("std::result::Result") for x in d["args"])

    def body(s, v, L, cell):
        r = E.apply(s, mk("mref", fcell, ()), [v])
        g, b = ("Ok", "Err") if res else ("Some", "None")

        def f(lf):
            if lf[1] == g:
                return leaf(CONT, lf[2])
            lf[2].c[cell] = err(t.proj(r, "Err", "0")) if res else NONE
            return leaf("hit", lf[2])
        return map_leaves(E.lab_tree(s, E.under(s, t.disc(r)), {g: g, b: b}, {}), f)
    tr, cell = loop_result(E, st, it, wrapdead(body), ok(UNIT) if res else some(UNIT))
    finish(E, st, tr)
    st.c.pop(fcell, None)
    return st.c.pop(cell)


@model("std::iter::Iterator::fold", "std::iter::Iterator::try_fold")
def m_fold(E, st, d, a):
    it = sel(E, st, a[0])
    tr_ = d["path"].endswith("try_fold")
    fcell = ("clo", next(E.frames))
    st.c[fcell] = a[2]
    acc = ("acc", next(E.frames))
    st.c[acc] = a[1]
    isres = any(norm_ty(x).startswith("std::result::Result") for x in d["args"])

    def body(s, v, L, cell):
        r = E.apply(s, mk("mref", fcell, ()), [s.c[acc], v])
        if not tr_:
            s.c[acc] = r
            return leaf(CONT, s)
        g, b = ("Ok", "Err") if isres else ("Some", "None")

        def f(lf):
            if lf[1] == g:
                lf[2].c[acc] = t.proj(r, g, "0")
                return leaf(CONT, lf[2])
            lf[2].c[cell] = err(t.proj(r, "Err", "0")) if isres else NONE
            return leaf("hit", lf[2])
        return map_leaves(E.lab_tree(s, E.under(s, t.disc(r)), {g: g, b: b}, {}), f)
    tr, cell = loop_result(E, st, it, wrapdead(body), UNIT)

    def g(lf):
        s = lf[2].copy()
        if lf[1] == "done":
            s.c[cell] = s.c[acc] if not tr_ else (ok if isres else some)(s.c[acc])
        return leaf(lf[1], s)
    finish(E, st, map_leaves(tr, g))
    st.c.pop(fcell, None)
    st.c.pop(acc, None)
    return st.c.pop(cell)


@model("std::iter::Iterator::count")
def m_count(E, st, d, a):
    return t.length(materialize(E, st, sel(E, st, a[0])))


@model("std::iter::Iterator::last")
def m_ilast(E, st, d, a):
    d["_path"] = "slice::last"
    return m_last(E, st, d, [materialize(E, st, sel(E, st, a[0]))])


@model("std::iter::Iterator::nth")
def m_nth(E, st, d, a):
    s = materialize(E, st, sel(E, st, a[0]))
    return t.get(s, a[1])


@model("std::iter::Extend::extend", "std::vec::Vec::extend", "std::iter::Extend::extend_one")
def m_extend(E, st, d, a):
    s = materialize(E, st, into_it(E, st, a[1]))
    v = val(E, st, a[0])
    ty = norm_ty(d["args"][0]) if d["args"] else ""
    if "String" in ty.split("<")[0]:
        r = t.cat([v, t.strcat(s)])
    elif unset(v) is not None:
        r = t.setof(t.seq([unset(v), s]))
    elif v.op == "map":
        r = mk("map", t.seq([v.a[0], s]))
    else:
        r = t.seq([v, s])
    setv(E, st, a[0], r)
    return UNIT


@pattern(r"^std::iter::Iterator::(sum|product|max|min|max_by\w*|min_by\w*|eq|ne|cmp|partition|unzip|reduce|is_sorted)$")
def m_agg(E, st, d, a):
    n = d["path"].rsplit("::", 1)[-1]
    s = materialize(E, st, sel(E, st, a[0]))
    if n in ("eq", "ne"):
        r = t.eq(s, materialize(E, st, into_it(E, st, a[1])))
        return r if n == "eq" else t.not_(r)
    if n == "partition":
        e, p = t.fresh("e"), t.fresh("p")
        c = pure(E, st, a[1], [e])
        if c is None:
            return None
        return t.tup([t.fm(s, e, p, t.ite(c, t.one(e), EMPTY)), t.fm(s, e, p, t.ite(c, EMPTY, t.one(e)))])
    if n == "unzip":
        e, p = t.fresh("e"), t.fresh("p")
        return t.tup([t.fm(s, e, p, t.one(t.proj(e, None, "0"))), t.fm(s, e, p, t.one(t.proj(e, None, "1")))])
    els = t.elements(s.a[0] if s.op == "set" else s)
    if n in ("sum", "product") and els is not None and s.op != "set":
        r = num(0 if n == "sum" else 1)
        for x in els:
            r = t.arith("add" if n == "sum" else "mul", r, x)
        return r
    if n in ("max", "min") and els and all(t.is_const(x) and isinstance(t.cval(x), int) for x in els):
        return some(num((max if n == "max" else min)(t.cval(x) for x in els)))
    r = mk("call", "iter." + n, s, *[val(E, st, x) for x in a[1:]])
    if n.startswith(("max", "min", "reduce")):
        return t.ite(t.eq(t.length(s), num(0)), NONE, some(r))
    return r


# ---------------------------------------------------------------- closures
@pattern(r"^(std::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?)$")
def m_callfn(E, st, d, a):
    args = a[1] if len(a) > 1 else UNIT
    f = a[0]
    if args.op == "tup":
        return E.apply(st, f, list(args.a[0]))
    return None


@model("std::option::Option::is_some_and", "std::option::Option::is_none_or")
def m_issomeand(E, st, d, a):
    return None


# ---------------------------------------------------------------- effects
@model("tempfile::NamedTempFile::new", "tempfile::NamedTempFile::new_in", "tempfile::NamedTempFile::with_suffix", "tempfile::NamedTempFile::with_prefix",
       "tempfile::tempdir", "tempfile::TempDir::new", "tempfile::tempfile")
def m_tempnew(E, st, d, a):
    return E.io(st, "tempfile", *a)


@model("tempfile::Builder::new")
def m_tbnew(E, st, d, a):
    return t.ctor("tempfile::Builder", "Builder", (), ())


@pattern(r"^tempfile::Builder::(prefix|suffix|rand_bytes|append|permissions|keep|disable_cleanup)$")
def m_tbset(E, st, d, a):
    if d["_path"].rsplit("::", 1)[-1] in ("keep", "disable_cleanup", "append"):
        E.unknown.add(d["_path"])
    return a[0]


@model("tempfile::Builder::tempfile", "tempfile::Builder::tempdir", "tempfile::Builder::tempfile_in", "tempfile::Builder::tempdir_in")
def m_tbmake(E, st, d, a):
    return E.io(st, "tempfile", *a[1:])


@pattern(r"^std::path::Path::(exists|is_file|is_dir|is_absolute|is_relative)$")
def m_pathtest(E, st, d, a):
    n, x = d["_path"].rsplit("::", 1)[-1], val(E, st, a[0])
    if x.op == "call" and x.a[0] == "path" and n in ("exists", "is_file", "is_absolute"):
        return TRUE  # a temporary file
    return mk("call", "path." + n, x)


@pattern(r"^std::panicking::(panic|panic_fmt|panic_display|panic_str|assert_failed\w*|unreachable_display|panic_explicit)$")
def m_panic(E, st, d, a):
    return UNIT


@model("tempfile::NamedTempFile::path", "tempfile::TempPath::path", "tempfile::TempDir::path")
def m_temppath(E, st, d, a):
    return mk("call", "path", val(E, st, a[0]))


@model("tempfile::NamedTempFile::as_file", "tempfile::NamedTempFile::as_file_mut")
def m_asfile(E, st, d, a):
    return a[0]


@model("tempfile::NamedTempFile::into_temp_path")
def m_intotp(E, st, d, a):
    return a[0]


@model("tempfile::NamedTempFile::into_parts")
def m_intoparts(E, st, d, a):
    x = val(E, st, a[0])
    return t.tup([mk("call", "filepart", x), x])


@model("tempfile::NamedTempFile::into_file")
def m_intofile(E, st, d, a):
    return a[0]


@pattern(r"^tempfile::NamedTempFile::(keep|persist\w*|close|reopen)$")
def m_tempother(E, st, d, a):
    return E.io(st, "tempfile." + d["_path"].rsplit("::", 1)[-1], *a)


@model("std::path::Path::to_string_lossy", "std::path::Path::display", "std::ffi::OsStr::to_string_lossy")
def m_pathstr(E, st, d, a):
    return mk("call", "lossy", val(E, st, a[0]))


@model("std::path::Path::to_str", "std::ffi::OsStr::to_str")
def m_tostr(E, st, d, a):
    v = val(E, st, a[0])
    return t.ite(mk("call", "is_utf8", v), some(mk("call", "lossy", v)), NONE)


BUFW = "std::io::BufWriter"


@model("std::io::BufWriter::new", "std::io::BufWriter::with_capacity", "std::io::LineWriter::new")
def m_bufw(E, st, d, a):
    return t.ctor(BUFW, "BufWriter", ("inner", "buf"), (a[-1], EMPTY))


def bufw_flush(E, st, r):
    f = val(E, st, r)
    buf = t.proj(f, None, "buf")
    if buf is EMPTY:
        return ok(UNIT)
    setv(E, st, r, t.with_field(f, None, "buf", EMPTY))
    return E.io(st, "write_all", val(E, st, t.proj(f, None, "inner")), buf)


@model("std::io::BufWriter::into_inner")
def m_bufw_into(E, st, d, a):
    f = val(E, st, a[0])
    inner, buf = t.proj(f, None, "inner"), t.proj(f, None, "buf")
    if buf is EMPTY:
        return ok(inner)
    r = E.io(st, "write_all", val(E, st, inner), buf)
    return sw(t.disc(r), [("Ok", ok(inner)), ("Err", err(mk("call", "into_inner_error", t.proj(r, "Err", "0"))))])


@model("std::io::BufWriter::get_ref", "std::io::BufWriter::get_mut")
def m_bufw_ref(E, st, d, a):
    return t.proj(val(E, st, a[0]), None, "inner")


@pattern(r"^std::io::(Write|Read|Seek)::(\w+)$")
def m_io(E, st, d, a):
    n = d["path"].rsplit("::", 1)[-1]
    tyself = norm_ty(d["args"][0]) if d["args"] else ""
    f = val(E, st, a[0])
    if f.op == "ctor" and f.a[0] == BUFW:
        # bytes reach the file when the buffer is flushed or dropped
        buf = t.proj(f, None, "buf")
        if n in ("write_all", "write", "write_fmt"):
            x = (a[1].a[0] if a[1].op == "fmtargs" else a[1]) if n == "write_fmt" else val(E, st, a[1])
            setv(E, st, a[0], t.with_field(f, None, "buf", x if buf is EMPTY else t.cat([buf, x])))
            return ok(t.length(x) if n == "write" else UNIT)
        if n == "flush":
            return bufw_flush(E, st, a[0])
    if n in ("read_to_end", "read_to_string"):
        r = E.io(st, n, f)
        content = mk("call", "content", r)
        setv(E, st, a[1], t.seq([val(E, st, a[1]), content]) if n == "read_to_end" else t.cat([val(E, st, a[1]), content]))
        return r
    if n in ("by_ref",):
        return a[0]
    if n == "write_fmt":
        x = a[1].a[0] if a[1].op == "fmtargs" else a[1]
        return E.io(st, "write_all", f, x)
    return E.io(st, n, f, *a[1:])


@pattern(r"^std::fs::(\w+::)*(read|write|read_to_string|create|open|remove_file|copy|rename|create_dir\w*|create_new|options|remove_dir\w*)$")
def m_fs(E, st, d, a):
    return E.io(st, "fs." + d["_path"].rsplit("::", 1)[-1], *a)


@model("std::process::Command::new")
def m_cmdnew(E, st, d, a):
    return t.ctor("std::process::Command", "Command", ("program", "args", "context", "stdin", "stdout", "stderr"), (val(E, st, a[0]), EMPTY, EMPTY, NONE, NONE, NONE))


@model("std::process::Command::arg", "std::process::Command::args")
def m_cmdarg(E, st, d, a):
    v = val(E, st, a[0])
    add = t.one(val(E, st, a[1])) if d["path"].endswith("::arg") else materialize(E, st, into_it(E, st, a[1]))
    setv(E, st, a[0], t.with_field(v, None, "args", t.seq([t.proj(v, None, "args"), add])))
    return a[0]


@pattern(r"^std::process::Stdio::(null|piped|inherit)$")
def m_stdio(E, st, d, a):
    return mk("call", "stdio." + d["_path"].rsplit("::", 1)[-1])


@pattern(r"^std::process::Command::(stdin|stdout|stderr)$")
def m_cmdio(E, st, d, a):
    n = d["_path"].rsplit("::", 1)[-1]
    setv(E, st, a[0], t.with_field(val(E, st, a[0]), None, n, some(val(E, st, a[1]))))
    return a[0]


@pattern(r"^std::process::Command::(env|envs|current_dir|env_remove|env_clear)$")
def m_cmdopt(E, st, d, a):
    n = d["_path"].rsplit("::", 1)[-1]
    v = val(E, st, a[0])
    setv(E, st, a[0], t.with_field(v, None, "context", t.seq([t.proj(v, None, "context"), t.one(mk("call", "cmd." + n, *[val(E, st, x) for x in a[1:]]))])))
    return a[0]


@pattern(r"^std::process::Command::(output|status|spawn)$")
def m_cmdrun(E, st, d, a):
    return E.io(st, "cmd." + d["path"].rsplit("::", 1)[-1], a[0])


@pattern(r"^std::process::(Child::(wait|wait_with_output|kill|id)|ExitStatus::(code|success))$")
def m_child(E, st, d, a):
    n = d["path"].rsplit("::", 1)[-1]
    if n == "success":
        return mk("call", "exit.success", val(E, st, a[0]))
    if n == "code":
        x = val(E, st, a[0])
        bad = some(t.arith("add", num(1), t.length(mk("call", "exit.nonzero", x))))
        return t.ite(mk("call", "exit.success", x), some(num(0)), t.ite(mk("call", "exit.signalled", x), NONE, bad))
    return E.io(st, "child." + n, *a)


@pattern(r"^std::io::_(e?print)$")
def m_print(E, st, d, a):
    E.event(st, "print", a[0].a[0] if a[0].op == "fmtargs" else a[0])
    return UNIT


@pattern(r"^(log::__private_api::|from_pest::log::|log::max_level)")
def m_log(E, st, d, a):
    return UNIT if not d["path"].endswith("max_level") else mk("call", "log.max_level")


@pattern(r"^std::process::(exit|abort)$")
def m_exit(E, st, d, a):
    E.event(st, "exit", *a)
    raise Dead()

"""No abort is decided by a count, a label or an index: instrumentation of a valid module ends with a value."""
import os
from .. import terms as t
from .. import mirflow
from ..spec import prop, Undecided, where, OutOfTime
from ..mirflow import Dead
from ..wasm import WasmEng, W, vts, ft
from .core import only, methods, run_pipeline, closed_forms, amodule, afunc, interface, export, instrument_key, Pipeline, TH, A
from . import pipeline as P, structure as S, stacklib as L, purity as U, system as Y
from .. import hooks as H

# what WebAssembly (and the reader of modules) lets a module hold: the largest value tried for each quantity
LIMITS = (("inputs", 1000), ("results", 1000), ("args", 1000), ("table", 65520), ("locals", 50000), ("label", 100000),
          ("functions", 1000000), ("function index", 1000000), ("body", 1000000), ("instr", 1000000), ("funct", 1000000), ("element", 10000))
WIDE = {"i32", "u32", "i64", "u64", "usize", "isize", "i128", "u128"}


class Quiet:
    """the check of another property, for what it evaluates and not for what it finds"""

    def __init__(self, c):
        self.c = c

    def __getattr__(self, n):
        return getattr(self.c, n)

    def violate(self, *a):
        pass

    def same(self, *a):
        return True


def evaluated(f):
    """-> (engines at work while f ran, what stopped it)"""
    old, mirflow.ENGINES = mirflow.ENGINES, []
    stop = None
    try:
        f()
    except (Undecided, Dead) as x:
        stop = x
    except (MemoryError, RecursionError, OutOfTime):
        raise
    except Exception as x:
        stop = x
    finally:
        got, mirflow.ENGINES = mirflow.ENGINES, old
    return got, stop


RANGE = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2 ** 31, 2 ** 31 - 1), "u32": (0, 2 ** 32 - 1),
         "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1), "isize": (-2 ** 63, 2 ** 63 - 1), "usize": (0, 2 ** 64 - 1),
         "i128": (-2 ** 127, 2 ** 127 - 1), "u128": (0, 2 ** 128 - 1)}
SAMPLES = [0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536]
OPEN = {"Call", "CallIndirect", "Block", "Loop", "If", "Br", "BrIf", "BrTable", "Return"}     # their types hold any number of types


def limit(q):
    s = t.show(q)
    if "memor" in s:
        return 1
    if q.op != "len":
        return 100000       # a label, an index
    return max([n for k, n in LIMITS if k in s.split(".")[-1].split("(")[-1]] or [1000])


def inner(x):
    """conditions and constants of a term, all of its parts"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        todo += t.kids_of(y.a)


def root(x):
    """is this a part of what was given: a name, a field, an entry"""
    while x.op in ("proj", "index", "subslice", "fm") or x.op == "call" and x.a[0] in ("subslice", "slice"):
        x = x.a[1] if x.op == "call" else x.a[0]
    return x if x.op in ("sym", "bvar") else None


def quantity(x):
    return x.op == "len" and root(x.a[0]) is not None or root(x) is not None


def quantities(d):
    """the numbers a condition is about; None when it is about something else"""
    out, todo, seen = set(), [d], set()
    while todo:
        x = todo.pop()
        if x in seen or t.is_const(x):
            continue
        seen.add(x)
        if quantity(x):
            out.add(x)
        elif x.op in ("sw", "disc", "lab", "ctor", "add", "sub", "mul", "arith", "lt", "le", "eq", "not", "and", "or") or x.op == "call" and str(x.a[0]).startswith(("fits ", "as ")):
            todo += t.kids_of(x.a)
        else:
            return None
    return out


def given(d, q, k):
    """the label of a condition when the quantity q is k"""
    d = t.subst(d, {q: t.num(k)})
    for _ in range(6):
        sub = {}
        for x in inner(d):
            if x.op == "call" and t.is_const(x.a[-1]) and isinstance(t.cval(x.a[-1]), int):
                w, _, ty = str(x.a[0]).partition(" ")
                lo, hi = RANGE.get(ty, (1, 0))
                if lo <= hi and w == "fits":
                    sub[x] = t.const(lo <= t.cval(x.a[-1]) <= hi)
                elif lo <= hi and w == "as":
                    v = (t.cval(x.a[-1]) - lo) % (hi - lo + 1) + lo
                    sub[x] = t.num(v)
        if not sub:
            break
        d = t.subst(d, sub)
    return t.lab_of(d)


def typed(x):
    """of the type inferred for an instruction, which is not any type"""
    return any(y.op == "proj" and y.a[-1] == "type_" and t.show(y.a[0]).startswith(("e#", "$e")) for y in inner(x))


def of_kinds(d):
    """is there one of such kinds among those given: nothing is said of how many or which"""
    return all(x.op not in ("slice", "upd", "fold", "lt", "add", "sub", "len") and not (t.is_const(x) and isinstance(t.cval(x), (int, str)) and not isinstance(t.cval(x), bool)) for x in inner(d))


def reached(p, opened=False):
    """does a count, a label, an index or the kind of a thing decide this panic? -> what, or None"""
    facts = list(p[3])
    if hasattr(p[4], "op") and p[4].op == "ovf":
        op, x, y = p[4].a
        qs = quantities(x) if op == "SubWithOverflow" and t.is_const(y) else None
        if not qs or not t.show(list(qs)[0]).rstrip(")").endswith((".inputs", ".results", ".table", ".locals", ".functions")):
            return None         # sums and products of what a module holds are far from the bounds of a word
        facts.append((t.lt(x, y), True))
    by, free, kinds = {}, [], {}
    for f in facts:
        if not (isinstance(f, tuple) and len(f) == 2 and hasattr(f[0], "op")):
            return None
        d, l = f
        if t.lab_of(d) == l:
            continue
        if d.op == "disc" and root(d.a[0]) is not None:
            if typed(d):
                return None
            kinds[d.a[0]] = l
            free.append(f)
        elif (root(d) is not None or d.op == "any" and of_kinds(d)) and isinstance(l, bool):
            free.append(f)
        else:
            qs = quantities(d)
            if qs is None or len(qs) != 1:
                return None
            by.setdefault(qs.pop(), []).append(f)
    if opened and not by:
        return None         # such a thing need not be among those of a valid module
    said = ["%s is %s" % (t.show(d)[:120], l) for d, l in free if not str(d.a[0]).startswith("more#")]
    for q, fs in by.items():
        if typed(q) and not any(t.show(x).endswith(".instr") and l in OPEN for x, l in kinds.items()):
            return None
        top = limit(q)
        ks = set(SAMPLES) | {top}
        for d, l in fs:
            for x in inner(d):
                if t.is_const(x) and isinstance(t.cval(x), int) and not isinstance(t.cval(x), bool):
                    ks |= {t.cval(x) + i for i in (-1, 0, 1)}
        hit = [k for k in sorted(ks) if 0 <= k <= top and all(given(d, q, k) == l for d, l in fs)]
        if not hit:
            return None
        said.append("%s is %d" % (t.show(q)[:200], hit[-1]))
    return said


# ---------------------------------------------------------------- what is evaluated
LARGE = 8000000


def contexts(c, q):
    """name -> what to evaluate"""
    F = c.facts("core")
    every = list(H.SIG)
    todo = {"the transformations": lambda: closed_forms(q)}
    req = lambda fields, gen: dict(P.hooks_request(fields), **({"generic_interface": P.generic} if gen else {}))

    def instr(what, funcs, sel, fields, gen, mem=False, **kw):
        todo["instrument, %s, selection %s, %s%s, %s memory" % (
            what, sel, "all hooks" if fields is every else "%d hooks" % len(fields), " and generic apply" if gen else "", "a" if mem else "no")] = \
            lambda: run_pipeline(q, req(fields, gen), funcs(), sel, memories=[t.sym("memory")] if mem else [], tables=[t.sym("table0")], elements=[], **kw)
    imports = lambda: [lambda E, i=i: afunc(E, i, imp=True) for i in range(3)]
    for what, funcs in (("no function", lambda: []), ("imports only", imports), ("all kinds of functions", P.program)):
        for sel in (None, [], [0], [7, 1, 0, 99]):
            for fields, gen in (([], False), (["pre_block", "br_table_trap"], False), ([], True), (every, True)):
                if fields is every and sel:
                    continue
                for mem in (False, True):
                    instr(what, funcs, sel, fields, gen, mem)
    instr("260 functions", lambda: [lambda E, i=i: afunc(E, i) for i in range(260)], None, [], True)
    instr("260 functions", lambda: [lambda E, i=i: afunc(E, i) for i in range(260)], [259], ["pre_block"], True)
    wide = lambda ins, outs: lambda: [lambda E: afunc(E, 0, ft(vts(ins), vts(outs)))]
    instr("a function of 260 parameters", wide(["I32", "F64"] * 130, []), None, [], True)
    instr("a function of 260 results", wide([], ["I64", "F32"] * 130), None, [], True)
    todo["any module, instrument"] = lambda: open_module(q, req(["pre_block"], False))
    todo["any module, instrument, generic apply"] = lambda: open_module(q, req([], True))
    todo["any module, instrument, all hooks"] = lambda: open_module(q, req(every, True))
    # the bodies
    for typed in (True, False):
        w = "typed" if typed else "untyped"
        for n in [n for n in S.shapes(S.Bodies(F), S.plain(F)) if not n.startswith(str(S.DEEP))]:
            todo["body, %s, %s" % (n, w)] = lambda n=n, typed=typed: S.shape(q, typed, n)
        for k in S.BLOCKS:
            todo["body, 300 times %s, %s" % (k, w)] = lambda k=k, typed=typed: deep(q, typed, k)
        todo["any body, %s" % w] = lambda typed=typed: open_body(q, typed)
    # the functions that touch only their locals
    for k in [k for k in S.plain(F) if k != "Call"]:
        todo["immutable functions, %s" % k] = lambda k=k: U.kind(q, k)
    for g in U.graphs():
        todo["immutable functions, %s" % g] = lambda g=g: U.graph(q, g, "alone")
    todo["immutable functions, a chain of 40"] = lambda: many(q, 40)
    todo["any module, immutable functions"] = lambda: open_purity(q)
    # the stack library
    for lang in ("webassembly", "rust", "assemblyscript"):
        for what, sigs in (("every kind", L.FAMILY), ("none", []), ("many values", [(["I32", "F64"] * 130, []), ([], ["I64", "F32"] * 130)])):
            todo["stack library, %s, %s" % (lang, what)] = lambda lang=lang, sigs=sigs: L.library(q, "wastrumentation_lang_" + lang, sigs)
        todo["any signatures, stack library, %s" % lang] = lambda lang=lang: open_library(q, lang)
    return todo


def open_module(c, fields):
    F = c.facts("core")
    E = Pipeline(F)
    E.module0 = t.sym("module")
    iface = interface(E, F, **{f: t.some(x(E)) for f, x in fields.items()})
    E.eval_fn(instrument_key(c), [t.sym("bytes"), iface, t.sym("selection")])


def deep(c, typed, k):
    E = S.large(S.Bodies, c.facts("core"))
    tw = S.Twin(c, E, typed)
    els = []
    for i in range(300):
        els.append(E.flat(k))
    els.append(E.flat("Nop"))
    for i in range(300):
        els += [E.flat("Else"), E.flat("End")] if k == "If" and i % 2 else [E.flat("End")]
    v, st = tw.raise_(els + [E.flat("End")])
    if t.lab_of(t.disc(v)) == "Ok":
        E.eval_fn(tw.down, [t.proj(v, "Ok", "0")])


def open_body(c, typed):
    E = S.Bodies(c.facts("core"))
    E.concrete = False
    tw = S.Twin(c, E, typed)
    B = E.build
    if not typed:
        E.eval_fn(tw.up, [t.ctor(tw.low, "LowLevelBody", ("0",), (t.sym("body"),))])
        return
    code = B(W + "Code", locals=t.sym("locals"), body=t.sym("body"))
    f = B(W + "Function", type_=ft(t.sym("inputs"), t.sym("results")), code=B(W + "ImportOrPresent", "Present", _0=code), export=t.sym("exports"), name=t.sym("name"))
    E.eval_fn(tw.up, [t.tup([t.sym("module"), f, code, t.sym("index")])])


def many(c, n):
    E = S.large(U.Purity, c.facts("core"))
    funcs = [E.func([E.call_to(i + 1)] if i < n - 1 else [E.flat("Const")]) for i in range(n)]
    U.reported(c, E, funcs)


def open_purity(c):
    E = U.Purity(c.facts("core"))
    E.concrete = False
    E.eval_fn(c.fn("core", U.SA + "immutable_functions"), [t.sym("module")])


def open_library(c, lang):
    F = c.facts("core")
    E = S.Bodies(F)
    E.concrete = False
    key = only([k for ty, k in methods(F, "wastrumentation::compiler::LibGeneratable", "generate_lib") if ty.startswith("wastrumentation_lang_%s::" % lang)], "generate_lib of " + lang)
    E.eval_fn(key, [t.sym("signatures")])


@prop("C19", ["core"], "instrument(), the transformations, the structuring of bodies, immutable_functions and the generators of the stack library are evaluated over their MIR on open modules and "
      "bodies (counts, labels and indices are symbols) and on closed ones of every kind, some larger than a byte counts; every panic met is kept with the conditions it stands under",
      "no panic stands under conditions that a valid module meets: those on the kinds of things are free, those on one count, label or index are tried at the bounds of "
      "the integer types and of the constants compared with, within what WebAssembly allows of that quantity; panics under other conditions are left open")
def c19(c):
    q = Quiet(c)
    mirflow.Eng.BUDGET = LARGE
    todo = contexts(c, q)

    def one(n):
        es, stop = evaluated(todo[n])
        n0 = len(c.viol)
        for E in es:
            for p in E.panics:
                r = reached(p, n.startswith("any "))
                c.note("panics judged" if r is not None or closed(p) else "panics left open", "%s:%s %s" % (p[0], p[1], facts(p)))
                if os.environ.get("VF_SHOW") and r is None:
                    print("SHOW", n, "|", p[0], p[1], facts(p))
                if r is not None:
                    w = "panic!, assert! or the like" if "panicking" in p[2] else p[2]
                    c.violate("%s/%s" % (p[0], w.split("(")[0][:60]), "%s:%s" % (p[0], p[1]), "%s: instrumenting a valid module panics (%s)\n  when %s" % (n, w[:150], " and ".join(r) or "always"))
        if isinstance(stop, Dead) and len(c.viol) == n0 or stop is not None and not isinstance(stop, Dead) and not n.startswith("any "):
            raise stop
    c.parallel(todo, one)


def facts(p):
    return " & ".join("%s=%s" % (t.show(d)[:200] if hasattr(d, "op") else d, l) for d, l in p[3])[:700]


def closed(p):
    """judged not to happen, rather than left open"""
    return all(isinstance(f, tuple) and len(f) == 2 and hasattr(f[0], "op") and (f[0].op == "disc" or root(f[0]) is not None or len(quantities(f[0]) or ()) == 1) for f in p[3])

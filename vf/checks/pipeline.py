"""What instrument() makes of a whole module."""
import re, os
from .. import terms as t
from .. import hooks as H
from .. import wrun as R
from ..spec import prop, Undecided, where
from ..wasm import W, val, vt, vts, ft
from ..facts import REPO
from .core import A, TH, ANALYSIS_NS, Pipeline, afunc, amodule, body_of, chain, closed_forms, export, instrument_key, interface, run_pipeline, target_of, wtype

REF = lambda E: E.build(W + "ValType", "Ref", _0=E.build(W + "RefType", "FuncRef"))
STACK_NS = "wastrumentation_stack"
STDLIB = os.path.join(REPO, "wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib/src")


def hooks_request(fields):
    return {f: (lambda E, f=f: export(E, t.sym("name " + f), *H.SIG[f])) for f in fields}


# the program the properties are decided on: (inputs, results, imported); R is a reference type
PROGRAM = [(["I32", "F64"], ["I64"], False), ([], ["I64", "F32"], True), (["I32"], ["I32"], False), ([], [], False), (["R"], [], False),
           (["I32"], ["R"], False), (["I32"], ["I32"], True), (["I64", "I64", "F32"], ["I32", "F64", "I64"], False), (["R", "I32"], ["I32"], True)]


def program(E=None):
    def one(i, ins, outs, imp):
        def f(E):
            ty = ft(*[t.lst([REF(E) if x == "R" else vt(x) for x in xs]) for xs in (ins, outs)])
            return afunc(E, i, ty=ty, imp=imp)
        return f
    return [one(i, *p) for i, p in enumerate(PROGRAM)]


def plain(i):
    return "R" not in PROGRAM[i][0] + PROGRAM[i][1]


SELECTIONS = [None, [], [0, 7], [7, 1, 0], list(range(len(PROGRAM))), [4, 5, 6, 99]]
FIELDS = [[], ["pre_block"], ["br_trap", "const_i64_trap", "i32_load"]]


def selected(sel, i):
    return plain(i) and (sel is None or i in sel)


def same_parts(c, key, what, got, want, at, names=None):
    for n in names or got.a[2]:
        c.same("%s/%s" % (key, n), t.proj(got, None, n), t.proj(want, None, n), at, "%s: %s" % (what, n))


@prop("C06", ["core"], "instrument() is evaluated over its MIR on a module of nine functions of all kinds (symbolic bodies, locals, names, exports; imported, with and without reference "
      "types in the signature), for every kind of selection; sets are enumerated in an order of their own.",
      "a function is rewritten exactly when it is selected, has a body and no reference type in its signature; the body written back is the flattened transformation of that function's own "
      "body under all requested hooks; locals, signature, exports, name and position of every function and all other parts of the module stay")
def c06(c):
    F = c.facts("core")
    at = where(F, instrument_key(c))

    def one(fields, sel):
        E, fs, m = run_pipeline(c, hooks_request(fields), program(), sel)
        m0 = E.module0
        what = "with hooks %s and selection %s" % (fields, sel)
        if len(fs) < len(PROGRAM):
            c.violate("functions lost", at, what + ", functions of the program are gone")
            return
        for i, f0 in enumerate(t.elements(t.proj(m0, None, "functions"))):
            key = "function %d/%s/%s" % (i, ",".join(fields), sel)
            c.note("functions of the module", str(i))
            names = ["type_", "export", "name"]
            if not selected(sel, i) or PROGRAM[i][2]:
                c.same(key, fs[i], f0, at, "%s, function %d (%s)" % (what, i, PROGRAM[i]))
                continue
            same_parts(c, key, "%s, function %d" % (what, i), fs[i], f0, at, names)
            code0, code = (t.proj(t.proj(x, None, "code"), "Present", "0") for x in (f0, fs[i]))
            c.same(key + "/locals", t.proj(code, None, "locals"), t.proj(code0, None, "locals"), at, "%s, locals of function %d" % (what, i))
            b = t.proj(code, None, "body")
            if not fields and b is t.proj(code0, None, "body"):
                continue
            x = chain(b)
            if x is None:
                c.same(key + "/body", b, t.mk("call", "flat", t.mk("call", "high", f0, code0, t.num(i))), at, "%s, body of function %d" % (what, i))
                continue
            c.same(key + "/body", x[1], t.mk("call", "high", f0, code0, t.num(i)), at, "%s, what function %d is made from" % (what, i))
            if len(x[0]) != len(fields):
                c.violate(key + "/hooks", at, "%s, %d transformations run over function %d" % (what, len(x[0]), i))
        for n in m0.a[2]:
            if n != "functions":
                c.same("module %s" % n, t.proj(m, None, n), t.proj(m0, None, n), at, "%s, the module's %s" % (what, n))
    for fields in FIELDS:
        for sel in SELECTIONS:
            c.obligation("hooks %s, selection %s" % (fields, sel), lambda: one(fields, sel))
    c.obligation("errors", lambda: errors(c))


def errors(c):
    """a module that cannot be read, typed or written is an error, not a panic and not a module"""
    F = c.facts("core")
    at = where(F, instrument_key(c))
    for stage, err in (("read", "ParseModuleError"), ("typed", "LowToHighError"), ("encoded", "EncodeError")):
        E = Pipeline(F)
        E.fail(stage)
        E.module0 = amodule(E, [f(E) for f in program()], memories=t.EMPTY)
        r, st = E.eval_fn(instrument_key(c), [t.sym("bytes"), interface(E, F), t.NONE])
        l = t.lab_of(t.disc(r))
        if l is None:
            raise Undecided("what instrument gives when the module cannot be %s: %s" % (stage, t.show(r)[:200]))
        c.note("failures", stage)
        e = t.proj(r, "Err", "0") if l == "Err" else None
        if e is None or t.lab_of(t.disc(e)) != err:
            c.violate("error " + stage, at, "when the module cannot be %s, instrument gives %s" % (stage, t.show(r)[:300]))
        elif not t.contains(e, t.sym("failure")):
            c.violate("error " + stage, at, "when the module cannot be %s, the error says nothing of it: %s" % (stage, t.show(e)[:300]))


# ---------------------------------------------------------------- the hooks are installed
@prop("C07", ["core"], "instrument() is evaluated over its MIR with each hook requested alone, with all hooks, and with all but one; the imports of the resulting module and the transformations "
      "run over the bodies are read off.",
      "each requested hook is imported once from the analysis, under the requested name and type, its transformation is the one that stands for it and calls that import; no other "
      "hook is; a transformation that leaves none of an instruction for later ones runs after the others about that instruction")
def c07(c):
    F = c.facts("core")
    at = where(F, instrument_key(c))
    tag = {}

    def single(f):
        E, fs, (ts, high) = target_of(c, f)
        if len(ts) != 1 or ts[0].op != "ctor":
            raise Undecided("transformations for %s: %s" % (f, [t.show(x)[:80] for x in ts]))
        return (ts[0].a[0], ts[0].a[1])
    for f in H.SIG:
        x = c.obligation("hook %s alone" % f, lambda: single(f))
        if x is None:
            continue
        if x in tag:
            c.violate("%s and %s" % (tag[x], f), at, "the transformation run for %s is the one run for %s" % (f, tag[x]))
        tag[x] = f

    def many(fields, what):
        E, fs, _ = run_pipeline(c, hooks_request(fields), [lambda E: afunc(E, 0)], None)
        x = chain(body_of(fs[0]))
        if x is None:
            raise Undecided("body " + t.show(body_of(fs[0]))[:200])
        seen = []
        for tgt in x[0]:
            f = tag.get((tgt.a[0], tgt.a[1])) if tgt.op == "ctor" else None
            if f is None:
                raise Undecided("transformation " + t.show(tgt)[:200])
            if f in seen:
                c.violate("%s twice" % f, at, "with %s, the transformation for %s runs twice" % (what, f))
            seen.append(f)
            if f not in fields:
                c.violate("%s not requested" % f, at, "with %s, the transformation for %s runs" % (what, f))
                continue
            idx = tgt.a[3][0]
            if not t.is_const(idx) or t.cval(idx) >= len(fs):
                raise Undecided("function index " + t.show(idx)[:100])
            want = E.imported(ft(*[vts(n) for n in H.SIG[f]]), t.const(ANALYSIS_NS), t.sym("name " + f))
            c.same("import of %s" % f, fs[t.cval(idx)], want, at, "with %s, the function %s calls" % (what, f))
        for f in fields:
            if f not in seen:
                c.violate("%s not run" % f, at, "with %s, the transformation for %s does not run" % (what, f))
        mods = [f for f in fs if t.lab_of(t.disc(t.proj(f, None, "code"))) == "Import"]
        names = [t.proj(t.proj(f, None, "code"), "Import", "1") for f in mods if t.equal(t.proj(t.proj(f, None, "code"), "Import", "0"), t.const(ANALYSIS_NS)) is None]
        if len(names) != len(fields) or set(names) != {t.sym("name " + f) for f in fields}:
            c.violate("imports", at, "with %s, the module imports %d functions of the analysis, %d are requested" % (what, len(names), len(fields)))
        # order
        for sh in H.shapes(E, TH + "Instr"):
            about = [(f, H.want(f, sh, [])) for f in seen]
            about = [(f, w[0]) for f, w in about if w]
            for k, (f, steps) in enumerate(about):
                kept = any(s.a[0] == "step exec" and s.a[1] is t.FALSE for s in steps)
                if not kept and k != len(about) - 1:
                    c.violate("%s before %s" % (f, about[k + 1][0]), at, "%s runs before %s, which then no longer sees %s" % (f, about[k + 1][0], sh.name))
        return True
    every = list(H.SIG)
    c.obligation("all hooks", lambda: many(every, "all hooks"))
    for f in every:
        c.obligation("all hooks but " + f, lambda: many([g for g in every if g != f], "all hooks but " + f))


# ---------------------------------------------------------------- memory helpers



def helpers():
    """name -> (inputs, results, kind, operation)"""
    out = {}
    for ty, ns in H.LOAD.items():
        for n in ns:
            suffix = n.split("Load")[1]
            out["instrumented_base_load_%s%s" % (ty.lower(), "_" + suffix if suffix else "")] = (["I32", "I32"], [ty], "load", n)
    for ty, ns in H.STORE.items():
        for n in ns:
            suffix = n.split("Store")[1]
            out["instrumented_base_store_%s%s" % (ty.lower(), "_" + suffix if suffix else "")] = (["I32", ty, "I32"], [], "store", n)
    out["instrumented_memory_grow"] = (["I32", "I32"], ["I32"], "grow", None)
    out["instrumented_memory_size"] = (["I32"], ["I32"], "size", None)
    return out


def exported(fs):
    by = {}
    for i, f in enumerate(fs):
        for x in t.elements(t.proj(f, None, "export")) or ():
            by.setdefault(t.cval(x) if t.is_const(x) else x, []).append(i)
    return by


def execute(fs, i, args, c=None):
    """run function i of the module on abstract arguments -> (results, events); None, why: not a valid body"""
    f = fs[i]
    ty = t.proj(f, None, "type_")
    res = t.elements(t.proj(ty, None, "results"))
    code = t.proj(t.proj(f, None, "code"), "Present", "0")
    els, locs = t.elements(t.proj(code, None, "body")), t.elements(t.proj(code, None, "locals"))
    if els is None or locs is None or res is None:
        raise Undecided("function %d: %s" % (i, t.show(f)[:3000]))

    def callee(x):
        if not t.is_const(x) or t.cval(x) >= len(fs):
            raise Undecided("call of " + t.show(x)[:100])
        g = fs[t.cval(x)]
        gt = t.proj(g, None, "type_")
        ins, outs = (t.elements(t.proj(gt, None, n)) for n in ("inputs", "results"))
        k = t.proj(g, None, "code")
        imp = t.lab_of(t.disc(k)) == "Import"
        return len(ins), len(outs), t.tup([t.proj(k, "Import", "0"), t.proj(k, "Import", "1")]) if imp else t.num(t.cval(x))
    r = R.Run(args, len(locs), len(res), callee)
    try:
        out = r.body(els)
    except R.Trap:
        return None, "it traps"
    except R.Invalid as e:
        return None, "its body is not valid: %s" % e
    return out, r.events


@prop("C10", ["core"], "instrument() is evaluated over its MIR on modules with and without a memory; the exports of the result are read off and every exported helper is run on abstract arguments.",
      "the functions the Rust standard library of analyses imports are exported once each with these types; a load reads the program's memory at pointer + offset with that operation, a "
      "store writes the value there, grow and size act on memory 0; without a memory they give zero, store nothing, -1 and 0")
def c10(c):
    F = c.facts("core")
    at = where(F, instrument_key(c))
    want = helpers()
    for mem in (False, True):
        def one():
            E, fs, m = run_pipeline(c, {}, [lambda E: afunc(E, 0)], None, memories=[t.sym("memory")] if mem else [])
            by = exported(fs)
            c.same("memories", t.proj(m, None, "memories"), t.lst([t.sym("memory")] if mem else []), at, "the memories of the module")
            for name, (ins, outs, kind, op) in want.items():
                c.note("helpers", name)
                is_ = by.get(name, [])
                if len(is_) != 1:
                    c.violate("%s exported" % name, at, "%s is exported %d times" % (name, len(is_)))
                    continue
                f = fs[is_[0]]
                key = "%s %s memory" % (name, "with" if mem else "without")
                if not c.same(key + "/type", t.proj(f, None, "type_"), ft(vts(ins), vts(outs)), at, "the type of " + name):
                    continue
                p = [t.sym("p%d" % k) for k in range(len(ins))]
                out, ev = execute(fs, is_[0], p)
                if out is None:
                    c.violate(key, at, "%s: %s" % (name, ev))
                    continue
                why = helper(E, kind, op, p, out, ev, mem, outs)
                if why:
                    c.violate(key, at, "%s %s: %s (it does %s and gives %s)" % (name, "in a module with memory" if mem else "in a module without memory", why,
                                                                               [str([t.show(y) if hasattr(y, "op") else y for y in e])[:160] for e in ev], [t.show(x)[:80] for x in out]))
        c.obligation("a module with%s memory" % ("" if mem else "out"), one)


def helper(E, kind, op, p, out, ev, mem, outs):
    is_ = lambda x, y: t.equal(x, y) is None
    if not mem:
        if ev:
            return "it touches a memory there is not"
        zero = {"load": lambda: E.h_zero_of(outs[0]), "grow": lambda: val("I32", t.num(-1)), "size": lambda: val("I32", t.num(0))}
        if kind != "store" and not is_(out[0], zero[kind]()):
            return "the result is not what a program without memory sees"
        return None
    if len(ev) != 1:
        return "%d accesses of the memory" % len(ev)
    e = ev[0]
    if kind in ("load", "store"):
        if e[0] != kind or t.lab_of(t.disc(e[1])) != op:
            return "not the operation %s" % op
        off = t.proj(e[2], None, "offset")
        if e[2].op != "call" and not is_(off, t.num(0)):
            return "a further offset %s" % t.show(off)
        a, o = p[0], p[-1]
        if e[3] not in (t.mk("call", "binary I32Add", a, o), t.mk("call", "binary I32Add", o, a)):
            return "not at pointer + offset"
        if kind == "load" and out[0] is not e[4] or kind == "store" and e[4] is not p[1]:
            return "not the value that was %s" % ("loaded" if kind == "load" else "given")
    else:
        if e[0] != "memory." + kind or not is_(e[1], t.num(0)):
            return "not a %s of memory 0" % kind
        if kind == "grow" and e[2] is not p[0] or out[0] is not e[-1]:
            return "not with the amount given, or not the result"
    return None


# ---------------------------------------------------------------- branch tables
@prop("C09", ["core"], "the function generated for a br_table is read off the closed form of the br_table transformation for tables of zero to nine entries with symbolic labels, and run "
      "on every index in and just past the table and on the largest index.",
      "it is of type [i32] -> [i32 i32] and gives back the index and the label a br_table with this table takes for it: the entry, or the default past the end")
def c09(c):
    F = c.facts("core")
    forms = c.obligation("closed forms of the transformations", lambda: closed_forms(c))
    if not forms:
        return
    E0, fs, (ts, high) = target_of(c, "br_table_trap")
    tgt = ts[0]
    E, cf, path = forms[tgt.a[0]]
    cf = t.subst(cf, {t.sym("target"): tgt})
    at = where(F, [k for k, f in F.fns.items() if f["path"] == path][0])

    def size(n):
        labels = [t.sym("label%d" % i) for i in range(n)]
        ins = E.build(TH + "Instr", "BrTable", table=t.lst(labels), default=t.sym("default"))
        e = E.build(TH + "TypedHighLevelInstr", funct_index=t.sym("f"), instr_index=t.sym("i"), type_=t.sym("type"), instr=ins, instrumentation_instruction=t.FALSE)
        els = t.elements(t.subst(cf, {t.sym("body"): t.lst([e])}))
        if els is None:
            raise Undecided("what becomes of a br_table")
        fn = None
        for x in els:
            i = t.proj(x, None, "instr")
            if t.lab_of(t.disc(i)) == "Call":
                f = t.proj(i, "Call", "0")
                if f.op == "call" and f.a[0] == "function":
                    fn = f
        if fn is None:
            raise Undecided("no function is generated for a br_table")
        if not c.same("type", fn.a[1], ft(vts(["I32"]), vts(["I32", "I32"])), at, "the type of the function generated for a br_table"):
            return
        body = t.elements(fn.a[3])
        if body is None:
            raise Undecided("body " + t.show(fn.a[3])[:300])
        locs = t.length(fn.a[2])
        for k in list(range(n + 3)) + [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]:
            r = R.Run([val("I32", t.num(k))], t.cval(locs) if t.is_const(locs) else 0, 2, None)
            c.note("tables and indices", "%d/%d" % (n, k))
            try:
                out = r.body(body)
            except R.Trap:
                out = None
            except R.Invalid as x:
                c.violate("table of %d" % n, at, "the function generated for a br_table of %d entries is not valid: %s" % (n, x))
                return
            want = t.lst([val("I32", t.num(k)), val("I32", labels[k] if k < n else t.sym("default"))])
            if out is None:
                c.violate("table of %d" % n, at, "the function generated for a br_table of %d entries traps for index %d" % (n, k))
            elif not c.same("table of %d" % n, t.lst(out), want, at, "what the function generated for a br_table of %d entries gives for index %d" % (n, k)):
                return
    for n in range(10):
        c.obligation("table of %d" % n, lambda: size(n))


# ---------------------------------------------------------------- generic apply
def stack_names(c, E, ins, outs):
    """role -> name of the functions of the stack library for a signature"""
    F = c.facts("core")
    S = "wastrumentation::wasm_constructs::"
    wt = lambda n: E.build(S + "WasmType", n)
    sig = E.build(S + "Signature", return_types=t.lst([wt(x) for x in outs]), argument_types=t.lst([wt(x) for x in ins]))
    side = lambda n: E.build(S + "SignatureSide", n)

    def ev(m, *a):
        r, _ = E.eval_fn(c.fn("core", S + "Signature::" + m, required=False), [sig] + list(a))
        return r
    out = {"values": ev("generate_allocate_values_buffer_name"), "types": ev("generate_allocate_types_buffer_name"), "free values": ev("generate_free_values_buffer_name"),
           "free types": ev("generate_free_types_buffer_name"), "store results": ev("generate_store_rets_name")}
    for i in range(len(ins)):
        out["load argument %d" % i] = ev("generate_load_name", side("Argument"), t.num(i))
    for i in range(len(outs)):
        out["load result %d" % i] = ev("generate_load_name", side("Return"), t.num(i))
    for r, n in out.items():
        if not t.is_const(n):
            raise Undecided("name of %s: %s" % (r, t.show(n)[:100]))
    return {r: t.cval(n) for r, n in out.items()}


def generic(E):
    a = E.F.adts[A + "WasmImport"]
    kw = dict(name=t.sym("base name"), args=t.lst([wtype(E, "I32")] * 2), results=t.EMPTY)
    for f in a["variants"][0]["fields"]:
        kw.setdefault(f[0], t.sym("base " + f[0]))
    return t.tup([export(E, t.sym("generic name"), ["I32"] * 7, []), E.build(A + "WasmImport", **kw)])


class Wrong(Exception):
    pass


def role(names, e):
    """the stack library function an event calls"""
    if e[0] != "call" or e[1].op != "tup":
        return None
    ns, n = e[1].a[0]
    if not t.is_const(ns) or t.cval(ns) != STACK_NS or not t.is_const(n):
        return None
    for r, x in names.items():
        if x == t.cval(n):
            return r
    raise Wrong("it calls %s of the stack library, which is not for its signature" % t.cval(n))


def wrapper(c, E, fs, m, i, sel, fields, tables0, elems0):
    ins, outs, imp = PROGRAM[i]
    names = stack_names(c, E, ins, outs)
    f, f0 = fs[i], t.elements(t.proj(E.module0, None, "functions"))[i]
    p = [t.sym("p%d" % k) for k in range(len(ins))]
    if t.lab_of(t.disc(t.proj(f, None, "code"))) != "Present":
        raise Wrong("it is left an import")
    out, ev = execute(fs, i, p)
    if out is None:
        raise Wrong(ev)
    seq = []
    for e in ev:
        r = role(names, e)
        if r is None and e[0] == "call" and e[1].op == "tup" and t.equal(e[1], t.tup([t.const(ANALYSIS_NS), t.sym("generic name")])) is None:
            r = "analysis"
        if r is None:
            raise Wrong("it does %s" % [t.show(x) if hasattr(x, "op") else str(x) for x in e][:3])
        seq.append((r, e[2], e[3]))
    order = [r for r, _, _ in seq]
    need = ["values", "types", "analysis", "free values", "free types"] + ["load result %d" % k for k in range(len(outs))]
    if sorted(order) != sorted(need):
        raise Wrong("it calls %s" % order)
    at = {r: k for k, r in enumerate(order)}
    call = {r: (a, x) for r, a, x in seq}
    v, ty = call["values"][1][0], call["types"][1][0]
    before = [("values", "analysis"), ("types", "analysis"), ("analysis", "free types")] + [("analysis", "load result %d" % k) for k in range(len(outs))] + [
        ("load result %d" % k, "free values") for k in range(len(outs))] + [("analysis", "free values")]
    for a, b in before:
        if at[a] > at[b]:
            raise Wrong("%s comes after %s" % (a, b))
    if call["values"][0] != p:
        raise Wrong("the arguments are stored as %s" % [t.show(x) for x in call["values"][0]])
    for r, a in (("free values", [v]), ("free types", [ty])) + tuple(("load result %d" % k, [v]) for k in range(len(outs))):
        if call[r][0] != a:
            raise Wrong("%s is called with %s" % (r, [t.show(x) for x in call[r][0]]))
    if out != [call["load result %d" % k][1][0] for k in range(len(outs))]:
        raise Wrong("it does not return the results the analysis left: %s" % [t.show(x) for x in out])
    g = call["analysis"][0]
    k = R.number(g[0])
    if k is None:
        raise Undecided("apply index " + t.show(g[0]))
    want = [val("I32", t.num(x)) for x in (i, len(ins), len(outs))] + [v, ty, val("I32", t.num(1 if imp else 0))]
    for n, (x, y) in zip(("function index", "argument count", "result count", "values", "types", "code presence"), zip(g[1:], want)):
        if t.equal(x, y) is not None:
            raise Wrong("the analysis is told %s as %s" % (t.show(x), n))
    return k


def applied(c, E, fs, m, i, idx, fields):
    """function idx applies function i to the arguments in a buffer"""
    ins, outs, imp = PROGRAM[i]
    names = stack_names(c, E, ins, outs)
    f0 = t.elements(t.proj(E.module0, None, "functions"))[i]
    if t.equal(t.proj(fs[idx], None, "type_"), ft(vts(["I32"]), t.EMPTY)) is not None:
        raise Wrong("the type of its apply function is " + t.show(t.proj(fs[idx], None, "type_")))
    sp = t.sym("sp")
    out, ev = execute(fs, idx, [sp])
    if out is None:
        raise Wrong("apply function: " + ev)
    loads, base, store = {}, None, None
    for e in ev:
        r = role(names, e)
        if r is not None and r.startswith("load argument"):
            if base is not None or e[2] != [sp]:
                raise Wrong("its apply function loads arguments wrongly")
            loads[int(r.split()[-1])] = e[3][0]
        elif r == "store results" and base is not None and store is None:
            store = e[2]
        elif e[0] == "call" and r is None and base is None:
            base = e
        else:
            raise Wrong("its apply function does %s" % [t.show(x) if hasattr(x, "op") else str(x) for x in e][:3])
    if base is None or store is None or sorted(loads) != list(range(len(ins))):
        raise Wrong("its apply function does not load %d arguments, call it and store the results" % len(ins))
    if base[2] != [loads[k] for k in range(len(ins))]:
        raise Wrong("its apply function passes the arguments in another order")
    if store != [sp] + base[3]:
        raise Wrong("its apply function stores %s" % [t.show(x) for x in store])
    if imp:
        k0 = t.proj(f0, None, "code")
        if t.equal(base[1], t.tup([t.proj(k0, "Import", "0"), t.proj(k0, "Import", "1")])) is not None:
            raise Wrong("its apply function calls " + t.show(base[1]))
        return
    if base[1].op == "tup":
        raise Wrong("its apply function calls the import " + t.show(base[1]))
    b = fs[t.cval(base[1])]
    if t.cval(base[1]) < len(PROGRAM):
        raise Wrong("its apply function calls function %d again" % t.cval(base[1]))
    if t.equal(t.proj(b, None, "type_"), t.proj(f0, None, "type_")) is not None:
        raise Wrong("the copy of it has type " + t.show(t.proj(b, None, "type_")))
    code0, code = (t.proj(t.proj(x, None, "code"), "Present", "0") for x in (f0, b))
    x = chain(t.proj(code, None, "body"))
    body0 = t.proj(code0, None, "body")
    if not fields and t.proj(code, None, "body") is body0:
        pass
    elif x is None or t.equal(x[1], t.mk("call", "high", f0, code0, t.num(i))) is not None or len(x[0]) != len(fields):
        raise Wrong("the copy of it has the body " + t.show(t.proj(code, None, "body"))[:200])
    tys = [t.mapseq(t.proj(y, None, "locals"), lambda l: t.proj(l, None, "type_")) for y in (code0, code)]
    if t.equal(*tys) is not None:
        raise Wrong("the copy of it has the locals " + t.show(tys[1])[:200])


@prop("C08", ["core"], "instrument() with a generic apply hook is evaluated over its MIR on the module of nine functions; every function it writes is run on an abstract stack, calls of the stack "
      "library and of the analysis being recorded.",
      "a selected function stores its arguments, tells the analysis the apply index, its own index, the counts, the buffers and whether it was imported, then returns the results found "
      "in the buffer and frees both buffers; the table entry with that index loads the arguments, calls the original (same signature, locals and instrumented body, or the import) and "
      "stores the results; the exported call_base calls through that table; other functions keep their code")
def c08(c):
    F = c.facts("core")
    at = where(F, instrument_key(c))

    def one(fields, sel):
        req = hooks_request(fields)
        req["generic_interface"] = generic
        tables0, elems0 = [t.sym("table0"), t.sym("table1")], [t.sym("element0")]
        E, fs, m = run_pipeline(c, req, program(), sel, tables=tables0, elements=elems0)
        tables, elems = (t.elements(t.proj(m, None, n)) for n in ("tables", "elements"))
        if tables is None or elems is None:
            raise Undecided("tables of the module")
        what = "with %s%s" % ("selection %s" % sel, " and hooks %s" % fields if fields else "")
        if tables[:2] != tables0 or elems[:1] != elems0:
            c.violate("tables of the program", at, what + ", the program's own tables change")
            return
        used = {}
        f0s = t.elements(t.proj(E.module0, None, "functions"))
        for i in range(len(PROGRAM)):
            key = "function %d" % i
            if not selected(sel, i):
                c.same(key, fs[i], f0s[i], at, "%s, function %d, which is not to be instrumented" % (what, i))
                continue
            c.note("functions of the module", "%d %s" % (i, PROGRAM[i]))
            for n in ("type_", "export", "name"):
                c.same("%s/%s" % (key, n), t.proj(fs[i], None, n), t.proj(f0s[i], None, n), at, "%s, %s of function %d" % (what, n, i))
            try:
                k = wrapper(c, E, fs, m, i, sel, fields, tables0, elems0)
                if k in used:
                    raise Wrong("it has the apply index of function %d" % used[k])
                used[k] = i
            except Wrong as x:
                c.violate(key, at, "%s, function %d (%s): %s" % (what, i, PROGRAM[i], x))
                continue
        # the table
        base = exported(fs).get(t.sym("base name"), [])
        if len(base) != 1:
            c.violate("call_base", at, "%s, the base function is exported %d times" % (what, len(base)))
            return
        b = fs[base[0]]
        c.same("call_base/type", t.proj(b, None, "type_"), ft(vts(["I32", "I32"]), t.EMPTY), at, what + ", the type of the base function")
        fa, sv = t.sym("f_apply"), t.sym("sigv")
        out, ev = execute(fs, base[0], [fa, sv])
        if out is None:
            c.violate("call_base", at, "%s, the base function: %s" % (what, ev))
            return
        if len(ev) != 1 or ev[0][0] != "call_indirect" or ev[0][3] is not fa or ev[0][4] != [sv] or t.equal(ev[0][1], ft(vts(["I32"]), t.EMPTY)) is not None:
            c.violate("call_base", at, "%s, the base function does not apply entry f_apply to sigv: %s" % (what, [str([t.show(y) if hasattr(y, "op") else y for y in e])[:200] for e in ev]))
            return
        ti = ev[0][2]
        if not t.is_const(ti) or t.cval(ti) >= len(tables):
            c.violate("call_base/table", at, "%s, the base function calls through table %s of %d" % (what, t.show(ti), len(tables)))
            return
        entries = {}
        for el in elems[1:]:
            mode = t.proj(el, None, "mode")
            if t.lab_of(t.disc(mode)) != "Active" or t.equal(t.proj(mode, "Active", "table"), ti) is not None:
                continue
            off = t.elements(t.proj(mode, "Active", "offset"))
            o = R.number(t.proj(off[0], "Const", "0")) if off and t.lab_of(t.disc(off[0])) == "Const" else None
            init = t.elements(t.proj(el, None, "init"))
            if o is None or init is None:
                raise Undecided("element " + t.show(el)[:200])
            for j, x in enumerate(init):
                xs = t.elements(x)
                if not xs or t.lab_of(t.disc(xs[0])) != "RefFunc":
                    raise Undecided("element " + t.show(x)[:200])
                entries[o + j] = t.cval(t.proj(xs[0], "RefFunc", "0"))
        lim = t.proj(tables[t.cval(ti)], None, "limits") if t.cval(ti) >= 2 else None
        size = t.proj(lim, None, "initial_size") if lim is not None else None
        if size is None or not t.is_const(size) or entries and t.cval(size) <= max(entries):
            c.violate("table size", at, "%s, table %s does not hold its %d entries" % (what, t.show(ti), len(entries)))
        for k, i in sorted(used.items()):
            try:
                if k not in entries:
                    raise Wrong("there is no entry %d in the table" % k)
                applied(c, E, fs, m, i, entries[k], fields)
            except Wrong as x:
                c.violate("apply of function %d" % i, at, "%s, function %d (%s): %s" % (what, i, PROGRAM[i], x))
    for sel in (None, [0, 6], [7], []):
        c.obligation("selection %s" % sel, lambda: one([], sel))
    c.obligation("with other hooks", lambda: one(["pre_block", "br_trap"], None))

"""Properties of the instrumentation core (crate wastrumentation)."""
import os, re
from ..facts import REPO
from .. import terms as t
from .. import hooks as H
from ..spec import prop, Undecided, where
from ..wasm import WasmEng, W, val, vt, vts, ft
from ..mirflow import Dead, norm

A = "wastrumentation::analysis::"
TH = "wastrumentation::parse_nesting::typed_high_level_body::"
TRANSFORM = "wastrumentation::instrument::TransformationStrategy::transform"
ANALYSIS_NS = "WASTRUMENTATION_ANALYSIS"


def methods(F, trait, name):
    """-> [(self type, key)] of the implementations of a trait method"""
    out = []
    for k, f in F.fns.items():
        if f["local"] and f.get("impl_trait") and f["path"].endswith("::" + name) and f["impl_trait"].split("<")[0] == trait and not f["closure"]:
            out.append((f["impl_of"], k))
    return out


def only(xs, what):
    xs = list(xs)
    if len(xs) != 1:
        raise Undecided("%s: %d candidates" % (what, len(xs)))
    return xs[0]


def wtype(E, n):
    return E.build(A + "WasmType", n)


def export(E, name, args, results):
    return E.build(A + "WasmExport", name=name, args=t.lst([wtype(E, x) for x in args]), results=t.lst([wtype(E, x) for x in results]))


class Pipeline(WasmEng):
    """instrument() on modules of a known shape; the parts it is made of stay symbols"""
    concrete = True
    UNROLL = 400

    def __init__(self, F):
        WasmEng.__init__(self, F)
        self.module0 = None
        h = self.hooks
        h[W + "Module::from_bytes"] = lambda E, st, d, a: self.ok("read", t.tup([self.module0, t.sym("offsets"), t.sym("issues")]))
        h[W + "Module::to_bytes"] = lambda E, st, d, a: self.ok("encoded", t.mk("call", "encode", self.v(st, a[0])))
        h[TRANSFORM] = lambda E, st, d, a: self.body(t.mk("call", "transform", self.v(st, a[0]), t.proj(self.v(st, a[1]), None, "0")))
        for _, k in self.impl("std::convert::TryFrom", "try_from", lambda f: f["impl_of"] == TH + "Body"):
            h[norm(F.fns[k]["path"])] = self.h_high
        for _, k in self.impl("std::convert::From", "from", lambda f: f["impl_trait"].endswith("<%sBody>" % TH)):
            h[norm(F.fns[k]["path"])] = self.h_flat

    def impl(self, trait, name, pred):
        return [(ty, k) for ty, k in methods(self.F, trait, name) if pred(self.F.fns[k])]

    failing = None

    def fail(self, stage):
        self.failing = stage

    def ok(self, stage, x):
        return t.err(t.sym("failure")) if stage == self.failing else t.ok(x)

    def body(self, b):
        return t.ctor(TH + "Body", "Body", ("0",), (b,))

    def h_high(self, E, st, d, a):
        x = self.v(st, a[0])
        fs = [self.v(st, y) for y in x.a[0]]
        return self.ok("typed", self.body(t.mk("call", "high", fs[1], fs[2], fs[3])))

    def h_flat(self, E, st, d, a):
        f = only([x for x in self.F.adts if x.endswith("high_level_body::LowLevelBody")], "LowLevelBody")
        return t.ctor(f, "LowLevelBody", ("0",), (t.mk("call", "flat", t.proj(self.v(st, a[0]), None, "0")),))


def interface(E, F, **fields):
    a = F.adts[A + "AnalysisInterface"]
    return E.build(A + "AnalysisInterface", **{f[0]: fields.get(f[0], t.NONE) for f in a["variants"][0]["fields"]})


def afunc(E, i, ty=None, imp=False):
    """the i-th function of the program, symbolic but for the shape"""
    ty = ty or ft(vts(["I32"]), vts(["I32"]))
    B = E.build
    code = B(W + "ImportOrPresent", "Import", _0=t.sym("module%d" % i), _1=t.sym("field%d" % i)) if imp else \
        B(W + "ImportOrPresent", "Present", _0=B(W + "Code", locals=t.sym("locals%d" % i), body=t.sym("body%d" % i)))
    return B(W + "Function", type_=ty, code=code, export=t.sym("exports%d" % i), name=t.sym("fname%d" % i))


def amodule(E, funcs, **parts):
    a = E.F.adts[W + "Module"]
    names = [f[0] for f in a["variants"][0]["fields"]]
    return E.build(W + "Module", **{n: t.lst(funcs) if n == "functions" else parts.get(n, t.sym("its " + n)) for n in names})


def instrument_key(c):
    F = c.facts("core")
    p = "wastrumentation::instrument::instrument"
    ks = [f["key"] for f in F.by_path.get(p, ())]
    if not ks:
        c.fn("core", p)
    c.note("functions", p)
    return sorted(ks, key=lambda k: F.fns[k]["poly"])[0]


def run_pipeline(c, fields, funcs, selected, memories=(), **parts):
    """-> (engine, functions of the module that is encoded)"""
    F = c.facts("core")
    E = Pipeline(F)
    key = instrument_key(c)
    E.module0 = amodule(E, [f(E) for f in funcs], memories=t.lst(memories), **{k: t.lst(v) for k, v in parts.items()})
    iface = interface(E, F, **{f: t.some(x(E)) for f, x in fields.items()})
    sel = t.NONE if selected is None else t.some(t.lst([t.num(i) for i in selected]))
    r, st = E.eval_fn(key, [t.sym("bytes"), iface, sel])
    if t.lab_of(t.disc(r)) != "Ok":
        raise Undecided("instrument gives " + t.show(r)[:300])
    m = t.proj(t.proj(r, "Ok", "0"), None, "module")
    if m.op != "call" or m.a[0] != "encode":
        raise Undecided("instrument gives " + t.show(m)[:300])
    fs = t.elements(t.proj(m.a[1], None, "functions"))
    if fs is None:
        raise Undecided("functions of the result: " + t.show(m.a[1])[:300])
    return E, fs, m.a[1]


def body_of(f):
    return t.proj(t.proj(t.proj(f, None, "code"), "Present", "0"), None, "body")


def chain(b):
    """flat(transform(T, .. high ..)) -> ([T, ..] in the order applied, high)"""
    if b.op != "call" or b.a[0] != "flat":
        return None
    b = b.a[1]
    ts = []
    while b.op == "call" and b.a[0] == "transform":
        ts.append(b.a[1])
        b = b.a[2]
    return ts[::-1], b


def target_of(c, field):
    """the transformation instrument() runs for this field of the interface, and the index it installed"""
    args, res = H.SIG[field]
    E, fs, _ = run_pipeline(c, {field: lambda E: export(E, t.sym("name"), args, res)}, [lambda E: afunc(E, 0)], None)
    x = chain(body_of(fs[0]))
    if x is None:
        raise Undecided("body of the function: " + t.show(body_of(fs[0]))[:300])
    return E, fs, x


# ---------------------------------------------------------------- hooks
def closed_forms(c):
    """implementations of TransformationStrategy: self type -> (engine, closed form)"""
    F = c.facts("core")
    out = {}
    for ty, k in methods(F, TRANSFORM.rsplit("::", 1)[0], "transform"):
        E = WasmEng(F)
        v, st = E.eval_fn(k, [t.sym("target"), t.ctor(TH + "Body", "Body", ("0",), (t.sym("body"),)), t.sym("module")])
        c.note("functions", *[F.fns[x]["path"] for x in E.visited])
        out[ty] = (E, t.proj(v, None, "0"), F.fns[k]["path"])
    return out


def hook(c, field, forms, pick):
    """compares what the hook makes of every kind of instruction with the specification; -> operation codes"""
    F = c.facts("core")
    E0, fs, (ts, high) = target_of(c, field)
    if len(ts) != 1:
        c.violate("%s not run" % field, where(F, instrument_key(c)), "with only %s requested, %d transformations run over a function's body" % (field, len(ts)))
        return []
    tgt = ts[0]
    if tgt.op != "ctor" or tgt.a[0] not in forms:
        raise Undecided("transformation " + t.show(tgt)[:200])
    E, cf, path = forms[tgt.a[0]]
    at = where(F, [k for k, f in F.fns.items() if f["path"] == path][0])
    trap_idx = t.num(len(fs[:1]))
    cf = t.subst(cf, {t.sym("target"): tgt})
    one = one_step(cf)
    P = cf.a[0] if cf.op in ("fm", "fold") else cf
    if one is None and (P.op in ("rev", "until", "slice") or P.op == "call" and P.a[0] in ("take", "slice")) and t.contains(P, t.sym("body")):
        c.violate("%s/body" % field, at, "the %s hook goes through %s, not through the whole body in its order" % (field, t.show(P)[:300]))
        return []
    if one is None:
        raise Undecided("%s is not instruction by instruction: %s" % (path, t.show(cf)[:200]))
    INSTR = TH + "Instr"
    fi, ii = t.sym("function index"), t.sym("instruction index")
    loc = [val("I64", fi), val("I64", ii)]
    codes, panics = [], [(x, fs) for x in E.panics for fs in [facts_of(x)] if fs is not None]
    for sh in H.shapes(E, INSTR):
        for flag in (False, True):
            w = None if flag else H.want(field, sh, loc)
            if not pick(w is not None):
                continue
            e = E.build(TH + "TypedHighLevelInstr", funct_index=fi, instr_index=ii, type_=sh.type_ or t.sym("type"),
                        instr=sh.instr, instrumentation_instruction=t.const(flag))

            def rec(p, nested=sh.nested):
                return nested_of(E, p, tgt, nested)
            got0 = one(e)
            c.note("instructions", sh.name + (" of the instrumentation" if flag else ""))
            for p in panics:
                if certain(p, e, tgt):
                    c.violate("%s/%s panics" % (field, sh.name), "%s:%s" % (p[0][0], p[0][1]), "instrumenting a function with %s for the %s hook panics (%s)" % (sh.name, field, p[0][2]))
            for got, facts in cases(got0):
                try:
                    sim = H.Sim(sh, e, trap_idx, H.SIG[field], rec, INSTR)
                    steps, taken, left = sim.run(sim.items(got))
                except H.Split as s:
                    raise Undecided("%s on %s depends on %s" % (field, sh.name, t.show(s.scrut)[:200]))
                if w is None:
                    ws, end = [H.execs(sh, 0, [], flag=flag)], None
                    if sh.name.startswith(H.RESULT1) and not flag:
                        end = (0, [t.sym("x0")])
                    elif sh.name.startswith("Const "):     # a constant put there by a transformation: pushed, as others are
                        ws, end = [], (0, [t.proj(sh.instr, "Const", "0")])
                    elif sh.name.startswith(H.RESULT1):
                        end = (0, [t.sym("x0")])
                else:
                    ws, end = w
                taken_w, left_w = end or (0, [])
                g = t.tup([t.lst(steps), t.num(taken), t.lst(left)])
                x = t.tup([t.lst(ws), t.num(taken_w), t.lst(left_w)])
                for k, l in facts:
                    g, x = t.restrict(g, k, l), t.restrict(x, k, l)
                if t.contains(x, t.sym("code")):
                    n = opcode(steps)
                    if n is not None:
                        codes.append((sh.name.split(" ")[0], sh.op, n))
                        x = t.subst(x, {t.sym("code"): t.num(n)})
                c.same("%s/%s%s" % (field, sh.name, "/own" if flag else ""), g, x, at, "what the %s hook puts in place of %s%s" % (
                    field, sh.name, " that is instrumentation already" if flag else ""))
    return codes


def one_step(cf):
    """what a loop over the body adds to the result for one instruction, with what was done before it left open"""
    body = t.sym("body")
    if cf.op not in ("fm", "fold") or cf.a[0] is not body:
        return None
    b, e0, before = t.open_b(cf)
    if cf.op == "fm":
        return lambda e: t.subst(b, {e0: e})
    if cf.a[3] is not t.lst([]) and t.elements(cf.a[3]) != []:
        return None
    acc = t.fresh("acc")
    b = t.subst(b, {t.mk("bvar", 0, "acc"): acc})

    def without(x):
        if x.op == "sw":
            return t.sw(x.a[0], [(l, without(y)) for l, y in x.a[1]])
        ps = t.parts_of(x)
        if not ps or ps[0] is not acc:
            raise Undecided("the loop over a body changes what it did before: " + t.show(x)[:200])
        return t.seq(ps[1:])
    return lambda e: without(t.subst(b, {e0: e}))


def facts_of(x):
    """the conditions a panic stands under, unless it is a number out of range or an overflow"""
    s = t.show(x[4]) if hasattr(x[4], "op") else str(x[4])
    if s.startswith("if(fits ") or s.startswith("ovf"):
        return None
    return [(d, l) for d, l in x[3] if hasattr(d, "op")]


def certain(p, e, tgt):
    """the panic happens on the instruction e, whatever else"""
    for d, l in p[1]:
        sub = {t.sym("target"): tgt}
        for x in symbols(d):
            if str(x.a[0]).startswith("more#"):
                sub[x] = t.TRUE
            elif str(x.a[0]).startswith("e#"):
                sub[x] = e
        if t.lab_of(t.subst(d, sub)) != l:
            return False
    return True


def symbols(x, seen=None):
    seen = set() if seen is None else seen
    if x in seen:
        return
    seen.add(x)
    if x.op == "sym":
        yield x
    for y in t.kids_of(x.a):
        yield from symbols(y, seen)


def opcode(steps):
    for s in steps:
        if s.a[0] == "step trap":
            els = t.elements(s.a[1])
            if len(els) >= 3:
                k = t.proj(els[-3], "I32", "0")
                if t.is_const(k):
                    return t.cval(k)
    return None


def nested_of(E, p, tgt, nested):
    """p is the same transformation applied to a nested body: that body"""
    wrap = False
    if p.op == "proj" and p.a[0].op == "call":
        p, wrap = p.a[0], True
    if p.op != "call" or not str(p.a[0]).startswith("rec:"):
        return None
    path, args = p.a[0][4:], p.a[1:]
    sub = {t.sym("target"): tgt}
    for outer in E.outer.get(path, ()):
        if len(outer) != len(args):
            continue
        hit = None
        for x, y in zip(outer, args):
            x = t.subst(x, sub)
            if x is t.sym("body") or x.op == "ctor" and x.a[0] == TH + "Body" and x.a[3][0] is t.sym("body"):
                b = y if x is t.sym("body") else t.proj(y, None, "0")
                hit = b if b in nested else None
                if hit is None:
                    break
            elif t.equal(x, y) is not None:
                hit = None
                break
        if hit is not None:
            return hit
    return None


def cases(x, facts=(), depth=0):
    """split on what the emitted code still depends on"""
    s = t.inner_scrut(x)
    if s is None:
        yield x, facts
        return
    if depth > 8:
        raise Undecided("too many cases")
    for l in s[1]:
        y = t.restrict(x, s[0], l)
        if y.op == "absurd":
            continue
        yield from cases(y, facts + ((s[0], l),), depth + 1)


CONTROL = [f for f in H.SIG if f.split("_")[0] in ("pre", "post", "if", "br", "select", "drop", "return") and "call" not in f]
CALLS = [f for f in H.SIG if "_trap_call" in f]
VALUES = [f for f in H.SIG if f.split("_")[0] in ("const", "unary", "binary")]
STATE = [f for f in H.SIG if f not in CONTROL + CALLS + VALUES]


STDLIB = os.path.join(REPO, "wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib/src")


def decoder(kind):
    """operation -> code as the analysis library for Rust reads it, {} where that cannot be told"""
    src, pat = {"Unary": ("unary.rs", r"^\s*(\d+)\s+(\w+)\s*:"), "Binary": ("binary.rs", r"^\s*(\d+)\s+(\w+)\s*:"),
                "Load": ("memory.rs", r"^\s*(\d+)\s*=>\s*Self::(\w*Load\w*)"), "Store": ("memory.rs", r"^\s*(\d+)\s*=>\s*Self::(\w*Store\w*)")}[kind]
    try:
        with open(os.path.join(STDLIB, src)) as f:
            got = re.findall(pat, f.read(), re.M)
    except OSError:
        return {}
    return {op: int(n) for n, op in got} if len({op for _, op in got}) == len(got) else {}


def hooks_of(c, fields, pick=lambda about: True):
    forms = c.obligation("closed forms of the transformations", lambda: closed_forms(c))
    if not forms:
        return
    codes = {}
    for field, xs in c.parallel(fields, lambda f: hook(c, f, forms, pick), "hook %s").items():
        for kind, op, n in xs or ():
            codes.setdefault(kind, {}).setdefault(op, set()).add(n)

    def distinct():
        for kind, ops in sorted(codes.items()):
            by = {}
            for op, ns in sorted(ops.items()):
                if len(ns) > 1:
                    c.violate("%s/%s has several codes" % (kind, op), kind, "%s %s is reported as %s" % (kind, op, sorted(ns)))
                for n in ns:
                    by.setdefault(n, []).append(op)
            for n, os in sorted(by.items()):
                if len(os) > 1:
                    c.violate("%s code %s" % (kind, n), kind, "the %s operations %s are all reported as operation %s" % (kind.lower(), ", ".join(os), n))
            c.note("operation codes", *["%s %s" % (kind, op) for op in ops])

    def decoded():
        for kind, ops in sorted(codes.items()):
            want = decoder(kind)
            for op, ns in sorted(ops.items()):
                if op in want and ns != {want[op]}:
                    c.violate("%s/%s code" % (kind, op), kind, "%s %s is reported as %s, which the analysis library reads as %s" % (
                        kind, op, sorted(ns), [o for o, n in want.items() if n in ns] or "an error"))
            c.note("operations the analysis library reads", *["%s %s" % (kind, op) for op in want])
    if codes:
        c.obligation("operation codes are those of the analysis library", decoded)
        c.obligation("operation codes are distinct", distinct)


EXPL = ("Each TransformationStrategy::transform is evaluated over its MIR to a closed form in the target, the body and the module; the target a hook stands for is "
        "what instrument() runs when only that field of the interface is set (evaluated on a module of one symbolic function). The closed form is instantiated with every "
        "kind of structured instruction (symbolic immediates, nested bodies and types) and the emitted list is run on an abstract operand stack.")


@prop("C01", ["core"], EXPL, "for every hook on blocks, loops, conditionals, branches, select, drop and return, and every kind of instruction: calls of the trap with these operands and "
      "this location at this place, the instruction itself where it was, nested bodies transformed the same way")
def c01(c):
    hooks_of(c, CONTROL)


@prop("C02", ["core"], EXPL, "for the four call hooks and every kind of instruction: the trap before/after the call, with the function/table index and the location, the call itself in place")
def c02(c):
    hooks_of(c, CALLS)


@prop("C03", ["core"], EXPL, "for every hook on constants and on unary and binary operations and every kind of instruction: operands in order, an operation code no other operation of the kind has, the location; "
      "the operation replaced exactly when its types are those of the hook")
def c03(c):
    hooks_of(c, VALUES)


@prop("C04", ["core"], EXPL, "for every hook on locals, globals and memory and every kind of instruction: operands, index or offset, operation code and location; the instruction replaced or kept")
def c04(c):
    hooks_of(c, STATE)


@prop("C05", ["core"], EXPL, "for every hook and every instruction it is not about, and every instruction that a transformation put there: emitted once, unchanged, at its place")
def c05(c):
    hooks_of(c, list(H.SIG), lambda about: not about)

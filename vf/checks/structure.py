"""Flat and structured function bodies, and the analyses made on them."""
from .. import terms as t
from ..spec import prop, Undecided, where
from ..wasm import WasmEng, W, ft, vts
from ..mirflow import Dead, norm
from .core import only, methods, amodule

PN = "wastrumentation::parse_nesting::"
TH = PN + "typed_high_level_body::"
UH = PN + "high_level_body::"
ERR = PN + "typed_high_level_body_error::LowToHighError"
TC = W + "types::TypeChecker::"
BLOCKS = ("Block", "Loop", "If")
MARKS = BLOCKS + ("Else", "End")


class Bodies(WasmEng):
    """bodies of known instructions: recursion over them is followed"""
    concrete = True
    RECUR = 9
    STEP = 60
    UNROLL = 400

    def __init__(self, F, bad=None):
        WasmEng.__init__(self, F)
        self.bad, self.n = bad, 0
        h = self.hooks
        h[TC + "begin_function"] = lambda E, st, d, a: t.mk("call", "checker", self.v(st, a[0]), self.v(st, a[1]), t.EMPTY)
        h[TC + "check_next_instr"] = self.h_check

    def h_check(self, E, st, d, a):
        from ..models import setv
        c, i = self.v(st, a[0]), self.v(st, a[1])
        if not (c.op == "call" and c.a[0] == "checker"):
            return t.mk("call", "check", c, i)
        seen = t.seq([c.a[3], t.one(i)])
        setv(self, st, a[0], t.mk("call", "checker", c.a[1], c.a[2], seen))
        if self.bad is not None and i is self.bad:
            return t.err(t.ctor(W + "types::TypeError", "TypeError", ("0",), (t.sym("type error"),)))
        return t.ok(self.type_after(c.a[1], c.a[2], seen))

    def run_fn(self, st, f, args):
        if f["key"] in self.stack and norm(f["path"]) not in self.hooks:
            if not any(self.known(self.snapshot(st, self.v(st, a))) for a in args):
                return self.recursive(st, f, args)
        return WasmEng.run_fn(self, st, f, args)

    def known(self, x):
        """a body of known instructions"""
        if x.op == "ctor" and x.a[1] == "Body":
            x = t.proj(x, None, "0")
        return t.elements(x) is not None

    @staticmethod
    def type_after(f, m, seen):
        return t.mk("call", "type of the last of", f, m, seen)

    # instructions
    def flat(self, name, **kw):
        return self.instr(W + "Instr", name, **kw)

    def instr(self, adt, name, args=None):
        """an instruction with operands of its own"""
        v = only([v for v in self.F.adts[adt]["variants"] if v["name"] == name], "instruction " + name)
        fs = [f[0] for f in v["fields"]]
        if args is None:
            self.n += 1
            args = [t.sym("%s%d.%s" % (name, self.n, f)) for f in fs]
        return t.ctor(adt, name, fs, args)


def large(cls, *args):
    """an engine that goes through long lists and deep nestings as they are"""
    class Large(cls):
        STEP = UNROLL = 6000
        RECUR = MAXDEPTH = 5000
    return Large(*args)


def plain(F):
    return [v["name"] for v in F.adts[W + "Instr"]["variants"] if v["name"] not in MARKS]


def flatten(E, tree):
    """tree: [instr | (block, body) | (if, then, else)] -> flat instructions, with what each came from"""
    out = []
    for x in tree:
        if isinstance(x, tuple):
            out.append((x[0], x))
            for n, b in enumerate(x[1:]):
                if n:
                    out.append((E.flat("Else"), None))
                out += flatten(E, b)
            out.append((E.flat("End"), None))
        else:
            out.append((x, x))
    return out


def shapes(E, ks):
    """trees that put every kind of instruction everywhere, by name"""
    i = lambda: E.flat("Const")
    b = lambda k: E.flat(k)
    out = {"empty": [], "one": [i()]}
    for k in ks:
        out[k] = [i(), E.flat(k), i()]
    for k in BLOCKS:
        out["%s empty" % k] = [(b(k), [])]
        out["%s between" % k] = [i(), (b(k), [i(), i()]), i()]
        out["%s twice" % k] = [(b(k), [i()]), i(), (b(k), [i(), i()])]
        for l in BLOCKS:
            out["%s in %s" % (l, k)] = [i(), (b(k), [i(), (b(l), [i()]), i()]), i()]
            out["else in %s" % k] = [i(), (b(k), [i(), (b("If"), [i()], [i(), i()]), i()]), i()]
            out["%s in else" % k] = [i(), (b("If"), [i()], [i(), (b(k), [i()]), i()]), i()]
            out["%s in then" % k] = [i(), (b("If"), [i(), (b(k), [i()]), i()], [i()]), i()]
    out["else"] = [i(), (b("If"), [i(), i()], [i()]), i()]
    out["else empty"] = [i(), (b("If"), [i(), i()], []), i()]
    out["then empty"] = [i(), (b("If"), [], [i(), i()]), i()]
    out["both empty"] = [(b("If"), [], [])]
    out["else in else"] = [(b("If"), [i()], [(b("If"), [i()], [i(), i()])])]
    out["else in then"] = [(b("If"), [(b("If"), [i()], [i(), i()]), i()], [i()])]
    out["if in else"] = [(b("If"), [i()], [(b("If"), [i()])])]
    for k in BLOCKS:
        for where_ in ("", " in else") if k == "If" else ("",):
            tr = [i()]
            for d in range(DEEP):
                tr = [i(), (b(k), [], tr) if where_ else (b(k), tr), i()] if d % 16 == 0 else [(b(k), [], tr) if where_ else (b(k), tr)]
            out["%d times %s%s" % (DEEP, k, where_)] = tr
    out["%d in a row" % DEEP] = [(b(BLOCKS[d % 3]), [i()]) for d in range(DEEP)]
    out["deep"] = [(b("Block"), [(b("Loop"), [(b("If"), [(b("Block"), [i()])], [(b("Loop"), [i(), i()])]), i()]), i()]), i()]
    return out


def errors(E):
    """flat bodies that are no function body -> what the error says"""
    f = E.flat
    return {
        "no end": ([f("Nop")], "BodyNonEndTermination"),
        "nothing": ([], "BodyNonEndTermination"),
        "else first": ([f("Nop"), f("Else"), f("End"), f("End")], "IfDidNotPrecedeElse"),
        "else of a block": ([f("Block"), f("Else"), f("End"), f("End")], "IfDidNotPrecedeElse"),
        "else of a loop": ([f("Loop"), f("Nop"), f("Else"), f("End"), f("End")], "IfDidNotPrecedeElse"),
        "two elses": ([f("If"), f("Else"), f("Nop"), f("Else"), f("End"), f("End")], "IfDidNotPrecedeElse"),
        "two ends": ([f("Nop"), f("End"), f("End")], None),
        "end after a block": ([f("Block"), f("End"), f("End"), f("Nop"), f("End")], None),
    }


class Twin:
    """one of the two structured forms"""

    def __init__(self, c, E, typed):
        self.c, self.E, self.typed = c, E, typed
        self.ns = TH if typed else UH
        F = E.F
        self.what = "typed body" if typed else "body"
        self.up = only([k for ty, k in methods(F, "std::convert::TryFrom", "try_from") if ty == self.ns + "Body"], "TryFrom for the " + self.what)
        self.down = only([k for ty, k in methods(F, "std::convert::From", "from") if F.fns[k]["impl_trait"].endswith("<%sBody>" % self.ns)], "From<%s>" % self.what)
        self.low = only([x for x in F.adts if x.endswith("high_level_body::LowLevelBody")], "LowLevelBody")
        for k in (self.up, self.down):
            c.note("functions", F.fns[k]["path"])

    def lower(self, els):
        return t.ctor(self.low, "LowLevelBody", ("0",), (t.lst(els),))

    def raise_(self, els):
        """-> the Result of structuring the flat list"""
        E = self.E
        if not self.typed:
            return E.eval_fn(self.up, [self.lower(els)])
        B = E.build
        code = B(W + "Code", locals=t.sym("locals"), body=t.lst(els))
        f = B(W + "Function", type_=ft(vts(["I32"]), vts(["I32"])), code=B(W + "ImportOrPresent", "Present", _0=code), export=t.sym("exports"), name=t.sym("name"))
        return E.eval_fn(self.up, [t.tup([t.sym("module"), f, code, t.sym("index")])])

    def body(self, x):
        return t.ctor(self.ns + "Body", "Body", ("0",), (x,))

    def want(self, els, tree):
        """the structured form of a tree whose flat form is els"""
        E = self.E
        pos = {}
        B = E.build
        code = B(W + "Code", locals=t.sym("locals"), body=t.lst(els))
        f = B(W + "Function", type_=ft(vts(["I32"]), vts(["I32"])), code=B(W + "ImportOrPresent", "Present", _0=code), export=t.sym("exports"), name=t.sym("name"))
        at = [0]

        def wrap(begin, end, x):
            if not self.typed:
                return x
            ty = E.type_after(f, t.sym("module"), t.lst(els[:end + 1]))
            return B(TH + "TypedHighLevelInstr", funct_index=t.sym("index"), instr_index=t.num(begin), type_=ty, instr=x, instrumentation_instruction=t.FALSE)

        def go(tr):
            out = []
            for x in tr:
                begin = at[0]
                at[0] += 1
                if not isinstance(x, tuple):
                    out.append(wrap(begin, begin, self.same_instr(x)))
                    continue
                k = t.lab_of(t.disc(x[0]))
                bodies = []
                for n, b in enumerate(x[1:]):
                    at[0] += 1 if n else 0
                    y = go(b)
                    bodies.append(t.lst(y) if self.typed else self.body(t.lst(y)))
                end = at[0]
                at[0] += 1
                args = [t.proj(x[0], k, "0")] + bodies
                if k == "If":
                    args[2:] = [t.some(args[2]) if len(args) > 2 else t.NONE]
                out.append(wrap(begin, end, E.instr(self.ns + "Instr", k, args)))
            return out
        r = go(tree)
        return self.body(t.lst(r))

    def same_instr(self, x):
        k = t.lab_of(t.disc(x))
        v = only([v for v in self.E.F.adts[self.ns + "Instr"]["variants"] if v["name"] == k], "instruction " + k)
        return t.ctor(self.ns + "Instr", k, [f[0] for f in v["fields"]], [t.proj(x, k, f[0]) for f in v["fields"]])


DEEP = 130


def shape(c, typed, name):
    E = large(Bodies, c.facts("core")) if name.startswith(str(DEEP)) else Bodies(c.facts("core"))
    tw = Twin(c, E, typed)
    tree = shapes(E, plain(E.F))[name]
    els = [x for x, _ in flatten(E, tree)] + [E.flat("End")]
    v, st = tw.raise_(els)
    c.note("flat bodies", name)
    c.note("functions", *[E.F.fns[x]["path"] for x in E.visited])
    want = tw.want(els, tree)
    at = where(E.F, tw.up)
    key = "%s/%s" % (tw.what, name)
    if not c.same(key, v, t.ok(want), at, "the structured form of %s" % t.show(t.lst(els))[:700]):
        return
    v, st = E.eval_fn(tw.down, [want])
    c.same(key + "/back", v, tw.lower(els), where(E.F, tw.down), "the flat form of the %s of %s" % (tw.what, name))


def refuse(c, typed, name):
    E = Bodies(c.facts("core"))
    tw = Twin(c, E, typed)
    els, want = errors(E)[name]
    try:
        v, st = tw.raise_(els)
    except Dead:
        return      # it panics: nothing is made of such a body
    l = t.lab_of(t.disc(v))
    if l != "Err":
        if l is None:
            raise Undecided("%s gives %s" % (name, t.show(v)[:200]))
        c.violate("%s/%s" % (tw.what, name), where(E.F, tw.up), "the flat body %s is structured as %s" % (t.show(t.lst(els)), t.show(v)[:600]))


def untypable(c):
    F = c.facts("core")
    E = Bodies(F)
    tw = Twin(c, E, True)
    els = [E.flat("Nop"), E.flat("Call"), E.flat("Nop"), E.flat("End")]
    E.bad = els[1]
    v, st = tw.raise_(els)
    if t.lab_of(t.disc(v)) != "Err":
        c.violate("typed body/type error", where(F, tw.up), "where the type checker refuses an instruction, the body is structured as %s" % t.show(v)[:400])


@prop("C11", ["core"], "TryFrom<flat body> and From<structured body> (typed and untyped twin) are evaluated over their MIR, recursion included, on flat bodies that hold "
      "every kind of instruction with symbolic operands and every nesting of block, loop, if and if-else to depth 2, then each result is flattened again",
      "structured(flat) is the tree of the nesting, each node keeping function index, index of its opening instruction and inferred type; flat(structured(x)) = x; ill-nested lists are refused")
def c11(c):
    F = c.facts("core")
    todo = {}
    names = list(shapes(Bodies(F), plain(F)))
    for typed in (True, False):
        w = "typed" if typed else "untyped"
        for n in names:
            todo["%s: %s" % (w, n)] = (shape, typed, n)
        for n in errors(Bodies(F)):
            todo["%s refuses %s" % (w, n)] = (refuse, typed, n)
    todo["type errors"] = (untypable,)
    c.parallel(todo, lambda n: todo[n][0](c, *todo[n][1:]))

"""The interface of wasabi_wasm the instrumentation crates rely on, in terms.

A module is a record; the functions, types and indices the code adds to it are
named by their content, so the index `add_function(type, locals, body)` returns
is the term function(type, locals, body) wherever it is used."""
from . import terms as t
from .terms import mk
from .mirflow import Eng, norm
from .spec import Undecided

W = "wasabi_wasm::"
FT = W + "FunctionType"
VAL = W + "Val"
IIT = W + "types::InferredInstructionType"
VT = ("I32", "I64", "F32", "F64")


def ft(ins, outs):
    return t.ctor(FT, "FunctionType", ("inputs", "results"), (ins, outs))


def vt(name):
    return t.ctor(W + "ValType", name, (), ())


def vts(names):
    return t.lst([vt(n) for n in names])


def val(name, x):
    return t.ctor(VAL, name, ("0",), (x,))


class WasmEng(Eng):
    def __init__(self, F):
        Eng.__init__(self, F)
        self.outer = {}      # path -> argument lists of the activation a recursive call ran under
        self.result = {}
        h = self.hooks
        v = self.v
        for ty in ("Idx", "Label"):
            for m in ("to_u32", "to_usize"):
                h["%s%s::%s" % (W, ty, m)] = lambda E, st, d, a: v(st, a[0])
        h[FT + "::new"] = lambda E, st, d, a: ft(v(st, a[0]), v(st, a[1]))
        h[FT + "::empty"] = lambda E, st, d, a: ft(t.EMPTY, t.EMPTY)
        h[FT + "::inputs"] = lambda E, st, d, a: t.proj(v(st, a[0]), None, "inputs")
        h[FT + "::results"] = lambda E, st, d, a: t.proj(v(st, a[0]), None, "results")
        h[W + "ValType::zero"] = self.h_zero
        h[W + "Memarg::default"] = self.h_memarg
        h[W + "Code::new"] = lambda E, st, d, a: self.build(W + "Code", locals=t.EMPTY, body=t.EMPTY)
        h[W + "Module::functions"] = self.h_functions
        h[W + "Module::function"] = self.h_function
        h[W + "Module::function_mut"] = self.h_function_mut
        h[W + "Function::new"] = lambda E, st, d, a: self.build(W + "Function", type_=v(st, a[0]), code=self.build(
            W + "ImportOrPresent", "Present", _0=v(st, a[1])), export=v(st, a[2]), name=t.NONE)
        h[W + "Function::code"] = self.h_code
        h[W + "Function::code_mut"] = self.h_code_mut
        h[W + "Function::locals"] = self.h_locals
        h[W + "Function::add_fresh_local"] = self.h_fresh
        h[W + "Module::add_function"] = self.h_add
        h[W + "Module::add_function_import"] = self.h_import

    def v(self, st, x):
        from .models import val
        return val(self, st, x)

    def build(self, path, variant=None, **kw):
        a = self.F.adts[path]
        for vv in a["variants"]:
            if variant is None or vv["name"] == variant:
                names = [f[0] for f in vv["fields"]]
                miss = [n for n in names if n not in kw and "_" + n not in kw]
                if miss:
                    raise Undecided("%s has other fields: %s" % (path, miss))
                return t.ctor(path, vv["name"], names, [kw[n] if n in kw else kw["_" + n] for n in names])
        raise Undecided("%s has no variant %s" % (path, variant))

    def h_zero(self, E, st, d, a):
        v = self.v(st, a[0])
        n = t.lab_of(t.disc(v))
        return self.h_zero_of(n) if n in VT else mk("call", "zero", v)

    def h_zero_of(self, n):
        return val(n, t.sym("zero " + n) if n[0] == "F" else t.num(0))

    def h_memarg(self, E, st, d, a):
        return mk("call", "natural", self.v(st, a[0]))

    # -- modules whose list of functions is known
    concrete = False     # added functions take the next index of the module

    # a first pass over a loop has symbols for its elements: there the hooks
    # give opaque values, which the passes over the elements replace
    def funcs(self, st, m):
        return t.elements(t.proj(self.v(st, m), None, "functions"))

    def place(self, m, *path):
        return mk("mref", m.a[0], m.a[1] + path) if m.op == "mref" else mk("ext", "place", m)

    def h_functions(self, E, st, d, a):
        els = self.funcs(st, a[0])
        return None if els is None else mk("iter", t.lst([t.tup([t.num(i), f]) for i, f in enumerate(els)]), ())

    def h_function(self, E, st, d, a):
        return t.index(t.proj(self.v(st, a[0]), None, "functions"), self.v(st, a[1]))

    def h_function_mut(self, E, st, d, a):
        return self.place(a[0], ("f", None, "functions"), ("i", self.v(st, a[1])))

    def code(self, st, f, there, absent):
        c = t.proj(self.v(st, f), None, "code")
        return t.sw(t.disc(c), [("Present", there(t.proj(c, "Present", "0"))), ("Import", absent)])

    def h_code(self, E, st, d, a):
        return self.code(st, a[0], t.some, t.NONE)

    def h_code_mut(self, E, st, d, a):
        return self.code(st, a[0], lambda c: t.some(self.place(a[0], ("f", None, "code"), ("f", "Present", "0"))), t.NONE)

    def nparams(self, st, f):
        return t.length(t.proj(t.proj(self.v(st, f), None, "type_"), None, "inputs"))

    def h_locals(self, E, st, d, a):
        ls = self.code(st, a[0], lambda c: t.proj(c, None, "locals"), t.EMPTY)
        els = t.elements(ls)
        n = self.nparams(st, a[0])
        if els is not None:
            return mk("iter", t.lst([t.tup([t.arith("add", n, t.num(i)), x]) for i, x in enumerate(els)]), ())
        return mk("iter", t.mapseq(ls, lambda x: t.tup([mk("call", "local index"), x])), ())

    def h_fresh(self, E, st, d, a):
        from .models import setv
        ls = self.code(st, a[0], lambda c: t.proj(c, None, "locals"), mk("ext", "locals of an import"))
        r = self.place(a[0], ("f", None, "code"), ("f", "Present", "0"), ("f", None, "locals"))
        i = t.arith("add", self.nparams(st, a[0]), t.length(ls))
        setv(self, st, r, t.seq([ls, t.one(self.build(W + "Local", type_=self.v(st, a[1]), name=t.NONE))]))
        return i

    def append(self, st, m, f):
        from .models import setv
        old = t.proj(self.v(st, m), None, "functions")
        setv(self, st, self.place(m, ("f", None, "functions")), t.seq([old, t.one(f)]))
        return t.length(old)

    def function(self, ty, locs, body, export=t.EMPTY):
        return self.build(W + "Function", type_=ty, code=self.build(W + "ImportOrPresent", "Present", _0=self.build(
            W + "Code", locals=t.mapseq(locs, lambda x: self.build(W + "Local", type_=x, name=t.NONE)), body=body)), export=export, name=t.NONE)

    def imported(self, ty, mod, name):
        return self.build(W + "Function", type_=ty, code=self.build(W + "ImportOrPresent", "Import", _0=mod, _1=name), export=t.EMPTY, name=t.NONE)

    def unordered(self, v):
        """a set or map yields its elements in an order of its own: not the order of insertion"""
        from .mirflow import unset
        if v.op == "map" and self.concrete and t.elements(v.a[0]) is not None:
            out = []
            for x in reversed(t.elements(v.a[0])):
                k = t.proj(x, None, "0")
                eq = [t.equal(k, t.proj(y, None, "0")) for y in out] if hasattr(t, "equal") else []
                if not any(e is None for e in eq):
                    out.append(x)
            return t.lst(out)
        s = unset(v)
        els = t.elements(s) if s is not None else None
        if not self.concrete or els is None:
            return Eng.unordered(self, v)
        out = []
        for x in els:
            if not any(t.equal(x, y) is None for y in out):
                out.append(x)
        return t.lst(out[::-1])

    def h_add(self, E, st, d, a):
        if self.concrete:
            return self.append(st, a[0], self.function(*[self.v(st, x) for x in a[1:]]))
        f = mk("call", "function", *[self.v(st, x) for x in a[1:]])
        self.event(st, "add", f)
        return f

    def h_import(self, E, st, d, a):
        if self.concrete:
            return self.append(st, a[0], self.imported(*[self.v(st, x) for x in a[1:]]))
        f = mk("call", "import", *[self.v(st, x) for x in a[1:]])
        self.event(st, "add", f)
        return f

    def recursive(self, st, f, args):
        args = [self.snapshot(st, a) for a in args]
        for fr in reversed(self.active[:-1]):
            if fr[0] == f["key"]:
                self.outer.setdefault(f["path"], set()).add(fr[1])
                break
        return mk("call", "rec:" + f["path"], *args)

    active = ()

    def run_fn(self, st, f, args):
        h = self.hooks.get(norm(f["path"]))
        if h is not None:
            return h(self, st, None, list(args))
        me = tuple(self.snapshot(st, a) for a in args)
        self.active = self.active + ((f["key"], me),)
        try:
            r = Eng.run_fn(self, st, f, args)
        finally:
            self.active = self.active[:-1]
        self.result.setdefault((f["path"], me), []).append(r)
        return r

"""The library that keeps the arguments and results of applied functions."""
from .. import terms as t
from .. import wat, rlib, aslib
from ..spec import prop, Undecided, where
from ..wasm import WasmEng, W, ft, vts
from ..mirflow import Dead, norm
from .core import only, amodule, afunc, methods
from .structure import Bodies

WC = "wastrumentation::wasm_constructs::"
HOOKS = "wastrumentation::stack_library::ModuleLinkedStackHooks"
NS = "wastrumentation_stack"
TYPES = ("I32", "F32", "I64", "F64")
CODE = {"I32": 0, "F32": 1, "I64": 2, "F64": 3}
ROLES = ("allocate_values_buffer", "allocate_types_buffer", "free_values_buffer", "free_types_buffer", "ret_store_all")
LISTS = {"arg_load_n": 1, "ret_load_n": 0, "arg_store_n": 1, "ret_store_n": 0}

# (results, arguments)
FAMILY = [
    ((), ()), ((), ("I32",)), (("I32",), ()), (("I64",), ("F32",)), (("F64",), ("I64",)), (("F32",), ("F64",)), ((), ("F32", "F64")), (("F32", "F64"), ()),
    (("I32",), ("I32", "I64", "F32", "F64")), (("F64", "F32", "I64", "I32"), ("I32",)), (("F64", "F32", "I32", "I64"), ("I64", "I32", "F32", "F64")),
    (("I32", "I32"), ("I32", "I32", "I32")), (("I32", "I32", "I32"), ("I32", "I32")), (("I64", "I32"), ("F32", "F32", "F32")), (("I32", "I64"), ("F32", "F32", "F32")),
    ((), ("I32", "F32")), (("I32",), ("F32",)), (("I32", "F32"), ()), ((), ("I64",) * 11), (("I64",) * 11, ("F32",) * 12),
]


def short(s):
    return "(%s) -> (%s)" % (", ".join(s[1]).lower(), ", ".join(s[0]).lower())


def sig_term(E, s):
    ty = lambda n: E.build(WC + "WasmType", n)
    return E.build(WC + "Signature", return_types=t.lst([ty(x) for x in s[0]]), argument_types=t.lst([ty(x) for x in s[1]]))


def text(x, what):
    if not t.is_const(x) or not isinstance(t.cval(x), str):
        raise Undecided("%s: %s" % (what, t.show(x)[:200]))
    return t.cval(x)


def hooks(v, module):
    """the imports a value of ModuleLinkedStackHooks names"""
    fs = t.elements(t.proj(module, None, "functions"))

    def one(i):
        if not t.is_const(i) or fs is None or not 0 < t.cval(i) < len(fs):
            raise Undecided("the function behind " + t.show(i)[:200])
        f = fs[t.cval(i)]
        code = t.proj(f, None, "code")
        if t.lab_of(t.disc(code)) != "Import":
            raise Undecided("not an import: " + t.show(f)[:200])
        return (text(t.proj(code, "Import", "0"), "namespace"), text(t.proj(code, "Import", "1"), "import")) + sides(t.proj(f, None, "type_"))
    out = {r: one(t.proj(v, None, r)) for r in ROLES}
    for r in LISTS:
        els = t.elements(t.proj(v, None, r))
        if els is None:
            raise Undecided(r + ": " + t.show(t.proj(v, None, r))[:200])
        out[r] = [one(x) for x in els]
    return out


def sides(ty, a="inputs", r="results"):
    els = [t.elements(t.proj(ty, None, n)) for n in (a, r)]
    if None in els:
        raise Undecided("the type " + t.show(ty)[:200])
    return tuple(tuple(t.lab_of(t.disc(x)) for x in e) for e in els)


def imports(c, s):
    """role -> (namespace, name, parameters, results), or a list of them: what an instrumented module imports for a function of this signature"""
    F = c.facts("core")
    E = Bodies(F)
    key = only([k for ty, k in methods(F, "std::convert::From", "from") if ty == HOOKS], "From for " + HOOKS)
    c.note("functions", F.fns[key]["path"])
    st = E.fresh_state()
    cell = ("program", "module")
    st.c[cell] = amodule(E, [afunc(E, 0)])
    v, st = E.eval_fn(key, [t.tup([ft(vts(s[1]), vts(s[0])), t.mk("mref", cell, ())])], st)
    return hooks(v, st.c[cell]), where(F, key)


# functions of a module, and which of them are instrumented
CHOSEN = [(3, True), (8, True), (3, True), (0, True), (8, False), (12, False), (12, True), (6, False), (0, False), (18, True)]


def chosen(c):
    """the library is generated for the types of the functions that are instrumented, and each of these types has its own imports"""
    F = c.facts("core")
    E = Bodies(F)
    key = only([k for k, f in F.fns.items() if f["local"] and not f["closure"] and k == f["path"] and k.startswith("wastrumentation::stack_library::") and f["args"] == 2
                and f["locals"][0].split("<")[0].endswith("stack_library::StackLibrary")], "the function that links a module with a stack library")
    c.note("functions", F.fns[key]["path"])
    at = where(F, key)
    st = E.fresh_state()
    cell = ("program", "module")
    st.c[cell] = amodule(E, [afunc(E, i, ft(vts(FAMILY[n][1]), vts(FAMILY[n][0]))) for i, (n, _) in enumerate(CHOSEN)])
    v, st = E.eval_fn(key, [t.mk("mref", cell, ()), t.mk("set", t.lst([t.num(i) for i, (_, y) in enumerate(CHOSEN) if y]))], st)
    want = {FAMILY[n] for n, y in CHOSEN if y}
    links, lib = t.proj(v, None, "signature_import_links"), t.proj(v, None, "library")
    if links.op != "map" or t.elements(links.a[0]) is None:
        raise Undecided("the links: " + t.show(links)[:300])
    got = set()
    for e in t.elements(links.a[0]):
        a, r = sides(t.proj(e, None, "0"))
        if (r, a) not in want:
            c.violate("chosen/extra", at, "links functions %s, which are not instrumented" % short((r, a)))
        elif (r, a) in got:
            c.violate("chosen/twice", at, "links functions %s twice" % short((r, a)))
        elif dict(flat(hooks(t.proj(e, None, "1"), st.c[cell]))) != dict(flat(imports(c, (r, a))[0])):
            c.violate("chosen/imports", at, "functions %s are linked with the imports of others" % short((r, a)))
        got.add((r, a))
        c.note("linked types", short((r, a)))
    for s in want - got:
        c.violate("chosen/missing", at, "functions %s are instrumented, and have no links" % short(s))
    if lib.op != "ext" or not str(lib.a[0]).endswith("::generate_lib"):
        raise Undecided("the library: " + t.show(lib)[:300])
    els = t.elements(lib.a[1])
    if els is None:
        raise Undecided("the signatures: " + t.show(lib.a[1])[:300])
    had = set()
    for x in els:
        a, r = sides(x, "argument_types", "return_types")
        had.add((r, a))
    for s in want - had:
        c.violate("chosen/library", at, "functions %s are instrumented, and no library is generated for them" % short(s))


def wanted(s):
    """the types of the imports: the protocol between instrumented module and library"""
    I = ("I32",)
    return {
        "allocate_values_buffer": (s[1], I), "allocate_types_buffer": ((), I), "free_values_buffer": (I, ()), "free_types_buffer": (I, ()),
        "ret_store_all": (I + s[0], ()),
        "arg_load_n": [(I, (x,)) for x in s[1]], "ret_load_n": [(I, (x,)) for x in s[0]],
        "arg_store_n": [(I + (x,), ()) for x in s[1]], "ret_store_n": [(I + (x,), ()) for x in s[0]],
    }


def flat(im):
    for r in im:
        if isinstance(im[r], list):
            for i, x in enumerate(im[r]):
                yield "%s %d" % (r, i), x
        else:
            yield r, im[r]


def linked(c):
    """what is imported has the types of the protocol, and no two of the functions share a name"""
    seen = {}
    at = None
    for s in FAMILY:
        im, at = imports(c, s)
        c.note("signatures", short(s))
        want = wanted(s)
        for r in list(ROLES) + list(LISTS):
            got = [x[2:] for x in im[r]] if isinstance(im[r], list) else im[r][2:]
            if got != want[r]:
                c.violate("imports/%s/type" % r, at, "for functions %s, %s is imported as %s; the protocol has %s" % (short(s), r, got, want[r]))
        for r, x in flat(im):
            c.note("imports", x[1])
            if x[0] != NS:
                c.violate("imports/%s/namespace" % r.split()[0], at, "for functions %s, %s is imported from %s; the library is merged as %s" % (short(s), r, x[0], NS))
            if x[1] in seen and seen[x[1]] != (s, r):
                o = seen[x[1]]
                c.violate("imports/name of two", at, "%s is the name of %s for functions %s and of %s for functions %s" % (x[1], r, short(s), o[1], short(o[0])))
            seen[x[1]] = (s, r)


# ---------------------------------------------------------------- WebAssembly text
def library(c, lang, sigs):
    F = c.facts("core")
    E = Bodies(F)
    key = only([k for ty, k in methods(F, "wastrumentation::compiler::LibGeneratable", "generate_lib") if ty.startswith(lang + "::")], "generate_lib of " + lang)
    v, st = E.eval_fn(key, [t.lst([sig_term(E, s) for s in sigs])])
    c.note("functions", *[F.fns[x]["path"] for x in E.visited])
    if E.unknown:
        raise Undecided("calls without a model: %s" % ", ".join(sorted(E.unknown)))
    return t.proj(v, None, "content"), where(F, key)


class WatLib:
    name = "the WebAssembly library"

    def __init__(self, c, sigs):
        v, self.at = library(c, "wastrumentation_lang_webassembly", sigs)
        self.m = wat.Mod(text(t.proj(v, "Wat", "0"), "the library"))
        c.note("generated functions", *[f.name or f.exports[0] for f in self.m.funcs if f.name or f.exports])

    def type(self, name):
        f = self.m.exports.get(name)
        if f is None:
            return None
        up = lambda xs: tuple(x.upper() for x in xs)
        return up(x for _, x in f.params), up(f.results)

    def value(self, name):
        return wat.atom("value of", name)

    def zero(self, n):
        return wat.const(n)

    def start(self):
        return self.m.start()

    def call(self, s, name, args):
        out = self.m.call(name, args, s)
        if not out:
            raise wat.Bad("%s always traps" % name)
        if not all(x.full for x in self.m.traps):
            raise Undecided("whether %s traps" % name)
        return out

    def same(self, a, b):
        return a == b

    show = staticmethod(wat.show)

    def wild(self, s, since, p, by=None):
        """writes of a path outside what was allocated at p, or past the memory; `by` is where a later path that allocates nothing began"""
        end = self.top(s, since)
        below = wat.add(p, since.globals[self.moved(s, since)], -1)
        if not wat.isconst(below):
            raise Undecided("whether %s is free" % wat.show(p))
        if below[0] < 0:
            return "gives out %s, which is below what was free" % wat.show(p)
        for a, w, v in s.writes[len((by or since).writes):]:
            off = wat.add(a, p, -1)
            top = wat.add(end, a, -1)
            if not wat.isconst(off) or not wat.isconst(top):
                raise Undecided("where %s lies" % wat.show(a))
            if off[0] < 0 or top[0] < w:
                return "writes %d bytes at %s, outside what it allocated, which begins at %s and ends at %s" % (w, wat.show(a), wat.show(p), wat.show(end))
            if not self.fits(s, a, w):
                return "writes at %s without having made sure that the memory reaches that far (paths: %s)" % (
                    wat.show(a), "; ".join("%s is %s" % (wat.show(x), y) for x, y in s.facts[len(since.facts):]) or "none")
        return None

    def top(self, s, since):
        return s.globals[self.moved(s, since)]

    def moved(self, s, since):
        """the global that moved is where the free space begins"""
        moved = [g for g in s.globals if s.globals[g] != since.globals[g] and g != s.counter]
        if len(moved) != 1:
            raise Undecided("globals that move: %s" % moved)
        return moved[0]

    def fits(self, s, a, w):
        size = wat.mul(s.pages, wat.const(65536))
        for f, yes in s.facts:
            if len(f[1]) != 1 or f[1][0][0][0] != "cmp":
                continue
            op, x, y = f[1][0][0][1:]
            if not op.endswith("_u"):
                continue
            if (op[:2], yes) in (("gt", False), ("le", True)):
                lo, hi, strict = x, y, 0
            elif (op[:2], yes) in (("lt", False), ("ge", True)):
                lo, hi, strict = y, x, 0
            elif (op[:2], yes) == ("lt", True):
                lo, hi, strict = x, y, 1
            elif (op[:2], yes) == ("gt", True):
                lo, hi, strict = y, x, 1
            else:
                continue
            d, e = wat.add(lo, wat.add(a, wat.const(w)), -1), wat.add(size, hi, -1)
            if wat.isconst(d) and wat.isconst(e) and d[0] + strict >= 0 and e[0] >= 0:
                return True
        return False

    def account(self, s):
        if s.counter and s.globals[s.counter] != s.pages:
            return "the memory has %s pages where %s counts %s" % (wat.show(s.pages), s.counter, wat.show(s.globals[s.counter]))

    def given_back(self, s, before):
        """what is free after freeing what was allocated since `before`"""
        for g in s.globals:
            if g != s.counter and s.globals[g] != before.globals[g]:
                return "%s is %s, and was %s" % (g, wat.show(s.globals[g]), wat.show(before.globals[g]))


class AsLib(WatLib):
    name = "the AssemblyScript library"

    def __init__(self, c, sigs):
        v, self.at = library(c, "wastrumentation_lang_assemblyscript", sigs)
        self.m = aslib.Mod(text(v, "the library"))
        c.note("generated functions", *self.m.funcs)

    def type(self, name):
        f = self.m.exports.get(name)
        if f is None:
            return None
        ty = lambda x: aslib.WASM.get(x, x)
        return tuple(ty(x) for _, x in f.params), () if f.ret == "void" else (ty(f.ret),)

    def start(self):
        for n, f in self.m.exports.items():
            if n.startswith("allocate_"):
                s = self.m.counting(n, [self.value("argument")] * len(f.params))
                if s.counter:
                    return s
        return self.m.start()


class RustLib:
    name = "the Rust library"

    def __init__(self, c, sigs):
        v, self.at = library(c, "wastrumentation_lang_rust", sigs)
        part = lambda n: text(only([x.a[3][0] for x in v.a[3] if x.op == "ctor" and x.a[0].endswith("::" + n)] if v.op == "ctor" else [], n), n)
        self.m = rlib.Mod(rlib.built(part("RustSourceCode"), part("ManifestSource")))
        c.note("generated functions", *[f["path"] for f in self.m.exports.values()])

    def type(self, name):
        f = self.m.exports.get(name)
        if f is None:
            return None
        ty = lambda x: rlib.WASM.get(x, x)
        return tuple(ty(x) for x in f["locals"][1:1 + f["args"]]), () if f["locals"][0] == "()" else (ty(f["locals"][0]),)

    value = WatLib.value
    zero = WatLib.zero

    def start(self):
        return rlib.State()

    def call(self, s, name, args):
        return self.m.call(name, args, s)

    def same(self, a, b):
        return a == b

    show = staticmethod(rlib.show)

    def wild(self, s, since, p, by=None):
        if p not in s.live or p in since.live:
            return "gives out %s, which is not what it allocated" % rlib.show(p)
        size = s.live[p][0]
        if not wat.isconst(size):
            raise Undecided("how much %s is" % wat.show(size))
        for a, w, v in s.writes[len((by or since).writes):]:
            off = wat.add(a, p, -1)
            if not wat.isconst(off) or off[0] < 0 or off[0] + w > size[0]:
                return "writes %d bytes at %s, outside the %d bytes it allocated at %s" % (w, wat.show(a), size[0], wat.show(p))
        return None

    def account(self, s):
        return s.wrong

    def given_back(self, s, before):
        if s.wrong:
            return s.wrong
        left = [p for p, (n, _) in s.live.items() if p not in before.live and n != wat.const(0)]
        if left or any(p not in s.live for p in before.live):
            return "allocated are %s, and were %s" % (sorted(map(wat.show, s.live)), sorted(map(wat.show, before.live)))


def protocol(c, L, s, tag):
    """the functions of the library do for signature s what the instrumented module expects of them"""
    at, who = L.at, L.name
    im, _ = imports(c, s)
    what = "for functions %s%s" % (short(s), tag)
    key = "%s/" % type(L).__name__
    for r, x in flat(im):
        ty = L.type(x[1])
        if ty is None:
            c.violate(key + r.split()[0] + "/missing", at, "%s: the instrumented module imports %s, which %s does not export" % (what, x[1], who))
            return
        if ty != x[2:]:
            c.violate(key + r.split()[0] + "/type", at, "%s: %s is imported as %s and exported as %s" % (what, x[1], x[2:], ty))
            return
        c.note("exports", x[1])
    name = lambda r, i=None: (im[r] if i is None else im[r][i])[1]
    nr, na = len(s[0]), len(s[1])

    def bad(k, d):
        c.violate(key + k, at, "%s: %s" % (what, d))

    def slots(st, p, args, rets, when):
        """the values kept are these"""
        for side, vs, load in (("argument", args, "arg_load_n"), ("result", rets, "ret_load_n")):
            for i, w in enumerate(vs):
                if w is None:
                    continue
                for s1, (v,) in L.call(st, name(load, i), [p]):
                    if not L.same(v, w):
                        bad("%s lost" % side, "%s, %s %d reads as %s; it is %s" % (when, side, i, L.show(v), L.show(w)))
                        return False
                ty = (s[1] if side == "argument" else s[0])[i].lower()
                for s1, (v,) in L.call(st, "wastrumentation_stack_load_" + ty, [p, L.zero(i + (nr if side == "argument" else 0))]):
                    if not L.same(v, w):
                        bad("%s slot" % side, "%s, slot %d read as %s gives %s; the %s %d there is %s" % (when, i + (nr if side == "argument" else 0), ty, L.show(v), side, i, L.show(w)))
                        return False
        return True

    args = [L.value("argument %d" % i) for i in range(na)]
    rets = [L.value("result %d" % i) for i in range(nr)]
    s0 = L.start()
    n = 0
    for s1, (p,) in L.call(s0, name("allocate_values_buffer"), args):
        n += 1
        d = (na + nr) and L.wild(s1, s0, p)
        d = d or L.account(s1)
        if d:
            bad("allocate", "%s: %s" % (name("allocate_values_buffer"), d))
            return
        none = [None] * nr
        if not slots(s1, p, args, none, "after allocating"):
            return
        for s2, _ in L.call(s1, name("ret_store_all"), [p] + rets):
            d = (na + nr) and L.wild(s2, s0, p, s1)
            if d:
                bad("ret_store_all", "%s: %s" % (name("ret_store_all"), d))
                return
            if not slots(s2, p, args, rets, "after storing the results"):
                return
            for side, vs, store in (("argument", args, "arg_store_n"), ("result", rets, "ret_store_n")):
                for i in range(len(vs)):
                    new = L.value("new")
                    mine = list(vs)
                    mine[i] = new
                    ty = (s[1] if side == "argument" else s[0])[i].lower()
                    k = i + (nr if side == "argument" else 0)
                    for fn, a in ((name(store, i), [p, new]), ("wastrumentation_stack_store_" + ty, [p, new, L.zero(k)])):
                        for s3, _ in L.call(s2, fn, a):
                            d = L.wild(s3, s0, p, s2)
                            if d:
                                bad("store", "%s: %s" % (fn, d))
                                return
                            if not slots(s3, p, mine if side == "argument" else args, mine if side == "result" else rets, "after %s of %s %d" % (fn, side, i)):
                                return
            for s3, (q,) in L.call(s2, name("allocate_types_buffer"), []):
                d = ((na + nr) and L.wild(s3, s2, q)) or L.account(s3)
                if d:
                    bad("allocate types", "%s: %s" % (name("allocate_types_buffer"), d))
                    return
                for i, ty in enumerate(s[0] + s[1]):
                    for s4, (v,) in L.call(s3, "wastrumentation_stack_load_type", [q, L.zero(i)]):
                        if not L.same(v, L.zero(CODE[ty])):
                            bad("types", "type %d of %s reads as %s; %s is %d" % (i, list(s[0] + s[1]), L.show(v), ty, CODE[ty]))
                            return
                if not slots(s3, p, args, rets, "after storing the types"):
                    return
                for s4, _ in L.call(s3, name("free_types_buffer"), [q]):
                    d = L.given_back(s4, s2)
                    if d:
                        bad("free types", "after %s: %s" % (name("free_types_buffer"), d))
                        return
                    if not slots(s4, p, args, rets, "after freeing the types"):
                        return
                    for s5, _ in L.call(s4, name("free_values_buffer"), [p]):
                        d = L.given_back(s5, s0)
                        if d:
                            bad("free", "after %s: %s" % (name("free_values_buffer"), d))
                            return
    if not n:
        bad("allocate/never", "%s never returns" % name("allocate_values_buffer"))


def checked(c, mk, sigs, which, tag):
    try:
        L = mk(c, sigs)
    except wat.Bad as e:
        c.violate("%s/invalid" % mk.__name__, "the library generated" + tag, "%s generated for functions %s is no valid module: %s" % (mk.name, "; ".join(map(short, sigs)), e))
        return
    for s in which:
        try:
            protocol(c, L, s, tag)
        except wat.Bad as e:
            c.violate("%s/invalid" % mk.__name__, "the library generated" + tag, "for functions %s%s, in %s %s" % (short(s), tag, mk.name, e))


@prop("C12", ["core"], "the imports of an instrumented module and the text of the stack libraries are computed by evaluating the MIR of their generators on a family of "
      "signatures (alone, together, repeated and reversed); the generated WebAssembly is parsed, the generated Rust compiled to MIR, and their functions are followed with symbols "
      "for arguments, results, memory size, free pointer and allocations",
      "every import is exported with its type; what is stored for an argument, result or type is what is loaded for it, at the published slot; writes stay inside the allocation and the memory; freeing gives back what was allocated")
def c12(c):
    c.obligation("imports", lambda: linked(c))
    c.obligation("chosen", lambda: chosen(c))
    todo = {}
    for mk in (WatLib, RustLib, AsLib):
        for s in FAMILY:
            todo["%s: %s alone" % (mk.__name__, short(s))] = (mk, [s], [s], " alone")
        todo["%s: all" % mk.__name__] = (mk, FAMILY, FAMILY, " among others")
        todo["%s: repeated" % mk.__name__] = (mk, FAMILY[::-1] + FAMILY, FAMILY, " with repetitions")
    c.parallel(todo, lambda n: checked(c, *todo[n]))

"""The static analysis that tells which functions touch nothing but their locals."""
from .. import terms as t
from ..spec import prop, Undecided, where
from ..wasm import W, ft
from ..mirflow import Dead, norm
from .core import only, amodule
from .structure import Bodies, plain, flatten

SA = "wastrumentation_static_analysis::"
IMPURE = ("CallIndirect", "Global", "TableGet", "TableSet", "TableSize", "TableGrow", "TableFill", "TableCopy", "TableInit", "ElemDrop", "Load", "Store",
          "MemorySize", "MemoryGrow", "MemoryFill", "MemoryCopy", "MemoryInit", "DataDrop")


class Purity(Bodies):
    """printing on the standard output is an effect; nothing else of a module matters"""

    def __init__(self, F):
        Bodies.__init__(self, F)
        self.prints = []
        self.hooks["std::io::_print"] = self.h_print

    def h_print(self, E, st, d, a):
        f = self.stack[-1] if self.stack else None
        self.prints.append(self.F.fns[f]["path"] if f else "?")
        from ..models import UNIT
        return UNIT

    def func(self, tree):
        """None: an import"""
        B = self.build
        code = B(W + "ImportOrPresent", "Import", _0=t.sym("m"), _1=t.sym("n")) if tree is None else \
            B(W + "ImportOrPresent", "Present", _0=B(W + "Code", locals=t.sym("locals"), body=t.lst([x for x, _ in flatten(self, tree)] + [self.flat("End")])))
        return B(W + "Function", type_=ft(t.EMPTY, t.EMPTY), code=code, export=t.sym("exports"), name=t.sym("name"))

    def call_to(self, n):
        return self.instr(W + "Instr", "Call", [t.num(n)])


def places(E, k):
    """the instruction made by k, at every place of a body"""
    i = lambda: E.flat("Const")
    f = E.flat
    return {
        "alone": [k()], "after another": [i(), k()], "before another": [k(), i()],
        "in a block": [i(), (f("Block"), [i(), k()])], "first in a block": [(f("Block"), [k(), i()]), i()], "in a loop": [i(), (f("Loop"), [i(), k()]), i()],
        "in an if": [(f("If"), [i(), k()]), i()], "in a then": [(f("If"), [i(), k()], [i()])], "in an else": [(f("If"), [i()], [i(), k()])],
        "behind a block": [(f("Block"), [i()]), k()], "behind an else": [(f("If"), [i()], [i()]), k()], "behind an if": [(f("If"), [i()]), k()],
        "deep": [(f("Block"), [(f("Loop"), [(f("If"), [i()], [(f("Block"), [i(), k()])])])])],
    }


def reported(c, E, funcs):
    key = c.fn("core", SA + "immutable_functions")
    v, st = E.eval_fn(key, [amodule(E, funcs)])
    c.note("functions", *[E.F.fns[x]["path"] for x in E.visited])
    els = t.elements(v.a[0]) if v.op == "set" else t.elements(v)
    if els is None or not all(t.is_const(x) for x in els):
        raise Undecided("the functions reported: " + t.show(v)[:300])
    return set(t.cval(x) for x in els), where(E.F, key)


def silent(c, E, at):
    for f in E.prints:
        c.violate("prints/" + f, at, "%s prints on the standard output, where the result may be written" % f)


def kind(c, k):
    """an instruction kind, at every place"""
    E = Purity(c.facts("core"))
    ps = places(E, lambda: E.flat(k))
    funcs = [E.func(None)] + [E.func(b) for b in ps.values()]
    got, at = reported(c, E, funcs)
    c.note("instruction kinds", k)
    for n, p in enumerate(ps):
        c.note("bodies", "%s %s" % (k, p))
        if k in IMPURE and n + 1 in got:
            c.violate("%s/%s" % (k, p), at, "a function with %s %s is reported as touching only its locals" % (k, p))
        if k not in IMPURE and n + 1 not in got:
            c.violate("%s/%s" % (k, p), at, "a function with %s %s is not reported although it touches only its locals" % (k, p))
    if 0 in got:
        c.violate("import", at, "an imported function is reported")
    silent(c, E, at)


def graphs():
    """name -> for each function: None (import) or (touches state, the functions it calls)"""
    g = {
        "no functions": [],
        "imports only": [None, None],
        "calls a pure one before it": [(0, ()), (0, (0,))],
        "calls a pure one after it": [(0, (1,)), (0, ())],
        "calls an impure one before it": [(1, ()), (0, (0,))],
        "calls an impure one after it": [(0, (1,)), (1, ())],
        "calls an import": [None, (0, (0,)), (0, (1,)), (0, ())],
        "a chain up": [(0, (1,)), (0, (2,)), (0, (3,)), (0, (4,)), (0, ())],
        "a chain down": [(0, ()), (0, (0,)), (0, (1,)), (0, (2,)), (0, (3,))],
        "an impure chain up": [(0, (1,)), (0, (2,)), (0, (3,)), (0, (4,)), (1, ())],
        "an impure chain down": [None, (0, (0,)), (0, (1,)), (0, (2,)), (0, (3,))],
        "calls itself": [(0, (0,)), (0, (0,)), (1, (2,)), (0, (2,)), (0, (4, 0))],
        "calls itself and an impure one": [(1, ()), (0, (1, 0)), (0, (0, 2))],
        "call each other": [(0, (1,)), (0, (0,)), (0, (0,))],
        "call each other, one impure": [(0, (1,)), (1, (0,)), (0, (0,))],
        "a cycle that leaves to an import": [None, (0, (2,)), (0, (3,)), (0, (1, 0)), (0, (1,))],
        "several callees, the last impure": [(0, ()), (1, ()), (0, (0, 0, 1)), (0, (0, 0)), (0, (3, 2))],
        "several callees, the first impure": [(1, ()), (0, ()), (0, (0, 1, 1)), (0, (1, 2))],
        "a diamond": [(0, (1, 2)), (0, (3,)), (0, (3,)), (0, ())],
        "an impure diamond": [(0, (1, 2)), (0, (3,)), (0, (4,)), (0, ()), None],
        "a pure one between impure ones": [(1, ()), (0, ()), (1, ()), (0, (1,)), (0, (2,))],
    }
    return g


def bounds(g):
    """the functions that must be reported (least fixpoint), and those that may be (greatest)"""
    n = range(len(g))
    ok = lambda i, s: g[i] is not None and not g[i][0] and all(j == i or j in s for j in g[i][1])
    lo, hi = set(), set(n)
    while True:
        s = {i for i in n if ok(i, lo)}
        if s == lo:
            break
        lo = s
    while True:
        s = {i for i in n if ok(i, hi)}
        if s == hi:
            break
        hi = s
    return lo, hi


def graph(c, name, at_place):
    E = Purity(c.facts("core"))
    g = graphs()[name]
    funcs = []
    for f in g:
        if f is None:
            funcs.append(E.func(None))
            continue
        body = [E.flat("Const")]
        for j in f[1]:
            body += places(E, lambda: E.call_to(j))[at_place]
        if f[0]:
            body.append(E.flat("Global"))
        funcs.append(E.func(body))
    got, at = reported(c, E, funcs)
    lo, hi = bounds(g)
    c.note("call graphs", name)
    if got - hi:
        c.violate("%s/reported" % name, at, "%s (calls %s): functions %s are reported although they call or are ones that touch more than their locals; functions: %s" % (
            name, at_place, sorted(got - hi), g))
    if lo - got:
        c.violate("%s/missing" % name, at, "%s (calls %s): functions %s touch only their locals, as all they call do, but are not reported; functions: %s" % (
            name, at_place, sorted(lo - got), g))
    silent(c, E, at)


# ---------------------------------------------------------------- the command line
class Tool(Purity):
    def __init__(self, F, args, module, fail):
        Purity.__init__(self, F)
        self.fail = fail
        h = self.hooks
        h["clap::Parser::parse"] = lambda E, st, d, a: args
        h[W + "Module::from_bytes"] = self.h_read
        h[SA + "immutable_functions"] = lambda E, st, d, a: t.mk("set", t.lst([t.num(2), t.num(0), t.num(3)]))
        h["serde_json::ser::to_vec"] = h["serde_json::to_vec"] = self.h_json
        h["serde_json::ser::to_string"] = h["serde_json::to_string"] = self.h_json
        self.module = module
        self.order = None

    def h_read(self, E, st, d, a):
        self.event(st, "parse", self.v(st, a[0]))
        return t.err(t.sym("failure")) if self.fail == "parse" else t.ok(t.tup([self.module, t.sym("offsets"), t.sym("issues")]))

    def h_json(self, E, st, d, a):
        return t.err(t.sym("failure")) if self.fail == "json" else t.ok(t.mk("call", "json", self.v(st, a[0])))

    def io(self, st, name, *args):
        r = Bodies.io(self, st, name, *args)
        return t.err(t.sym("io failure")) if self.fail == name or (self.fail == "write" and name.startswith("write")) else t.ok(t.mk("val", r))


def tool(c, minimum, fail):
    F = c.facts("core")
    key = c.find("core", lambda k, f: f["path"] == SA.replace("::", "_main::") + "main" or (f["path"].endswith("::main") and "static_analysis" in f["path"].lower() + f["file"].replace("-", "_") and not f["closure"]),
                 "main of the static analysis")
    at = where(F, key)
    E0 = Purity(F)
    sizes = {0: 5, 1: 9, 2: 3, 3: 4}
    body = lambda n: E0.func([E0.flat("Const") for _ in range(n - 1)])
    module = amodule(E0, [body(sizes[i]) for i in sorted(sizes)])
    adt = only([a for a in F.adts if a.endswith("::Args") and "static_analysis" in a], "the arguments")
    m = t.NONE if minimum is None else t.some(t.num(minimum))
    args = E0.build(adt, input_program_path=t.sym("input path"), output_path=t.sym("output path"), minimum_body=m)
    E = Tool(F, args, module, fail)
    what = "with %s" % ("no minimum" if minimum is None else "a minimum of %d" % minimum)
    try:
        v, st = E.eval_fn(key, [])
    except Dead:
        if fail:
            return
        c.violate("panics", at, "%s: the tool panics although nothing failed" % what)
        return
    c.note("functions", *[F.fns[x]["path"] for x in E.visited])
    lab = t.lab_of(t.disc(v))
    if lab is None:
        raise Undecided("main gives " + t.show(v)[:300])
    if fail:
        if lab == "Ok":
            c.violate("ignores/" + fail, at, "%s: the tool reports success although %s failed" % (what, fail))
        return
    if lab == "Err":
        c.violate("spurious error", at, "%s: the tool fails although nothing did" % what)
        return
    if E.unknown:
        raise Undecided("calls without a model: %s" % ", ".join(sorted(E.unknown)))
    ev = t.elements(st.c.get(("ev",), t.EMPTY))
    if ev is None:
        raise Undecided("effects of main: " + t.show(st.c[("ev",)])[:300])
    ev = [(x.a[0], x.a[1:]) for x in ev]
    parsed = [a[0] for n, a in ev if n == "parse"]
    if len(parsed) != 1 or not t.contains(parsed[0], t.sym("input path")):
        c.violate("input", at, "%s: what is analysed is not the content of the input program: %s" % (what, [t.show(x)[:200] for x in parsed]))
    outs = [(n, a) for n, a in ev if n.startswith("write")]
    if len(outs) != 1 or outs[0][0] != "write_all":
        c.violate("output", at, "%s: the result is written by %s, which need not write all of it" % (what, [n for n, _ in outs] or "nothing"))
        return
    c.same("output/file", outs[0][1][0], t.sym("output path"), at, "%s: where the result is written" % what)
    data = outs[0][1][1]
    if not (data.op == "call" and data.a[0] == "json"):
        raise Undecided("what is written: " + t.show(data)[:300])
    els = t.elements(data.a[1])
    if els is None or not all(t.is_const(x) for x in els):
        raise Undecided("what is written: " + t.show(data)[:300])
    got = sorted(t.cval(x) for x in els)
    want = [i for i in (0, 2, 3) if minimum is None or sizes[i] >= minimum]
    if got != want:
        c.violate("output/minimum", at, "%s: of the functions 0, 2 and 3 found, of %d, %d and %d instructions, %s are written" % (what, sizes[0], sizes[2], sizes[3], got))
    silent(c, E, at)


def contexts(E):
    """bodies with two holes"""
    i = lambda: [E.flat("Const")]
    f = E.flat
    return {
        "one after the other": lambda a, b: a + i() + b,
        "in then and else": lambda a, b: [(f("If"), a, b)],
        "in then and behind the if": lambda a, b: [(f("If"), a)] + b,
        "in then and behind the else": lambda a, b: [(f("If"), a, i())] + b,
        "in else and behind it": lambda a, b: [(f("If"), i(), a)] + b,
        "in a block and behind it": lambda a, b: [(f("Block"), a)] + b,
        "before and in a block": lambda a, b: a + [(f("Block"), b)],
        "in a loop and behind it": lambda a, b: [(f("Loop"), a)] + b,
        "in a loop of a block and in that block": lambda a, b: [(f("Block"), [(f("Loop"), a)] + b)],
        "in two blocks": lambda a, b: [(f("Block"), a), (f("Block"), b)],
        "in then of an else and in its else": lambda a, b: [(f("If"), i(), [(f("If"), a, b)])],
        "before an if and in its else": lambda a, b: a + [(f("If"), i(), b)],
    }


# the functions around those with two holes: an import, a pure one, one that writes, two that call each other, one that calls the pure one
AROUND = [None, (0, ()), (1, ()), (0, (4,)), (0, (3,)), (0, (1,))]
# what the holes are filled with: (touches state, the functions it calls; -1 is the function itself)
FILL = {"a constant": (0, ()), "a call of itself": (0, (-1,)), "a call of a pure one": (0, (5,)), "a write": (1, ()), "a call of an import": (0, (0,)),
        "a call of one that writes": (0, (2,)), "a call into a cycle": (0, (3,))}


def pair(c, ctx):
    """two constructs in one body, of every two sorts"""
    E = Purity(c.facts("core"))
    shape = contexts(E)[ctx]
    names, g, funcs = [], list(AROUND), []

    def fill(x, me):
        return [E.flat("Global")] if x[0] else [E.call_to(me if j < 0 else j) for j in x[1]] or [E.flat("Const")]

    for f in AROUND:
        funcs.append(E.func(None) if f is None else E.func([y for x in ([(1, ())] if f[0] else []) + [(0, (j,)) for j in f[1]] for y in fill(x, 0)]))
    for a in FILL:
        for b in FILL:
            me = len(g)
            x, y = FILL[a], FILL[b]
            g.append((x[0] or y[0], tuple(me if j < 0 else j for j in x[1] + y[1])))
            funcs.append(E.func(shape(fill(x, me), fill(y, me))))
            names.append("%s and %s" % (a, b))
    got, at = reported(c, E, funcs)
    lo, hi = bounds(g)
    for i in range(len(g)):
        n = names[i - len(AROUND)] if i >= len(AROUND) else "function %d" % i
        c.note("bodies", "%s: %s" % (ctx, n))
        if i in got and i not in hi:
            c.violate("%s/%s" % (ctx, n), at, "a function with %s %s is reported although it touches more than its locals" % (n, ctx))
        if i in lo and i not in got:
            c.violate("%s/%s" % (ctx, n), at, "a function with %s %s is not reported although it touches only its locals" % (n, ctx))


@prop("C17", ["core"], "immutable_functions (and the structuring it uses) is evaluated over its MIR on modules whose functions hold each kind of instruction at each place "
      "of a body, and on call graphs with imports, chains, cycles and diamonds; main() of the tool with each effect failing",
      "the functions reported lie between the least and the greatest solution of: has a body, no instruction that reads or writes globals, tables or memory or calls indirectly, "
      "and calls only itself and such functions; the whole list, filtered by size, is what is written")
def c17(c):
    F = c.facts("core")
    todo = {}
    for k in plain(F):
        if k != "Call":
            todo["instruction " + k] = (kind, k)
    ps = list(places(Purity(F), lambda: None))
    for g in graphs():
        for p in (ps if c.tier == "thorough" else ["alone", "in a block", "in an else", "behind an if"]):
            todo["calls %s: %s" % (p, g)] = (graph, g, p)
    for x in contexts(Purity(F)):
        todo["pairs " + x] = (pair, x)
    for m in (None, 3, 4, 5, 6):
        todo["tool, minimum %s" % m] = (tool, m, None)
    for f in ("read_to_end", "parse", "json", "write"):
        todo["tool, failing " + f] = (tool, None, f)
    c.parallel(todo, lambda n: todo[n][0](c, *todo[n][1:]))

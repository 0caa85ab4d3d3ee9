"""The AssemblyScript analysis made of an aspect: what it exports, and what the objects handed to the guest code mean."""
import itertools
from .. import terms as t
from .. import aslib, wat, hooks as H
from ..spec import prop, Undecided, where
from ..wasm import WasmEng
from ..wat import Bad
from .core import A, only
from .system import fields, wanted, NAMES
from .wasp import forms, apply_gen, ident, guest, Build
from .wasp import A as AST

L = "wastrumentation_lang_assemblyscript::generate::analysis::"
STACK, TARGET = "wastrumentation_stack", "instrumented_input"
TYPES = {"i32": 0, "f32": 1, "i64": 2, "f64": 3}
I32, MAX = "i32", (1 << 31) - 1


class Kind:
    """one advice form: the trap it asks for, its formals, and what is visible through them"""

    def __init__(self, form, field, formals):
        self.form, self.field, self.formals = form, field, formals


def cond(yes, no):
    return lambda v: {"is_" + yes: v != 0, "is_" + no: v == 0, "continue_" + yes: True, "continue_" + no: False}


# form -> (field, {formal: (parameter, its members, given the parameter's value)})
IDX = lambda n: lambda v: {n: v}
KINDS = {
    "if_then": ("if_then_trap", {"cond": (0, cond("then", "skip"))}),
    "if_then_else": ("if_then_else_trap", {"cond": (0, cond("then", "else"))}),
    "br_if": ("br_if_trap", {"cond": (0, cond("branch", "skip")), "label": (1, IDX("label"))}),
    "br_table": ("br_table_trap", {"label": (0, IDX("target")), "default": (2, IDX("deflt"))}),
    "select": ("select", {"cond": (0, cond("then", "else"))}),
    "call pre": ("pre_trap_call", {"fn": (0, IDX("index"))}),
    "call post": ("post_trap_call", {"fn": (0, IDX("index"))}),
    "call_indirect pre": ("pre_trap_call_indirect", {"table": (1, IDX("index")), "index": (0, IDX("index"))}),
    "call_indirect post": ("post_trap_call_indirect", {"table": (0, IDX("index"))}),
    "block pre": ("pre_block", {}), "block post": ("post_block", {}), "loop pre": ("pre_loop", {}), "loop post": ("post_loop", {}),
    "apply": ("generic_interface", None),
}
GENERIC = (["I32"] * 7, [])


def advices(F):
    """kind -> (function of a tag: the advice with its own names, text of a formal's symbol)"""
    B = Build(F)
    out = {f.name: (lambda tag, n=f.name: next(x for x in forms(B, tag) if x.name == n).meaning) for f in forms(B)}

    def apply(tag, means="MutableDynamic"):
        s = lambda n: t.sym(n + tag)
        sig = B(AST + "ApplyHookSignature", "Gen", _0=B(AST + "ApplyGen", generic_means=B(AST + "GenericTarget", means),
                parameter_function=s("func"), parameter_arguments=s("args"), parameter_results=s("ress")))
        return B(AST + "AdviceDefinition", "AdviceTrap", _0=B(AST + "TrapSignature", "TrapApply", _0=B(AST + "TrapApply", apply_hook_signature=sig, body=s("guest"))))
    out["apply"] = apply
    return out


# ---------------------------------------------------------------- what the generator makes
def process(c, defs, fail=False):
    """try_into of an aspect of these advices: (its result, where)"""
    F = c.facts("core")
    key = only([k for k, f in F.fns.items() if f["local"] and not f["closure"] and f["path"].endswith("::try_into") and L + "WaspAnalysisSpec" in k], "try_into of WaspAnalysisSpec")
    E = WasmEng(F)
    E.concrete = True
    root = Build(F)(AST + "Root", _0=t.lst(defs))
    given = []

    def compiled(E_, st, d, a):
        given.append(E.snapshot(st, a[0]))
        return t.err(t.sym("fault")) if fail else t.ok(E.build("wasp_compiler::CompilationResult", wasp_root=root, join_points=t.sym("join points")))
    E.hooks["wasp_compiler::compile"] = compiled
    v, st = E.eval_fn(key, [E.build(L + "WaspAnalysisSpec", wasp_source=t.sym("source"))])
    c.note("functions", *[F.fns[x]["path"] for x in E.visited])
    return v, where(F, key), given


def text(term, env, c, at, what):
    """the text with the symbols of names and guest code replaced"""
    out = []
    for x in term.a[0] if term.op == "cat" else (term,):
        if x.op == "const" and isinstance(t.cval(x), str):
            out.append(t.cval(x))
        elif x.op == "sym" and x.a[0] in env:
            out.append(env[x.a[0]])
        else:
            inside = [n for n in env if t.contains(x, t.sym(n))]
            raise Undecided("%s: the text holds %s%s" % (what, t.show(x)[:200], " (made of %s)" % ", ".join(inside) if inside else ""))
    return "".join(out)


def program(c, defs, what):
    v, at, given = process(c, defs)
    lab = t.lab_of(t.disc(v))
    if lab == "Err":
        c.violate("refused/" + what, at, "%s: an aspect that compiles gives an error: %s" % (what, t.show(v)[:300]))
        return None
    if lab is None:
        raise Undecided("%s: try_into gives %s" % (what, t.show(v)[:300]))
    c.same("source", given[0] if len(given) == 1 else t.lst(given), t.sym("source"), at, "what is compiled as the aspect")
    v = t.proj(v, "Ok", "0")
    return t.proj(v, None, "analysis_interface"), t.proj(v, None, "analysis_library"), at


def check_interface(c, got, kinds, at, what):
    E = WasmEng(c.facts("core"))
    on = {KINDS[k][0] for k in kinds}
    for f in fields(c.facts("core")):
        x = t.proj(got, None, f)
        lab = t.lab_of(t.disc(x))
        if lab is None:
            raise Undecided("%s of the interface of %s: %s" % (f, what, t.show(x)[:200]))
        if (lab == "Some") != (f in on):
            c.violate("interface/%s/%s" % (f, lab), at, "%s: the interface %s %s" % (what, "asks for" if lab == "Some" else "lacks", f))
            continue
        if lab == "Some":
            x = t.proj(x, "Some", "0")
            if f == "generic_interface":
                x = t.proj(x, None, "0")
            c.same("interface/" + f, x, wanted(E, f), at, "%s: the export asked for as %s" % (what, f))


def export_type(f):
    ty = lambda x: aslib.WASM.get(x, x)
    return [ty(x) for _, x in f.params], [] if f.ret == "void" else [ty(f.ret)]


def load(c, src, kinds, at, what):
    try:
        m = aslib.Mod(src)
    except Bad as e:
        c.violate("text/" + what, at, "%s: the AssemblyScript generated is no program: %s" % (what, e))
        return None
    c.note("generated functions", *m.funcs)
    want = {NAMES[KINDS[k][0]]: GENERIC if k == "apply" else tuple(H.SIG[KINDS[k][0]]) for k in kinds}
    for n in sorted(set(want) | set(m.exports)):
        if n not in want:
            c.violate("export/" + n, at, "%s: the analysis exports %s, which no advice asks for" % (what, n))
        elif n not in m.exports:
            c.violate("export/" + n, at, "%s: the analysis does not export %s" % (what, n))
        elif export_type(m.exports[n]) != tuple(want[n]):
            c.violate("export type/" + n, at, "%s: the analysis exports %s as %s, and the program calls it as %s" % (what, n, export_type(m.exports[n]), want[n]))
    return None if c.viol else m


# ---------------------------------------------------------------- running a trap
def arg(i):
    return wat.atom("arg", i)


def number(x, env):
    """the value of a term under an assignment of its atoms, or None"""
    n = x[0]
    for a, k in x[1]:
        if a in env:
            n += k * env[a]
        elif a[0] == "cmp":
            l, r = number(a[2], env), number(a[3], env)
            if l is None or r is None:
                return None
            op = a[1]
            if op.endswith("_u"):
                l, r = l % (1 << 32), r % (1 << 32)
            n += k * int({"eq": l == r, "ne": l != r, "lt": l < r, "gt": l > r, "le": l <= r, "ge": l >= r}[op[:2]])
        else:
            return None
    return n


def constants(x, out):
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == "cmp":
            for y in x[2:]:
                out.add(y[0])
        for y in x:
            constants(y, out)


def run(c, m, name, n):
    """the paths of an exported trap: (facts, trace, what it returns | 'trap')"""
    s = m.start()
    f = m.exports[name]
    m.traps = []
    out = [(s2.facts, s2.globals.get(("trace",), ()), r[0] if r else None) for s2, r in m.call(name, [arg(i) for i in range(n)], s)]
    return out + [(s2.facts, s2.globals.get(("trace",), ()), "trap") for s2 in m.traps]


def tested(paths):
    """the arguments that tests look at"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "arg":
                out.add(x)
            for y in x:
                go(y)
    for fs, _, _ in paths:
        for x, _ in fs:
            go(x)
    return out


def decide(paths, atoms, want, c, key, at, what):
    """on every assignment of the atoms the one path taken does what is wanted.
    The tests of a path compare the atoms with each other and with constants, so the orderings of these cover all values."""
    cs = {0}
    for fs, _, _ in paths:
        for x, _ in fs:
            constants(x, cs)
    if any(abs(x) > 64 for x in cs):
        raise Undecided("%s: the tests compare with %s" % (what, sorted(cs)))
    atoms = list(atoms) + sorted(tested(paths) - set(atoms))
    vals = sorted({x + d for x in cs for d in (-1, 0, 1, 2)} | {MAX, -MAX - 1})
    n = 0
    for combo in itertools.product(vals, repeat=len(atoms)):
        env = dict(zip(atoms, combo))
        case = ", ".join("%s = %d" % (wat.show((0, ((a, 1),))), v) for a, v in env.items())
        expected = want(env)
        if expected is None:       # not a situation that arises
            continue
        taken = []
        for fs, tr, r in paths:
            vs = [number(x, env) for x, _ in fs]
            if None in vs:
                raise Undecided("%s: a test on %s" % (what, wat.show(fs[vs.index(None)][0])))
            if all(bool(v) == yes for v, (_, yes) in zip(vs, fs)):
                taken.append((tr, r))
        if len(taken) != 1:
            raise Undecided("%s, %s: %d paths" % (what, case, len(taken)))
        n += 1
        d = differ(taken[0], expected, env)
        if d:
            c.violate(key, at, "%s, %s: %s" % (what, case, d))
            return
    c.note("assignments decided", "%s: %d" % (what, n))


def same(got, want, env):
    if isinstance(want, bool):
        v = number(got, env)
        return None if v is None else bool(v) == want
    if isinstance(want, int):
        want = wat.const(want)
    if got == want:
        return True
    a, b = number(got, env), number(want, env)
    return None if a is None or b is None else a == b


def differ(got, want, env):
    (tr, r), (wtr, wr) = got, want
    say = lambda e: "%s%s" % (e[0] if e[0] == "probe" else ".".join(e[1]), tuple(wat.show(x[1] if e[0] == "probe" else x) for x in (e[2:] if e[0] == "probe" else e[4])))
    for i, w in enumerate(wtr):
        if i >= len(tr):
            return "it stops before %s" % (w,)
        g = tr[i]
        if g[0] != w[0] or g[1] != w[1]:
            return "it does %s where %s belongs" % (say(g), w[1])
        gv, wv = ([x for _, x in g[2:]], w[2]) if g[0] == "probe" else (g[4], w[2])
        if g[0] == "call" and (tuple(aslib.WASM.get(x, x) for x in g[2]), aslib.WASM.get(g[3], g[3])) != w[3]:
            return "%s is imported with the type %s -> %s" % (".".join(g[1]), g[2], g[3])
        if len(gv) != len(wv):
            return "it does %s" % say(g)
        for x, y in zip(gv, wv):
            k = same(x, y, env)
            if k is None:
                k = False
            if not k:
                return "%s is %s, not %s" % ("what the guest code sees" if g[0] == "probe" else "an argument of " + ".".join(g[1]), wat.show(x), y if isinstance(y, (bool, int)) else wat.show(y))
        if g[0] == "probe" and len(w) > 3 and tuple(a for a, _ in g[2:]) != w[3]:
            return "the guest code sees a %s" % (tuple(a for a, _ in g[2:]),)
    if len(tr) > len(wtr):
        return "it also does %s" % say(tr[len(wtr)])
    if (r == "trap") != (wr == "trap"):
        return "it traps" if r == "trap" else "it does not trap"
    if r != "trap" and r != wr and not (r is not None and wr is not None and same(r, wr, env)):
        return "it returns %s, not %s" % (r and wat.show(r), wr and wat.show(wr))
    return None


ANY = lambda n: wat.atom("any", n)
C, R = ANY("__c"), ANY("__r")


def symbols(kind, tag, code):
    names = list(KINDS[kind][1] or ("func", "args", "ress")) if kind != "global" else []
    e = {n + tag: "formal_%s%s" % (n, tag) for n in names}
    e["guest" + tag] = code
    return e


def one_kind(c, kind):
    """an aspect of one advice"""
    F = c.facts("core")
    d = advices(F)[kind]("")
    what = "an aspect with '%s' only" % kind
    p = program(c, [d], what)
    if p is None:
        return
    iface, lib, at = p
    check_interface(c, iface, [kind], at, what)
    field, formals = KINDS[kind]
    name = NAMES[field]
    args, res = GENERIC if kind == "apply" else H.SIG[field]

    def go(tag, code, atoms, want):
        m = load(c, text(lib, symbols(kind, "", code), c, at, what), [kind], at, what)
        if m is None:
            return
        decide(run_safely(c, m, name, len(args), at, "%s, guest code '%s'" % (what, code)), atoms, want, c, "%s/%s" % (kind, tag), at, "%s, guest code '%s'" % (what, code))
    atoms = [("arg", i) for i in range(1)]
    back = arg(0) if res else None
    P = lambda n, *vs: ("probe", "__probe%d" % n, vs)
    # the guest code runs once and may leave the trap, with a value of its own; its last line may be a comment
    go("early", "__probe0(); if (__c) return%s; __probe1(); // end" % (" __r" if res else ""), [("any", "__c"), ("arg", 0)],
       lambda e: ((P(0),), R if res else None) if e["any", "__c"] else ((P(0), P(1)), back))
    if kind == "apply":
        apply_kind(c, go, P)
        return
    for formal, (i, members) in formals.items():
        for mem in members(0):
            def want(e, i=i, mem=mem, members=members):
                v = members(e.get(("arg", i)))[mem]
                return (P(0, arg(i) if v == e.get(("arg", i)) and not isinstance(v, bool) else v),), back
            go("%s.%s" % (formal, mem), "__probe0(formal_%s.%s);" % (formal, mem), [("arg", i)], want)
    if len(formals) > 1:
        def want(e):
            vs = []
            for formal, (i, members) in formals.items():
                for v in members(e["arg", i]).values():
                    vs.append(arg(i) if not isinstance(v, bool) else v)
            return (P(0, *vs),), back
        go("together", "__probe0(%s);" % ", ".join("formal_%s.%s" % (f, mem) for f, (i, ms) in formals.items() for mem in ms(0)),
           sorted({("arg", i) for i, _ in formals.values()}), want)


def run_safely(c, m, name, n, at, what):
    try:
        return run(c, m, name, n)
    except Bad as e:
        c.violate("program/" + name, at, "%s: the AssemblyScript generated is no program: %s" % (what, e))
        raise Stop()


class Stop(Exception):
    pass


def apply_kind(c, go, P):
    """what the objects of a generic apply do: f_apply, instr_f_idx, argc, resc, sigv, sigtypv are its parameters"""
    fa, fi, argc, resc, sigv, sigt = map(arg, range(6))
    i = ("any", "__i")
    W = lambda x: aslib.WASM[x]

    def call(n, ps, r, *vs):
        return ("call", (STACK, "%s_%s" % (STACK, n)), vs, (tuple(ps), r))

    def result(n, vs, k):
        return wat.atom("result", (STACK, "%s_%s" % (STACK, n)), vs, k)
    go("index", "__probe0(formal_func.instr_f_idx);", [], lambda e: ((P(0, fi),), None))
    back = ("call", (TARGET, "call_base"), (fa, sigv), (("I32", "I32"), "void"))
    go("call", "formal_func.apply(); __probe0();", [], lambda e: ((back, P(0)), None))
    for side, base, count in (("args", resc, ("arg", 2)), ("ress", wat.const(0), ("arg", 3))):
        go(side + ".length", "__probe0(formal_%s.length);" % side, [], lambda e: ((P(0, wat.atom(*count)),), None))
        slot = wat.add(base, wat.atom(*i))
        on = sorted({i, ("arg", 2), ("arg", 3)})

        def case(e, yes):
            if min(e["arg", 2], e["arg", 3]) < 0 or max(e["arg", 2], e["arg", 3]) > 1000:
                return None
            return yes if 0 <= e[i] < e[count] else ((), "trap")
        for ty in TYPES:
            vs = (sigv, slot)
            go("%s.get<%s>" % (side, ty), "__probe0(formal_%s.get<%s>(__i));" % (side, ty), on,
               lambda e: case(e, ((call("load_" + ty, ("I32", "I32"), W(ty), *vs), P(0, result("load_" + ty, vs, 0)) + ((ty,),)), None)))
            x = ANY("__%s_x" % ty)
            go("%s.set<%s>" % (side, ty), "formal_%s.set<%s>(__i, __%s_x); __probe0();" % (side, ty, ty), on,
               lambda e: case(e, ((call("store_" + ty, ("I32", W(ty), "I32"), "void", sigv, x, slot), P(0)), None)))
        vt = (sigt, slot)
        go("%s.getType" % side, "__probe0(formal_%s.getType(__i));" % side, on,
           lambda e: case(e, ((call("load_type", ("I32", "I32"), "I32", *vt), P(0, result("load_type", vt, 0))), None)))
    for ty, code in TYPES.items():
        go("WasmType." + ty, "__probe0(WasmType.%s);" % ty, [], lambda e: ((P(0, code),), None))


def several(c, kinds, globs=0):
    """an aspect of several advices: each is there, under its own name, with its own guest code"""
    F = c.facts("core")
    A_ = advices(F)
    order = list(kinds)
    for g in range(globs):
        order.insert((g * 2) % (len(order) + 1), "global")
    what = "an aspect with " + ", ".join(order) if order else "an empty aspect"
    defs, env, gs = [], {}, []
    for n, k in enumerate(order):
        tag = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[n]
        defs.append(A_[k](tag))
        if k == "global":
            gs.append("global%d" % n)
            env.update(symbols(k, tag, "let global%d: i32 = %d // end" % (n, n)))
        else:
            env.update(symbols(k, tag, "__probe%d(); // end" % n))
    p = program(c, defs, what)
    if p is None:
        return
    iface, lib, at = p
    check_interface(c, iface, kinds, at, what)
    m = load(c, text(lib, env, c, at, what), kinds, at, what)
    if m is None:
        return
    mine = [g for g in m.globals if g.startswith("global")]
    if mine != gs:
        c.violate("globals", at, "%s: the global advices %s are %s in the program" % (what, gs, mine))
    for n, k in enumerate(order):
        if k == "global":
            continue
        field = KINDS[k][0]
        args, res = GENERIC if k == "apply" else H.SIG[field]
        decide(run_safely(c, m, NAMES[field], len(args), at, what), [("arg", 0)],
               lambda e: ((("probe", "__probe%d" % n, ()),), arg(0) if res else None), c, "guest of " + k, at, "%s, trap %s" % (what, NAMES[field]))


def fault(c):
    v, at, given = process(c, [], True)
    lab = t.lab_of(t.disc(v))
    if lab == "Ok":
        c.violate("fault ignored", at, "an aspect that does not compile gives an analysis")
    elif lab is None:
        raise Undecided("try_into gives %s" % t.show(v)[:300])
    else:
        c.same("fault", t.proj(v, "Err", "0"), t.sym("fault"), at, "the error reported for an aspect that does not compile")


def guarded(f, *a):
    try:
        f(*a)
    except Stop:
        pass


@prop("C18", ["core"], "The analysis made of an aspect is evaluated over the MIR of its generator for every advice form alone, every ordered pair, all forms, all but each one, and "
      "global advices in between, with symbols for names and guest code; the AssemblyScript text that results is parsed and its traps are followed symbolically with probing "
      "guest code in the place of the symbol",
      "the interface and the exports are those of the advices, under the published names and types; guest code runs once per trap, sees its own parameters through the "
      "objects it is given, may return a value, and the trap's first argument is returned otherwise; accesses outside of the arguments or results trap before anything else")
def c18(c):
    F = c.facts("core")
    A_ = advices(F)
    todo = {k: (one_kind, k) for k in KINDS}
    vs = [v["name"] for v in F.adts[AST + "TrapSignature"]["variants"]]
    new = [v for v in vs if v not in
           ("TrapApply", "TrapIfThen", "TrapIfThenElse", "TrapBrIf", "TrapBrTable", "TrapSelect", "TrapCall", "TrapCallIndirectPre", "TrapCallIndirectPost",
            "TrapBlockPre", "TrapBlockPost", "TrapLoopPre", "TrapLoopPost")]
    if new:
        c.undecided.append("advice forms without a specification: %s" % new)
    ks = list(KINDS)
    todo["no advice"] = (several, [])
    todo["global advices only"] = (several, [], 2)
    todo["all"] = (several, ks)
    todo["all, backwards"] = (several, ks[::-1])
    todo["all and global advices"] = (several, ks, 3)
    for k in ks:
        todo["all but " + k] = (several, [x for x in ks if x != k])
        todo["%s and global advices" % k] = (several, [k], 2)
    for a, b in itertools.permutations(ks, 2):
        todo["%s, %s" % (a, b)] = (several, [a, b])
    todo["an aspect that does not compile"] = (fault,)
    c.parallel(todo, lambda n: guarded(todo[n][0], c, *todo[n][1:]))

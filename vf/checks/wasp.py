"""wasp-compiler: from the text of an aspect to its compiled form."""
import itertools
from .. import terms as t, peg
from ..terms import mk, const, ite, eq, or_, and_
from ..peg import Hole, text, typename
from ..mirflow import Eng, Dead
from ..wasp import WaspEng, grammar, RULE
from ..spec import prop, Undecided, where, ROOT

A = "wasp_compiler::ast::wasp::"
Q = "wasp_compiler::ast::pest::CallQualifier"
ERR = "wasp_compiler::error::Error"
COMPILE = "wasp_compiler::compile"
JP = "wasp_compiler::joinpoints::JoinPoints"
SJP = "wasp_compiler::joinpoints::SpecialisedJoinPoint"

BASIS = ("Value-flow analysis of the compiled MIR of the aspect compiler's entry point, everything it calls in the workspace and the derived "
         "parse-tree conversion included. The parse tree is the one the grammar text embedded in the compiled parser gives for an abstract sentence "
         "(identifiers, type names and guest code are unknowns of their lexical class).")


class Build:
    """values of the code's own types, in the code's own field order"""

    def __init__(self, F):
        self.F = F

    def __call__(self, path, variant=None, **fields):
        a = self.F.adts.get(path)
        if a is None:
            raise Undecided("no type " + path)
        vs = a["variants"]
        v = vs[0] if variant is None else next((x for x in vs if x["name"] == variant), None)
        if v is None:
            raise Undecided("no variant %s of %s" % (variant, path))
        names = [f[0] for f in v["fields"]]
        given = {k.lstrip("_") if k.startswith("_") and k[1:].isdigit() else k: x for k, x in fields.items()}
        if set(names) != set(given):
            raise Undecided("fields of %s: %s" % (path, names))
        return t.ctor(path, v["name"], tuple(names), tuple(given[n] for n in names))


GEN = [("Args", "Results", "HighLevel"), ("DynArgs", "DynResults", "Dynamic"), ("MutDynArgs", "MutDynResults", "MutableDynamic")]
TYPES = ["I32", "F32", "I64", "F64"]


class Form:
    """one advice: its text, what it means"""

    def __init__(self, name, txt, meaning, jp):
        self.name, self.txt, self.meaning, self.jp = name, txt, meaning, jp


def ident(n):
    return Hole(n, "alpha")


def guest(n):
    return Hole(n, "guest")


def S(x):
    """term of a piece of text"""
    if isinstance(x, str):
        return const(x)
    if isinstance(x, list):
        return t.sym(x[-1].name)
    return t.sym(x.name)


def blk(g):
    return text(">>>GUEST>>>", g, "<<<GUEST<<<")


def advice(*xs):
    return text("(advice ", *xs, ")")


def forms(B, tag="", g=None):
    """every advice form of the language"""
    I = lambda n: ident(n + tag)
    G = g if g is not None else guest("guest" + tag)
    body = S(G)
    T = lambda v, **f: B(A + "AdviceDefinition", "AdviceTrap", _0=B(A + "TrapSignature", v, _0=B(A + v, **f)))
    W = lambda n, x: B(A + n, _0=S(x))
    c, l, f, i, tb, d = I("cond"), I("label"), I("fn"), I("index"), I("table"), I("default")
    out = [Form("global", text("(global ", blk(G), ")"), B(A + "AdviceDefinition", "AdviceGlobal", _0=body), None)]
    for k in ("pre", "post"):
        out.append(Form("call " + k, advice("call ", k, "(", f, " FunctionIndex)", blk(G)),
                        T("TrapCall", call_qualifier=B(Q, k.capitalize()), formal_target=W("FormalTarget", f), body=body), "call_" + k))
        for w in ("block", "loop"):
            v = "Trap%s%s" % (w.capitalize(), k.capitalize())
            out.append(Form(w + " " + k, advice(w, " ", k, blk(G)), T(v, body=body), w + "_" + k))
    out.append(Form("select", advice("select (", c, " Condition)", blk(G)), T("TrapSelect", select_formal_condition=W("SelectFormalCondition", c), body=body), "select"))
    out.append(Form("call_indirect pre", advice("call_indirect pre (", tb, " FunctionTable)(", i, " FunctionTableIndex)", blk(G)),
                    T("TrapCallIndirectPre", formal_table=W("FormalTable", tb), formal_index=W("FormalIndex", i), body=body), "call_indirect_pre"))
    out.append(Form("call_indirect post", advice("call_indirect post (", tb, " FunctionTable)", blk(G)),
                    T("TrapCallIndirectPost", formal_table=W("FormalTable", tb), body=body), "call_indirect_post"))
    out.append(Form("if_then", advice("if_then (", c, " Condition)", blk(G)), T("TrapIfThen", branch_formal_condition=W("BranchFormalCondition", c), body=body), "if_then"))
    out.append(Form("if_then_else", advice("if_then_else (", c, " Condition)", blk(G)), T("TrapIfThenElse", branch_formal_condition=W("BranchFormalCondition", c), body=body), "if_then_else"))
    out.append(Form("br_if", advice("br_if (", c, " Condition)(", l, " Label)", blk(G)),
                    T("TrapBrIf", branch_formal_condition=W("BranchFormalCondition", c), branch_formal_label=W("BranchFormalLabel", l), body=body), "br_if"))
    out.append(Form("br_table", advice("br_table (", l, " Target)(", d, " Default)", blk(G)),
                    T("TrapBrTable", branch_formal_target=W("BranchFormalTarget", l), branch_formal_default=W("BranchFormalDefault", d), body=body), "br_table"))
    return out


def apply_gen(B, f, a, ta, r, tr, G):
    """(text, outcome, join point)"""
    txt = advice("apply (", f, " WasmFunction)(", a, " ", ta, ")(", r, " ", tr, ")", blk(G))
    nm = [S(f), S(a), S(r)]
    dup = or_(or_(eq(nm[0], nm[1]), eq(nm[0], nm[2])), eq(nm[1], nm[2]))

    def okay(means):
        sig = B(A + "ApplyHookSignature", "Gen", _0=B(A + "ApplyGen", generic_means=B(A + "GenericTarget", means), parameter_function=nm[0], parameter_arguments=nm[1], parameter_results=nm[2]))
        x = B(A + "AdviceDefinition", "AdviceTrap", _0=B(A + "TrapSignature", "TrapApply", _0=B(A + "TrapApply", apply_hook_signature=sig, body=S(G))))
        return ite(dup, t.err(B(ERR, "NonUniqueParameters", _0=t.lst(nm))), t.ok(x))
    v = t.err(B(ERR, "IncorrectArgsRessType", _0=S(ta), _1=S(tr)))
    for x, y, m in reversed(GEN):
        v = ite(eq(S(ta), const(x)), ite(eq(S(tr), const(y)), okay(m), v), v)
    return txt, v, ("generic",)


def apply_spe(B, mut, f, args, ress, G):
    """args/ress: (identifier, type) pairs"""
    m = "Mut " if mut else ""
    arg = lambda x: text("(", x[0], " ", x[1], ")")
    txt = advice("apply (", f, " WasmFunction)(", m, *[arg(x) for x in args], ")(", m, *[arg(x) for x in ress], ")", blk(G))

    def conv(ps, k):
        def go(i, done):
            if i == len(ps):
                return k(done)
            n, ty = S(ps[i][0]), S(ps[i][1])

            def withty(w):
                d = t.FALSE
                for x in done:
                    d = or_(d, eq(x[0], n))
                return ite(d, t.err(B(ERR, "DuplicateParameter", _0=n)), go(i + 1, done + [(n, w)]))
            if ty.op == "const":
                return withty(t.cval(ty)) if t.cval(ty) in TYPES else bad(ty)
            v = bad(ty)
            for w in reversed(TYPES):
                v = ite(eq(ty, const(w)), withty(w), v)
            return v

        def bad(ty):
            return t.err(B(ERR, "UnsupportedIdentifierType", unsupported=ty, supported=t.lst([const(x) for x in TYPES])))
        return go(0, [])
    P = lambda ps: t.lst([B(A + "WasmParameter", identifier=n, identifier_type=B(A + "WasmType", w)) for n, w in ps])

    def final(xs, ys):
        sig = B(A + "ApplyHookSignature", "Spe", _0=B(A + "ApplySpe", mutable_signature=const(not mut), apply_parameter=S(f), parameters_arguments=P(xs), parameters_results=P(ys)))
        d = t.ok(B(A + "AdviceDefinition", "AdviceTrap", _0=B(A + "TrapSignature", "TrapApply", _0=B(A + "TrapApply", apply_hook_signature=sig, body=S(G)))))
        for n, _ in reversed(ys):
            c = t.FALSE
            for a, _ in xs:
                c = or_(c, eq(a, n))
            d = ite(c, t.err(B(ERR, "DuplicateArgsRessParameter", _0=n)), d)
        return d
    v = conv(args, lambda xs: conv(ress, lambda ys: final(xs, ys)))
    return txt, v, None


def jp_of(B, defs, names):
    """join points of a list of well-formed definitions (terms)"""
    flags = {n: t.FALSE for n in FLAGNAMES}
    spec = []
    for d, n in zip(defs, names):
        if n == "spe":
            sp = path(d, "AdviceTrap", "0", "TrapApply", "0", None, "apply_hook_signature", "Spe", "0")
            ty = lambda f: t.lst([t.proj(x, None, "identifier_type") for x in t.elements(t.proj(sp, None, f))])
            spec.append(B(SJP, result_types=ty("parameters_results"), argument_types=ty("parameters_arguments")))
        elif n is not None:
            flags[n] = t.TRUE
    return B(JP, specialized=t.setof(t.lst(spec)), **flags)


def path(x, *steps):
    for v, f in zip(steps[::2], steps[1::2]):
        x = t.proj(x, v, f)
    return x


FLAGNAMES = ("generic if_then if_then_else br_if br_table call_pre call_post call_indirect_pre call_indirect_post block_pre block_post loop_pre loop_post select").split()


def outcome(B, advices):
    """advices: (outcome of one definition, join point name) in order"""
    def go(i, done, names):
        if i == len(advices):
            return t.ok(B("wasp_compiler::CompilationResult", wasp_root=B(A + "Root", _0=t.lst(done)), join_points=jp_of(B, done, names)))
        v, jp = advices[i]
        return leafmap(v, lambda r: go(i + 1, done + [r.a[3][0]], names + [jp]) if r.a[1] == "Ok" else t.err(r.a[3][0]))
    return go(0, [], [])


def leafmap(v, f, memo=None):
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    if v.op == "sw":
        r = t.sw(v.a[0], [(l, leafmap(x, f, memo)) for l, x in v.a[1]])
    elif v.op == "absurd":
        r = v
    elif v.op == "ctor":
        r = f(v)
    else:
        raise Undecided("outcome " + t.show(v)[:200])
    memo[v] = r
    return r


def aspect(*advs):
    return text("(aspect ", *advs, ")")


class Sentence:
    def __init__(self, name, txt, want):
        self.name, self.txt, self.want = name, txt, want


def sentences(c, B, deep=False):
    """well-formed and ill-formed sentences with what they must compile to"""
    out = []
    add = lambda name, advs: out.append(Sentence(name, aspect(*[a[0] for a in advs]), outcome(B, [(a[1], a[2]) for a in advs])))
    add("empty aspect", [])
    F1 = forms(B)
    unit = lambda f: (f.txt, t.ok(f.meaning), f.jp)
    for f in F1:
        add(f.name, [unit(f)])
    G = guest("guest")
    for x, y, m in GEN:
        tx, v, jp = apply_gen(B, ident("fn"), ident("a"), x, ident("r"), y, G)
        add("apply %s" % m, [(tx, v, "generic")])
    tx, v, _ = apply_gen(B, ident("fn"), ident("a"), typename("TA"), ident("r"), typename("TR"), G)
    add("apply, any keywords", [(tx, v, "generic")])
    for mut in (False, True):
        nm = "typed apply, Mut" if mut else "typed apply"
        for na, nr in ((1, 1), (2, 1), (1, 2), (3, 2)) + (((2, 3), (4, 4)) if deep else ()):
            a = [(ident("a%d" % i), TYPES[i % 4]) for i in range(na)]
            r = [(ident("r%d" % i), TYPES[(na + i + 1) % 4]) for i in range(nr)]
            tx, v, _ = apply_spe(B, mut, ident("fn"), a, r, G)
            add("%s, %d arguments, %d results" % (nm, na, nr), [(tx, v, "spe")])
        tx, v, _ = apply_spe(B, mut, ident("fn"), [(ident("a0"), typename("T0"))], [(ident("r0"), "I64")], G)
        add(nm + ", any argument type", [(tx, v, "spe")])
        tx, v, _ = apply_spe(B, mut, ident("fn"), [(ident("a0"), "F32")], [(ident("r0"), typename("T0"))], G)
        add(nm + ", any result type", [(tx, v, "spe")])
        tx, v, _ = apply_spe(B, mut, ident("fn"), [(ident("a0"), "F32"), (ident("a1"), typename("T1"))], [(ident("r0"), "I32")], G)
        add(nm + ", any second type", [(tx, v, "spe")])
        for w in ("i32", "V128", "F16", "I8", "String", "FuncRef"):
            if w[0].isupper():
                tx, v, _ = apply_spe(B, mut, ident("fn"), [("x", w)], [("y", "I32")], G)
                add("%s, type %s" % (nm, w), [(tx, v, "spe")])
        for ax, rx in ((["x", "x"], ["y"]), (["x"], ["y", "y"]), (["x"], ["x"]), (["x", "y"], ["z", "x"]), (["x", "y", "x"], ["x"])):
            tx, v, _ = apply_spe(B, mut, "f", [(n, "I32") for n in ax], [(n, "F64") for n in rx], G)
            add("%s, names %s/%s" % (nm, "".join(ax), "".join(rx)), [(tx, v, "spe")])
    for f, a, r in (("x", "x", "y"), ("x", "y", "x"), ("y", "x", "x"), ("x", "x", "x"), ("x", "y", "z")):
        tx, v, _ = apply_gen(B, f, a, "Args", r, "Results", G)
        add("apply, names %s%s%s" % (f, a, r), [(tx, v, "generic")])
    # several advices: order, repetition
    X, Y = forms(B, "X"), forms(B, "Y")
    add("all advices", [unit(f) for f in X])
    add("all advices, reversed", [unit(f) for f in reversed(X)])
    for f, g in zip(X, Y):
        add("%s twice" % f.name, [unit(f), unit(g)])
    for f, g in zip(X, Y[1:] + Y[:1]):
        add("%s, %s" % (f.name, g.name), [unit(f), unit(g)])
    g1 = apply_gen(B, "f", "a", "Args", "r", "Results", guest("ga"))
    g2 = apply_gen(B, "f", "a", "DynArgs", "r", "DynResults", guest("gb"))
    sp = lambda mut, at, rt, g: (lambda q: (q[0], q[1], "spe"))(apply_spe(B, mut, "f", [("a%s" % "xyz"[i], w) if False else ("xyz"[i], w) for i, w in enumerate(at)], [("uvw"[i], w) for i, w in enumerate(rt)], guest(g)))
    G1, G2 = (g1[0], g1[1], "generic"), (g2[0], g2[1], "generic")
    add("apply twice", [G1, G2])
    add("typed applies", [sp(False, ["I32"], ["F32"], "gc"), sp(True, ["F32"], ["I32"], "gd")])
    add("typed applies of one type", [sp(False, ["I32", "I64"], ["F32"], "gc"), sp(True, ["I32", "I64"], ["F32"], "gd")])
    add("apply, typed apply, call", [G1, sp(False, ["I32"], ["F32"], "gc"), unit(X[1]), unit(X[0])])
    bad = apply_gen(B, "f", "a", "Args", "r", "DynResults", guest("gb"))
    bad2 = apply_spe(B, False, "f", [("a", "I32"), ("a", "I32")], [("r", "I32")], guest("gb"))
    add("ill-formed second advice", [unit(X[0]), (bad[0], bad[1], "generic"), unit(X[1])])
    add("two ill-formed advices", [(bad2[0], bad2[1], "spe"), (bad[0], bad[1], "generic")])
    if deep:
        for f in X:
            for g in Y:
                add("%s; %s" % (f.name, g.name), [unit(f), unit(g)])
    return out


_runs = {}


def compiled(c, s):
    """(value, panics) the code computes for a sentence, None if the grammar rejects it"""
    F = c.facts("base")
    if s.name in _runs:
        return _runs[s.name]
    P = peg.Peg(gram(c))
    node = P.run("wasp_input", s.txt)
    if node is None:
        r = None
    else:
        key = c.fn("base", COMPILE)
        E = WaspEng(F)
        v, st = E.run_compile(key, node)
        c.note("functions", *[F.fns[k]["path"] for k in E.visited if F.fns[k]["local"]])
        r = (v, E.panics, E.unknown, E.parsed, where(F, key))
    _runs[s.name] = r
    return r


_gram = []


def gram(c):
    if not _gram:
        try:
            _gram.append(peg.parse(grammar(c.facts("base"))))
        except peg.GrammarError as e:
            raise Undecided("grammar: %s" % e)
    return _gram[0]


def refgram():
    return peg.parse(open(ROOT + "/ref/wasp.pest").read())


def view(v, okf, errf):
    return leafmap(v, lambda r: okf(r.a[3][0]) if r.a[1] == "Ok" else errf(r.a[3][0]))


def each(c, what, okf, errf, deep=False):
    F = c.facts("base")
    B = Build(F)
    try:
        ss = sentences(c, B, c.tier == "thorough")
    except Undecided as e:
        # types were reshaped: nothing to compare against
        raise
    for s in ss:
        def go(s=s):
            r = compiled(c, s)
            if r is None:
                raise Undecided("the grammar rejects the sentence")
            v, panics, unknown, parsed, at = r
            if unknown:
                raise Undecided("calls without a model: " + ", ".join(sorted(unknown)))
            c.note("sentences", s.name)
            c.same("%s: %s" % (what, s.name), view(v, okf, errf), view(s.want, okf, errf), at,
                   "%s for the aspect  %s" % (what, "".join(map(str, s.txt))[:400]))
            if len(c.samples) < 6:
                c.samples.append("%s  =>  %s" % ("".join(map(str, s.txt))[:200], t.show(view(v, okf, errf))[:300]))
        c.obligation(s.name, go)


@prop("W02", ["base"], BASIS + " The compiled aspect is compared with the meaning of the sentence.",
      "for each advice form, alone and in sequences: the compiled aspect is exactly the list of advices of the text, in order, with their names, types and qualifiers")
def w02(c):
    each(c, "compiled advice", lambda x: t.proj(x, None, "wasp_root"), lambda e: const("rejected"))


@prop("W03", ["base"], BASIS + " The decision between acceptance and each error is compared with the rules for apply headers.",
      "for each apply header: accepted iff keywords match, types are supported and names are distinct; else the error and its contents name the fault; the first faulty advice decides")
def w03(c):
    each(c, "verdict", lambda x: const("accepted"), lambda e: e)

    def rejected():
        F = c.facts("base")
        key = c.fn("base", COMPILE)
        E = WaspEng(F)
        v, st = E.run_compile(key, None)
        want = t.err(Build(F)(ERR, "PestError", _0=mk("call", "display", t.sym("pest_error"))))
        got = leafmap(v, lambda r: r)
        for facts, lf in [((), got)] if got.op == "ctor" else []:
            if lf.a[1] == "Ok":
                c.violate("verdict: text the parser rejects", where(F, key), "accepted: " + t.show(lf)[:200])
            elif not t.contains(lf, t.sym("pest_error")):
                c.violate("verdict: parser's message lost", where(F, key), t.show(lf)[:300])
        if E.parsed != [(t.ctor(RULE, "wasp_input", (), ()), t.sym("source"))]:
            c.violate("verdict: what is parsed", where(F, key), "the parser is given %s" % [tuple(map(t.show, p)) for p in E.parsed])
    c.obligation("text the parser rejects", rejected)


@prop("W04", ["base"], BASIS + " The join points of the result are compared with the set of advices of the text.",
      "for each aspect: a join point is on iff the text has an advice for it; the typed signatures are those of the typed applies")
def w04(c):
    each(c, "join points", lambda x: t.proj(x, None, "join_points"), lambda e: const("rejected"))
    F = c.facts("base")
    B = Build(F)

    def symbolic():
        key = c.fn("base", A + "Root::join_points") if (A + "Root::join_points") in F.by_path else c.find("base", lambda k, f: f["path"].endswith("Root::join_points") or f["path"].endswith("Root>::join_points"), "join_points")
        E = Eng(F)
        r = t.sym("root")
        v, st = E.eval_fn(key, [r])
        s = t.proj(r, None, "0")
        e, p = t.fresh("e"), t.fresh("p")
        tr = t.proj(e, "AdviceTrap", "0")

        def hasq(variant, extra=lambda x: t.TRUE):
            c1 = t.sw(t.disc(e), [("AdviceTrap", t.sw(t.disc(tr), [(w, extra(t.proj(tr, w, "0")) if w == variant else t.FALSE) for w in variants(F)])), ("AdviceGlobal", t.FALSE)])
            return t.anyof(s, e, p, c1)
        sig = lambda x: t.proj(x, None, "apply_hook_signature")
        for n in FLAGNAMES:
            if n == "generic":
                w = hasq("TrapApply", lambda x: t.sw(t.disc(sig(x)), [("Gen", t.TRUE), ("Spe", t.FALSE)]))
            elif n in ("call_pre", "call_post"):
                w = hasq("TrapCall", lambda x, n=n: t.sw(t.disc(t.proj(x, None, "call_qualifier")), [("Pre", const(n == "call_pre")), ("Post", const(n == "call_post"))]))
            else:
                w = hasq("Trap" + "".join(q.capitalize() for q in n.split("_")))
            got = t.proj(v, None, n)
            d = t.equal(got, w)
            if d is not None:
                raise Undecided("not shown for lists of any length: %s" % n)
    c.obligation("lists of any length", symbolic)


def variants(F):
    return [v["name"] for v in F.adts[A + "TrapSignature"]["variants"]]


TRICKY = ["", " ", "  code \n\t", "(a) (b))", ";; not a comment", "// >>GUEST>> <<GUEST<<", "#| not a comment |#", "x #| y", "|#", ">>>GUEST>>>", "\u00e9\u6f22\U0001F534", "\\\"'{}", "<<<GUES", "advice global", "\r\n", "<<GUEST<<", "%s {} $x `y`"]


@prop("W05", ["base"], BASIS + " The guest code in the result is compared with the text between the delimiters.",
      "for each advice form and guest text: the guest code of the compiled advice is the text between the delimiters, character for character")
def w05(c):
    F = c.facts("base")
    B = Build(F)

    def bodies(x):
        return t.proj(x, None, "wasp_root")

    def one(f, g, s):
        r = compiled(c, s)
        if r is None:
            c.violate("guest code: %r in %s" % (g if isinstance(g, str) else "any text", f), "wasp-compiler grammar", "the grammar rejects the sentence %s" % "".join(map(str, s.txt))[:300])
            return
        v, panics, unknown, parsed, at = r
        if unknown:
            raise Undecided("calls without a model: " + ", ".join(sorted(unknown)))
        for pn in panics:
            c.violate("guest code: panic in %s" % pn[0], pn[0], pn[2])
        got = guest_codes(v)
        want = guest_codes(s.want)
        c.same("guest code: %s" % f, got, want, at, "guest code of %s" % "".join(map(str, s.txt))[:300])
    for k, g in enumerate([None] + TRICKY):
        fs = forms(B, "", g)
        for f in fs if g is None or c.tier == "thorough" else [fs[k % len(fs)], fs[0], fs[(k + 5) % len(fs)]]:
            s = Sentence("guest %d %s" % (k, f.name), aspect(f.txt), outcome(B, [(t.ok(f.meaning), f.jp)]))
            c.obligation("%s, %s" % (f.name, "any text" if g is None else repr(g)), lambda f=f, g=g, s=s: one(f.name, g, s))
        G = g if g is not None else guest("guest")
        for nm, (tx, v, _), jp in (("apply", apply_gen(B, "f", "a", "Args", "r", "Results", G), "generic"), ("typed apply", apply_spe(B, False, "f", [("a", "I32")], [("r", "I32")], G), "spe"), ("typed apply, Mut", apply_spe(B, True, "f", [("a", "I32")], [("r", "I32")], G), "spe")):
            s = Sentence("guest %d %s" % (k, nm), aspect(tx), outcome(B, [(v, jp)]))
            c.obligation("%s, %s" % (nm, "any text" if g is None else repr(g)), lambda f=nm, g=g, s=s: one(f, g, s))
    # two blocks do not run into one another
    for k, (x, y) in enumerate([("a #| b", "c |# d"), ("x", "y"), (">>>GUEST>>>", "z"), ("|#", "#|")]):
        a, b = forms(B, "", x)[0], forms(B, "", y)[1]
        s = Sentence("guests %d" % k, aspect(a.txt, b.txt), outcome(B, [(t.ok(a.meaning), a.jp), (t.ok(b.meaning), b.jp)]))
        c.obligation("two blocks %r, %r" % (x, y), lambda s=s: one("two blocks", "", s))


def guest_codes(v):
    def codes(x):
        ds = t.elements(t.proj(t.proj(x, None, "wasp_root"), None, "0"))
        if ds is None:
            raise Undecided("list of advices")
        out = []
        for d in ds:
            l = t.lab_of(t.disc(d))
            if l == "AdviceGlobal":
                out.append(t.proj(d, l, "0"))
            else:
                s = t.proj(d, "AdviceTrap", "0")
                out.append(t.proj(t.proj(s, t.lab_of(t.disc(s)), "0"), None, "body"))
        return t.lst(out)
    return view(v, codes, lambda e: const("rejected"))


@prop("W06", ["base"], "Value-flow analysis of the MIR of the three queries on a compiled aspect, over aspects with one or two advices of each kind and over aspects of unknown length.",
      "each query is true iff some advice of the aspect belongs to its group")
def w06(c):
    F = c.facts("base")
    B = Build(F)
    groups = {"instruments_generic_apply": {"apply"}, "instruments_if": {"TrapIfThen", "TrapIfThenElse", "TrapBrIf", "TrapBrTable", "TrapSelect"},
              "instruments_call": {"TrapCall", "TrapCallIndirectPre", "TrapCallIndirectPost"}}
    defs = [("AdviceGlobal", B(A + "AdviceDefinition", "AdviceGlobal", _0=t.sym("g")))]
    for v in variants(F):
        if v == "TrapApply":
            for s in ("Gen", "Spe"):
                sig = t.ctor(A + "ApplyHookSignature", s, ("0",), (t.sym("sig"),))
                ap = B(A + "TrapApply", apply_hook_signature=sig, body=t.sym("b"))
                defs.append(("apply" if s == "Gen" else "applyspe", B(A + "AdviceDefinition", "AdviceTrap", _0=t.ctor(A + "TrapSignature", v, ("0",), (ap,)))))
        else:
            defs.append((v, B(A + "AdviceDefinition", "AdviceTrap", _0=t.ctor(A + "TrapSignature", v, ("0",), (t.sym("x" + v),)))))
    for q, grp in groups.items():
        key = c.fn("base", A + "Root::" + q)

        def run(lst, q=q, key=key):
            E = Eng(F)
            v, st = E.eval_fn(key, [B(A + "Root", _0=lst)])
            if E.unknown:
                raise Undecided("calls without a model: " + ", ".join(sorted(E.unknown)))
            for pn in E.panics:
                c.violate("query %s: panic" % q, pn[0], pn[2])
            return v

        def check(ds, q=q, grp=grp, key=key, run=run):
            v = run(t.lst([d for _, d in ds]))
            w = const(any(n in grp for n, _ in ds))
            c.same("query %s: %s" % (q, ", ".join(n for n, _ in ds) or "empty"), v, w, where(F, key), "%s on an aspect with %s" % (q, [n for n, _ in ds]))
        c.obligation(q + " on no advice", lambda: check([]))
        for d in defs:
            c.obligation("%s on %s" % (q, d[0]), lambda d=d: check([d]))
        for d, e in itertools.product(defs, defs):
            c.obligation("%s on %s, %s" % (q, d[0], e[0]), lambda d=d, e=e: check([d, e]))
        c.obligation("%s on all" % q, lambda: check(defs))
        c.obligation("%s on the others" % q, lambda: check([d for d in defs if d[0] not in grp]))

        def symbolic(q=q, grp=grp, run=run):
            s = t.sym("advices")
            v = run(s)
            e, p = t.fresh("e"), t.fresh("p")
            tr = t.proj(e, "AdviceTrap", "0")
            cs = []
            for w in variants(F):
                x = const(w in grp)
                if w == "TrapApply" and "apply" in grp:
                    x = t.sw(t.disc(t.proj(t.proj(tr, w, "0"), None, "apply_hook_signature")), [("Gen", t.TRUE), ("Spe", t.FALSE)])
                cs.append((w, x))
            w = t.anyof(s, e, p, t.sw(t.disc(e), [("AdviceTrap", t.sw(t.disc(tr), cs)), ("AdviceGlobal", t.FALSE)]))
            if t.equal(v, w) is not None:
                raise Undecided("not shown for lists of any length")
        c.obligation("%s on lists of any length" % q, symbolic)


@prop("W07", ["base"], BASIS + " Every construct that can panic (unwrap, expect, index, arithmetic check, explicit panic) on a path that is reached is reported.",
      "no reachable panic in the compiler, for any sentence form, for rejected text, and in the public queries on any compiled aspect")
def w07(c):
    F = c.facts("base")
    B = Build(F)
    for s in sentences(c, B, c.tier == "thorough"):
        def go(s=s):
            r = compiled(c, s)
            if r is None:
                raise Undecided("the grammar rejects the sentence")
            if r[2]:
                raise Undecided("calls without a model: " + ", ".join(sorted(r[2])))
            for pn in r[1]:
                c.violate("panic in %s: %s" % (pn[0], strip_locals(pn[2])), pn[0], "compiling  %s\n  %s\n  when %s" % ("".join(map(str, s.txt))[:300], pn[2], pn[3]))
        c.obligation("no panic: " + s.name, go)

    def rejected():
        E = WaspEng(F)
        E.run_compile(c.fn("base", COMPILE), None)
        for pn in E.panics:
            c.violate("panic in %s: %s" % (pn[0], strip_locals(pn[2])), pn[0], "on text the parser rejects: %s" % pn[2])
    c.obligation("no panic: rejected text", rejected)
    for q in ("instruments_generic_apply", "instruments_if", "instruments_call"):
        def go(q=q):
            E = Eng(F)
            E.eval_fn(c.fn("base", A + "Root::" + q), [t.sym("root")])
            for pn in E.panics:
                c.violate("panic in %s: %s" % (pn[0], strip_locals(pn[2])), pn[0], pn[2])
        c.obligation("no panic: " + q, go)


def strip_locals(s):
    import re
    return re.sub(r"_\d+", "_", s)


@prop("W08", ["base"], "Value-flow analysis of the MIR of the type names' parsing and printing.",
      "each supported type name of an apply header denotes the type printed as the same name in lower case")
def w08(c):
    F = c.facts("base")
    B = Build(F)
    key = c.find("base", lambda k, f: f["path"].startswith("<" + A + "WasmType as ") and f["path"].endswith("Display>::fmt"), "Display of WasmType")
    for w in TYPES:
        def go(w=w):
            from ..models import display
            E = Eng(F)
            st = E.fresh_state()
            st.c[("f", 0)] = t.ctor("std::fmt::Formatter", "Formatter", ("buf",), (const(""),))
            x = B(A + "WasmType", w)
            v = display(E, st, None, x, "display") if False else printed(E, key, x)
            c.same("type name %s" % w, v, const(w.lower()), where(F, key), "how the type %s prints" % w)
        c.obligation("print " + w, go)

    def gt():
        k = c.fn("base", A + "WasmParameter::get_type")
        E = Eng(F)
        p = t.sym("p")
        v, st = E.eval_fn(k, [p])
        c.same("type of a parameter", v, t.proj(p, None, "identifier_type"), where(F, k), "type of a parameter")
    c.obligation("type of a parameter", gt)
    each(c, "types", lambda x: types_of(x), lambda e: const("rejected"))


def types_of(x):
    ds = t.elements(t.proj(t.proj(x, None, "wasp_root"), None, "0"))
    out = []
    for d in ds or []:
        if t.lab_of(t.disc(d)) == "AdviceTrap":
            s = t.proj(d, "AdviceTrap", "0")
            if t.lab_of(t.disc(s)) == "TrapApply":
                h = t.proj(t.proj(s, "TrapApply", "0"), None, "apply_hook_signature")
                if t.lab_of(t.disc(h)) == "Spe":
                    sp = t.proj(h, "Spe", "0")
                    for f in ("parameters_arguments", "parameters_results"):
                        out.append(t.lst([t.proj(q, None, "identifier_type") for q in t.elements(t.proj(sp, None, f)) or []]))
    return t.lst(out)


def printed(E, key, x):
    """text written by a Display implementation"""
    from ..models import todisplay
    from .. import models
    for name in ("display_text", "render"):
        if hasattr(models, name):
            return getattr(models, name)(E, key, x)
    st = E.fresh_state()
    cell = ("fmt", 0)
    st.c[cell] = const("")
    v, st = E.eval_fn(key, [x, mk("mref", cell, ())], st)
    return st.c[cell]

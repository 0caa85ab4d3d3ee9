"""wasm-merge: what one call of `MergeOptions::merge` does."""
import copy, re
from .. import terms as t
from ..terms import mk
from ..mirflow import Eng, Dead
from ..spec import prop, Undecided, where

PATH = "wasm_merge::MergeOptions::<'_>::merge"
OPTS = "wasm_merge::MergeOptions"
ERR = "wasm_merge::error::Error"
FLAGS = {"no_validation": "--no-validation", "rename_export_conflicts": "--rename-export-conflicts"}
for _f in ("sign_ext threads mutable_globals nontrapping_float_to_int simd bulk_memory bulk_memory_opt call_indirect_overlong exception_handling "
           "tail_call reference_types multivalue gc memory64 relaxed_simd extended_const strings multimemory typed_continuations shared_everything fp16").split():
    FLAGS[_f] = "--enable-" + _f.replace("_", "-")

BASIS = ("Value-flow analysis of the compiled MIR of the merge entry point and everything it calls in the workspace: the function is "
         "interpreted over terms, with every effect (temporary file, write, child process, read) an opaque result and an entry in an event list. "
         "The module list is a list of symbolic modules; the result of each effect is assumed to succeed, or one at a time to fail.")


class World(Eng):
    """effects succeed, except one"""
    fail = None
    keep = False

    def io(self, st, name, *args):
        r = Eng.io(self, st, name, *args)
        self.log.append(r)
        if self.keep:
            return r
        i = (r.a[0], r.a[1], r.a[2])
        return t.err(mk("val", r)) if i == self.fail else t.ok(mk("val", r))


def strip(c):
    """identity of the effect behind a handle value"""
    if c.op == "val":
        c = c.a[0]
    if c.op == "proj" and c.a[1] in ("Ok", "Some"):
        c = c.a[0]
    return c if c.op == "io" else None


def need_tool(c, name, f):
    def g():
        try:
            f()
        except NoTool as e:
            c.violate("tool: not started", PATH, "%s: %s" % (name, e))
    c.obligation(name, g)


class NoTool(Undecided):
    """a merge that succeeds without the tool"""


class Run:
    def __init__(self, c, primary, n, opts=None, fail=None):
        F = c.facts("base")
        key = c.fn("base", PATH)
        E = World(F)
        E.log, E.fail = [], fail
        self.E, self.where = E, where(F, key)
        adt = F.adts.get(OPTS)
        if adt is None:
            raise Undecided("no struct " + OPTS)
        self.fields = {f[0]: f[1] for f in adt["variants"][0]["fields"]}
        o = t.sym("o")
        ms = [t.sym("module%d" % i) for i in range(n)]
        self.mods = ms
        if primary:
            o = t.with_field(o, None, "primary", t.some(t.sym("primary")))
            self.mods = [t.sym("primary")] + ms
        else:
            o = t.with_field(o, None, "primary", t.NONE)
        o = t.with_field(o, None, "input_modules", t.lst(ms))
        if opts is not None:
            for f, l in opts.items():
                if f in self.fields:
                    ty = re.sub(r"^.*?([\w:]+)$", r"\1", self.fields[f])
                    o = t.with_field(o, None, f, t.ctor(adt_of(F, ty), l, (), ()))
        self.dead = False
        try:
            self.v, st = E.eval_fn(key, [o])
        except Dead:
            if E.unknown or not E.panics:
                raise
            self.dead, self.log, self.trail = True, list(E.log), ()
            return
        self.ev = st.c[("ev",)]
        c.note("functions", *[F.fns[k]["path"] for k in E.visited if F.fns[k]["local"]])
        c.note("effects", *sorted({r.a[0] for r in E.log}))
        if E.unknown:
            raise Undecided("calls without a model: %s" % ", ".join(sorted(E.unknown)))

        self.log, self.trail = list(E.log), ()

    def under(self, s, l):
        """the same run in the case s = l"""
        r = copy.copy(self)
        f = lambda x: t.restrict(x, s, l)
        r.v, r.ev, r.log, r.trail = f(self.v), f(self.ev), [f(x) for x in self.log], self.trail + ((s, l),)
        return r

    def fine(self, v):
        return next((l for _, l in leaves(v) if l.op == "ctor" and l.a[1] == "Ok"), None)

    def w(self, x):
        """a term about the inputs, in this case"""
        for s, l in self.trail:
            x = t.restrict(x, s, l)
        return x

    def when(self):
        return ", when " + " and ".join("%s is %s" % (t.show(s)[:120], l) for s, l in self.trail) if self.trail else ""

    def cases(self, limit=256):
        """the run split by every decision it makes about its inputs"""
        todo, n = [self], 0
        if self.dead:
            raise Dead()
        while todo:
            r = todo.pop()
            s = decision([x for x in r.log if x.a[0] in RUNNERS] + [r.ev, r.v])
            if s is None:
                n += 1
                if n > limit:
                    raise Undecided("more than %d cases" % limit)
                yield r
            else:
                labels = [l for l, _ in s.a[1]]
                todo += [r.under(s.a[0], l) for l in reversed(labels)]


def decision(xs):
    """a conditional on inputs alone"""
    seen, todo = set(), list(xs)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sw" and not has(x.a[0], ("io", "val", "bvar", "loopvar")):
            return x
        todo += list(t.kids_of(x.a))
    return None


CUTS = ("take", "skip", "lower", "upper", "truncate", "next", "nth", "lines", "split", "tail", "butlast", "to_lowercase", "to_uppercase")


def around(x, y):
    """the terms of x that contain y and are not y"""
    out, todo, seen = [], [x], set()
    while todo:
        x = todo.pop()
        if x in seen or x is y or not t.contains(x, y):
            continue
        seen.add(x)
        out.append(x)
        todo += list(t.kids_of(x.a))
    return out


def has_env(x):
    return x.op == "call" and x.a[0] == "env" or any(has_env(y) for y in t.kids_of(x.a))


def decisions(v):
    while v.op == "sw":
        yield v.a[0]
        for _, b in v.a[1]:
            yield from decisions(b)
        return


def has(x, ops):
    seen, todo = set(), [x]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            return True
        todo += list(t.kids_of(x.a))
    return False


def adt_of(F, ty):
    for p in F.adts:
        if p == ty or p.endswith("::" + ty.split("::")[-1]) and p.startswith("wasm_merge"):
            return p
    raise Undecided("no type " + ty)


def leaves(v, facts=()):
    if v.op == "sw":
        for l, _ in v.a[1]:
            yield from leaves(t.restrict(v, v.a[0], l), facts + ((v.a[0], l),))
    elif v.op == "absurd":
        return
    else:
        yield facts, v


def events(ev, c=None):
    """all events of an event list without conditions"""
    out = []
    for p in t.parts_of(ev):
        if p.op != "one" or p.a[0].op != "evt":
            return None
        out.append(p.a[0])
    return out


RUNNERS = ("cmd.output", "cmd.status", "cmd.spawn")


def settle(ev, v):
    """the event list of the run in which the tool succeeds silently"""
    for facts, lf in leaves(t.tup([ev, v]) if False else ev):
        yield facts, lf


def success(run):
    """(value, events) with the tool succeeding without diagnostics, plus the
    terms that stand for the tool's status"""
    cmds = [r for r in run.log if r.a[0] in RUNNERS]
    started = [e for _, l in leaves(run.ev) for e in (events(l) or [None]) if e is None or e.a[0] in RUNNERS]
    if not started and run.fine(run.v):
        raise NoTool("the tool is not started, yet the result is %s" % t.show(run.fine(run.v))[:200])
    if len(cmds) != 1:
        raise Undecided("%d child processes" % len(cmds))
    out = mk("val", cmds[0])
    v, ev = run.v, run.ev
    conds = status_terms(out, run, v, ev)
    for s, l in conds["ok"]:
        v, ev = t.restrict(v, s, l), t.restrict(ev, s, l)
    return v, ev, cmds[0], conds


def said(x):
    """the diagnostics, or a text that is empty exactly when these are"""
    while x.op == "call" and x.a[0] in ("utf8_lossy",):
        x = x.a[1]
    return x.op == "proj" and x.a[2] == "stderr"


def output_of(run, cmd):
    """what stands for the tool's output"""
    w = [r for r in run.log if r.a[0] == "child.wait_with_output" and t.contains(r, cmd)]
    return mk("val", w[0] if w else cmd)


def status_terms(out, run, *vs):
    """tests on the tool's result that occur in the code"""
    ok, seen = [], set()

    def go(x):
        if not isinstance(x, t.T) or x in seen:
            return
        seen.add(x)
        if x.op == "call" and x.a[0] == "exit.success":
            ok.append((x, True))
        if x.op == "eq" and any(y.op == "const" and t.cval(y) == "" for y in x.a) and any(said(y) for y in x.a):
            ok.append((x, True))
        if x.op == "eq" and any(y.op == "len" and t.contains(y, out) for y in x.a if isinstance(y, t.T)) and any(y.op == "const" and t.cval(y) == 0 for y in x.a):
            ln = next(y for y in x.a if y.op == "len")
            if said(ln.a[0]):
                ok.append((x, True))
        for k in t.kids_of(x.a):
            go(k)
    for v in vs:
        go(v)
    status = [s for s in ok if s[0].op == "call"]
    stderr = [s for s in ok if s[0].op == "eq"]
    return {"ok": ok, "status": status, "stderr": stderr}


def argv(cmd):
    """(program, args) of the child process, a command line for a shell split
    into its words"""
    c = cmd.a[3]
    prog, args = t.proj(c, None, "program"), t.proj(c, None, "args")
    if t.is_const(prog) and str(t.cval(prog)).rsplit("/", 1)[-1] in ("bash", "sh", "dash", "zsh"):
        ps = [p.a[0] for p in t.parts_of(args) if p.op == "one"]
        if len(ps) == 2 and t.is_const(ps[0]) and t.cval(ps[0]) in ("-c", "-ec"):
            from ..models import words
            w = words(ps[1])
            return prog, w, True
        raise Undecided("shell invocation")
    return prog, args, False


def flat(args):
    out = []
    for p in t.parts_of(args):
        if p.op == "one":
            out.append(p.a[0])
        else:
            return None
    return out


def is_path_of(x):
    """the temporary file a path argument denotes"""
    while x.op == "call" and x.a[0] in ("lossy", "path", "is_utf8") or x.op == "proj" and x.a[1] == "Some":
        x = x.a[1] if x.op == "call" else x.a[0]
    return strip(x)


def nofl(run):
    return {f: "Disable" for f in FLAGS}


SHAPES = [(p, n) for p in (False, True) for n in (0, 1, 2, 3)]


def shapes(c):
    s = list(SHAPES)
    if c.tier == "thorough":
        s += [(p, n) for p in (False, True) for n in (4, 5, 8, 12)]
    # lengths the code itself mentions
    for k, f in c.facts("base").fns.items():
        if f["local"] and "MergeOptions" in k and not f["derived"]:
            for n in ints(f["blocks"]):
                for m in (n - 1, n, n + 1):
                    if 3 < m <= 36:
                        s += [(False, m), (True, m)]
    return sorted(set(s))


def ints(x):
    if isinstance(x, dict):
        if isinstance(x.get("int"), int) and x.get("ty") == "usize":
            yield x["int"]
        for y in x.values():
            yield from ints(y)
    elif isinstance(x, list):
        for y in x:
            yield from ints(y)


def shape_name(p, n):
    return "%s primary, %d further modules" % ("with" if p else "without", n)


def parsed(run):
    """positional arguments and the output path of the child process"""
    v, ev, cmd, conds = success(run)
    prog, args, shell = argv(cmd)
    a = flat(args)
    if a is None:
        raise Undecided("arguments depend on run time values: " + t.show(args)[:300])
    pos, outs, i = [], [], 0
    while i < len(a):
        x = a[i]
        if t.is_const(x):
            s = str(t.cval(x))
            if s in ("-o", "--output"):
                outs.append(a[i + 1] if i + 1 < len(a) else None)
                i += 2
                continue
            if s.startswith("-"):
                i += 1
                continue
            if shell and s == "wasm-merge" and not pos:
                i += 1
                continue
        pos.append(x)
        i += 1
    return pos, outs, v, ev, cmd


@prop("M01", ["base"], BASIS + " The positional arguments of the child process are compared with the module list.",
      "for each module list: positional arguments are (file, namespace) pairs in list order, primary first; the file of a pair holds that module's bytes")
def m01(c):
    for p, n in shapes(c):
        def one(run, p=p, n=n):
            pos, outs, v, ev, cmd = parsed(run)
            want = [x for m in run.mods for x in ("file", m)]
            if len(pos) != len(want):
                c.violate("pairs: number of positional arguments", run.where, "%s: %d positional arguments for %d modules: %s" % (
                    (shape_name(p, n) + run.when()), len(pos), len(run.mods), [t.show(x)[:120] for x in pos]))
                return
            evs = events(ev) or events(first_leaf(ev))
            for k, m in enumerate(run.mods):
                f, ns = pos[2 * k], pos[2 * k + 1]
                w = run.w(t.proj(m, None, "namespace"))
                if ns is not w:
                    c.violate("pairs: namespace argument", run.where, "%s: argument %d is %s, not the namespace of module %d" % ((shape_name(p, n) + run.when()), 2 * k + 1, t.show(ns)[:300], k))
                h = is_path_of(f)
                if h is None:
                    if f is w:
                        c.violate("pairs: file argument", run.where, "%s: argument %d is %s, not a file" % ((shape_name(p, n) + run.when()), 2 * k, t.show(f)[:300]))
                        continue
                    raise Undecided("file argument " + t.show(f)[:200])
                ws = [e.a[-1] for e in evs if e.a[0] in ("write_all", "write", "fs.write") and mentions(e, h)]
                content = run.w(t.proj(m, None, "module"))
                if not ws and content is not t.EMPTY:
                    c.violate("pairs: file of a module is not written", run.where, "%s: nothing is written to the file of module %d" % ((shape_name(p, n) + run.when()), k))
                for x in ws:
                    if x is not content:
                        c.violate("pairs: contents of the file of a module", run.where, "%s: the file passed for module %d receives %s" % ((shape_name(p, n) + run.when()), k, t.show(x)[:300]))
            c.samples.append("%s -> %s" % ((shape_name(p, n) + run.when()), [t.show(x)[:80] for x in pos]))

        def go(p=p, n=n):
            for run in Run(c, p, n, nofl(c)).cases():
                one(run)
        need_tool(c, "pairs " + shape_name(p, n), go)


def first_leaf(ev):
    for facts, lf in leaves(ev):
        return lf


def mentions(e, h):
    return any(isinstance(x, t.T) and t.contains(x, h) for x in e.a[1:-1])


@prop("M02", ["base"], BASIS + " The option fields are symbolic enums: each argument is a function of option values, which is tabulated.",
      "for each option: enabled gives exactly its own flag once, disabled gives nothing, independently of every other option")
def m02(c):
    def args_of(opts, p=False, n=1):
        for run in Run(c, p, n, opts).cases():
            pos, outs, v, ev, cmd = parsed(run)
            prog, args, shell = argv(cmd)
            a = flat(args)
            if a is None:
                raise Undecided("arguments depend on run time values: " + t.show(args)[:300])
            yield [str(t.cval(x)) for x in a if t.is_const(x) and str(t.cval(x)).startswith("-") and t.cval(x) not in ("-o", "--output")], run
    off = {f: "Disable" for f in FLAGS}

    def base():
        for a, run in args_of(off):
            for x in a:
                c.violate("options: %s without being asked for" % x, run.where, "with every option disabled the tool is given %s%s" % (x, run.when()))
    c.obligation("all options disabled", base)

    def check(on, name, *shape):
        def go():
            o = dict(off)
            o.update({f: "Enable" for f in on})
            for a, run in args_of(o, *shape):
                one(a, run)

        def one(a, run):
            for f, fl in FLAGS.items():
                if f not in run.fields:
                    c.violate("options: field %s" % f, run.where, "the option %s no longer exists" % f)
                    continue
                k = a.count(fl)
                if f in on and k != 1:
                    c.violate("options: %s enabled" % f, run.where, "options enabled: %s; the flag %s is given %d times: %s" % (sorted(on), fl, k, a))
                if f not in on and k:
                    c.violate("options: %s disabled" % f, run.where, "options enabled: %s; the tool is given %s" % (sorted(on), fl))
            for x in a:
                if x not in FLAGS.values():
                    c.violate("options: unknown flag %s" % x, run.where, "options enabled: %s; the tool is given %s" % (sorted(on), x))
            c.samples.append("%s -> %s" % (sorted(on), a))
        c.obligation("options " + name, go)
    for f in FLAGS:
        check({f}, f)
    check(set(FLAGS), "all")
    for p, n in ((False, 0), (True, 0), (True, 1), (False, 2), (True, 3)):
        check(set(FLAGS), "all, " + shape_name(p, n), p, n)
        check(set(list(FLAGS)[::2]), "half, " + shape_name(p, n), p, n)
        check(set(list(FLAGS)[1::2]), "other half, " + shape_name(p, n), p, n)
    for f in FLAGS:
        check(set(FLAGS) - {f}, "all but " + f)

    # independence: with symbolic options every argument depends on one option
    def indep():
        run = Run(c, False, 1)
        v, ev, cmd, conds = success(run)
        prog, args, shell = argv(cmd)
        fs = {f: t.proj(t.sym("o"), None, f) for f in FLAGS}
        for part in t.parts_of(args):
            used = [f for f, x in fs.items() if t.contains(part, x)]
            if len(used) <= 1:
                continue
            if len(used) > 10:
                raise Undecided("an argument depends on %d options" % len(used))
            for bits in range(1 << len(used)):
                check({f for i, f in enumerate(used) if bits >> i & 1}, "combination %d of %s" % (bits, ",".join(used)))
    c.obligation("independence of options", indep)


@prop("M03", ["base"], BASIS + " Each effect of a run is made to fail in turn, and the tool's exit status and diagnostics are set.",
      "for each effect: its failure is returned as the error of its own kind carrying the system's error; the tool failing or complaining is an error; otherwise the result is Ok; no path panics")
def m03(c):
    def panics(run, nm, when):
        for pn in run.E.panics if run.dead else ():
            c.violate("errors: panic" + when, pn[0], "%s: every run%s ends in a panic: %s" % (nm, when, pn[2]))
        return run.dead

    for p, n in ((False, 0), (False, 1), (True, 0), (True, 2)):
        nm = shape_name(p, n)

        def good(p=p, n=n):
            if panics(Run(c, p, n, nofl(c)), shape_name(p, n), ""):
                return
            for run in Run(c, p, n, nofl(c)).cases():
                good1(run, shape_name(p, n) + run.when())

        def good1(run, nm):
            pos, outs, v, ev, cmd = parsed(run)
            for lf in [l for _, l in leaves(v)]:
                if not (lf.op == "ctor" and lf.a[1] == "Ok"):
                    out = mk("val", cmd)
                    if any(t.contains(x, out) for x in decisions(v)):
                        raise Undecided("a test on what the tool said: %s" % t.show(next(x for x in decisions(v) if t.contains(x, out)))[:200])
                    c.violate("errors: success reported as failure", run.where, "%s: the tool succeeded silently, yet the result is %s" % (nm, t.show(lf)[:300]))
            cs = success(run)[3]
            to = t.proj(cmd.a[3], None, "stderr")
            piped = to is t.some(mk("call", "stdio.piped")) or to is t.NONE and cmd.a[0] == "cmd.output"
            if not piped:
                if to.op not in ("ctor",) or to is not t.NONE and not (to.a[3][0].op == "call" and str(to.a[3][0].a[0]).startswith("stdio.")):
                    raise Undecided("diagnostics go to %s" % t.show(to)[:200])
                c.violate("errors: diagnostics not captured", run.where, "%s: the tool's diagnostics go elsewhere (%s), so that no run sees them" % (nm, t.show(to)[:100]))
            for pn in run.E.panics:
                c.violate("errors: panic in %s" % pn[0], pn[0], "%s: %s" % (nm, pn[2]))
            if not cs["status"]:
                c.violate("errors: exit status ignored", run.where, "%s: no path of the result depends on the exit status of the tool: a failing tool is reported as success" % nm)
            if not cs["stderr"]:
                c.violate("errors: diagnostics ignored", run.where, "%s: no path of the result depends on the tool's diagnostics" % nm)
            for which in ("status", "stderr"):
                v2 = run.v
                for s, l in cs[which]:
                    v2 = t.restrict(v2, s, not l)
                for facts, lf in leaves(v2):
                    if lf.op == "ctor" and lf.a[1] == "Ok" and cs[which]:
                        c.violate("errors: %s of the tool" % which, run.where, "%s: the tool %s, yet the result is Ok" % (nm, "failed" if which == "status" else "reported an error"))
                    if which == "stderr" and lf.op == "ctor" and lf.a[1] == "Err":
                        e = lf.a[3][0]
                        want = t.proj(output_of(run, cmd), None, "stderr")
                        lost = next((x for _, x in leaves(e.a[3][0]) if not t.contains(x, want)), None) if e.op == "ctor" and len(e.a[3]) == 1 else None
                        cut = [x for x in around(e, want) if x.op in ("first", "index", "substr", "last") or x.op == "call" and str(x.a[0]).split(".")[-1] in CUTS]
                        if t.contains(e, want) and (lost or cut):
                            c.violate("errors: diagnostics lost", run.where, "%s: the tool's diagnostics are not all in the error: %s" % (nm, t.show(lost or cut[0])[:200]))
                        if not t.contains(e, want):
                            c.violate("errors: diagnostics lost", run.where, "%s: the tool's diagnostics are not in the error %s" % (nm, t.show(e)[:200]))
        need_tool(c, "tool result, " + nm, good)

        def effects(p=p, n=n):
            for run0 in Run(c, p, n, nofl(c)).cases():
                effects1(run0, p, n, shape_name(p, n) + run0.when())

        def effects1(run0, p, n, nm):
            pos, outs, v, ev, cmd = parsed(run0)
            files = {is_path_of(x) for x in pos}
            out = is_path_of(outs[0]) if outs and outs[0] is not None else None
            for r in list(run0.log):
                i = (r.a[0], r.a[1], r.a[2])

                def one(r=r, i=i):
                    run = Run(c, p, n, nofl(c), fail=i)
                    if panics(run, nm, " when %s fails" % r.a[0]):
                        return
                    for s, l in run0.trail:
                        run = run.under(s, l)
                    if r.a[0] == "tempfile":
                        kind = "TempInputFileCreationFailed" if r in files else "TempOutputFileCreationFailed" if r is out else None
                    elif r.a[0] in ("write_all", "write", "fs.write", "flush"):
                        kind = "TempInputFileWriteFailed"
                    elif r.a[0].startswith(("cmd.", "child.")):
                        kind = "MergeExecutionFailed"
                    elif r.a[0] in ("read_to_end", "read", "fs.read"):
                        kind = "ReadFromOutputFileFailed"
                    else:
                        kind = None
                    rv = run.v
                    for s, l in status_terms(mk("val", cmd), run, rv)["ok"]:
                        rv = t.restrict(rv, s, l)
                    lv = [x for _, x in leaves(rv)]
                    for x in lv:
                        if x.op == "ctor" and x.a[1] == "Ok":
                            c.violate("errors: failing %s goes unnoticed" % r.a[0], run.where, "%s: %s fails and the result is %s" % (nm, t.show(r)[:100], t.show(x)[:200]))
                        elif x.op == "ctor" and x.a[1] == "Err" and x.a[3][0].op == "ctor":
                            e = x.a[3][0]
                            if not kind and r.a[0] != "tempfile":
                                raise Undecided("effect %s has no error kind" % r.a[0])
                            cause = any(isinstance(y, t.T) and t.contains(y, r) for y in e.a[3])
                            if kind and e.a[1] != kind and cause:
                                c.violate("errors: kind for %s" % kind, run.where, "%s: %s fails, reported as %s instead of %s" % (nm, t.show(r)[:100], e.a[1], kind))
                            if not cause:
                                c.violate("errors: cause lost for %s" % r.a[0], run.where, "%s: %s fails, the error is %s" % (nm, t.show(r)[:100], t.show(e)[:200]))
                        else:
                            raise Undecided("result " + t.show(x)[:200])
                    for pn in run.E.panics:
                        c.violate("errors: panic when %s fails" % r.a[0], pn[0], "%s: %s" % (nm, pn[2]))
                    if r.a[0] in ("tempfile", "write_all", "write") and (r in files or r.a[0] != "tempfile"):
                        if any(q.a[0] in RUNNERS for q in run.log) and r.a[1] and before(run0, r, cmd):
                            lv = [l for _, l in leaves(run.ev)]
                            if any(e.a[0] in RUNNERS for l in lv for e in (events(l) or [])):
                                c.violate("errors: tool run without its input", run.where, "%s: %s fails and the tool is started all the same" % (nm, t.show(r)[:100]))
                c.obligation("failing %s#%d, %s" % (i[0], i[1], nm), one)
        need_tool(c, "effects, " + nm, effects)


def before(run, a, b):
    l = run.log
    return l.index(a) < l.index(b)


@prop("M04", ["base"], BASIS + " The event list is inspected: which temporary files exist, are complete and undropped when the child process is started.",
      "for each module list: one file of its own per module, written completely, once and before the tool starts, alive until it has ended; the output file is none of them")
def m04(c):
    for p, n in shapes(c):
        def go(p=p, n=n):
            for run in Run(c, p, n, nofl(c)).cases():
                one(run)

        def one(run, p=p, n=n):
            nm = shape_name(p, n) + run.when()
            pos, outs, v, ev, cmd = parsed(run)
            hs = [is_path_of(x) for x in pos[::2]]
            out = is_path_of(outs[0]) if len(outs) == 1 and outs[0] is not None else None
            if len(outs) != 1:
                c.violate("files: number of output files", run.where, "%s: the tool is given %d output files" % (nm, len(outs)))
                return
            if out is None or None in hs:
                raise Undecided("argument is not a path")
            if len(set(hs)) != len(hs):
                c.violate("files: one file for two modules", run.where, "%s: two modules share a file" % nm)
            if out in hs:
                c.violate("files: output overwrites input", run.where, "%s: the output file is one of the input files" % nm)
            evs = events(ev)
            if evs is None:
                raise Undecided("event list " + t.show(ev)[:300])
            k = [i for i, e in enumerate(evs) if e.a[0] in RUNNERS][0]
            end = k
            if evs[k].a[0] == "cmd.spawn":
                w = [i for i, e in enumerate(evs) if e.a[0] in ("child.wait", "child.wait_with_output")]
                if not w:
                    c.violate("files: tool not awaited", run.where, "%s: the tool is started but its end is not awaited" % nm)
                    return
                end = w[0]
            for j, (h, m) in enumerate(zip(hs, run.mods)):
                ws = [(i, e) for i, e in enumerate(evs) if e.a[0] in ("write_all", "write", "fs.write", "write_vectored") and mentions(e, h)]
                full = [i for i, e in ws if e.a[0] in ("write_all", "fs.write")]
                if not full and run.w(t.proj(m, None, "module")) is not t.EMPTY:
                    c.violate("files: module not written completely", run.where, "%s: the file of module %d receives %s" % (nm, j, [e.a[0] for _, e in ws] or "nothing"))
                for i in full:
                    if i > k:
                        c.violate("files: module written too late", run.where, "%s: the file of module %d is written after the tool was started" % (nm, j))
                if len(ws) > 1:
                    c.violate("files: module written more than once", run.where, "%s: the file of module %d is written %d times" % (nm, j, len(ws)))
            for h in hs + [out]:
                for i, e in enumerate(evs[:end]):
                    if e.a[0] in ("drop", "tempfile.close", "fs.remove_file") and any(t.contains(x, h) for x in e.a[1:] if isinstance(x, t.T)):
                        c.violate("files: deleted before the tool has ended", run.where, "%s: %s before the tool has ended" % (nm, t.show(e)[:200]))
            c.samples.append("%s: %s" % (nm, [e.a[0] for e in evs]))
        c.obligation("files " + shape_name(p, n), go)


@prop("M05", ["base"], BASIS + " The child process' program and argument vector are read off.",
      "the merge tool itself is the program started, and each namespace and path is one whole argument of it; no shell parses them")
def m05(c):
    for p, n in ((False, 0), (False, 1), (True, 1), (True, 2)):
        def go(p=p, n=n):
            for run in Run(c, p, n, nofl(c)).cases():
                one(run)

        def one(run, p=p, n=n):
            v, ev, cmd, conds = success(run)
            cm = cmd.a[3]
            prog, args = t.proj(cm, None, "program"), t.proj(cm, None, "args")
            nm = shape_name(p, n) + run.when()
            if not t.is_const(prog) and has_env(prog):
                c.violate("shell: program", run.where, "%s: the environment chooses the program that is started: %s" % (nm, t.show(prog)[:200]))
                return
            if not t.is_const(prog):
                raise Undecided("program " + t.show(prog)[:200])
            ctx = t.proj(cm, None, "context")
            if ctx is not t.EMPTY and any(x.op == "one" and x.a[0].op == "call" and x.a[0].a[0] in ("cmd.env_clear", "cmd.env_remove", "cmd.env", "cmd.envs") for x in t.parts_of(ctx)):
                raise Undecided("the environment of the tool is set: %s" % t.show(ctx)[:200])
            base = str(t.cval(prog)).rsplit("/", 1)[-1]
            if base in ("bash", "sh", "dash", "zsh", "ash", "ksh", "cmd", "env", "xargs", "powershell"):
                c.violate("shell: command line is parsed", run.where, "%s: the tool is started through %s with %s" % (nm, base, t.show(args)[:300]))
                return
            if base != "wasm-merge":
                c.violate("shell: program", run.where, "%s: %s is started instead of wasm-merge" % (nm, base))
            a = flat(args)
            if a is None:
                raise Undecided("arguments " + t.show(args)[:200])
            for m in run.mods:
                w = run.w(t.proj(m, None, "namespace"))
                if w not in a and any(t.contains(x, w) for x in a):
                    c.violate("shell: namespace is not an argument of its own", run.where, "%s: the namespace is part of %s" % (nm, [t.show(x)[:200] for x in a if t.contains(x, w)]))
            for x in a:
                if x.op == "call" and x.a[0] == "lossy":
                    c.violate("shell: path is altered", run.where, "%s: a path that is not valid UTF-8 is passed with replacement characters: %s" % (nm, t.show(x)[:200]))
                if x.op == "cat" and any(t.contains(x, r) for r in run.log):
                    c.violate("shell: path is not an argument of its own", run.where, "%s: %s" % (nm, t.show(x)[:200]))
        c.obligation("argument vector " + shape_name(p, n), go)


@prop("M06", ["base"], BASIS + " The value returned on success is followed to the read it comes from.",
      "the bytes returned are those read, after the tool has ended, from the file the tool was told to write, neither more nor less")
def m06(c):
    for p, n in ((False, 0), (False, 1), (True, 1), (True, 2)):
        def go(p=p, n=n):
            for run in Run(c, p, n, nofl(c)).cases():
                one(run)

        def one(run, p=p, n=n):
            pos, outs, v, ev, cmd = parsed(run)
            nm = shape_name(p, n) + run.when()
            out = is_path_of(outs[0]) if len(outs) == 1 and outs[0] is not None else None
            if out is None:
                raise Undecided("output path")
            for facts, lf in leaves(v):
                if not (lf.op == "ctor" and lf.a[1] == "Ok"):
                    continue
                x = lf.a[3][0]
                ps = t.parts_of(x)
                src = []
                for q in ps:
                    y = q
                    if y.op == "call" and y.a[0] == "content":
                        y = y.a[1]
                        y = y.a[3][0] if y.op == "ctor" else y
                    r = strip(y)
                    src.append(r)
                if not ps or (len(ps) == 1 and ps[0].op == "one") or x.op == "const":
                    c.violate("output: not what the tool wrote", run.where, "%s: the result is %s" % (nm, t.show(x)[:200]))
                    continue
                if len(ps) != 1 or src[0] is None:
                    if any(t.contains(x, m) for m in run.mods) or len([s for s in src if s is not None]) > 1 or (src and all(s is not None or q.op == "one" for s, q in zip(src, ps))):
                        c.violate("output: not what the tool wrote", run.where, "%s: the result is %s" % (nm, t.show(x)[:300]))
                        continue
                    raise Undecided("result " + t.show(x)[:300])
                r = src[0]
                if r is cmd or r.a[0] not in ("read_to_end", "fs.read"):
                    c.violate("output: not what the tool wrote", run.where, "%s: the result comes from %s" % (nm, t.show(r)[:200]))
                    continue
                h = is_path_of(r.a[3])
                if h is not out:
                    c.violate("output: read from another file", run.where, "%s: the result is read from %s" % (nm, t.show(r.a[3])[:200]))
                if not before(run, cmd, r):
                    c.violate("output: read before the tool ran", run.where, "%s: the output is read before the tool is started" % nm)
                c.samples.append("%s: %s" % (nm, t.show(r)[:200]))
        need_tool(c, "result " + shape_name(p, n), go)

"""Properties of the parts around the instrumentation: requests, pipeline, command line."""
import re
from .. import terms as t
from .. import hooks as H
from ..spec import prop, Undecided, where
from ..wasm import WasmEng
from ..mirflow import Dead, norm
from .core import A, only, wtype, export, interface, methods

LANGS = {"wastrumentation_lang_rust": "Rust", "wastrumentation_lang_webassembly": "WebAssembly"}

# hook -> the traps it asks for
_T = ("i32", "i64", "f32", "f64")
REQUESTS = {
    "GenericApply": ["generic_interface"],
    "CallPre": ["pre_trap_call"], "CallPost": ["post_trap_call"],
    "CallIndirectPre": ["pre_trap_call_indirect"], "CallIndirectPost": ["post_trap_call_indirect"],
    "IfThen": ["if_then_trap"], "IfThenPost": ["if_then_post_trap"],
    "IfThenElse": ["if_then_else_trap"], "IfThenElsePost": ["if_then_else_post_trap"],
    "Branch": ["br_trap"], "BranchIf": ["br_if_trap"], "BranchTable": ["br_table_trap"],
    "Select": ["select"], "Drop": ["drop_trap"], "Return": ["return_trap"],
    "Unary": [f for f in H.SIG if f.startswith("unary_")],
    "Binary": [f for f in H.SIG if f.startswith("binary_")],
    "Const": ["const_%s_trap" % x for x in _T],
    "Local": ["local_%s_%s" % (o, x) for o in ("get", "set", "tee") for x in _T],
    "Global": ["global_%s_%s" % (o, x) for o in ("get", "set") for x in _T],
    "Store": ["%s_store" % x for x in _T], "Load": ["%s_load" % x for x in _T],
    "MemorySize": ["memory_size"], "MemoryGrow": ["memory_grow"],
    "BlockPre": ["pre_block"], "BlockPost": ["post_block"], "LoopPre": ["pre_loop"], "LoopPost": ["post_loop"],
}

# the names under which analyses export the traps
NAMES = {
    "generic_interface": "generic_apply",
    "if_then_trap": "specialized_if_then_k", "if_then_post_trap": "trap_if_then_post",
    "if_then_else_trap": "specialized_if_then_else_k", "if_then_else_post_trap": "trap_if_then_else_post",
    "br_trap": "specialized_br", "br_if_trap": "specialized_br_if", "br_table_trap": "specialized_br_table",
    "pre_trap_call": "specialized_call_pre", "post_trap_call": "specialized_call_post",
    "pre_trap_call_indirect": "specialized_call_indirect_pre", "post_trap_call_indirect": "specialized_call_indirect_post",
    "pre_block": "trap_block_pre", "post_block": "trap_block_post", "pre_loop": "trap_loop_pre", "post_loop": "trap_loop_post",
    "select": "specialized_select", "drop_trap": "drop_trap", "return_trap": "return_trap",
    "memory_size": "trap_memory_size", "memory_grow": "trap_memory_grow",
}
for _x in _T:
    NAMES["const_%s_trap" % _x] = "trap_const_" + _x
    for _o in ("local_get", "local_set", "local_tee", "global_get", "global_set"):
        NAMES["%s_%s" % (_o, _x)] = "trap_%s_%s" % (_o, _x)
    for _o in ("load", "store"):
        NAMES["%s_%s" % (_x, _o)] = "trap_%s_%s" % (_x, _o)
for _f in H.SIG:
    NAMES.setdefault(_f, _f)


def wanted(E, field):
    if field == "generic_interface":
        return export(E, t.const(NAMES[field]), ["I32"] * 7, [])
    return export(E, t.const(NAMES[field]), *H.SIG[field])


def hook_value(E, adt, name):
    return t.ctor(adt, name, (), ())


def sets_of(E, adt, names):
    return t.mk("set", t.lst([hook_value(E, adt, n) for n in names]))


def analysis_spec(F, lang):
    return only([k for k, f in F.fns.items() if f["local"] and not f["closure"] and k.startswith(("<" + lang, lang)) and f["path"].endswith("::from") and
                 (f.get("impl_trait") or "").startswith("std::convert::From<%s" % lang) and "ProcessedAnalysis" in f["impl_of"]], "From<..AnalysisSpec> of " + lang)


def request(c, lang, what, hooks):
    """the interface made of a request for these hooks is the one of these hooks, and nothing else"""
    F = c.facts("core")
    E = WasmEng(F)
    E.concrete = True
    adt = lang + "::generate::analysis::Hook"
    key = analysis_spec(F, lang)
    spec = only([a for a in F.adts if a.startswith(lang + "::generate::analysis::") and a.endswith("AnalysisSpec")], "the request of " + lang)
    v, st = E.eval_fn(key, [E.build(spec, hooks=sets_of(E, adt, hooks), source=t.sym("source"))])
    c.note("functions", *[F.fns[x]["path"] for x in E.visited])
    at = where(F, key)
    c.same("%s/source" % LANGS[lang], t.proj(v, None, "analysis_library"), t.sym("source"), at, "the analysis that is compiled")
    got = t.proj(v, None, "analysis_interface")
    on = set(f for h in hooks for f in REQUESTS[h])
    for f in fields(F):
        c.note("fields", f)
        x = t.proj(got, None, f)
        lab = t.lab_of(t.disc(x))
        if lab not in ("Some", "None"):
            raise Undecided("%s of the interface for %s: %s" % (f, what, t.show(x)[:200]))
        if lab == "None" and f in on:
            c.violate("%s/%s not requested" % (LANGS[lang], f), at, "with %s requested, the interface leaves %s out" % (what, f))
        elif lab == "Some" and f not in on:
            c.violate("%s/%s requested" % (LANGS[lang], f), at, "with %s requested, the interface also asks for %s" % (what, f))
        elif lab == "Some":
            x = t.proj(x, "Some", "0")
            if f == "generic_interface":
                b = t.proj(x, None, "1")
                c.same("%s/call_base" % LANGS[lang], t.tup([t.proj(b, None, "name"), t.proj(b, None, "args"), t.proj(b, None, "results")]),
                       t.tup([t.const("call_base"), t.lst([wtype(E, "I32")] * 2), t.EMPTY]), at, "the function the generic apply hook resumes by, with %s requested" % what)
                x = t.proj(x, None, "0")
            c.same("%s/%s" % (LANGS[lang], f), x, wanted(E, f), at, "the export asked for as %s, with %s requested" % (f, what))


def fields(F):
    return [f[0] for f in F.adts[A + "AnalysisInterface"]["variants"][0]["fields"]]


def variants(F, adt):
    return [v["name"] for v in F.adts[adt]["variants"]]


@prop("C14", ["core"], "the functions making an AnalysisInterface of a request are evaluated over their MIR for no hook, each hook alone, all hooks but each "
      "one, and all hooks of the Rust and WebAssembly analysis languages; every field of the interface is compared with the published names and types",
      "for each request R and field f: f is present iff f belongs to a hook of R, and then holds the export name, parameters and results published for f")
def c14(c):
    F = c.facts("core")
    todo = {}
    for lang in LANGS:
        adt = lang + "::generate::analysis::Hook"
        if adt not in F.adts:
            c.undecided.append("no type " + adt)
            continue
        vs = variants(F, adt)
        for h in REQUESTS:
            if h not in vs:
                c.violate("%s/no hook %s" % (LANGS[lang], h), adt, "%s is no longer a hook that can be requested" % h)
        extra = [v for v in vs if v not in REQUESTS]
        if extra:
            c.undecided.append("hooks without a specification: %s" % extra)
        vs = [v for v in vs if v in REQUESTS]
        todo["%s: none" % lang] = (lang, "nothing", [])
        for h in vs:
            todo["%s: %s" % (lang, h)] = (lang, h, [h])
            todo["%s: all but %s" % (lang, h)] = (lang, "all but " + h, [x for x in vs if x != h])
        todo["%s: all" % lang] = (lang, "every hook", vs)
        c.obligation("%s: every hook is one of all_hooks" % lang, lambda: all_hooks(c, lang, vs + extra))
    miss = [f for f in fields(F) if f not in NAMES]
    if miss:
        c.undecided.append("fields of the interface without a specification: %s" % miss)
    c.parallel(todo, lambda n: request(c, *todo[n]))


def all_hooks(c, lang, vs):
    F = c.facts("core")
    key = c.fn("core", lang + "::generate::analysis::Hook::all_hooks")
    E = WasmEng(F)
    v, st = E.eval_fn(key, [])
    els = t.elements(v.a[0]) if v.op == "set" else None
    if els is None:
        raise Undecided("all_hooks gives " + t.show(v)[:300])
    got = [t.lab_of(t.disc(x)) for x in els]
    for h in vs:
        if h not in got:
            c.violate("%s/all_hooks lacks %s" % (LANGS[lang], h), where(F, key), "all_hooks() leaves out %s" % h)


# ---------------------------------------------------------------- the pipeline
WA = "wastrumentation::"
COMPILE = WA + "compiler::Compiles::compile"
PRIMARY = {"None": None, "Analysis": "analysis", "Target": "target", "Instrumentation": "library"}
SPACES = {"analysis": "WASTRUMENTATION_ANALYSIS", "target": "instrumented_input", "library": "wastrumentation_stack"}


class Stages(WasmEng):
    """wastrument() with its stages as symbols: each records what it is given and succeeds or fails as told"""
    concrete = True

    def __init__(self, F, fails, library):
        WasmEng.__init__(self, F)
        self.fails, self.library, self.ran = fails, library, []
        h = self.hooks
        h[COMPILE] = self.h_compile
        h[WA + "compiler::DefaultCompilerOptions::default_for"] = lambda E, st, d, a: t.mk("call", "options", self.v(st, a[0]))
        h[WA + "instrument::instrument"] = self.h_instrument
        h["wasm_merge::MergeOptions::merge"] = lambda E, st, d, a: self.stage("merge", t.sym("merged"), self.v(st, a[0]))

    def stage(self, name, result, *args):
        self.ran.append((name, args))
        return t.err(t.sym(name + " failure")) if self.fails == name else t.ok(result)

    def h_compile(self, E, st, d, a):
        comp, opts = self.v(st, a[0]), self.v(st, a[1])
        src = opts.a[1] if opts.op == "call" and opts.a[0] == "options" else opts
        kind = {t.sym("analysis source"): "analysis", t.sym("library source"): "library"}.get(src)
        if kind is None:
            raise Undecided("compiles " + t.show(src)[:200])
        return self.stage("compile " + kind, t.sym(kind + " module"), comp)

    def h_instrument(self, E, st, d, a):
        a = [self.v(st, x) for x in a]
        lib = t.some(self.build(WA + "compiler::Library", content=t.sym("library source"), language=t.tup([]))) if self.library else t.NONE
        return self.stage("instrument", self.build(WA + "instrument::Instrumented", module=t.sym("target module"), instrumentation_library=lib), *a)


def wastrument_key(c):
    F = c.facts("core")
    ks = [k for k, f in F.fns.items() if f["path"].startswith(WA + "Wastrumenter::") and f["path"].endswith("::wastrument") and not f["closure"]]
    mono = sorted(k for k in ks if not F.fns[k]["poly"])
    if not mono:
        raise Undecided("no instance of wastrument")
    c.note("functions", F.fns[mono[0]]["path"])
    return mono[0]


FAIL = {"compile analysis": "CompilationErrorAnalysis", "instrument": "InstrumentationError",
        "compile library": "CompilationErrorInstrumentation", "merge": "MergeError"}


def pipeline(c, primary, library, fails):
    F = c.facts("core")
    key = wastrument_key(c)
    E = Stages(F, fails, library)
    ps = t.NONE if primary == "None" else t.some(t.ctor(WA + "PrimaryTarget", primary, (), ()))
    me = E.build(WA + "Wastrumenter", instrumentation_language_compiler=t.sym("library compiler"), analysis_language_compiler=t.sym("analysis compiler"),
                 instrumentation_language=t.tup([]), analysis_language=t.tup([]))
    pa = E.build(A + "ProcessedAnalysis", analysis_library=t.sym("analysis source"), analysis_interface=t.sym("interface"))
    conf = E.build(WA + "Configuration", target_indices=t.sym("targets"), primary_selection=ps)
    v, st = E.eval_fn(key, [me, t.sym("input"), pa, conf])
    c.note("functions", *[F.fns[x]["path"] for x in E.visited])
    at = where(F, key)
    lab = t.lab_of(t.disc(v))
    if lab not in ("Ok", "Err"):
        raise Undecided("wastrument gives " + t.show(v)[:300])
    case = "primary module %s, %s stack library%s" % (primary, "with a" if library else "no", ", failing: " + fails if fails else "")
    ran = [n for n, _ in E.ran]
    got = dict(E.ran)
    if fails:
        if lab == "Ok":
            c.violate("failure ignored/" + fails, at, "%s: wastrument succeeds although %s failed" % (case, fails))
            return
        want = E.build(WA + "error::Error", FAIL[fails], _0=t.sym(fails + " failure"))
        c.same("error/" + fails, t.proj(v, "Err", "0"), want, at, "%s: the error reported" % case)
        return
    if lab == "Err":
        c.violate("spurious error", at, "%s: wastrument fails although no stage did: %s" % (case, t.show(v)[:300]))
        return
    c.same("result", t.proj(v, "Ok", "0"), t.sym("merged"), at, "%s: the module produced" % case)
    for n, k in (("compile analysis", 1), ("instrument", 1), ("compile library", int(library)), ("merge", 1)):
        if ran.count(n) != k:
            c.violate("stage/" + n, at, "%s: stage '%s' ran %d times" % (case, n, ran.count(n)))
            return
    c.same("compiler/analysis", got["compile analysis"][0], t.sym("analysis compiler"), at, "%s: what compiles the analysis" % case)
    if library:
        c.same("compiler/library", got["compile library"][0], t.sym("library compiler"), at, "%s: what compiles the stack library" % case)
    for i, n in enumerate(("input", "interface", "targets")):
        c.same("instrument/" + n, got["instrument"][i], t.sym(n), at, "%s: what is instrumented" % case)
    o = got["merge"][0]
    prim, mods = t.proj(o, None, "primary"), t.elements(t.proj(o, None, "input_modules"))
    if mods is None:
        raise Undecided("modules merged: " + t.show(o)[:300])

    def mod(k):
        return E.build("wasm_merge::InputModule", module=t.sym(k + " module"), namespace=t.const(SPACES[k]))

    def name(m):
        x = t.proj(m, None, "module")
        return next((k for k in SPACES if t.equal(x, t.sym(k + " module")) is None), None)
    want = PRIMARY[primary]
    if want == "library" and not library:
        want = None
    c.same("primary", prim, t.some(mod(want)) if want else t.NONE, at, "%s: the primary module of the merge" % case)
    rest = [name(m) for m in mods]
    if None in rest:
        raise Undecided("modules merged: " + t.show(o)[:300])
    for k in SPACES:
        n = (rest + [want]).count(k)
        if n != (1 if k != "library" or library else 0):
            c.violate("merged/" + k, at, "%s: the %s module takes part %d times in the merge" % (case, k, n))
    for m, k in zip(mods, rest):
        c.same("namespace/" + k, m, mod(k), at, "%s: the %s module handed to the merge" % (case, k))
    if want != "target" and "analysis" in rest and "target" in rest and rest.index("analysis") < rest.index("target"):
        c.violate("order", at, "%s: the analysis goes before the program, so that its exports win over the program's on a conflict" % case)
    for f, why in (("multimemory", "each module brings a memory of its own"), ("rename_export_conflicts", "the program and the analysis may export the same name"),
                   ("bulk_memory", "programs and analyses use bulk memory instructions"), ("no_validation", "modules are linked as they are")):
        x = t.proj(o, None, f)
        lab = t.lab_of(t.disc(x))
        if lab is None:
            raise Undecided("option %s: %s" % (f, t.show(x)[:200]))
        if lab != "Enable":
            c.violate("option/" + f, at, "%s: %s is off in the merge, but %s" % (case, f, why))


@prop("C13", ["core"], "Wastrumenter::wastrument is evaluated over its MIR with compilers, instrumentation and merge as symbols, for each primary "
      "selection, with and without a stack library, with no stage and with each stage failing",
      "each stage gets its own source, compiler, interface and targets; each module enters the merge once under the namespace its importers use; "
      "a failing stage becomes the error variant of that stage carrying its cause")
def c13(c):
    todo = {}
    for p in PRIMARY:
        for lib in (True, False):
            for fails in (None,) + tuple(FAIL):
                if fails == "compile library" and not lib or fails and p not in ("None", "Target"):
                    continue
                todo["primary %s, library %s, failing %s" % (p, lib, fails)] = (pipeline, p, lib, fails)
    for lang in list(LANGS) + [ASC]:
        todo["%s: setup" % lang] = (setup, lang)
        for kind in ("source", "file") if lang != ASC else ("source",):
            for fails in (False, True):
                todo["%s %s %s" % (lang, kind, "failing" if fails else "")] = (compiler, lang, kind, fails)
    c.parallel(todo, lambda n: todo[n][0](c, *todo[n][1:]))


# ---------------------------------------------------------------- the compilers
RW = "rust_to_wasm_compiler::"
ASC = "wastrumentation_lang_assemblyscript"
NEWS = {"wastrumentation_lang_rust": RW + "RustToWasmCompiler::new", ASC: "asc_compiler_rs::compiler::Compiler::new"}


def setup(c, lang):
    """a compiler that cannot be set up is an error, one that can is the one that is used"""
    F = c.facts("core")
    for fails in (False, True):
        E = WasmEng(F)
        for n in NEWS.values():
            E.hooks[n] = lambda E_, st, d, a: t.err(t.sym("cause")) if fails else t.ok(t.sym("outer compiler"))
        key = only([k for k, f in F.fns.items() if f["local"] and f["path"].endswith("::setup_compiler") and not f["closure"] and
                    (f.get("impl_trait") or "").startswith(WA + "compiler::Compiles<%s::" % lang)], "setup_compiler of " + lang)
        v, st = E.eval_fn(key, [])
        at = where(F, key)
        c.note("functions", F.fns[key]["path"])
        lab = t.lab_of(t.disc(v))
        if lab is None:
            raise Undecided("setup_compiler of %s gives %s" % (lang, t.show(v)[:300]))
        if lang not in NEWS:
            fails = False
        if lab != ("Err" if fails else "Ok"):
            c.violate(lang + "/setup", at, "setting up the compiler of %s gives %s although it %s" % (lang, lab, "failed" if fails else "succeeded"))
        elif fails:
            c.same(lang + "/setup cause", t.proj(v, "Err", "0"), t.sym("cause"), at, "the reason why the compiler of %s is not set up" % lang)
        elif lang in NEWS:
            v = t.proj(v, "Ok", "0")
            c.same(lang + "/setup compiler", v if lang == ASC else t.proj(v, None, "compiler"), t.sym("outer compiler"), at, "the compiler of %s that is set up" % lang)


class Compiling(WasmEng):
    """the outer compilers as symbols: what they are given, and a result of either kind"""

    def __init__(self, F, fails):
        WasmEng.__init__(self, F)
        self.given = []

        def outer(name):
            def h(E, st, d, a):
                self.given.append((name, [self.snapshot(st, x) for x in a]))
                return t.err(t.sym("cause")) if fails else t.ok(t.sym("wasm"))
            return h
        for n in (RW + "RustToWasmCompiler::compile", RW + "RustToWasmCompiler::compile_source", "wat::parse_str", "asc_compiler_rs::compiler::Compiler::compile"):
            self.hooks[n] = outer(n)
        self.hooks["asc_compiler_rs::options::CompilerOptions::default_for"] = lambda E, st, d, a: t.mk("call", "asc options", self.snapshot(st, a[0]))


def compiler(c, lang, kind, fails):
    F = c.facts("core")
    E = Compiling(F, fails)
    keys = {}
    for n, tr in (("compile", "Compiles"), ("default_for", "DefaultCompilerOptions")):
        ks = [k for k, f in F.fns.items() if f["local"] and f["path"].endswith("::" + n) and not f["closure"] and
              (f.get("impl_trait") or "").startswith(WA + "compiler::%s<%s::" % (tr, lang))]
        keys[n] = only(ks, "%s of %s" % (n, lang))
    s = t.sym
    if lang.endswith("_rust"):
        S = lang + "::compile::options::"
        if kind == "source":
            src = E.build(S + "RustSource", "SourceCode", _0=s("wasi"), _1=E.build(S + "ManifestSource", _0=s("manifest")), _2=E.build(S + "RustSourceCode", _0=s("code")))
            want = [s("wasi"), s("manifest"), s("code")]
        else:
            src = E.build(S + "RustSource", "Manifest", _0=s("wasi"), _1=s("path"))
            want = [s("wasi"), s("path")]
        callee = RW + "RustToWasmCompiler::" + ("compile_source" if kind == "source" else "compile")
    elif lang.endswith("_webassembly"):
        src = E.build(lang + "::compile::options::WebAssemblySource", "Wat" if kind == "source" else "Module", _0=s("code"))
        want, callee = [s("code")], "wat::parse_str"
    elif lang == ASC:
        src, want, callee = s("code"), [s("compiler"), t.mk("call", "asc options", s("code"))], "asc_compiler_rs::compiler::Compiler::compile"
    else:
        raise Undecided("no specification for " + lang)
    opts, st = E.eval_fn(keys["default_for"], [src])
    v, st = E.eval_fn(keys["compile"], [s("compiler"), opts])
    c.note("functions", *[F.fns[x]["path"] for x in E.visited])
    at = where(F, keys["compile"])
    what = "compiling %s given as %s" % (lang, kind)
    ready = lang.endswith("_webassembly") and kind != "source"
    if ready:
        c.same(lang + "/module", v, t.ok(s("code")), at, what)
        return
    if [n for n, _ in E.given] != [callee]:
        c.violate(lang + "/" + kind, at, "%s: it runs %s" % (what, [n for n, _ in E.given]))
        return
    got = E.given[0][1]
    if lang.endswith("_rust"):
        c.same("%s/%s/compiler" % (lang, kind), got[0], t.proj(s("compiler"), None, "compiler"), at, "%s: the compiler that runs" % what)
        got = got[1:]
    for i, w in enumerate(want):
        c.same("%s/%s/%d" % (lang, kind, i), got[i], w, at, "%s: what reaches the compiler" % what)
    lab = t.lab_of(t.disc(v))
    if lab != ("Err" if fails else "Ok"):
        if lab is None:
            raise Undecided(t.show(v)[:300])
        c.violate("%s/%s/%s" % (lang, kind, lab), at, "%s: it gives %s although the compiler %s" % (what, lab, "failed" if fails else "succeeded"))
        return
    if fails:
        c.same("%s/%s/reason" % (lang, kind), t.proj(t.proj(v, "Err", "0"), None, "reason"), t.mk("call", "display", s("cause")), at, "%s: the reason reported" % what) \
            if not t.contains(v, s("cause")) else None
    else:
        c.same("%s/%s/wasm" % (lang, kind), t.proj(v, "Ok", "0"), s("wasm"), at, "%s: the module it gives" % what)


# ---------------------------------------------------------------- the command line
class Cli(Stages):
    """main() with the arguments given and wastrument() as a symbol"""

    def __init__(self, F, args, fail):
        Stages.__init__(self, F, None, True)
        self.io_fail, self.calls_, self.setups = fail, [], 0
        h = self.hooks
        h["clap::Parser::parse"] = lambda E, st, d, a: args
        for f in F.fns.values():
            if f["path"].startswith(WA + "Wastrumenter::") and f["path"].endswith("::wastrument"):
                h[norm(f["path"])] = self.h_run
        h[WA + "compiler::Compiles::setup_compiler"] = self.h_setup
        h["clio::Input::path"] = lambda E, st, d, a: t.mk("call", "path of", self.v(st, a[0]))

    def h_setup(self, E, st, d, a):
        self.setups += 1
        return t.err(t.sym("no compiler")) if self.io_fail == "setup" else t.ok(t.sym("compiler"))

    def h_run(self, E, st, d, a):
        a = [self.snapshot(st, x) for x in a]
        self.calls_.append(a)
        self.event(st, "wastrument")
        return t.err(t.sym("failure")) if self.io_fail == "wastrument" else t.ok(t.sym("instrumented"))

    def io(self, st, name, *args):
        r = WasmEng.io(self, st, name, *args)
        return t.err(t.sym("io failure")) if self.io_fail == name else t.ok(t.mk("val", r))


def cli_types(F):
    """the arguments of the command line and the hooks it takes"""
    xs = [(a, str(f[1])) for a, d in F.adts.items() if a.startswith("wastrumentation_cli::") and not d["enum"]
          for f in d["variants"][0]["fields"] if f[0] == "hooks"]
    ms = [(a, re.search(r"(wastrumentation_cli::[\w:]+)", ty)) for a, ty in xs]
    ms = [(a, m.group(1)) for a, m in ms if m and m.group(1) in F.adts]
    if len(ms) != 1:
        raise Undecided("the arguments of the command line: %s" % xs)
    return ms[0]


def cli_args(E, F, hooks):
    adt, hk = cli_types(F)
    hs = t.NONE if hooks is None else t.some(t.lst([t.ctor(hk, h, (), ()) for h in hooks]))
    return E.build(adt, input_program_path=t.sym("input path"), rust_analysis_toml_path=t.sym("toml path"), hooks=hs,
                   targets=t.sym("targets"), output_path=t.sym("output path"))


def cli_run(c, hooks, fail):
    F = c.facts("core")
    key = c.find("core", lambda k, f: f["path"] == "wastrumentation_cli::main", "main of the command line")
    at = where(F, key)
    E = Cli(F, cli_args(WasmEng(F), F, hooks), fail)
    what = "with %s" % ("no --hooks" if hooks is None else "--hooks " + " ".join(hooks))
    try:
        v, st = E.eval_fn(key, [])
    except Dead:
        if fail:
            return       # it panics: not a success
        c.violate("panics", at, "%s: the command line panics although nothing failed" % what)
        return
    lab = t.lab_of(t.disc(v))
    if lab is None:
        raise Undecided("main gives " + t.show(v)[:300])
    ev = t.elements(st.c.get(("ev",), t.EMPTY))
    if ev is None:
        raise Undecided("effects of main: " + t.show(st.c[("ev",)])[:300])
    ev = [(x.a[0], x.a[1:]) for x in ev]
    if fail:
        if lab == "Ok":
            c.violate("ignores/" + fail, at, "%s: the command line reports success although %s failed" % (what, fail))
        return
    if lab == "Err":
        c.violate("spurious error", at, "%s: the command line fails although nothing did" % what)
        return
    if E.unknown:
        raise Undecided("calls without a model: %s" % ", ".join(sorted(E.unknown)))
    if len(E.calls_) != 1:
        c.violate("wastruments %d times" % len(E.calls_), at, "%s: the input is instrumented %d times" % (what, len(E.calls_)))
        return
    me, data, analysis, conf = E.calls_[0]
    reads = [a for n, a in ev if n == "read_to_end"]
    if len(reads) != 1 or t.equal(reads[0][0], t.sym("input path")) is not None or data.op != "call" or data.a[0] != "content" or \
            not t.contains(data, t.sym("input path")):
        if t.contains(data, t.sym("input path")):
            raise Undecided("what is instrumented: " + t.show(data)[:300])
        c.violate("input", at, "%s: what is instrumented is not the content of the input program: %s" % (what, t.show(data)[:300]))
        return
    c.same("targets", t.proj(conf, None, "target_indices"), t.sym("targets"), at, "%s: the functions selected" % what)
    p = t.lab_of(t.disc(t.proj(conf, None, "primary_selection")))
    if p == "Some":
        sel = t.lab_of(t.disc(t.proj(t.proj(conf, None, "primary_selection"), "Some", "0")))
        if sel in ("Analysis", "Instrumentation"):
            c.violate("primary", at, "%s: the %s module is made the primary one, not the program" % (what, sel))
    src = t.proj(analysis, None, "analysis_library")
    path = t.proj(src, "Manifest", "1")
    if t.lab_of(t.disc(src)) != "Manifest" or not t.contains(path, t.sym("toml path")):
        c.violate("analysis", at, "%s: the analysis compiled is %s, not the manifest given" % (what, t.show(src)[:300]))
    want = set(f for h in (REQUESTS if hooks is None else hooks) for f in REQUESTS[h])
    iface = t.proj(analysis, None, "analysis_interface")
    for f in fields(F):
        lab = t.lab_of(t.disc(t.proj(iface, None, f)))
        if lab is None:
            raise Undecided("%s: %s" % (f, t.show(t.proj(iface, None, f))[:200]))
        if (lab == "Some") != (f in want):
            c.violate("hooks/" + f, at, "%s: the trap %s is %s" % (what, f, "requested" if lab == "Some" else "not requested"))
    outs = [(n, a) for n, a in ev if n.startswith("write")]
    if len(outs) != 1 or outs[0][0] != "write_all":
        c.violate("output", at, "%s: the instrumented module is written by %s, which need not write all of it" % (what, [n for n, _ in outs] or "nothing"))
        return
    c.same("output/file", outs[0][1][0], t.sym("output path"), at, "%s: where the result is written" % what)
    c.same("output/data", outs[0][1][1], t.sym("instrumented"), at, "%s: what is written" % what)


@prop("C15", ["core"], "main() of the command line is evaluated over its MIR with wastrument() as a symbol, without --hooks, with each hook alone and with "
      "two hooks, and with each effect failing",
      "the content of the input, the manifest, the targets and exactly the traps of the hooks named (all of them when none is) reach wastrument(); "
      "its result is what is written, completely, to the output; a failure is never reported as success")
def c15(c):
    F = c.facts("core")
    adt = cli_types(F)[1]
    vs = variants(F, adt)
    for h in REQUESTS:
        if h not in vs:
            c.violate("no hook " + h, adt, "the command line does not offer the hook %s" % h)
    todo = {"no --hooks": (None, None)}
    for h in vs:
        if h in REQUESTS:
            todo["--hooks " + h] = ([h], None)
    todo["two hooks"] = (["Load", "Const"], None)
    for f in ("read_to_end", "setup", "wastrument", "write_all"):
        todo["failing " + f] = (["Load"], f)
    c.parallel(todo, lambda n: cli_run(c, *todo[n]))


# ---------------------------------------------------------------- error messages
ERRORS = ("wasm_merge::error::Error", "wasp_compiler::error::Error", WA + "error::Error", WA + "error::InstrumentationError",
          WA + "parse_nesting::typed_high_level_body_error::LowToHighError")


def message(c, adt, variant):
    F = c.facts("core")
    by = {n: [k for k, f in F.fns.items() if f["local"] and not f["closure"] and f["path"].endswith("::" + n) and (f.get("impl_of") or "").split("<")[0] == adt and
              (f.get("impl_trait") or "").split("<")[0] == tr] for n, tr in (("fmt", "std::fmt::Display"), ("source", "std::error::Error"))}
    key = only(by["fmt"], "the message of " + adt)
    E = WasmEng(F)
    names = [f[0] for f in variant["fields"]]
    x = t.ctor(adt, variant["name"], names, [t.sym("cause " + n) for n in names])
    st = E.fresh_state()
    cell = ("fmt", "out")
    st.c[cell] = t.const("")
    E.eval_fn(key, [x, t.mk("mref", cell, ())], st)
    text = st.c[cell]
    c.note("functions", F.fns[key]["path"])
    c.note("errors", "%s::%s" % (adt, variant["name"]))
    if E.unknown:
        raise Undecided("calls without a model: %s" % ", ".join(sorted(E.unknown)))
    src = t.NONE
    if by["source"]:
        src, _ = WasmEng(F).eval_fn(only(by["source"], "the source of " + adt), [x])
    for n in names:
        if not t.contains(text, t.sym("cause " + n)) and not t.contains(src, t.sym("cause " + n)):
            c.violate("%s::%s/%s" % (adt, variant["name"], n), where(F, key),
                      "the message of %s::%s is %s: it does not tell its cause (field %s), and the error has no source that does" % (adt, variant["name"], t.show(text)[:300], n))


@prop("C16", ["core"], "the Display (and source) implementations of the error types of the merge, the wasp compiler and the instrumentation are evaluated over "
      "their MIR for every variant, with symbols for what the variant carries",
      "every value a variant carries appears in its message or in its source")
def c16(c):
    F = c.facts("core")
    todo = {}
    for adt in ERRORS:
        if adt not in F.adts:
            c.undecided.append("no type " + adt)
            continue
        for v in F.adts[adt]["variants"]:
            todo["%s::%s" % (adt, v["name"])] = (adt, v)
    c.parallel(todo, lambda n: message(c, *todo[n]))

"""What each instrumentation hook has to see and what it may replace.

One entry per field of AnalysisInterface: the type of the analysis function, and
for every kind of instruction the code that stands in its place, as a list of
steps on the operand stack:
    ("trap", [arguments])     the analysis function is called with these values
    ("exec", taken, left)     the original instruction runs; it finds `left` on
                              top of the stack after `taken` operands were taken
    ("arms", [...])           the steps inside its nested blocks
"""
from . import terms as t
from .wasm import W, val, vt, ft

TY = {"i32": "I32", "i64": "I64", "f32": "F32", "f64": "F64"}
LOC = ["I64", "I64"]     # every trap ends with (function index, instruction index)

UN = {   # UnaryOp -> (operand, result), from the WebAssembly specification
}
for op in "Clz Ctz Popcnt".split():
    for ty in ("I32", "I64"):
        UN[ty + op] = (ty, ty)
for op in "Abs Neg Ceil Floor Trunc Nearest Sqrt".split():
    for ty in ("F32", "F64"):
        UN[ty + op] = (ty, ty)
UN.update({"I32Eqz": ("I32", "I32"), "I64Eqz": ("I64", "I32"), "I32WrapI64": ("I64", "I32"),
           "I64ExtendI32S": ("I32", "I64"), "I64ExtendI32U": ("I32", "I64"), "F32DemoteF64": ("F64", "F32"), "F64PromoteF32": ("F32", "F64"),
           "I32ReinterpretF32": ("F32", "I32"), "I64ReinterpretF64": ("F64", "I64"), "F32ReinterpretI32": ("I32", "F32"), "F64ReinterpretI64": ("I64", "F64"),
           "I32Extend8S": ("I32", "I32"), "I32Extend16S": ("I32", "I32"), "I64Extend8S": ("I64", "I64"), "I64Extend16S": ("I64", "I64"), "I64Extend32S": ("I64", "I64")})
for i in ("I32", "I64"):
    for f in ("F32", "F64"):
        for s in "SU":
            UN["%sTrunc%s%s" % (i, f, s)] = (f, i)
            UN["%sTruncSat%s%s" % (i, f, s)] = (f, i)
            UN["%sConvert%s%s" % (f, i, s)] = (i, f)

BIN = {}
for ty in ("I32", "I64"):
    for op in "Eq Ne LtS LtU GtS GtU LeS LeU GeS GeU".split():
        BIN[ty + op] = (ty, "I32")
    for op in "Add Sub Mul DivS DivU RemS RemU And Or Xor Shl ShrS ShrU Rotl Rotr".split():
        BIN[ty + op] = (ty, ty)
for ty in ("F32", "F64"):
    for op in "Eq Ne Lt Gt Le Ge".split():
        BIN[ty + op] = (ty, "I32")
    for op in "Add Sub Mul Div Min Max Copysign".split():
        BIN[ty + op] = (ty, ty)

LOAD = {"I32": ["I32Load", "I32Load8S", "I32Load8U", "I32Load16S", "I32Load16U"], "F32": ["F32Load"], "F64": ["F64Load"],
        "I64": ["I64Load", "I64Load8S", "I64Load8U", "I64Load16S", "I64Load16U", "I64Load32S", "I64Load32U"]}
STORE = {"I32": ["I32Store", "I32Store8", "I32Store16"], "F32": ["F32Store"], "F64": ["F64Store"],
         "I64": ["I64Store", "I64Store8", "I64Store16", "I64Store32"]}


def signatures():
    """field of AnalysisInterface -> (argument types, result types)"""
    S = {}

    def add(f, args, res=()):
        S[f] = (list(args) + LOC, list(res))
    for a in ("if_then", "if_then_else"):
        add(a + "_trap", ["I32"] * 3, ["I32"])
        add(a + "_post_trap", [])
    add("br_trap", ["I64"])
    add("br_if_trap", ["I32", "I32"], ["I32"])
    add("br_table_trap", ["I32"] * 3, ["I32"])
    add("pre_trap_call", ["I32"])
    add("post_trap_call", ["I32"])
    add("pre_trap_call_indirect", ["I32", "I32"], ["I32"])
    add("post_trap_call_indirect", ["I32"])
    for b in ("block", "loop"):
        add("pre_" + b, ["I32", "I32"])
        add("post_" + b, [])
    add("select", ["I32"], ["I32"])
    add("drop_trap", [])
    add("return_trap", [])
    for n, ty in TY.items():
        add("const_%s_trap" % n, [ty], [ty])
        for s in ("local", "global"):
            for o in ("get", "set", "tee"):
                if (s, o) != ("global", "tee"):
                    add("%s_%s_%s" % (s, o, n), [ty, "I64"], [ty])
        add(n + "_store", ["I32", ty, "I64", "I32"])
        add(n + "_load", ["I32", "I64", "I32"], [ty])
    for a, r in set(UN.values()):
        add("unary_%s_to_%s" % (a.lower(), r.lower()), [a, "I32"], [r])
    for a, r in set(BIN.values()):
        add("binary_%s_%s_to_%s" % (a.lower(), a.lower(), r.lower()), [a, a, "I32"], [r])
    add("memory_size", ["I32", "I64"], ["I32"])
    add("memory_grow", ["I32", "I64"], ["I32"])
    return S


SIG = signatures()


class Shape:
    """one kind of instruction: the term, its nested bodies, and its stack type if it matters"""

    def __init__(self, name, instr, nested=(), type_=None, **kw):
        self.name, self.instr, self.nested, self.type_ = name, instr, list(nested), type_
        self.__dict__.update(kw)


def shapes(E, INSTR):
    """every instruction of the structured form, with symbolic immediates"""
    s = t.sym
    I = lambda v, **kw: E.build(INSTR, v, **kw)
    op = lambda kind, n: E.build(W + kind, n)
    F = t.sym("ty")
    out = []
    have = {v["name"]: v for v in E.F.adts[INSTR]["variants"]}
    special = {}

    def put(v, *sh):
        special.setdefault(v, []).extend(sh)
    for v in ("Block", "Loop"):
        put(v, Shape(v, I(v, _0=F, _1=s("nested0")), [s("nested0")]))
    put("If", Shape("If without else", I("If", _0=F, _1=s("nested0"), _2=t.NONE), [s("nested0")]),
        Shape("If with else", I("If", _0=F, _1=s("nested0"), _2=t.some(s("nested1"))), [s("nested0"), s("nested1")]))
    for ty in TY.values():
        put("Const", Shape("Const " + ty, I("Const", _0=val(ty, s("k"))), ty=ty))
    for n, (a, r) in UN.items():
        put("Unary", Shape("Unary " + n, I("Unary", _0=op("UnaryOp", n)), op=n, ty=(a, r)))
    for n, (a, r) in BIN.items():
        put("Binary", Shape("Binary " + n, I("Binary", _0=op("BinaryOp", n)), op=n, ty=(a, r)))
    ma = lambda o: E.build(W + "Memarg", alignment_exp=s("align"), offset=s("offset"))
    for ty, ns in LOAD.items():
        for n in ns:
            put("Load", Shape("Load " + n, I("Load", _0=op("LoadOp", n), _1=ma(n)), op=n, ty=ty))
    for ty, ns in STORE.items():
        for n in ns:
            put("Store", Shape("Store " + n, I("Store", _0=op("StoreOp", n), _1=ma(n)), op=n, ty=ty))
    IIT = W + "types::InferredInstructionType"
    for v, ops in (("Local", {"Get": (0, 1), "Set": (1, 0), "Tee": (1, 1)}), ("Global", {"Get": (0, 1), "Set": (1, 0)})):
        for o, (i, r) in ops.items():
            ins = I(v, _0=op(v + "Op", o), _1=s("index"))
            for ty in list(TY.values()) + ["FuncRef", "ExternRef"]:
                x = vt(ty) if ty in TY.values() else E.build(W + "ValType", "Ref", _0=E.build(W + "RefType", ty))
                fty = ft(t.lst([x] * i), t.lst([x] * r))
                put(v, Shape("%s%s of %s" % (v, o, ty), ins, type_=E.build(IIT, "Reachable", _0=fty), op=o, ty=ty))
            put(v, Shape("unreachable %s%s" % (v, o), ins, type_=E.build(IIT, "Unreachable"), op=o, ty=None))
    for v, d in have.items():
        if v in special:
            out += special[v]
        else:
            out.append(Shape(v, I(v, **{n if not n.isdigit() else "_" + n: s("imm" + n) for n in [f[0] for f in d["fields"]]})))
    return out


# ---------------------------------------------------------------- the specification
def step(kind, *a):
    return t.mk("call", "step " + kind, *a)


def trap(args):
    return step("trap", t.lst(args))


def execs(sh, taken, left, arms=None, flag=False, instr=None):
    """the instruction itself; its arms hold the given steps"""
    if arms is None:
        arms = [[step("nested", n)] for n in sh.nested]
    ins = skeleton(sh.instr, sh.nested) if instr is None else instr
    return step("exec", t.const(flag), ins, t.num(taken), t.lst(left), t.lst([t.lst(a) for a in arms]))


def skeleton(instr, nested):
    return t.subst(instr, {n: t.sym("arm%d" % i) for i, n in enumerate(nested)})


def want(field, sh, loc):
    """-> (steps, operands taken, values left) the instruction has to become; None: it is not what this hook is about"""
    i32 = lambda x: val("I32", x)
    i64 = lambda x: val("I64", x)
    in0, in1, t0, x0 = t.sym("in0"), t.sym("in1"), t.sym("t0"), t.sym("x0")
    nin = i32(t.length(t.proj(t.sym("ty"), None, "inputs")))
    nout = i32(t.length(t.proj(t.sym("ty"), None, "results")))
    nested = [step("nested", n) for n in sh.nested]
    at = trap(loc)
    n = sh.name

    def imm(i):
        return t.proj(sh.instr, sh.name, str(i))
    for w in ("Block", "Loop"):
        if n == w:
            if field == "pre_" + w.lower():
                return [execs(sh, 0, [], [[trap([nin, nout] + loc), nested[0]]])], None
            if field == "post_" + w.lower():
                return [execs(sh, 0, [], [[nested[0], at]])], None
    if field == "select" and n in ("Select", "TypedSelect"):
        return [trap([in0] + loc), execs(sh, 1, [t0])], None
    if n == "Call":
        if field == "pre_trap_call":
            return [trap([i32(imm(0))] + loc), execs(sh, 0, [])], None
        if field == "post_trap_call":
            return [execs(sh, 0, []), trap([i32(imm(0))] + loc)], None
    if n == "CallIndirect":
        if field == "pre_trap_call_indirect":
            return [trap([in0, i32(imm(1))] + loc), execs(sh, 1, [t0])], None
        if field == "post_trap_call_indirect":
            return [execs(sh, 0, []), trap([i32(imm(1))] + loc)], None
    if n == "If without else":
        if field == "if_then_trap":
            return [trap([in0, nin, nout] + loc), execs(sh, 1, [t0])], None
        if field == "if_then_post_trap":
            new = t.ctor(sh.instr.a[0], "If", sh.instr.a[2], [t.sym("ty"), t.sym("arm0"), t.some(t.sym("arm1"))])
            return [execs(sh, 0, [], [[nested[0], at], [at]], flag=True, instr=new)], None
    if n == "If with else":
        if field == "if_then_else_trap":
            return [trap([in0, nin, nout] + loc), execs(sh, 1, [t0])], None
        if field == "if_then_else_post_trap":
            return [execs(sh, 0, [], [[nested[0], at], [nested[1], at]])], None
    if n == "Br" and field == "br_trap":
        return [trap([i64(imm(0))] + loc), execs(sh, 0, [])], None
    if n == "BrIf" and field == "br_if_trap":
        return [trap([in0, i32(imm(0))] + loc), execs(sh, 1, [t0])], None
    if n == "BrTable" and field == "br_table_trap":
        d = t.proj(sh.instr, "BrTable", "default")
        return [step("reify", in0), trap([t.sym("same0"), t.sym("label0"), i32(d)] + loc), execs(sh, 1, [t0])], None
    if n == "Drop" and field == "drop_trap" or n == "Return" and field == "return_trap":
        return [at, execs(sh, 0, [])], None
    if n.startswith("Const ") and field == "const_%s_trap" % sh.ty.lower():
        return [execs(sh, 0, []), trap([x0] + loc)], (0, [t0])
    if n.startswith("Unary ") and field == "unary_%s_to_%s" % tuple(x.lower() for x in sh.ty):
        return [trap([in0, i32(t.sym("code"))] + loc)], (1, [t0])
    if n.startswith("Binary ") and field == "binary_%s_%s_to_%s" % tuple(x.lower() for x in (sh.ty[0],) + sh.ty):
        return [trap([in1, in0, i32(t.sym("code"))] + loc)], (2, [t0])
    if n == "MemorySize" and field == "memory_size":
        return [execs(sh, 0, []), trap([x0, i64(imm(0))] + loc)], (0, [t0])
    if n == "MemoryGrow" and field == "memory_grow":
        return [trap([in0, i64(imm(0))] + loc)], (1, [t0])
    if getattr(sh, "op", None) in ("Get", "Set", "Tee") and sh.ty in TY.values():
        if field == "%s_%s_%s" % (n.split(" ")[0][:-3].lower(), sh.op.lower(), sh.ty.lower()):
            idx = i64(t.sym("index"))
            if sh.op == "Get":
                return [execs(sh, 0, []), trap([x0, idx] + loc)], (0, [t0])
            return [trap([in0, idx] + loc), execs(sh, 1, [t0])], None
    if n.startswith("Load ") and field == sh.ty.lower() + "_load":
        return [trap([in0, i64(t.sym("offset")), i32(t.sym("code"))] + loc)], (1, [t0])
    if n.startswith("Store ") and field == sh.ty.lower() + "_store":
        return [trap([in1, in0, i64(t.sym("offset")), i32(t.sym("code"))] + loc)], (2, [])
    return None


RESULT1 = ("Const ", "MemorySize", "LocalGet", "GlobalGet")     # instructions that take nothing and leave one value


class Sim:
    """what a list of emitted instructions does to the operand stack"""

    def __init__(self, sh, elem, fidx, sig, rec, instr_adt):
        self.sh, self.elem, self.fidx, self.sig, self.rec, self.adt = sh, elem, fidx, sig, rec, instr_adt
        self.code = None      # the operation code the trap was given

    def run(self, items):
        steps, taken, stack, fresh = [], 0, [], {"t": 0, "x": 0, "r": 0}

        def pop():
            nonlocal taken
            if stack:
                return stack.pop()
            taken += 1
            return t.sym("in%d" % (taken - 1))

        def new(k):
            fresh[k] += 1
            return t.sym("%s%d" % (k, fresh[k] - 1))
        done = None
        for it in items:
            if it.op == "elems":
                steps.append(it.a[0])
                continue
            ins = t.proj(it, None, "instr")
            flag = t.proj(it, None, "instrumentation_instruction")
            v = t.lab_of(t.disc(ins))
            if v is None:
                raise Split(t.disc(ins))
            inj = flag is t.TRUE
            if inj and v == "Const":
                stack.append(t.proj(ins, "Const", "0"))
                continue
            if inj and v == "Call":
                f = t.proj(ins, "Call", "0")
                if t.equal(f, self.fidx) is None:
                    args = [pop() for _ in self.sig[0]][::-1]
                    steps.append(trap(args))
                    stack += [new("t") for _ in self.sig[1]]
                    continue
                if f.op == "call" and f.a[0] == "function" and self.is_reify(f):
                    steps.append(step("reify", pop()))
                    stack += [t.sym("same0"), t.sym("label0")]
                    self.reified = f
                    continue
            # the instruction itself, or one that stands for it
            arms, sk = self.arms(ins, v)
            same = t.equal(sk, skeleton(self.sh.instr, self.sh.nested)) is None
            steps.append(step("exec", flag, sk, t.num(taken), t.lst(stack), t.lst(arms)))
            for f in ("funct_index", "instr_index", "type_"):
                if not inj:
                    d = t.equal(t.proj(it, None, f), t.proj(self.elem, None, f))
                    if d is not None:
                        steps.append(step("other " + f, t.proj(it, None, f)))
            done = True
            taken, stack = 0, []
            if same and self.sh.name.startswith(RESULT1):
                stack.append(new("x"))
        return steps, taken, stack

    def is_reify(self, f):
        d = t.equal(f.a[1], ft(t.lst([vt("I32")]), t.lst([vt("I32"), vt("I32")])))
        return d is None

    def arms(self, ins, v):
        out, m = [], []
        if v not in ("Block", "Loop", "If"):
            return out, ins
        names = ins.a[2]
        fields = list(ins.a[3])
        bodies = [(1, None)]
        if v == "If":
            o = fields[2]
            l = t.lab_of(t.disc(o))
            if l is None:
                raise Split(t.disc(o))
            if l == "Some":
                bodies.append((2, "opt"))
        for i, k in bodies:
            b = fields[i] if k is None else t.proj(fields[i], "Some", "0")
            items = self.items(b)
            steps, taken, stack = self.run(items)
            if taken or stack:
                steps.append(step("leaves", t.num(taken), t.lst(stack)))
            a = t.sym("arm%d" % len(out))
            out.append(t.lst(steps))
            fields[i] = a if k is None else t.some(a)
        return out, t.ctor(ins.a[0], ins.a[1], names, fields)

    def items(self, b):
        """elements of an emitted body: instructions and transformed nested bodies"""
        out = []
        for p in t.parts_of(b):
            if p.op == "one":
                out.append(p.a[0])
                continue
            n = self.rec(p)
            if n is not None:
                out.append(t.mk("elems", step("nested", n)))
                continue
            if p.op in ("sw", "swseq"):
                raise Split(p.a[0])
            if p in self.sh.nested:
                out.append(t.mk("elems", step("the body as it was", p)))
                continue
            raise Undecided("emitted instructions " + t.show(p)[:200])
        return out


class Split(Exception):
    def __init__(self, scrut):
        self.scrut = scrut


from .spec import Undecided  # noqa: E402

"""What a flat instruction list does, on an abstract stack of terms.

Used on the functions the instrumentation generates: every one is loop free, so
its effect is a straight line of steps per path."""
from . import terms as t
from .spec import Undecided
from .wasm import W, val


class Trap(Exception):
    pass


class Invalid(Exception):
    """the instructions do not make a valid body"""


def ops_of(els):
    """flat list -> nested [(instr, arms)]"""
    pos = 0

    def block(stop):
        nonlocal pos
        out = []
        while pos < len(els):
            i = els[pos]
            n = t.lab_of(t.disc(i))
            if n is None:
                raise Undecided("instruction " + t.show(i)[:200])
            pos += 1
            if n in stop:
                return out, n
            if n in ("Block", "Loop"):
                b, _ = block(("End",))
                out.append((n, i, [b]))
            elif n == "If":
                b, e = block(("End", "Else"))
                arms = [b, []]
                if e == "Else":
                    arms[1], _ = block(("End",))
                out.append((n, i, arms))
            elif n in ("Else", "End"):
                raise Invalid("%s where there is no block to end" % n)
            else:
                out.append((n, i, ()))
        raise Invalid("a block that is not ended")
    body, _ = block(("End",))
    if pos != len(els):
        raise Invalid("instructions after the end of the function")
    return body


class Br(Exception):
    def __init__(self, n):
        self.n = n


class Ret(Exception):
    pass


def number(x):
    for v in ("I32", "I64"):
        y = t.proj(x, v, "0") if x.op == "ctor" and x.a[1] == v else None
        if y is not None and t.is_const(y):
            return t.cval(y)
    return None


class Run:
    """callee(index term) -> (number of arguments, results: fn(args) -> list of values or None for fresh symbols, name)"""

    def __init__(self, args, nlocals, nresults, callee):
        self.locals = list(args) + [val("I32", t.num(0))] * nlocals
        self.nres = nresults
        self.callee = callee
        self.stack, self.events, self.n = [], [], 0

    def pop(self, at=""):
        if not self.stack:
            raise Invalid("nothing on the stack for " + at)
        return self.stack.pop()

    def body(self, els):
        try:
            self.seq(ops_of(els), 0)
        except Ret:
            return self.stack[len(self.stack) - self.nres:] if len(self.stack) >= self.nres else self.short()
        except Br as b:
            if b.n != 0:
                raise Invalid("branch out of the function")
            return self.stack[len(self.stack) - self.nres:] if len(self.stack) >= self.nres else self.short()
        if len(self.stack) != self.nres:
            raise Invalid("%d values left for %d results" % (len(self.stack), self.nres))
        return self.stack

    def short(self):
        raise Invalid("%d values for %d results" % (len(self.stack), self.nres))

    def event(self, *e):
        self.events.append(e)

    def fresh(self, kind):
        self.n += 1
        return t.sym("%s#%d" % (kind, self.n))

    def arm(self, body, ty, loop=False):
        ins, outs = (t.elements(t.proj(ty, None, f)) for f in ("inputs", "results"))
        if ins is None or outs is None:
            raise Undecided("block type " + t.show(ty)[:100])
        if len(self.stack) < len(ins):
            raise Invalid("nothing on the stack for a block")
        base = len(self.stack) - len(ins)
        low, self.stack = self.stack[:base], self.stack[base:]
        try:
            self.seq(body, 0)
            if len(self.stack) != len(outs):
                raise Invalid("%d values left for a block of %d results" % (len(self.stack), len(outs)))
        except Br as b:
            if b.n > 0:
                b.n -= 1
                self.stack = low + self.stack
                raise
            if loop:
                raise Undecided("a loop")
            if len(self.stack) < len(outs):
                raise Invalid("branch without the values of its block")
            self.stack = self.stack[len(self.stack) - len(outs):] if outs else []
        self.stack = low + self.stack

    def seq(self, body, depth):
        for n, i, arms in body:
            self.step(n, i, arms)

    def step(self, n, i, arms):
        f = lambda k: t.proj(i, n, str(k))
        if n == "Const":
            self.stack.append(f(0))
        elif n == "Local":
            op, idx = t.lab_of(t.disc(f(0))), f(1)
            if not t.is_const(idx) or t.cval(idx) >= len(self.locals):
                raise Invalid("local %s of %d" % (t.show(idx), len(self.locals)))
            k = t.cval(idx)
            if op == "Get":
                self.stack.append(self.locals[k])
            else:
                v = self.pop("local")
                self.locals[k] = v
                if op == "Tee":
                    self.stack.append(v)
        elif n == "Call":
            na, res, name = self.callee(f(0))
            args = [self.pop("call " + t.show(name)) for _ in range(na)][::-1]
            rs = [self.fresh("result") for _ in range(res)]
            self.event("call", name, args, rs)
            self.stack += rs
        elif n == "CallIndirect":
            ins, outs = (t.elements(t.proj(f(0), None, x)) for x in ("inputs", "results"))
            k = self.pop("call_indirect")
            args = [self.pop("call_indirect") for _ in ins][::-1]
            rs = [self.fresh("result") for _ in outs]
            self.event("call_indirect", f(0), f(1), k, args, rs)
            self.stack += rs
        elif n == "Drop":
            self.pop("drop")
        elif n == "Nop":
            pass
        elif n == "Return":
            raise Ret()
        elif n == "Unreachable":
            raise Trap()
        elif n in ("Block", "Loop"):
            self.arm(arms[0], f(0), n == "Loop")
        elif n == "If":
            c = number(self.pop("if"))
            if c is None:
                raise Undecided("condition of an if")
            self.arm(arms[0 if c != 0 else 1], f(0))
        elif n == "Br":
            raise Br(self.label(f(0)))
        elif n == "BrIf":
            c = number(self.pop("br_if"))
            if c is None:
                raise Undecided("condition of a br_if")
            if c:
                raise Br(self.label(f(0)))
        elif n == "BrTable":
            c = number(self.pop("br_table"))
            tb = t.elements(t.proj(i, n, "table"))
            if c is None or tb is None:
                raise Undecided("br_table")
            c %= 1 << 32
            raise Br(self.label(tb[c] if c < len(tb) else t.proj(i, n, "default")))
        elif n == "Unary":
            op, a = t.lab_of(t.disc(f(0))), self.pop("unary")
            k = number(a)
            if op == "I32Eqz" and k is not None:
                self.stack.append(val("I32", t.num(1 if k == 0 else 0)))
            else:
                self.stack.append(t.mk("call", "unary " + str(op), a))
        elif n == "Binary":
            b, a = self.pop("binary"), self.pop("binary")
            self.stack.append(t.mk("call", "binary " + str(t.lab_of(t.disc(f(0)))), a, b))
        elif n == "Load":
            a = self.pop("load")
            r = self.fresh("loaded")
            self.event("load", f(0), f(1), a, r)
            self.stack.append(r)
        elif n == "Store":
            v, a = self.pop("store"), self.pop("store")
            self.event("store", f(0), f(1), a, v)
        elif n == "MemorySize":
            r = self.fresh("size")
            self.event("memory.size", f(0), r)
            self.stack.append(r)
        elif n == "MemoryGrow":
            a = self.pop("memory.grow")
            r = self.fresh("grown")
            self.event("memory.grow", f(0), a, r)
            self.stack.append(r)
        else:
            raise Undecided("instruction %s" % n)

    def label(self, x):
        if not t.is_const(x):
            raise Undecided("label " + t.show(x))
        return t.cval(x)

"""The AssemblyScript text of a generated stack library: parsed, and its functions
followed with symbols (numbers are the linear terms of wat.py, with their types)."""
import re
from . import wat
from .wat import Bad, State, const, atom, add, mul, isconst, un, compare
from .spec import Undecided

BITS = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "bool": 8, "i32": 32, "u32": 32, "usize": 32, "isize": 32, "i64": 64, "u64": 64, "f32": 32, "f64": 64}
WASM = {"i32": "I32", "u32": "I32", "usize": "I32", "isize": "I32", "bool": "I32", "i64": "I64", "u64": "I64", "f32": "F32", "f64": "F64"}
TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')|(?P<num>0x[0-9a-fA-F]+|\d+(?:\.\d+)?)|(?P<id>[A-Za-z_$][\w$]*)|(?P<op>===|!==|>>>|\+=|-=|\*=|\+\+|--|==|!=|<=|>=|&&|\|\||<<|>>|[-+*/%<>=!&|^~(){}\[\],;:.?@])""", re.S)


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Undecided("the text at %r" % s[i:i + 40])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out + [("end", "")]


class Func:
    external = None


class Class:
    """fields: (name, type, initial value); methods: Func by name; ctor: Func or None"""
    base, ctor, abstract = None, None, False

    def __init__(self):
        self.fields, self.methods = [], {}


class Parser:
    def __init__(self, s):
        self.t, self.i = tokens(s), 0

    def at(self, x):
        return self.t[self.i][1] == x and self.t[self.i][0] != "end"

    def take(self, x=None):
        k, v = self.t[self.i]
        if x is not None and v != x:
            raise Bad("%s where %s belongs (after %s)" % (v or "the end", x, " ".join(y for _, y in self.t[max(0, self.i - 6):self.i])))
        self.i += 1
        return v

    def opt(self, x):
        if self.at(x):
            self.i += 1
            return True
        return False

    def ident(self):
        if self.t[self.i][0] != "id":
            raise Bad("%s where a name belongs" % self.t[self.i][1])
        return self.take()

    def module(self):
        gs, fs, self.classes, self.enums, self.init = [], [], {}, {}, []
        while self.t[self.i][0] != "end":
            if self.opt(";"):
                continue
            ext = None
            while self.opt("@"):
                n = self.ident()
                if self.opt("("):
                    xs = []
                    while not self.at(")"):
                        xs.append(self.take())
                        if not self.opt(","):
                            break
                    self.take(")")
                    if n == "external":
                        if not all(x[:1] in "\"'" for x in xs) or len(xs) not in (1, 2):
                            raise Undecided("@external(%s)" % ", ".join(xs))
                        ext = tuple(x[1:-1] for x in xs)
            exp = self.opt("export")
            if self.opt("declare"):
                f = self.function(exp, declared=True)
                f.external = ext if ext is not None and len(ext) == 2 else ("", f.name) if ext is None else ("", ext[0])
                fs.append(f)
            elif ext is not None:
                raise Undecided("@external before %s" % self.t[self.i][1])
            elif self.at("function"):
                fs.append(self.function(exp))
            elif self.at("let") or self.at("const"):
                gs.append(self.decl())
                if exp:
                    raise Undecided("an exported global")
            elif self.at("class") or self.at("abstract"):
                self.class_(exp)
            elif self.at("enum") or self.at("const") and self.t[self.i + 1][1] == "enum":
                self.enum()
            elif exp:
                raise Undecided("export %s" % self.t[self.i][1])
            else:
                self.init.append(self.stmt())
        return gs, fs

    def once(self, n):
        if n in self.classes or n in self.enums:
            raise Bad("%s occurs twice" % n)

    def enum(self):
        self.take("enum")
        n = self.ident()
        self.once(n)
        self.take("{")
        vs, k = {}, 0
        while not self.at("}"):
            x = self.ident()
            if self.opt("="):
                kind, v = self.t[self.i]
                if kind != "num":
                    raise Undecided("the value of %s.%s" % (n, x))
                self.i += 1
                k = int(v, 0)
            vs[x] = k
            k += 1
            if not self.opt(","):
                break
        self.take("}")
        self.enums[n] = vs

    def class_(self, exp):
        c = Class()
        c.abstract = self.opt("abstract")
        self.take("class")
        c.name = self.ident()
        self.once(c.name)
        if exp:
            raise Undecided("an exported class")
        if self.at("<"):
            raise Undecided("the generic class " + c.name)
        if self.opt("extends"):
            c.base = self.ident()
        self.take("{")
        while not self.at("}"):
            if self.opt(";"):
                continue
            mods = set()
            while self.t[self.i][1] in ("readonly", "protected", "private", "public", "abstract", "static", "get", "set") and self.t[self.i + 1][0] == "id":
                mods.add(self.take())
            if mods & {"static", "get", "set"}:
                raise Undecided("a %s member of %s" % ("/".join(sorted(mods)), c.name))
            n = self.ident()
            if self.at("(") or self.at("<"):
                f = self.signature(n, False)
                if self.at("{"):
                    f.body = self.block()
                elif "abstract" not in mods:
                    raise Bad("the method %s of %s has no body" % (n, c.name))
                if n in c.methods or n == "constructor" and c.ctor:
                    raise Bad("%s.%s occurs twice" % (c.name, n))
                if n == "constructor":
                    f.ret, c.ctor = "void", f
                else:
                    c.methods[n] = f
                continue
            if not self.opt(":"):
                raise Undecided("the field %s of %s has no type" % (n, c.name))
            ty = self.type()
            c.fields.append((n, ty, self.expr() if self.opt("=") else None))
            self.opt(";")
        self.take("}")
        self.classes[c.name] = c

    def decl(self):
        mut = self.take() == "let"
        n = self.ident()
        ty = self.type() if self.opt(":") else None
        e = self.expr() if self.opt("=") else None
        self.opt(";")
        return ("decl", mut, n, ty, e)

    def type(self):
        return self.ident()

    def types(self):
        xs = [self.type()]
        while self.opt(","):
            xs.append(self.type())
        return xs

    def function(self, exp, declared=False):
        self.take("function")
        f = self.signature(self.ident(), exp)
        if declared:
            f.body = None
            self.opt(";")
        else:
            f.body = self.block()
        return f

    def signature(self, name, exp):
        f = Func()
        f.name, f.exp, f.generics, f.body = name, exp, [], None
        if self.opt("<"):
            f.generics = self.types()
            self.take(">")
        self.take("(")
        f.params = []
        while not self.at(")"):
            n = self.ident()
            self.take(":")
            f.params.append((n, self.type()))
            if not self.opt(","):
                break
        self.take(")")
        f.ret = self.type() if self.opt(":") else "void"
        return f

    def block(self):
        self.take("{")
        xs = []
        while not self.at("}"):
            xs.append(self.stmt())
        self.take("}")
        return ("block", xs)

    def stmt(self):
        if self.at("{"):
            return self.block()
        if self.at("let") or self.at("const"):
            return self.decl()
        if self.opt(";"):
            return ("block", [])
        if self.opt("return"):
            e = None if self.at(";") or self.at("}") else self.expr()
            self.opt(";")
            return ("return", e)
        if self.opt("if"):
            self.take("(")
            c = self.expr()
            self.take(")")
            a = self.stmt()
            return ("if", c, a, self.stmt() if self.opt("else") else None)
        if self.opt("while"):
            self.take("(")
            c = self.expr()
            self.take(")")
            return ("while", c, self.stmt())
        if self.opt("do"):
            b = self.stmt()
            self.take("while")
            self.take("(")
            c = self.expr()
            self.take(")")
            self.opt(";")
            return ("block", [b, ("while", c, b)])
        if self.opt("for"):
            self.take("(")
            a = ("block", []) if self.opt(";") else self.decl() if self.at("let") or self.at("const") else self.stmt()
            c = ("bool", True) if self.at(";") else self.expr()
            self.take(";")
            e = ("block", []) if self.at(")") else ("expr", self.expr())
            self.take(")")
            return ("block", [a, ("while", c, ("block", [self.stmt(), e]))])
        if self.opt("throw"):
            self.expr()
            self.opt(";")
            return ("expr", ("call", "unreachable", [], []))
        if self.opt("switch"):
            return self.switch()
        if self.t[self.i][1] in ("try", "break", "continue"):
            raise Undecided("statement " + self.t[self.i][1])
        e = self.expr()
        self.opt(";")
        return ("expr", e)

    def switch(self):
        """clauses that end in return or break, as a chain of conditionals"""
        self.take("(")
        v = self.expr()
        self.take(")")
        self.take("{")
        groups, labels = [], []
        while not self.at("}"):
            if self.opt("default"):
                labels.append(None)
            else:
                self.take("case")
                labels.append(self.expr())
            self.take(":")
            body, ended = [], False
            while not (self.at("case") or self.at("default") or self.at("}")):
                if ended:
                    raise Undecided("statements behind the end of a case")
                if self.opt("break"):
                    self.opt(";")
                    ended = True
                    continue
                body.append(self.stmt())
                ended = self.ends(body[-1])
            if not body and not ended:
                continue
            if not ended and not self.at("}"):
                raise Undecided("a case that runs into the next one")
            groups.append((labels, ("block", body)))
            labels = []
        self.take("}")
        out = next((b for l, b in groups if None in l), ("block", []))
        for l, b in reversed([g for g in groups if None not in g[0]]):
            c = None
            for x in l:
                e = ("bin", "==", v, x)
                c = ("bin", "||", c, e) if c else e
            out = ("if", c, b, out)
        return out

    def ends(self, x):
        return x[0] == "return" or x[0] == "expr" and x[1][:2] == ("call", "unreachable") or x[0] == "block" and bool(x[1]) and self.ends(x[1][-1]) \
            or x[0] == "if" and x[3] is not None and self.ends(x[2]) and self.ends(x[3])

    def expr(self):
        a = self.cond()
        if self.opt("++") or self.opt("--"):
            if a[0] != "name":
                raise Undecided("an assignment to %s" % (a,))
            return ("set", a[1], ("bin", self.t[self.i - 1][1][0], a, ("num", 1)))
        for o in ("=", "+=", "-=", "*="):
            if self.opt(o):
                if a[0] == "member" and o == "=":
                    return ("setmember", a[1], a[2], self.expr())
                if a[0] != "name":
                    raise Undecided("an assignment to %s" % (a,))
                b = self.expr()
                return ("set", a[1], b if o == "=" else ("bin", o[0], a, b))
        return a

    def cond(self):
        c = self.binary(0)
        if self.opt("?"):
            a = self.expr()
            self.take(":")
            return ("?", c, a, self.expr())
        return c

    LEVELS = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!=", "===", "!=="), ("<", ">", "<=", ">="), ("<<", ">>", ">>>"), ("+", "-"), ("*", "/", "%")]

    def binary(self, n):
        if n == len(self.LEVELS):
            return self.cast()
        a = self.binary(n + 1)
        while self.t[self.i][0] == "op" and self.t[self.i][1] in self.LEVELS[n]:
            o = self.take()
            a = ("bin", o, a, self.binary(n + 1))
        return a

    def cast(self):
        a = self.unary()
        while self.opt("as"):
            a = ("as", a, self.type())
        return a

    def unary(self):
        for o in ("-", "!", "+", "void"):
            if self.opt(o):
                return ("un", o, self.unary())
        if self.t[self.i][1] in ("++", "--", "~", "typeof", "await", "delete") and self.t[self.i][0] in ("op", "id"):
            raise Undecided("the operator " + self.t[self.i][1])
        if self.opt("<"):       # <T>e
            ty = self.type()
            self.take(">")
            return ("as", self.unary(), ty)
        return self.postfix()

    def postfix(self):
        k, v = self.t[self.i]
        if self.opt("("):
            e = self.expr()
            self.take(")")
        elif k == "num":
            self.i += 1
            return ("num", float(v) if "." in v else int(v, 0))
        elif k == "str":
            raise Undecided("the string " + v)
        elif self.opt("new"):
            n = self.ident()
            e = ("new", n, self.args() if self.at("(") else [])
        elif k == "op" and v in ("[", "{"):
            raise Undecided("a list or object literal")
        else:
            n = self.ident()
            if n in WORDS:
                raise Undecided("AssemblyScript's " + n)
            if n in ("true", "false"):
                return ("bool", n == "true")
            c = self.calling()
            e = ("call", n, c[0], c[1]) if c else ("name", n)
        while self.at("[") or self.at("!") and self.t[self.i + 1][1] in (".", ";", ")") or self.opt("."):
            if self.t[self.i - 1][1] != ".":
                raise Undecided("an element access")
            n = self.ident()
            c = self.calling()
            e = ("mcall", e, n, c[0], c[1]) if c else ("member", e, n)
        return e

    def args(self):
        xs = []
        self.take("(")
        while not self.at(")"):
            xs.append(self.expr())
            if not self.opt(","):
                break
        self.take(")")
        return xs

    def calling(self):
        """(types, arguments) if this is a call"""
        targs = []
        if self.at("<"):
            save = self.i
            try:
                self.take("<")
                targs = self.types()
                self.take(">")
                if not self.at("("):
                    raise Bad("")
            except Bad:
                self.i, targs = save, []
        return (targs, self.args()) if self.at("(") else None


WORDS = set("typeof instanceof delete await async yield function class enum import export namespace null undefined".split())
# names AssemblyScript itself knows and this reading of it does not
BUILTIN = re.compile(r"""^(isSigned|isBoolean|isReference|isString|isArray|isArrayLike|isFunction|isNullable|isDefined|isConstant|isManaged|isVoid|isVector|alignof|offsetof|idof|nameof|lengthof
|clz|ctz|popcnt|rotl|rotr|abs|max|min|ceil|floor|copysign|nearest|sqrt|trunc|bswap|add|sub|mul|div|rem|eq|ne|unchecked|inline|select|call_indirect|instantiate|trace|isNaN|isFinite|parseInt|parseFloat
|changetype|assert|abort|bool|string|Array|StaticArray|ArrayBuffer|DataView|Map|Set|String|Object|Error|Math|Mathf|NativeMath|NativeMathf|JSMath|console|process|Date|Symbol|heap|memory|atomic|table|NaN|Infinity
|Int8Array|Uint8Array|Int16Array|Uint16Array|Int32Array|Uint32Array|Int64Array|Uint64Array|Float32Array|Float64Array|Function|Number|Boolean|ASC_\w+|__\w+|v128|anyref|externref|funcref|auto|number|boolean
|[iuf](8|16|32|64)|[iu]size)(\.\w+)*$""", re.X)


def foreign(n):
    """no fault, but nothing this reading covers either"""
    if n in WORDS or BUILTIN.match(str(n)):
        raise Undecided("AssemblyScript's %s" % n)


def literal(v):
    return v[0] == "lit"


class Mod:
    MAXLOOP = 3

    def __init__(self, text):
        p = Parser(text)
        gs, fs = p.module()
        self.classes, self.enums = p.classes, p.enums
        if p.init:
            raise Undecided("a statement outside of functions")
        self.funcs, self.exports, self.globals = {}, {}, {}
        for f in fs:
            if f.name in self.funcs:
                raise Bad("the function %s occurs twice" % f.name)
            self.funcs[f.name] = f
            if f.exp:
                self.exports[f.name] = f
        for _, mut, n, ty, e in gs:
            if n in self.globals or n in self.funcs:
                raise Bad("%s occurs twice" % n)
            self.globals[n] = (ty, mut, e)
        for n in list(self.classes) + list(self.enums):
            if n in self.funcs or n in self.globals:
                raise Bad("%s occurs twice" % n)
        for f in fs + [m for c in self.classes.values() for m in list(c.methods.values()) + [c.ctor] if m]:
            for n, ty in f.params + [("", f.ret)]:
                if ty not in f.generics and ty != "void":
                    self.known(ty, f.name)
        for c in self.classes.values():
            if c.base and c.base not in self.classes:
                raise Bad("the class %s extends %s, which there is not" % (c.name, c.base))
            for _, ty, _ in c.fields:
                self.known(ty, c.name)
            for m in self.missing(c):
                raise Bad("the class %s lacks the method %s" % (c.name, m))
        self.checked = set()

    def known(self, ty, where):
        if ty not in BITS and ty not in self.classes and ty not in self.enums:
            foreign(ty)
        if ty not in BITS and ty not in self.classes and ty not in self.enums:
            raise Bad("%s is no type (in %s)" % (ty, where))

    def lineage(self, name):
        out = []
        while name:
            c = self.classes.get(name)
            if c is None:
                raise Bad("no class " + name)
            if c in out:
                raise Bad("the class %s extends itself" % name)
            out.append(c)
            name = c.base
        return out

    def method(self, name, m):
        for c in self.lineage(name):
            if m in c.methods and c.methods[m].body is not None:
                return c, c.methods[m]
        return None, None

    def missing(self, c):
        """the abstract methods it leaves open"""
        return [] if c.abstract else [m for b in self.lineage(c.name) for m in b.methods if self.method(c.name, m)[1] is None]

    def field(self, name, n, where):
        for c in self.lineage(name):
            for f, ty, _ in c.fields:
                if f == n:
                    return ty
        raise Bad("no %s in %s (in %s)" % (n, name, where))

    # ------------------------------------------------------------ values: (type, number)
    def conv(self, v, ty, where, explicit=False):
        a, x = v
        if ty in self.classes:
            if a not in self.classes or ty not in [c.name for c in self.lineage(a)]:
                raise Bad("%s where a %s belongs (in %s)" % (a, ty, where))
            return v
        if a in self.classes and ty != "void":
            raise Bad("a %s where a %s belongs (in %s)" % (a, ty, where))
        if ty in self.enums:
            ty = "i32"
        if ty == "void":
            return v
        if ty not in BITS:
            foreign(ty)
            raise Bad("%s is no type (in %s)" % (ty, where))
        if a == "lit" or a == ty:
            return (ty, x)
        fa, fb = a[0] == "f", ty[0] == "f"
        if a == "void":
            raise Bad("nothing where a %s belongs (in %s)" % (ty, where))
        if not fa and not fb:
            if BITS[a] == BITS[ty] or BITS[a] < BITS[ty] <= 32:
                return (ty, x)
            if BITS[ty] == 64:
                return (ty, un("i64.extend_i32_" + ("s" if a[0] == "i" else "u"), x))
            if not explicit:
                raise Bad("conversion from %s to %s in %s" % (a, ty, where))
            return (ty, un("i32.wrap_i64", x) if BITS[ty] == 32 else un("low %d" % BITS[ty], x))
        if fa and fb:
            if BITS[a] > BITS[ty] and not explicit:
                raise Bad("conversion from %s to %s in %s" % (a, ty, where))
            return (ty, un("f64.promote_f32" if BITS[ty] == 64 else "f32.demote_f64", x))
        if fa and not explicit:
            raise Bad("conversion from %s to %s in %s" % (a, ty, where))
        return (ty, un("%s from %s" % (ty, a), x))

    # ------------------------------------------------------------ running
    def start(self):
        """a state any history may have led to; the global that follows the pages of the memory counts them"""
        s = State()
        s.pages = atom("pages")
        for n, (ty, mut, e) in self.globals.items():
            if mut:
                s.globals[n] = atom("global", n)
        self.fixed = {}
        for n, (ty, mut, e) in self.globals.items():
            if not mut:
                (_, v), = self.eval(e, {}, s, {}, "the constant " + n, 0) if ty is None else [(None, self.conv(self.eval(e, {}, s, {}, n, 0)[0][1], ty, n))]
                self.fixed[n] = v if ty is None else (ty, v[1])
        return s

    def counting(self, name, args):
        """the state to start in, found by following one allocation"""
        s0 = self.start()
        cs = None
        for s, _ in self.call(name, args, s0):
            d = add(s.pages, s0.pages, -1)
            if isconst(d) and d[0]:
                mine = {g for g in s.globals if add(s.globals[g], s0.globals[g], -1) == d}
                cs = mine if cs is None else cs & mine
        s1 = self.start()
        if cs and len(cs) == 1:
            s1.counter = cs.pop()
            s1.globals[s1.counter] = s1.pages
        return s1

    def call(self, name, args, s):
        f = self.exports.get(name)
        if f is None:
            raise Bad("there is no export " + name)
        if f.generics:
            raise Bad("the export %s is generic" % name)
        self.traps = []
        return [(s2, () if f.ret == "void" else (v[1],)) for s2, v in self.run(f, [], [(t, a) for (_, t), a in zip(f.params, args)], s, 0)]

    def run(self, f, targs, args, s, depth, this=None, cls=None):
        if depth > 30:
            raise Undecided("recursion")
        if len(targs) != len(f.generics):
            raise Bad("%s with the types %s" % (f.name, targs))
        if len(args) != len(f.params):
            raise Bad("%s with %d arguments" % (f.name, len(args)))
        ty = dict(zip(f.generics, targs))
        res = lambda t: ty.get(t, t)
        if f.external:
            vs = tuple(self.conv(a, t, f.name)[1] for (_, t), a in zip(f.params, args))
            s2 = s.copy()
            tr = s.globals.get(("trace",), ())
            s2.globals[("trace",)] = tr + (("call", f.external, tuple(t for _, t in f.params), f.ret, vs),)
            return [(s2, ("void", None) if f.ret == "void" else (f.ret, atom("result", f.external, vs, len(tr))))]
        env = {"this": this, "super": cls} if this else {}
        for (n, t), a in zip(f.params, args):
            if n in env:
                raise Bad("two parameters %s of %s" % (n, f.name))
            env[n] = (res(t), self.conv(a, res(t), f.name)[1])
        out = []
        for s2, env2, r in self.stmt(f.body, env, s, ty, f, depth):
            if r is None:
                if res(f.ret) != "void":
                    raise Bad("%s returns nothing" % f.name)
                out.append((s2, ("void", None)))
            elif r == "trap":
                pass
            else:
                out.append((s2, r[1] if res(f.ret) == "void" else self.conv(r[1], res(f.ret), f.name)))
        return out

    def stmt(self, x, env, s, ty, f, depth):
        """-> [(state, env, None | 'trap' | ('return', value))]"""
        k = x[0]
        if k == "block":
            states = [(s, env, None)]
            for y in x[1]:
                nxt = []
                for s1, e1, r in states:
                    nxt += self.stmt(y, e1, s1, ty, f, depth) if r is None else [(s1, e1, r)]
                states = nxt
            # what a block declares ends with it
            return [(s1, {n: v for n, v in e1.items() if n in env} if r is None else e1, r) for s1, e1, r in states]
        if k == "decl":
            out = []
            for s1, v in self.eval(x[4], env, s, ty, f.name, depth) if x[4] else [(s, ("lit", const(0)))]:
                if v == "trap":
                    out.append((s1, env, "trap"))
                    continue
                t = ty.get(x[3], x[3]) if x[3] else (v[0] if v[0] != "lit" else "i32")
                if x[2] in env and f.body[1] is not None and x[2] in [n for n, _ in f.params]:
                    raise Bad("%s occurs twice in %s" % (x[2], f.name))
                out.append((s1, dict(env, **{x[2]: self.conv(v, t, f.name)}), None))
            return out
        if k == "return":
            if x[1] is None:
                return [(s, env, ("return", ("void", None)))]
            return [(s1, env, "trap" if v == "trap" else ("return", v)) for s1, v in self.eval(x[1], env, s, ty, f.name, depth)]
        if k == "expr":
            return [(s1, env if not isinstance(v, Env) else v.env, "trap" if v == "trap" else None) for s1, v in self.eval(x[1], env, s, ty, f.name, depth)]
        if k == "if":
            out = []
            for s1, c in self.eval(x[1], env, s, ty, f.name, depth):
                for s2, yes in self.fork(s1, c[1]):
                    b = x[2] if yes else x[3]
                    out += self.stmt(b, env, s2, ty, f, depth) if b else [(s2, env, None)]
            return out
        if k == "while":
            out, todo = [], [(s, env)]
            for n in range(self.MAXLOOP):
                nxt = []
                for s1, e1 in todo:
                    for s2, c in self.eval(x[1], e1, s1, ty, f.name, depth):
                        for s3, yes in self.fork(s2, c[1]):
                            if not yes:
                                out.append((s3, e1, None))
                                continue
                            for s4, e4, r in self.stmt(x[2], e1, s3, ty, f, depth):
                                if r is None:
                                    nxt.append((s4, e4))
                                else:
                                    out.append((s4, e4, r))
                todo = nxt
            return out
        raise Undecided("statement " + k)

    def fork(self, s, c):
        if isconst(c):
            return [(s, c[0] != 0)]
        for g, v in s.facts:
            if g == c:
                return [(s, v)]
        out = []
        for v in (True, False):
            s2 = s.copy()
            s2.facts = s.facts + ((c, v),)
            out.append((s2, v))
        return out

    def evals(self, xs, env, s, ty, where, depth):
        states = [(s, [])]
        for x in xs:
            nxt = []
            for s1, vs in states:
                for s2, v in self.eval(x, env, s1, ty, where, depth):
                    if v != "trap":
                        if isinstance(v, Env):
                            raise Undecided("an assignment inside an expression")
                        nxt.append((s2, vs + [v]))
            states = nxt
        return states

    def eval(self, x, env, s, ty, where, depth):
        k = x[0]
        if k == "num":
            if isinstance(x[1], float):
                raise Undecided("a decimal number")
            return [(s, ("lit", const(x[1])))]
        if k == "bool":
            return [(s, ("bool", const(int(x[1]))))]
        if k == "name":
            if x[1] in env:
                return [(s, env[x[1]])]
            if x[1] in getattr(self, "fixed", {}):
                return [(s, self.fixed[x[1]])]
            if x[1].startswith("__"):
                ty_ = x[1].split("_")[2]
                return [(s, (ty_ if ty_ in WASM else "i32", atom("any", x[1])))]
            if x[1] in self.globals:
                return [(s, (self.globals[x[1]][0] or "i32", s.globals[x[1]]))]
            foreign(x[1])
            raise Bad("no %s (in %s)" % (x[1], where))
        if k == "as":
            return [(s1, self.conv(v, ty.get(x[2], x[2]), where, True)) for s1, (v,) in self.evals([x[1]], env, s, ty, where, depth)]
        if k == "?":
            out = []
            for s1, (c,) in self.evals([x[1]], env, s, ty, where, depth):
                for s2, yes in self.fork(s1, c[1]):
                    out += self.eval(x[2] if yes else x[3], env, s2, ty, where, depth)
            return out
        if k == "set":
            out = []
            for s1, (v,) in self.evals([x[2]], env, s, ty, where, depth):
                if x[1] in env:
                    e = Env()
                    e.env = dict(env, **{x[1]: self.conv(v, env[x[1]][0], where)})
                    out.append((s1, e))
                elif x[1] in self.globals and self.globals[x[1]][1]:
                    s2 = s1.copy()
                    s2.globals[x[1]] = self.conv(v, self.globals[x[1]][0] or "i32", where)[1]
                    out.append((s2, ("void", None)))
                else:
                    raise Bad("%s is set in %s" % (x[1], where))
            return out
        if k == "un":
            if x[1] == "void":
                return [(s1, ("void", None)) for s1, _ in self.evals([x[2]], env, s, ty, where, depth)]
            return [(s1, (v[0], add(const(0), v[1], -1)) if x[1] == "-" else ("bool", compare("eq", v[1], const(0))) if x[1] == "!" else v)
                    for s1, (v,) in self.evals([x[2]], env, s, ty, where, depth)]
        if k == "bin":
            o = x[1]
            if o in ("&&", "||"):
                out = []
                for s1, (a,) in self.evals([x[2]], env, s, ty, where, depth):
                    for s2, yes in self.fork(s1, a[1]):
                        if yes == (o == "&&"):
                            out += self.eval(x[3], env, s2, ty, where, depth)
                        else:
                            out.append((s2, ("bool", const(int(yes)))))
                return out
            return [(s1, self.bin(o, a, b, where)) for s1, (a, b) in self.evals([x[2], x[3]], env, s, ty, where, depth)]
        if k == "new":
            return self.new(x, env, s, ty, where, depth)
        if k in ("member", "mcall", "setmember"):
            return self.member(x, env, s, ty, where, depth)
        if k == "call":
            return self.called(x, env, s, ty, where, depth)
        raise Undecided("expression " + k)

    def bin(self, o, a, b, where):
        t = a[0] if a[0] != "lit" else b[0]
        if a[0] not in ("lit", t) or b[0] not in ("lit", t):
            if t[0] == "f" or BITS.get(a[0]) != BITS.get(b[0]):
                raise Undecided("%s of %s and %s" % (o, a[0], b[0]))
        x, y = a[1], b[1]
        if o in ("+", "-"):
            return (t, add(x, y, 1 if o == "+" else -1))
        if o == "*":
            return (t, mul(x, y))
        if o == "<<" and isconst(y):
            return (t, mul(x, const(1 << y[0])))
        cmp = {"==": "eq", "!=": "ne", "===": "eq", "!==": "ne", "<": "lt", ">": "gt", "<=": "le", ">=": "ge"}.get(o)
        if cmp:
            return ("bool", compare(cmp if cmp in ("eq", "ne") else cmp + ("_s" if t[0] == "i" and t != "isize" or t == "isize" else "_u"), x, y))
        if isconst(x) and isconst(y) and x[0] >= 0 and y[0] > 0 and o in ("/", "%"):
            return (t, const(x[0] // y[0] if o == "/" else x[0] % y[0]))
        raise Undecided("operator " + o)

    def new(self, x, env, s, ty, where, depth):
        c = self.classes.get(x[1])
        if c is None:
            foreign(x[1])
            raise Bad("no class %s (in %s)" % (x[1], where))
        if c.abstract:
            raise Bad("new %s of an abstract class (in %s)" % (x[1], where))
        out = []
        for s1, vs in self.evals(x[2], env, s, ty, where, depth):
            s2 = s1.copy()
            n = s1.globals.get(("objects",), 0)
            s2.globals[("objects",)] = n + 1
            me = (x[1], ("object", n))
            out += [(s3, me) for s3 in self.construct(c, me, vs, s2, depth + 1)]
        return out

    def construct(self, c, me, args, s, depth):
        """fields get their initial values, the constructor runs"""
        states = [s]
        if c.base and not c.ctor:      # the constructor it inherits
            states = self.construct(self.classes[c.base], me, args, s, depth)
        for n, ty, e in c.fields:
            nxt = []
            for s1 in states:
                if e is None:
                    s2 = s1.copy()
                    s2.globals.setdefault((me[1], n), (ty, const(0)))
                    nxt.append(s2)
                    continue
                for s2, v in self.eval(e, {}, s1, {}, c.name, depth):
                    s2 = s2.copy()
                    s2.globals[me[1], n] = self.conv(v, ty, c.name)
                    nxt.append(s2)
            states = nxt
        if c.ctor:
            states = [s2 for s1 in states for s2, _ in self.run(c.ctor, [], args, s1, depth, me, c.name)]
        elif not c.base and args:
            raise Bad("new %s with arguments" % c.name)
        return states

    def objects(self, x, env, s, ty, where, depth):
        """the states and values of x, or the dotted name it is"""
        names, y = [], x
        while y[0] == "member":
            names.append(y[2])
            y = y[1]
        if y[0] == "name" and y[1] not in env and y[1] not in self.globals and not y[1].startswith("__"):
            return ".".join([y[1]] + names[::-1])
        return self.evals([x], env, s, ty, where, depth)

    def member(self, x, env, s, ty, where, depth):
        k, n = x[0], x[2]
        got = self.objects(x[1], env, s, ty, where, depth)
        if isinstance(got, str):
            if k == "mcall":
                return self.called(("call", got + "." + n, x[3], x[4]), env, s, ty, where, depth)
            if k == "member" and n in self.enums.get(got, {}):
                return [(s, ("i32", const(self.enums[got][n])))]
            foreign(got)
            raise Bad("no %s.%s (in %s)" % (got, n, where))
        out = []
        for s1, (o,) in got:
            if o[0] not in self.classes:
                raise Bad("%s of a %s (in %s)" % (n, o[0], where))
            if k == "member":
                self.field(o[0], n, where)
                v = s1.globals.get((o[1], n))
                if v is None:
                    raise Undecided("%s is not set yet (in %s)" % (n, where))
                out.append((s1, v))
            elif k == "setmember":
                t = self.field(o[0], n, where)
                for s2, (v,) in self.evals([x[3]], env, s1, ty, where, depth):
                    s3 = s2.copy()
                    s3.globals[o[1], n] = self.conv(v, t, where)
                    out.append((s3, ("void", None)))
            else:
                # the object's own class decides, not the type of the variable
                c, f = self.method(o[0], n)
                if f is None:
                    raise Bad("no method %s of %s (in %s)" % (n, o[0], where))
                for s2, vs in self.evals(x[4], env, s1, ty, where, depth):
                    out += self.run(f, [ty.get(t, t) for t in x[3]], vs, s2, depth + 1, o)
        return out

    def called(self, x, env, s, ty, where, depth):
        n, targs = x[1], [ty.get(t, t) for t in x[2]]
        if n == "super":
            me = env.get("this")
            c = self.classes.get(env.get("super"))
            if c is None or not c.base:
                raise Bad("super outside of a constructor (in %s)" % where)
            return [(s3, ("void", None)) for s2, vs in self.evals(x[3], env, s, ty, where, depth)
                    for s3 in self.construct(self.classes[c.base], me, vs, s2, depth + 1)]
        if n.startswith("__probe"):
            out = []
            for s1, vs in self.evals(x[3], env, s, ty, where, depth):
                s2 = s1.copy()
                s2.globals[("trace",)] = s1.globals.get(("trace",), ()) + (("probe", n) + tuple(vs),)
                out.append((s2, ("void", None)))
            return out
        if n in self.funcs:
            out = []
            f = self.funcs[n]
            for s1, vs in self.evals(x[3], env, s, ty, where, depth):
                out += self.run(f, targs, vs, s1, depth + 1)
            return out
        for t in targs:
            if t not in BITS:
                foreign(t)
                raise Bad("%s is no type (in %s)" % (t, where))
        if n == "unreachable":
            self.traps.append(s)
            return [(s, "trap")]
        if n == "sizeof":
            return [(s, ("usize", const(BITS[targs[0]] // 8)))]
        if n == "isInteger":
            return [(s, ("bool", const(int(targs[0][0] != "f"))))]
        if n == "isFloat":
            return [(s, ("bool", const(int(targs[0][0] == "f"))))]
        out = []
        for s1, vs in self.evals(x[3], env, s, ty, where, depth):
            if n == "memory.grow":
                ok = s1.copy()
                ok.pages = add(s1.pages, vs[0][1])
                no = s1.copy()
                no.full = True
                out += [(ok, ("i32", s1.pages)), (no, ("i32", const(-1)))]
            elif n == "memory.size":
                out.append((s1, ("i32", s1.pages)))
            elif n == "load":
                a = self.conv(vs[0], "usize", where)[1]
                if len(vs) > 1:
                    a = add(a, vs[1][1])
                w = BITS[targs[0]] // 8
                v = s1.load(a, w)
                out.append((s1, (targs[0], atom("mem", a, w) if v is None else v)))
            elif n == "store":
                a = self.conv(vs[0], "usize", where)[1]
                if len(vs) > 2:
                    a = add(a, vs[2][1])
                s2 = s1.copy()
                s2.store(a, BITS[targs[0]] // 8, self.conv(vs[1], targs[0], where)[1])
                out.append((s2, ("void", None)))
            elif n == "reinterpret":
                a, b = vs[0][0], targs[0]
                if (a[0] == "f") == (b[0] == "f"):
                    out.append((s1, (b, vs[0][1])))
                else:
                    g = lambda t: "f%d" % BITS[t] if t[0] == "f" else "i%d" % BITS[t]
                    out.append((s1, (b, un("%s.reinterpret_%s" % (g(b), g(a)), vs[0][1]))))
            elif n in BITS:
                out.append((s1, self.conv(vs[0], n, where, True)))
            else:
                foreign(n)
                raise Bad("no function %s (in %s)" % (n, where))
        return out


class Env:
    """an assignment: the locals after it"""

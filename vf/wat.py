"""WebAssembly text: what each function of a module does to memory and globals.

Values are sums  const + sum of coefficient * atom  (atoms are nested tuples), so
that addresses keep their base and offset; a test whose outcome depends on an
atom splits the path."""
import re
from .spec import Undecided

TOK = re.compile(r'\s+|;;[^\n]*|\(;|\(|\)|"(?:[^"\\]|\\.)*"|[^\s()";]+')
BITS = {"i32": 32, "i64": 64, "f32": 32, "f64": 64}


class Bad(Exception):
    """the text is no valid module"""


def tokens(s):
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad("text at %r" % s[i:i + 30])
        x = m.group(0)
        if x == "(;":
            d, i = 1, i + 2
            while d:
                if i >= len(s):
                    raise Bad("unclosed comment")
                if s.startswith("(;", i):
                    d, i = d + 1, i + 2
                elif s.startswith(";)", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
            continue
        i = m.end()
        if not x.isspace() and not x.startswith(";;"):
            yield x


def parse(s):
    st = [[]]
    for x in tokens(s):
        if x == "(":
            st.append([])
        elif x == ")":
            if len(st) == 1:
                raise Bad("unbalanced )")
            y = st.pop()
            st[-1].append(y)
        else:
            st[-1].append(x)
    if len(st) != 1:
        raise Bad("unbalanced (")
    return st[0]


# ---------------------------------------------------------------- values
def lin(c=0, *atoms):
    d = {}
    for k, a in atoms:
        d[a] = d.get(a, 0) + k
    return (c, tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)))


def const(n):
    return (n, ())


def atom(*a):
    return lin(0, (1, a))


def add(a, b, k=1):
    return lin(a[0] + k * b[0], *([(n, x) for x, n in a[1]] + [(k * n, x) for x, n in b[1]]))


def isconst(a):
    return not a[1]


def mul(a, b):
    if isconst(a):
        a, b = b, a
    if isconst(b):
        return lin(a[0] * b[0], *[(n * b[0], x) for x, n in a[1]])
    return atom("mul", *sorted((a, b), key=repr))


INV = {("i32.wrap_i64", "i64.extend_i32_u"), ("i32.wrap_i64", "i64.extend_i32_s"), ("f32.reinterpret_i32", "i32.reinterpret_f32"),
       ("i32.reinterpret_f32", "f32.reinterpret_i32"), ("i64.reinterpret_f64", "f64.reinterpret_i64"), ("f64.reinterpret_i64", "i64.reinterpret_f64")}
UN = {"i32.wrap_i64": ("i64", "i32"), "i64.extend_i32_u": ("i32", "i64"), "i64.extend_i32_s": ("i32", "i64"), "f32.reinterpret_i32": ("i32", "f32"),
      "i32.reinterpret_f32": ("f32", "i32"), "i64.reinterpret_f64": ("f64", "i64"), "f64.reinterpret_i64": ("i64", "f64"),
      "f64.promote_f32": ("f32", "f64"), "f32.demote_f64": ("f64", "f32")}
for _f in ("f32", "f64"):
    for _i in ("i32", "i64"):
        for _s in "su":
            UN["%s.convert_%s_%s" % (_f, _i, _s)] = (_i, _f)
            UN["%s.trunc_%s_%s" % (_i, _f, _s)] = UN["%s.trunc_sat_%s_%s" % (_i, _f, _s)] = (_f, _i)
UN.update({"%s.extend%s_s" % (_i, _n): (_i, _i) for _i, _n in (("i32", 8), ("i32", 16), ("i64", 8), ("i64", 16), ("i64", 32))})
UN.update({"%s.%s" % (_f, _o): (_f, _f) for _f in ("f32", "f64") for _o in ("abs", "neg", "ceil", "floor", "trunc", "nearest", "sqrt")})
CMP = ("eq", "ne", "lt_u", "lt_s", "gt_u", "gt_s", "le_u", "le_s", "ge_u", "ge_s")
MEM = re.compile(r"^(i32|i64|f32|f64)\.(load|store)(8|16|32)?(_s|_u)?$")


def un(op, a):
    if len(a[1]) == 1 and a[0] == 0 and a[1][0][1] == 1:
        x = a[1][0][0]
        if x[0] == "un" and (op, x[1]) in INV:
            return x[2]
    if isconst(a) and op in ("i64.extend_i32_u", "i32.wrap_i64", "i64.extend_i32_s") and 0 <= a[0] < 1 << 31:
        return a
    return atom("un", op, a)


def never(a):
    """a number of pages (there are at most 65536) and some more, which is not 0"""
    return a[0] > 0 and len(a[1]) == 1 and a[1][0][1] == 1 and a[1][0][0][0] == "pages"


def compare(op, a, b):
    if isconst(a) and isconst(b):
        x, y = a[0], b[0]
    elif op[:2] in ("eq", "ne") and isconst(add(a, b, -1)):
        x, y = add(a, b, -1)[0], 0
    elif op[:2] in ("eq", "ne") and (never(add(a, b, -1)) or never(add(b, a, -1))):
        x, y = 1, 0
    else:
        return atom("cmp", op, a, b)
    return const(int({"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[op[:2]]))


# ---------------------------------------------------------------- modules
class Func:
    def __init__(self):
        self.name, self.exports, self.params, self.results, self.locals, self.body, self.imported = None, [], [], [], [], [], None


class Mod:
    def __init__(self, text):
        top = parse(text)
        if len(top) != 1 or top[0][:1] != ["module"]:
            raise Bad("not one module")
        self.funcs, self.globals, self.exports, self.pages, self.byname = [], {}, {}, None, {}
        self.types = {}
        items = top[0][1:]
        if items and isinstance(items[0], str):
            items = items[1:]
        for it in items:
            getattr(self, "p_" + it[0], self.p_other)(it)
        for f in self.funcs:
            for e in f.exports:
                if e in self.exports:
                    raise Bad("the export %s occurs twice" % e)
                self.exports[e] = f

    def p_other(self, it):
        raise Undecided("module field %s" % it[0])

    def p_type(self, it):
        n = it[1] if isinstance(it[1], str) else len(self.types)
        if n in self.types:
            raise Bad("the type %s occurs twice" % n)
        f = Func()
        self.sig(f, it[-1][1:])
        self.types[n] = (f.params, f.results)

    def p_memory(self, it):
        if self.pages is not None:
            raise Bad("two memories")
        ns = [int(x) for x in it[1:] if isinstance(x, str) and x.isdigit()]
        self.pages, self.maxpages = ns[0], ns[1] if len(ns) > 1 else None

    def p_global(self, it):
        n = it[1]
        if n in self.globals:
            raise Bad("the global %s occurs twice" % n)
        ty, mut = (it[2][1], True) if isinstance(it[2], list) else (it[2], False)
        self.globals[n] = (ty, mut, it[3])

    def p_func(self, it):
        f = Func()
        it = it[1:]
        if it and isinstance(it[0], str) and it[0].startswith("$"):
            f.name = it[0]
            if f.name in self.byname:
                raise Bad("the function %s occurs twice" % f.name)
            self.byname[f.name] = f
            it = it[1:]
        while it and isinstance(it[0], list) and it[0][0] == "export":
            f.exports.append(it[0][1].strip('"'))
            it = it[1:]
        if it and isinstance(it[0], list) and it[0][0] == "import":
            f.imported = it[0]
            it = it[1:]
        it = self.sig(f, it)
        while it and isinstance(it[0], list) and it[0][0] == "local":
            self.decl(f.locals, it[0][1:])
            it = it[1:]
        f.body = it
        self.funcs.append(f)

    def p_export(self, it):
        f = self.byname.get(it[2][1])
        if it[2][0] == "func" and f is not None:
            f.exports.append(it[1].strip('"'))
        else:
            raise Undecided("export " + str(it))

    def decl(self, out, xs):
        if xs and xs[0].startswith("$"):
            out.append((xs[0], xs[1]))
        else:
            out += [(None, x) for x in xs]

    def sig(self, f, it):
        while it and isinstance(it[0], list) and it[0][0] in ("param", "result", "type"):
            if it[0][0] == "param":
                self.decl(f.params, it[0][1:])
            elif it[0][0] == "result":
                f.results += it[0][1:]
            it = it[1:]
        return it

    # ------------------------------------------------------------ running
    def start(self):
        """a state any history may have led to: mutable globals and the memory are unknown"""
        s = State()
        s.pages = atom("pages")
        same = [g for g, (ty, mut, e) in self.globals.items() if mut and ty == "i32" and e == ["i32.const", str(self.pages)]]
        for g, (ty, mut, e) in self.globals.items():
            s.globals[g] = atom("global", g) if mut else const(int(e[1], 0))
        if len(same) == 1:      # it counts the pages: every function has to keep that
            s.globals[same[0]] = s.pages
            s.counter = same[0]
        return s

    def call(self, name, args, s):
        f = self.exports.get(name)
        if f is None:
            raise Bad("there is no export " + name)
        self.traps = []
        return self.run(f, args, s)

    def run(self, f, args, s, depth=0):
        """-> [(state, results)] one per path that returns"""
        if depth > 30:
            raise Undecided("recursion")
        if len(args) != len(f.params):
            raise Bad("%s called with %d arguments" % (f.name or f.exports, len(args)))
        fr = Frame(self, f, depth)
        env = [a for a in args] + [const(0) for _ in f.locals]
        outs = []
        for s2, env2, st, br in fr.seq(f.body, 0, s, env, (), ()):
            if br not in (None, "return", 0):
                raise Bad("branch out of %s" % (f.name or f.exports))
            n = len(f.results)
            if len(st) < n or (br is None and len(st) != n):
                raise Bad("%s leaves %d values for %d results" % (f.name or f.exports, len(st), n))
            top = st[len(st) - n:]
            for (ty, v), want in zip(top, f.results):
                if ty != want:
                    raise Bad("%s leaves a %s where its result is a %s" % (f.name or f.exports, ty, want))
            outs.append((s2, [v for _, v in top]))
        return outs


class State:
    counter = None
    full = False        # the memory could not grow

    def __init__(self):
        self.globals, self.writes, self.facts, self.pages, self.nloop = {}, (), (), None, 0

    def copy(self):
        s = State()
        s.globals, s.writes, s.facts, s.pages, s.nloop, s.counter, s.full = dict(self.globals), self.writes, self.facts, self.pages, self.nloop, self.counter, self.full
        return s

    def store(self, addr, width, v):
        self.writes = self.writes + ((addr, width, v),)

    def load(self, addr, width):
        for a, w, v in reversed(self.writes):
            d = add(addr, a, -1)
            if not isconst(d):
                raise Undecided("whether %s and %s are the same address" % (show(addr), show(a)))
            if d[0] == 0 and w == width:
                return v
            if d[0] == 0 and (w, width) == (8, 4):
                return un("i32.wrap_i64", v)
            if -width < d[0] < w:
                return atom("part of", v, d, width)
        return None


class Frame:
    MAXLOOP = 3

    def __init__(self, m, f, depth):
        self.m, self.f, self.depth = m, f, depth
        vs = f.params + f.locals
        self.names = {n: i for i, (n, _) in enumerate(vs) if n}
        if len(self.names) != len([1 for n, _ in vs if n]):
            raise Bad("two locals of one name in %s" % (f.name or f.exports))
        self.types = [ty for _, ty in vs]

    def local(self, n):
        i = self.names.get(n) if n.startswith("$") else int(n)
        if i is None or i >= len(self.types):
            raise Bad("no local %s in %s" % (n, self.f.name or self.f.exports))
        return i

    def seq(self, xs, i, s, env, st, labels):
        """all the ways the instructions xs[i:] run: (state, locals, stack, branch)"""
        xs = list(xs)
        while i < len(xs):
            x = xs[i]
            i += 1
            if isinstance(x, list):
                h = x[0]
                if h in ("block", "loop", "if"):
                    outs = self.block(x, s, env, st, labels)
                elif h in ("then", "else"):
                    raise Bad(h + " outside an if")
                else:
                    imm, ops = self.split(x)
                    outs = self.folded([h] + imm, ops, s, env, st, labels)
            else:
                imm = []
                for _ in range(self.immediates(x)):
                    imm.append(xs[i])
                    i += 1
                outs = self.instr([x] + imm, s, env, st, labels)
            if len(outs) == 1 and outs[0][3] is None:
                s, env, st, _ = outs[0]
                continue
            res = []
            for s2, env2, st2, br in outs:
                if br is not None:
                    res.append((s2, env2, st2, br))
                else:
                    res += self.seq(xs, i, s2, env2, st2, labels)
            return res
        return [(s, env, st, None)]

    def immediates(self, op):
        if op in ("block", "loop", "if", "end", "else"):
            raise Undecided("unfolded " + op)
        return 1 if op.startswith(("local.", "global.")) or op in ("call", "br", "br_if") or op.endswith(".const") else 0

    def split(self, x):
        n = self.immediates(x[0])
        return x[1:1 + n], x[1 + n:]

    def folded(self, op, ops, s, env, st, labels):
        res = []
        for s2, env2, st2, br in self.seq(ops, 0, s, env, st, labels):
            res += [(s2, env2, st2, br)] if br is not None else self.instr(op, s2, env2, st2, labels)
        return res

    def block(self, x, s, env, st, labels):
        kind, rest = x[0], x[1:]
        lab = None
        if rest and isinstance(rest[0], str) and rest[0].startswith("$"):
            lab, rest = rest[0], rest[1:]
        f = Func()
        rest = self.m.sig(f, rest)
        if f.params:
            raise Undecided("block with parameters")
        if kind == "if":
            arms = {y[0]: y[1:] for y in rest if isinstance(y, list) and y[0] in ("then", "else")}
            conds = [y for y in rest if not (isinstance(y, list) and y[0] in ("then", "else"))]
            res = []
            for s2, env2, st2, br in self.seq(conds, 0, s, env, st, labels):
                if br is not None:
                    res.append((s2, env2, st2, br))
                    continue
                st3, c = self.pop(st2, "i32")
                for s4, yes in self.fork(s2, c):
                    res += self.body(arms.get("then" if yes else "else", []), lab, f, False, s4, env2, st3, labels)
            return res
        return self.body(rest, lab, f, kind == "loop", s, env, st, labels)

    def body(self, xs, lab, f, loop, s, env, st, labels):
        out, todo, n = [], [(s, env)], 0
        while todo:
            nxt = []
            for s1, env1 in todo:
                for s2, env2, st2, br in self.seq(xs, 0, s1, env1, (), labels + (lab,)):
                    if br is None or br == 0 and not loop:
                        k = len(f.results)
                        if len(st2) < k or (br is None and len(st2) != k):
                            raise Bad("a block of %s leaves %d values" % (self.f.name or self.f.exports, len(st2)))
                        out.append((s2, env2, st + st2[len(st2) - k:], None))
                    elif br == 0:
                        nxt.append((s2, env2))
                    else:
                        out.append((s2, env2, st2, br - 1 if isinstance(br, int) else br))
            n += 1
            todo = nxt if n < self.MAXLOOP else []
        return out

    def fork(self, s, c):
        if isconst(c):
            return [(s, c[0] != 0)]
        for g, v in s.facts:
            if g == c:
                return [(s, v)]
        out = []
        for v in (True, False):
            s2 = s.copy()
            s2.facts = s.facts + ((c, v),)
            out.append((s2, v))
        return out

    def pop(self, st, want=None):
        if not st:
            raise Bad("nothing on the stack in %s" % (self.f.name or self.f.exports))
        ty, v = st[-1]
        if want and ty != want:
            raise Bad("a %s where %s takes a %s" % (ty, self.f.name or self.f.exports, want))
        return st[:-1], v

    def instr(self, x, s, env, st, labels):
        op = x[0]
        one = lambda *vs: [(s, env, st + vs, None)]
        if op.endswith(".const"):
            return one((op[:3], const(int(x[1], 0))))
        if op.startswith("local."):
            i = self.local(x[1])
            if op == "local.get":
                return one((self.types[i], env[i]))
            st2, v = self.pop(st, self.types[i])
            env = list(env)
            env[i] = v
            return [(s, env, st if op == "local.tee" else st2, None)]
        if op.startswith("global."):
            if x[1] not in self.m.globals:
                raise Bad("no global " + x[1])
            ty, mut, _ = self.m.globals[x[1]]
            if op == "global.get":
                return one((ty, s.globals[x[1]]))
            if not mut:
                raise Bad("the constant %s is set" % x[1])
            st, v = self.pop(st, ty)
            s = s.copy()
            s.globals[x[1]] = v
            return [(s, env, st, None)]
        if op == "call":
            f = self.m.byname.get(x[1])
            if f is None:
                raise Bad("no function " + x[1])
            args = []
            for _, ty in reversed(f.params):
                st, v = self.pop(st, ty)
                args.append(v)
            return [(s2, env, st + tuple(zip(f.results, r)), None) for s2, r in self.m.run(f, args[::-1], s, self.depth + 1)]
        if op == "drop":
            return [(s, env, self.pop(st)[0], None)]
        if op == "nop":
            return [(s, env, st, None)]
        if op == "unreachable":
            self.m.traps.append(s)
            return []
        if op == "return":
            return [(s, env, st, "return")]
        if op in ("br", "br_if"):
            n = self.depth_of(x[1], labels)
            if op == "br":
                return [(s, env, st, n)]
            st, c = self.pop(st, "i32")
            return [(s2, env, st, n if yes else None) for s2, yes in self.fork(s, c)]
        if op == "memory.size":
            return one(("i32", s.pages))
        if op == "memory.grow":
            st, n = self.pop(st, "i32")
            ok, no = s.copy(), s.copy()
            no.full = True
            old = s.pages
            ok.pages = add(s.pages, n)
            return [(ok, env, st + (("i32", old),), None), (no, env, st + (("i32", const(-1)),), None)]
        m = MEM.match(op)
        if m:
            ty, kind, narrow = m.group(1), m.group(2), m.group(3)
            w = int(narrow or BITS[ty]) // 8
            if kind == "load":
                st, a = self.pop(st, "i32")
                v = s.load(a, w)
                v = atom("mem", a, w) if v is None else v
                if narrow and not (isconst(v) and 0 <= v[0] < 1 << (8 * w - 1)):
                    v = un("i64.extend_i32" + m.group(4) if narrow == "32" else op, v)
                return [(s, env, st + ((ty, v),), None)]
            st, v = self.pop(st, ty)
            st, a = self.pop(st, "i32")
            if narrow and not (isconst(v) and 0 <= v[0] < 1 << (8 * w)):
                v = un("i32.wrap_i64" if narrow == "32" else "low " + narrow, v)
            s = s.copy()
            s.store(a, w, v)
            return [(s, env, st, None)]
        if op in UN:
            st, v = self.pop(st, UN[op][0])
            return [(s, env, st + ((UN[op][1], un(op, v)),), None)]
        if op[3:4] == "." and op[:3] in ("i32", "i64"):
            ty, o = op[:3], op[4:]
            if o == "eqz":
                st, v = self.pop(st, ty)
                return [(s, env, st + (("i32", compare("eq", v, const(0))),), None)]
            if o in ("add", "sub", "mul", "shl") or o in CMP:
                st, b = self.pop(st, ty)
                st, a = self.pop(st, ty)
                if o in CMP:
                    return [(s, env, st + (("i32", compare(o, a, b)),), None)]
                if o == "shl":
                    if not isconst(b):
                        raise Undecided(op)
                    return [(s, env, st + ((ty, mul(a, const(1 << b[0]))),), None)]
                return [(s, env, st + ((ty, mul(a, b) if o == "mul" else add(a, b, 1 if o == "add" else -1)),), None)]
        raise Undecided("instruction " + op)

    def depth_of(self, l, labels):
        if l.startswith("$"):
            for i, x in enumerate(reversed(labels)):
                if x == l:
                    return i
            raise Bad("no label " + l)
        return int(l)


def show(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and isinstance(v[0], int):
        ps = ([str(v[0])] if v[0] or not v[1] else []) + [("%d*" % k if k != 1 else "") + show_atom(a) for a, k in v[1]]
        return " + ".join(ps)
    return str(v)


def show_atom(a):
    return a[0] if len(a) == 1 else "%s(%s)" % (a[0], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in a[1:]))

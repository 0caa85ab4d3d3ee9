"""Value-flow terms: hash-consed, kept in a normal form by the constructors.

A term says where a value comes from and how it is built, never what it is at
run time.  `sw` is the gated phi of a gated-SSA value graph; `fm`, `any`,
`first`, `until` and `fold` are the closed forms of loops.
"""
import itertools, sys

sys.setrecursionlimit(20000)

_tab = {}
_ids = itertools.count(1)
_fresh = itertools.count(1)


class T:
    __slots__ = ("op", "a", "id", "h", "unk")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, next(_ids)
        h, u = 0, False
        for x in kids_of(a):
            if x.h > h:
                h = x.h
            u = u or x.unk
        if op in BINDERS:
            h = a[1]
        t.h, t.unk = h, u or op in UNK
        _tab[key] = t
    return t


UNK = {"havoc", "ext", "fold", "last", "butlast", "upd", "ovf"}


def kids_of(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from kids_of(x)


# (P, height, body): bound variables bvar(height,'e') and bvar(height,'p')
BINDERS = {"fm", "any", "first", "until", "fold"}

# ---------------------------------------------------------------- leaves
def sym(name):
    return mk("sym", name)


def fresh(kind="v"):
    return mk("sym", f"{kind}#{next(_fresh)}")


def const(v):
    return mk("const", type(v).__name__, v)


TRUE, FALSE = const(True), const(False)


def num(n):
    return const(int(n))


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[1]


# ---------------------------------------------------------------- records
def ctor(adt, variant, names, fields):
    return mk("ctor", adt, variant, tuple(names), tuple(fields))


def tup(fields):
    return mk("tup", tuple(fields))


UNIT = tup(())
OPT, RES, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"


def some(x):
    return ctor(OPT, "Some", ("0",), (x,))


NONE = ctor(OPT, "None", (), ())


def ok(x):
    return ctor(RES, "Ok", ("0",), (x,))


def err(x):
    return ctor(RES, "Err", ("0",), (x,))


ENUMS = {OPT: ("None", "Some"), RES: ("Ok", "Err"), CF: ("Continue", "Break"), "std::borrow::Cow": ("Borrowed", "Owned"),
         "std::cmp::Ordering": ("Less", "Equal", "Greater")}
DISCR = {}


def proj(base, variant, name):
    """Field `name` (of `variant`, or None for structs/tuples)."""
    if base.op == "ctor":
        if variant is not None and base.a[1] != variant:
            return mk("absurd")
        if name in base.a[2]:
            return base.a[3][base.a[2].index(name)]
    elif base.op == "tup":
        i = int(name)
        if i < len(base.a[0]):
            return base.a[0][i]
    elif base.op == "sw":
        cs = []
        for l, x in base.a[1]:
            y = proj(x, variant, name)
            if y.op != "absurd":
                cs.append((l, y))
        if not cs:
            return mk("absurd")
        return sw(base.a[0], cs)
    elif base.op == "with":  # functional update
        if base.a[1] == (variant, name):
            return base.a[2]
        return proj(base.a[0], variant, name)
    elif base.op == "absurd":
        return base
    return mk("proj", base, variant, name)


def with_field(base, variant, name, val):
    if base.op == "ctor" and (variant is None or base.a[1] == variant) and name in base.a[2]:
        i = base.a[2].index(name)
        f = list(base.a[3])
        f[i] = val
        return ctor(base.a[0], base.a[1], base.a[2], f)
    if base.op == "tup":
        f = list(base.a[0])
        f[int(name)] = val
        return tup(f)
    if base.op == "sw":
        return sw(base.a[0], [(l, with_field(x, variant, name, val)) for l, x in base.a[1]])
    if base.op == "with" and base.a[1] == (variant, name):
        return mk("with", base.a[0], (variant, name), val)
    if proj(base, variant, name) is val:
        return base
    return mk("with", base, (variant, name), val)


def disc(base):
    """Discriminant, a scrutinee whose labels are variant names."""
    if base.op == "ctor":
        return mk("lab", base.a[1])
    if base.op == "sw":
        return sw(base.a[0], [(l, disc(x)) for l, x in base.a[1]])
    if base.op == "with":
        return disc(base.a[0])
    return mk("disc", base)


def lab_of(scrut):
    if scrut.op == "lab":
        return scrut.a[0]
    if scrut.op == "const" and scrut.a[0] == "bool":
        return scrut.a[1]
    return None


# ---------------------------------------------------------------- phi
def sw(scrut, cases):
    cases = [(l, x) for l, x in cases if x.op != "absurd"] or list(cases)
    l = lab_of(scrut)
    d = dict(cases)
    if l is not None:
        if l in d:
            return d[l]
        return mk("absurd")
    if scrut.op == "absurd":
        return scrut
    if scrut.op == "sw":
        out = []
        for l, s2 in scrut.a[1]:
            out.append((l, sw(s2, cases)))
        return sw(scrut.a[0], out)
    # branches know their own label
    new = []
    for l, x in cases:
        new.append((l, assume1(x, scrut, l)))
    new.sort(key=lambda c: (str(type(c[0])), str(c[0])))
    vals = {x for _, x in new if x.op != "absurd"}
    if len(vals) == 1:
        return next(iter(vals))
    dd = dict(new)
    if dd.get(True) is TRUE and dd.get(False) is FALSE:
        return scrut
    if scrut.op == "eq" and True in dd and False in dd:
        # sw(a==b, {T: x[a], F: x[b]})-style identities are left alone
        pass
    # string / sequence factoring is done by cat/seq
    return mk("sw", scrut, tuple(new))


def ite(c, a, b):
    return sw(c, [(True, a), (False, b)])


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


_assume_cache = {}


def implied(atom, scrut, label):
    """Label of `atom` known from scrut=label, or None."""
    if atom is scrut:
        return label
    if atom.op == "eq" and scrut.op == "eq" and label is True:
        # x == c1  =>  x != c2
        ax, ay = atom.a
        sx, sy = scrut.a
        for p, q in ((ax, ay), (ay, ax)):
            for r, s_ in ((sx, sy), (sy, sx)):
                if p is r and is_const(q) and is_const(s_):
                    return q is s_
    if scrut.op == "eq" and atom.op == "lt":
        pass
    if scrut.op == "any" and label is False and atom.op == "any" and atom.a[0] is scrut.a[0]:
        pass
    return None


def assume1(t, scrut, label):
    if t.op in ("sym", "const", "lab"):
        return t
    key = (t, scrut, label)
    r = _assume_cache.get(key)
    if r is not None:
        return r
    if not mentions(t, scrut):
        r = t
    elif t.op == "sw":
        l = implied(t.a[0], scrut, label)
        if l is not None and l in dict(t.a[1]):
            r = assume1(dict(t.a[1])[l], scrut, label)
        else:
            r = sw(assume1(t.a[0], scrut, label), [(l2, assume1(x, scrut, label)) for l2, x in t.a[1]])
    else:
        l = implied(t, scrut, label)
        if l is not None and isinstance(l, bool):
            r = const(l)
        elif l is not None:
            r = mk("lab", l)
        else:
            r = rebuild(t, lambda x: assume1(x, scrut, label))
    _assume_cache[key] = r
    return r


_ment = {}


def mentions(t, scrut):
    """Does t contain an atom that knowing scrut may decide?"""
    if t is scrut:
        return True
    key = (t, scrut)
    r = _ment.get(key)
    if r is None:
        if scrut.op == "eq" and t.op == "eq" and (t.a[0] in scrut.a or t.a[1] in scrut.a):
            r = True
        else:
            r = any(mentions(x, scrut) for x in kids_of(t.a))
        _ment[key] = r
    return r


def contains(t, sub):
    return t is sub or any(contains(x, sub) for x in kids_of(t.a))


_occ = {}


def occurs(t, sub):
    key = (t, sub)
    r = _occ.get(key)
    if r is None:
        r = t is sub or any(occurs(x, sub) for x in kids_of(t.a))
        _occ[key] = r
    return r


# ---------------------------------------------------------------- booleans / ints
def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b))
    for x, y in ((a, b), (b, a)):
        if x.op == "sw":
            return sw(x.a[0], [(l, eq(v, y)) for l, v in x.a[1]])
    if a.op == "ctor" and b.op == "ctor":
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(reversed(a.a[3]), reversed(b.a[3])):
            r = and_(eq(x, y), r)
        return r
    if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
        r = TRUE
        for x, y in zip(reversed(a.a[0]), reversed(b.a[0])):
            r = and_(eq(x, y), r)
        return r
    if a.op in SEQS and b.op in SEQS:
        xs, ys = elements(a), elements(b)
        if xs is not None and ys is not None:
            if len(xs) != len(ys):
                return FALSE
            r = TRUE
            for x, y in zip(reversed(xs), reversed(ys)):
                r = and_(eq(x, y), r)
            return r
    for x, y in ((a, b), (b, a)):
        if x.op == "ctor":
            labs = ENUMS.get(x.a[0])
            if labs:
                inner = TRUE
                for n, v in zip(reversed(x.a[2]), reversed(x.a[3])):
                    inner = and_(eq(v, proj(y, x.a[1], n)), inner)
                return sw(disc(y), [(l, inner if l == x.a[1] else FALSE) for l in labs])
    # len(set(X)) == len(X)  <=>  no duplicates
    for x, y in ((a, b), (b, a)):
        if x.op == "len" and x.a[0].op == "set":
            s = x.a[0].a[0]
            if length(s) is y:
                return not_(dup(s))
            if is_const(y):
                els = elements(s)
                if els is not None and len(els) == cval(y):
                    return not_(dup(s))
        if x.op == "len" and is_const(y) and isinstance(cval(y), int):
            if cval(y) < 0:
                return FALSE
        # cat == "" decided by any constant part
        if x.op == "cat" and is_const(y) and cval(y) == "":
            if any(is_const(p) and cval(p) for p in x.a[0]):
                return FALSE
        if x.op == "add" and is_const(y) and is_const(x.a[1]) and isinstance(cval(y), int):
            return eq(x.a[0], num(cval(y) - cval(x.a[1])))
    if a.id > b.id:
        a, b = b, a
    if is_const(a) and not is_const(b):
        a, b = b, a
    return mk("eq", a, b)


def arith(op, a, b):
    for i, x in enumerate((a, b)):
        if x.op == "sw":
            return sw(x.a[0], [(l, arith(op, v if i == 0 else a, v if i == 1 else b)) for l, v in x.a[1]])
    if is_const(a) and is_const(b) and isinstance(cval(a), int) and isinstance(cval(b), int):
        x, y = cval(a), cval(b)
        try:
            v = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x // y, "rem": lambda: x % y,
                 "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "shr": lambda: x >> y}[op]()
        except Exception:
            return mk("arith", op, a, b)
        if isinstance(x, bool) and isinstance(y, bool):
            v = bool(v)
        return const(v)
    if op in ("and", "or") and (a in (TRUE, FALSE) or b in (TRUE, FALSE) or bool_like(a)):
        if op == "and":
            return and_(a, b)
        return or_(a, b)
    if op == "add":
        if is_const(a):
            a, b = b, a
        if is_const(b):
            if cval(b) == 0:
                return a
            if a.op == "add" and is_const(a.a[1]):
                return arith("add", a.a[0], num(cval(a.a[1]) + cval(b)))
        elif a.op == "add" and is_const(a.a[1]):
            return arith("add", arith("add", a.a[0], b), a.a[1])
        elif b.op == "add" and is_const(b.a[1]):
            return arith("add", arith("add", a, b.a[0]), b.a[1])
        elif a.id > b.id:
            a, b = b, a
        return mk("add", a, b)
    if op == "sub" and is_const(b):
        return arith("add", a, num(-cval(b)))
    if op == "sub" and a is b:
        return num(0)
    if op == "sub" and a.op == "add" and a.a[0] is b:
        return a.a[1]
    if op == "sub" and a.op == "add" and a.a[1] is b:
        return a.a[0]
    if op == "mul":
        if is_const(a):
            a, b = b, a
        if is_const(b) and cval(b) == 1:
            return a
        if is_const(b) and cval(b) == 0:
            return b
    return mk("arith", op, a, b)


def bool_like(a):
    return a.op in ("eq", "lt", "any") or (a.op == "sw" and all(bool_like(x) or x in (TRUE, FALSE) for _, x in a.a[1]))


def lt(a, b):
    """a < b on integers"""
    for i, x in enumerate((a, b)):
        if x.op == "sw":
            return sw(x.a[0], [(l, lt(v, b) if i == 0 else lt(a, v)) for l, v in x.a[1]])
    if is_const(a) and is_const(b):
        return const(cval(a) < cval(b))
    if a is b:
        return FALSE
    # len(x) < 1  <=>  len(x) == 0 ; 0 < len(x) <=> len(x) != 0
    if nonneg(a) and is_const(b):
        if cval(b) <= 0:
            return FALSE
        if cval(b) == 1:
            return eq(a, num(0))
    if is_const(a) and nonneg(b):
        if cval(a) < 0:
            return TRUE
        if cval(a) == 0:
            return not_(eq(b, num(0)))
    if a.op == "len" and a.a[0].op == "set" and (b is length(a.a[0].a[0])):
        return dup(a.a[0].a[0])
    if a.op == "len" and a.a[0].op == "set" and is_const(b):
        els = elements(a.a[0].a[0])
        if els is not None and len(els) == cval(b):
            return dup(a.a[0].a[0])
    # len(pre) < len(P) for a prefix of P
    if a.op == "len" and b.op == "len" and a.a[0].op in ("bvar",) and a.a[0].a[1] == "p":
        return mk("lt", a, b)
    return mk("lt", a, b)


def nonneg(a):
    return a.op == "len" or (a.op == "add" and nonneg(a.a[0]) and (nonneg(a.a[1]) or (is_const(a.a[1]) and cval(a.a[1]) >= 0)))


# ---------------------------------------------------------------- sequences
EMPTY = None  # set below
SEQS = ("seq", "one")


def one(x):
    return mk("one", x)


def seq(parts):
    out = []
    for p in parts:
        if p.op == "seq":
            out.extend(p.a[0])
        elif p.op == "absurd":
            return p
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    return mk("seq", tuple(out))


EMPTY = mk("seq", ())


def lst(elems):
    return seq([one(x) for x in elems])


def parts_of(s):
    if s.op == "seq":
        return list(s.a[0])
    return [s]


def elements(s):
    """Explicit elements or None."""
    out = []
    for p in parts_of(s):
        if p.op != "one":
            return None
        out.append(p.a[0])
    return out


def length(s):
    if s.op == "seq":
        r = num(0)
        for p in s.a[0]:
            r = arith("add", r, length(p))
        return r
    if s.op == "one":
        return num(1)
    if s.op == "call" and s.a[0] in ("vec.sort", "vec.sort_unstable"):
        return length(s.a[1])
    if s.op == "sw":
        return sw(s.a[0], [(l, length(x)) for l, x in s.a[1]])
    if s.op == "fm":
        b = s.a[2]
        if b.op == "one":
            return length(s.a[0])
    if s.op == "set":
        els = elements(s.a[0])
        if els is not None and len(els) <= 1:
            return num(len(els))
        if s.a[0].op == "sw":
            return sw(s.a[0].a[0], [(l, length(setof(x))) for l, x in s.a[0].a[1]])
    if s.op == "range":
        if is_const(s.a[0]) and cval(s.a[0]) == 0 and nonneg(s.a[1]):
            return s.a[1]
        if is_const(s.a[0]) and is_const(s.a[1]):
            return num(max(0, cval(s.a[1]) - cval(s.a[0])))
    if s.op == "const" and isinstance(cval(s), str):
        return num(len(cval(s).encode()))
    if s.op == "rev":
        return length(s.a[0])
    if s.op == "cat":
        r = num(0)
        for p in s.a[0]:
            r = arith("add", r, length(p))
        return r
    return mk("len", s)


def linear(x):
    """x as (constant, {atom: times}), None when it is not a sum"""
    if is_const(x) and isinstance(cval(x), int):
        return cval(x), {}
    if x.op == "add" or x.op == "arith" and x.a[0] == "sub":
        u, v = linear(x.a[-2]), linear(x.a[-1])
        if u is None or v is None:
            return None
        k = 1 if x.op == "add" else -1
        d = dict(u[1])
        for y, n in v[1].items():
            d[y] = d.get(y, 0) + k * n
        return u[0] + k * v[0], {y: n for y, n in d.items() if n}
    return 0, {x: 1}


def least(x):
    """a number x is surely not below, None if there is none"""
    u = linear(x)
    if u is None or any(n < 0 or y.op != "len" for y, n in u[1].items()):
        return None
    return u[0]


def setof(s):
    if s.op == "set":
        return s
    return mk("set", s)


def rng(a, b):
    if is_const(a) and is_const(b) and cval(b) - cval(a) <= 64:
        return lst([num(k) for k in range(cval(a), cval(b))])
    return mk("range", a, b)


def rev(s):
    if s.op == "rev":
        return s.a[0]
    if s.op == "one":
        return s
    if s.op == "seq":
        return seq([rev(p) for p in reversed(s.a[0])])
    if s.op == "sw":
        return sw(s.a[0], [(l, rev(x)) for l, x in s.a[1]])
    if s.op == "fm":
        body, e, p = open_b(s)
        if body.op == "one" and not occurs(body, p):
            return fm(rev(s.a[0]), e, p, body)
    return mk("rev", s)


def index(s, i):
    if s.op == "sw":
        return sw(s.a[0], [(l, index(x, i)) for l, x in s.a[1]])
    if is_const(i) and isinstance(cval(i), int):
        k = cval(i)
        ps = parts_of(s)
        for n, p in enumerate(ps):
            if p.op != "one":
                rest = seq(ps[n:])
                if rest.op == "fm":
                    body, e, pre = open_b(rest)
                    if body.op == "one" and not occurs(body, pre):
                        return subst(body.a[0], {e: index(rest.a[0], num(k))})
                return mk("index", rest, num(k))
            if k == 0:
                return p.a[0]
            k -= 1
    if s.op == "fm":
        body, e, pre = open_b(s)
        if body.op == "one" and not occurs(body, pre):
            return subst(body.a[0], {e: index(s.a[0], i)})
    if s.op == "range":
        return arith("add", i, s.a[0])
    if s.op == "upd" and s.a[1] is i:
        return s.a[2]
    return mk("index", s, i)


def update(s, i, v):
    els = elements(s)
    if els is not None and is_const(i) and cval(i) < len(els):
        els[cval(i)] = v
        return lst(els)
    if s.op == "upd" and s.a[1] is i:
        s = s.a[0]
    return mk("upd", s, i, v)


def swseq(scrut, cases):
    return sw(scrut, cases)


def get(s, i):
    return ite(lt(i, length(s)), some(index(s, i)), NONE)


# ---------------------------------------------------------------- binders
def bvar(h, k):
    return mk("bvar", h, k)


def close_b(op, P, e, p, body, *rest):
    h = 1 + max([body.h] + [r.h for r in rest if isinstance(r, T)])
    h = max(h, 1)
    m = {e: bvar(h, "e"), p: bvar(h, "p")}
    body = subst(body, m)
    return mk(op, P, h, body, *rest)


def open_b(t):
    e, p = fresh("e"), fresh("p")
    body = subst_bvar(t.a[2], t.a[1], e, p)
    return body, e, p


def subst_bvar(t, h, e, p, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op == "bvar":
        r = t if t.a[0] != h else (e if t.a[1] == "e" else p if t.a[1] == "p" else t)
    elif t.op in BINDERS and t.a[1] == h:
        # same height: inner binder shadows in its body, not in its sequence
        r = t
        P2 = subst_bvar(t.a[0], h, e, p, memo)
        if P2 is not t.a[0]:
            b2, e2, p2 = open_b(t)
            r = BUILD[t.op](P2, e2, p2, b2, *t.a[3:])
    elif not t.a or t.op in ("sym", "const", "lab"):
        r = t
    else:
        r = rebuild(t, lambda x: subst_bvar(x, h, e, p, memo), raw_binder=True)
    memo[t] = r
    return r


def fm(P, e, p, body):
    """concatenation over the elements e of P (p: the elements before e)"""
    if P.op == "absurd" or body.op == "absurd":
        return EMPTY if body.op == "absurd" else P
    if body is EMPTY or P is EMPTY:
        return EMPTY
    if body.op == "one" and body.a[0] is e:
        return P
    uses_p = occurs(body, p)
    if P.op == "seq":
        out, pre = [], []
        for part in P.a[0]:
            pre_t = seq(pre)
            if part.op == "one":
                out.append(subst(body, {e: part.a[0], p: pre_t}) if uses_p else subst(body, {e: part.a[0]}))
            else:
                e2, p2 = fresh("e"), fresh("p")
                b2 = subst(body, {e: e2, p: seq([pre_t, p2])}) if uses_p else subst(body, {e: e2})
                out.append(fm(part, e2, p2, b2))
            pre.append(part)
        return seq(out)
    if P.op == "one":
        return subst(body, {e: P.a[0], p: EMPTY}) if uses_p else subst(body, {e: P.a[0]})
    if P.op == "sw":
        out = []
        for l, x in P.a[1]:
            e2, p2 = fresh("e"), fresh("p")
            out.append((l, fm(x, e2, p2, subst(body, {e: e2, p: p2}))))
        return sw(P.a[0], out)
    if P.op == "fm":
        b1, e1, p1 = open_b(P)
        if not uses_p:
            return fm(P.a[0], e1, p1, fm(b1, e, p, body))
        if b1.op == "one":
            q1e, q1p = fresh("e"), fresh("p")
            inner_pre = fm(p1, q1e, q1p, subst(b1, {e1: q1e, p1: q1p}))
            return fm(P.a[0], e1, p1, subst(body, {e: b1.a[0], p: inner_pre}))
    if P.op == "range" and is_const(P.a[0]) and cval(P.a[0]) == 0 and P.a[1].op == "len":
        v = P.a[1].a[0]
        if v.op != "set" and occurs(body, mk("index", v, e)):
            e2, p2 = fresh("e"), fresh("p")
            b2 = subst(body, {mk("index", v, e): e2})
            b2 = subst(b2, {e: length(p2)})
            if not occurs(b2, p):
                return fm(v, e2, p2, b2)
    # a prefix that is only measured over enumerate-style bodies stays
    return close_b("fm", P, e, p, body)


def anyof(P, e, p, cond):
    if cond is FALSE or P is EMPTY or cond.op == "absurd":
        return FALSE
    if P.op == "absurd":
        return P
    uses_p = occurs(cond, p)
    if P.op == "set":
        return anyof(P.a[0], e, p, cond)
    if P.op == "seq":
        r = FALSE
        pres = []
        items = []
        for part in P.a[0]:
            items.append((part, seq(pres)))
            pres.append(part)
        for part, pre_t in reversed(items):
            if part.op == "one":
                c = subst(cond, {e: part.a[0], p: pre_t})
            else:
                e2, p2 = fresh("e"), fresh("p")
                c = anyof(part, e2, p2, subst(cond, {e: e2, p: seq([pre_t, p2])}))
            r = or_(c, r)
        return r
    if P.op == "one":
        return subst(cond, {e: P.a[0], p: EMPTY})
    if P.op == "sw":
        out = []
        for l, x in P.a[1]:
            e2, p2 = fresh("e"), fresh("p")
            out.append((l, anyof(x, e2, p2, subst(cond, {e: e2, p: p2}))))
        return sw(P.a[0], out)
    if P.op == "fm":
        b1, e1, p1 = open_b(P)
        if not uses_p:
            return anyof(P.a[0], e1, p1, anyof(b1, e, p, cond))
        if b1.op == "one":
            q1e, q1p = fresh("e"), fresh("p")
            inner_pre = fm(p1, q1e, q1p, subst(b1, {e1: q1e, p1: q1p}))
            return anyof(P.a[0], e1, p1, subst(cond, {e: b1.a[0], p: inner_pre}))
    if P.op == "rev" and not uses_p:
        return anyof(P.a[0], e, p, cond)
    if cond is TRUE:
        return not_(eq(length(P), num(0)))
    if P.op == "range" and is_const(P.a[0]) and cval(P.a[0]) == 0 and P.a[1].op == "len":
        v = P.a[1].a[0]
        if occurs(cond, mk("index", v, e)):
            e2, p2 = fresh("e"), fresh("p")
            b2 = subst(subst(cond, {mk("index", v, e): e2}), {e: length(p2)})
            if not occurs(b2, p):
                return anyof(v, e2, p2, b2)
    # conditions not depending on the element come out
    if cond.op == "sw" and not occurs(cond.a[0], e) and not occurs(cond.a[0], p):
        return sw(cond.a[0], [(l, anyof(P, e, p, x)) for l, x in cond.a[1]])
    return close_b("any", P, e, p, cond)


def first(P, e, p, cond):
    els = elements(P)
    if els is not None:
        r = mk("absurd")
        for k in reversed(range(len(els))):
            c = subst(cond, {e: els[k], p: lst(els[:k])})
            r = els[k] if r.op == "absurd" else ite(c, els[k], r)
        return r
    if P.op == "fm" and not occurs(cond, p):
        b1, e1, p1 = open_b(P)
        if b1.op == "one":
            e0, p0 = fresh("e"), fresh("p")
            f = first(P.a[0], e0, p0, subst(cond, {e: subst(b1.a[0], {e1: e0, p1: p0})}))
            if not occurs(b1, p1):
                return subst(b1.a[0], {e1: f})
    return close_b("first", P, e, p, cond)


def until(P, e, p, cond):
    """the elements of P before the first one satisfying cond"""
    if cond is FALSE:
        return P
    return close_b("until", P, e, p, cond)


def fold(P, e, p, body, init, cur):
    body = subst(body, {cur: mk("bvar", 0, "acc")})
    return close_b("fold", P, e, p, body, init)


def _fold_build(P, e, p, body, init):
    return close_b("fold", P, e, p, body, init)


BUILD = {"fm": fm, "any": anyof, "first": first, "until": until, "fold": _fold_build}


def mapseq(P, f):
    e, p = fresh("e"), fresh("p")
    return fm(P, e, p, one(f(e)))


def has(P, x):
    e, p = fresh("e"), fresh("p")
    return anyof(P, e, p, eq(e, x))


def dup(P):
    e, p, e2, p2 = fresh("e"), fresh("p"), fresh("e"), fresh("p")
    return anyof(P, e, p, anyof(p, e2, p2, eq(e2, e)))


# ---------------------------------------------------------------- strings
def cat(parts):
    out = []
    for p in parts:
        ps = p.a[0] if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "absurd":
                return q
            if is_const(q) and cval(q) == "":
                continue
            if out and is_const(q) and is_const(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def join(s, sep):
    if s.op == "sw":
        return sw(s.a[0], [(l, join(x, sep)) for l, x in s.a[1]])
    els = elements(s)
    if els is not None:
        out = []
        for k, x in enumerate(els):
            if k:
                out.append(sep)
            out.append(x)
        return cat(out)
    if is_const(sep) and cval(sep) == "":
        return strcat(s)
    return mk("join", s, sep)


def strcat(s):
    """concatenation of a sequence of strings"""
    out = []
    for p in parts_of(s):
        if p.op == "one":
            out.append(p.a[0])
        elif p.op == "sw":
            out.append(sw(p.a[0], [(l, strcat(x)) for l, x in p.a[1]]))
        else:
            out.append(mk("strcat", p))
    return cat(out)


# ---------------------------------------------------------------- generic traversal
def rebuild(t, f, raw_binder=False):
    op, a = t.op, t.a
    if op in ("sym", "const", "lab", "bvar", "absurd"):
        return t
    if op == "ctor":
        n = tuple(f(x) for x in a[3])
        return t if n == a[3] else ctor(a[0], a[1], a[2], n)
    if op == "tup":
        n = tuple(f(x) for x in a[0])
        return t if n == a[0] else tup(n)
    if op == "proj":
        b = f(a[0])
        return t if b is a[0] else proj(b, a[1], a[2])
    if op == "with":
        b, v = f(a[0]), f(a[2])
        return t if b is a[0] and v is a[2] else with_field(b, a[1][0], a[1][1], v)
    if op == "disc":
        b = f(a[0])
        return t if b is a[0] else disc(b)
    if op == "sw":
        s2 = f(a[0])
        cs = tuple((l, f(x)) for l, x in a[1])
        return t if s2 is a[0] and cs == a[1] else sw(s2, cs)
    if op == "eq":
        x, y = f(a[0]), f(a[1])
        return t if x is a[0] and y is a[1] else eq(x, y)
    if op == "lt":
        x, y = f(a[0]), f(a[1])
        return t if x is a[0] and y is a[1] else lt(x, y)
    if op == "add":
        x, y = f(a[0]), f(a[1])
        return t if x is a[0] and y is a[1] else arith("add", x, y)
    if op == "arith":
        x, y = f(a[1]), f(a[2])
        return t if x is a[1] and y is a[2] else arith(a[0], x, y)
    if op == "seq":
        n = tuple(f(x) for x in a[0])
        return t if n == a[0] else seq(n)
    if op == "one":
        x = f(a[0])
        return t if x is a[0] else one(x)
    if op == "len":
        x = f(a[0])
        return t if x is a[0] else length(x)
    if op == "set":
        x = f(a[0])
        return t if x is a[0] else setof(x)
    if op == "index":
        x, y = f(a[0]), f(a[1])
        return t if x is a[0] and y is a[1] else index(x, y)
    if op == "rev":
        x = f(a[0])
        return t if x is a[0] else rev(x)
    if op == "range":
        x, y = f(a[0]), f(a[1])
        return t if x is a[0] and y is a[1] else rng(x, y)
    if op == "cat":
        n = tuple(f(x) for x in a[0])
        return t if n == a[0] else cat(n)
    if op == "join":
        x, y = f(a[0]), f(a[1])
        return t if x is a[0] and y is a[1] else join(x, y)
    if op == "strcat":
        x = f(a[0])
        return t if x is a[0] else strcat(x)
    if op in BINDERS:
        if raw_binder:
            P = f(a[0])
            b = f(a[2])
            rest = tuple(f(x) if isinstance(x, T) else x for x in a[3:])
            if P is a[0] and b is a[2] and rest == a[3:]:
                return t
            body, e, p = open_b(t) if b is a[2] else open_b(mk(op, a[0], a[1], b, *rest))
            return BUILD[op](P, e, p, body, *rest)
        P = f(a[0])
        body, e, p = open_b(t)
        b2 = f(body)
        rest = tuple(f(x) if isinstance(x, T) else x for x in a[3:])
        if P is a[0] and b2 is body and rest == a[3:]:
            return t
        return BUILD[op](P, e, p, b2, *rest)
    # generic
    def g(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    n = tuple(g(x) for x in a)
    if n == a:
        return t
    h = HOOKS.get(op)
    if h:
        return h(*n)
    return mk(op, *n)


def recall(name, *a):
    if name == "dec" and len(a) == 1 and isinstance(a[0], T) and a[0].op == "const":
        return const(str(a[0].a[1]))
    return mk("call", name, *a)


HOOKS = {"call": recall}


def subst(t, m):
    memo = {}
    keys = list(m)

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            if x.op in ("const", "lab", "sym", "bvar") or not any(occurs(x, k) for k in keys):
                r = x
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- comparison
def top_scrut(t):
    if t.op == "sw":
        return t.a[0]
    return None


def restrict(t, scrut, label):
    """t under the extra knowledge scrut=label"""
    t = assume1(t, scrut, label)
    if scrut.op == "eq" and label is True:
        x, y = scrut.a
        if is_const(y) and not is_const(x):
            if x.op == "len" and cval(y) == 0:
                return subst(t, {x.a[0]: EMPTY})
            return subst(t, {x: y})
        if not is_const(x) and not is_const(y):
            return subst(t, {y: x}) if not occurs(x, y) else t
    if scrut.op == "disc":
        base = scrut.a[0]
        if isinstance(label, str) and (base.op in ("sym", "proj", "bvar", "call", "index")):
            if label in ("None",):
                return subst(t, {base: NONE})
    if scrut.op == "any" and label is False:
        # no element satisfies the condition: inside loops over the same
        # sequence the condition is false for the element at hand
        return under_none(t, scrut)
    return t


def under_none(t, a):
    P = a.a[0]
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op in ("sym", "const", "lab", "bvar"):
            r = x
        elif x.op in BINDERS and x.a[0] is P and x.op in ("fm", "any"):
            body, e, p = open_b(x)
            c = subst_bvar(a.a[2], a.a[1], e, p)
            b2 = falsify(body, c)
            b2 = go(b2)
            r = x if b2 is body else BUILD[x.op](P, e, p, b2, *x.a[3:])
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def falsify(t, c):
    """t given that condition c is false"""
    if c.op == "sw":
        # c false: drop the branches where c is constantly true
        live = [(l, x) for l, x in c.a[1] if x is not TRUE]
        if len(live) == 1:
            l, x = live[0]
            return falsify(restrict(t, c.a[0], l), x)
        if not live:
            return mk("absurd")
        out = []
        dead = [l for l, x in c.a[1] if x is TRUE]
        t = kill(t, c.a[0], set(dead))
        if not occurs(t, c.a[0]) and not mentions(t, c.a[0]):
            return t
        return t
    if c is TRUE:
        return mk("absurd")
    if c is FALSE:
        return t
    return restrict(t, c, False)


def kill(t, scrut, dead):
    """t given that scrut's label is none of `dead`"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op in ("sym", "const", "lab", "bvar") or not occurs(x, scrut):
            r = x
        elif x.op == "sw" and x.a[0] is scrut:
            cs = [(l, go(y)) for l, y in x.a[1] if l not in dead]
            r = sw(scrut, cs) if cs else mk("absurd")
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


class Diff(Exception):
    pass


def equal(a, b, depth=0, trail=()):
    """None if a and b are the same value, else a (kind, trail, a, b) witness.

    kind is 'differs' when both sides are fully interpreted, 'unknown' when
    one of them contains a construct the analysis does not interpret.
    """
    if a is b:
        return None
    if depth > 400:
        return ("unknown", trail, a, b)
    if a.op == "absurd" or b.op == "absurd":
        return None
    for x in (a, b):
        s = top_scrut(x)
        if s is not None:
            labels = [l for l, _ in x.a[1]]
            for l in labels:
                r = equal(restrict(a, s, l), restrict(b, s, l), depth + 1, trail + ((s, l),))
                if r:
                    return r
            return None
    ka, kb = a.op, b.op
    if ka == "ctor" and kb == "ctor":
        if a.a[1] != b.a[1] or a.a[0] != b.a[0] or len(a.a[3]) != len(b.a[3]):
            return ("differs", trail, a, b)
        names = sorted(a.a[2])
        if sorted(b.a[2]) != names:
            return ("differs", trail, a, b)
        for n in names:
            r = equal(a.a[3][a.a[2].index(n)], b.a[3][b.a[2].index(n)], depth + 1, trail + ((n,),))
            if r:
                return r
        return None
    if ka == "tup" and kb == "tup" and len(a.a[0]) == len(b.a[0]):
        for n, (x, y) in enumerate(zip(a.a[0], b.a[0])):
            r = equal(x, y, depth + 1, trail + ((str(n),),))
            if r:
                return r
        return None
    if ka == "one" and kb == "one":
        return equal(a.a[0], b.a[0], depth + 1, trail + (("elem",),))
    if ka == "set" and kb == "set":
        r = equal(a.a[0], b.a[0], depth + 1, trail + (("set",),))
        if r is None:
            return None
        ea, eb = elements(a.a[0]), elements(b.a[0])
        if ea is not None and eb is not None and set(ea) == set(eb):
            return None
        return r
    if ka == "seq" and kb == "seq" and len(a.a[0]) == len(b.a[0]):
        for n, (x, y) in enumerate(zip(a.a[0], b.a[0])):
            r = equal(x, y, depth + 1, trail + ((f"part{n}",),))
            if r:
                break
        else:
            return None
    if ka == "cat" and kb == "cat" and len(a.a[0]) == len(b.a[0]):
        for n, (x, y) in enumerate(zip(a.a[0], b.a[0])):
            r = equal(x, y, depth + 1, trail + ((f"part{n}",),))
            if r:
                break
        else:
            return None
    if ka in BINDERS and kb == ka:
        r = equal(a.a[0], b.a[0], depth + 1, trail + (("over",),))
        if r:
            return r
        e, p = fresh("e"), fresh("p")
        x = subst_bvar(a.a[2], a.a[1], e, p)
        y = subst_bvar(b.a[2], b.a[1], e, p)
        r = equal(x, y, depth + 1, trail + (("each",),))
        if r:
            return r
        for u, v in zip(a.a[3:], b.a[3:]):
            if isinstance(u, T):
                r = equal(u, v, depth + 1, trail + (("init",),))
                if r:
                    return r
        return None
    if ka == kb and ka in ("call", "proj", "index", "len", "join", "strcat", "disc", "eq", "lt", "rev", "with", "arith", "add") and len(a.a) == len(b.a):
        flat_a, flat_b = skeleton(a), skeleton(b)
        if flat_a[0] == flat_b[0] and len(flat_a[1]) == len(flat_b[1]):
            for x, y in zip(flat_a[1], flat_b[1]):
                r = equal(x, y, depth + 1, trail + ((ka,),))
                if r:
                    break
            else:
                return None
    # inner phis: lift one and retry
    s = inner_scrut(a) or inner_scrut(b)
    if s is not None and depth < 60:
        sc, labels = s
        ok_, res = True, None
        for l in labels:
            a2, b2 = restrict(a, sc, l), restrict(b, sc, l)
            if a2 is a and b2 is b:
                ok_ = False
                break
            res = equal(a2, b2, depth + 1, trail + ((sc, l),))
            if res:
                return res
        if ok_:
            return None
    return ("unknown" if (a.unk or b.unk) else "differs", trail, a, b)


def skeleton(t):
    sk, ks = [t.op], []

    def go(x):
        if isinstance(x, T):
            sk.append("_")
            ks.append(x)
        elif isinstance(x, tuple):
            sk.append("(")
            for y in x:
                go(y)
            sk.append(")")
        else:
            sk.append(x)
    for x in t.a:
        go(x)
    return sk, ks


def inner_scrut(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen or t.op in BINDERS:
        if t.op in BINDERS and t not in seen:
            seen.add(t)
            return inner_scrut(t.a[0], seen)
        return None
    seen.add(t)
    if t.op == "sw":
        return t.a[0], [l for l, _ in t.a[1]]
    for x in kids_of(t.a):
        r = inner_scrut(x, seen)
        if r:
            return r
    return None


# ---------------------------------------------------------------- printing
def short(p):
    return p.rsplit("::", 1)[-1] if p else p


def show(t, d=0):
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op == "sym":
        return a[0]
    if op == "const":
        return repr(a[1]) if not isinstance(a[1], bool) else str(a[1]).lower()
    if op == "lab":
        return f"`{a[0]}"
    if op == "ctor":
        inner = ", ".join(f"{n}={s(x)}" if not n.isdigit() else s(x) for n, x in zip(a[2], a[3]))
        nm = short(a[0])
        nm = nm if nm == a[1] else (a[1] if a[0] in ENUMS and a[0].startswith("std::") else f"{nm}.{a[1]}")
        return f"{nm}({inner})" if a[3] else nm
    if op == "tup":
        return "(" + ", ".join(s(x) for x in a[0]) + ")"
    if op == "proj":
        return f"{s(a[0])}.{(a[1] + '.') if a[1] else ''}{a[2]}"
    if op == "with":
        return f"{s(a[0])}{{{a[1][1]}:={s(a[2])}}}"
    if op == "disc":
        return f"variant({s(a[0])})"
    if op == "sw":
        d_ = dict(a[1])
        if set(d_) == {True, False}:
            return f"if({s(a[0])} ? {s(d_[True])} : {s(d_[False])})"
        return f"case {s(a[0])} {{" + "; ".join(f"{l}: {s(x)}" for l, x in a[1]) + "}"
    if op == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if op == "lt":
        return f"({s(a[0])} < {s(a[1])})"
    if op == "add":
        return f"({s(a[0])} + {s(a[1])})"
    if op == "seq":
        return "[" + " ++ ".join(s(x) for x in a[0]) + "]"
    if op == "one":
        return f"[{s(a[0])}]"
    if op == "bvar":
        return f"${a[1]}{a[0]}"
    if op in BINDERS:
        return f"{op}({s(a[0])}, $e{a[1]} -> {s(a[2])}" + "".join("; " + s(x) for x in a[3:] if isinstance(x, T)) + ")"
    if op == "cat":
        return "cat(" + ", ".join(s(x) for x in a[0]) + ")"
    if op == "call":
        return f"{a[0]}(" + ", ".join(s(x) for x in kids_of(a[1:])) + ")"
    out = []
    for x in a:
        if isinstance(x, T):
            out.append(s(x))
        elif isinstance(x, tuple):
            out.append("(" + ", ".join(s(y) if isinstance(y, T) else str(y) for y in x) + ")")
        else:
            out.append(str(x))
    return f"{op}(" + ", ".join(out) + ")"


def size(t):
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        for y in kids_of(x.a):
            go(y)
    go(t)
    return len(seen)

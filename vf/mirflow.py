"""Value-flow analysis of MIR.

Every function is evaluated once over abstract values that are terms (see
terms.py): joins become gated phis, loops become closed forms over the
sequence they run through, calls into the workspace are followed, calls into
std are replaced by their meaning (models.py).  Nothing is run.
"""
import itertools, re
from . import terms as t
from .terms import T, mk, sw, const, num, TRUE, FALSE, UNIT, EMPTY

ABS = mk("absurd")
TRANSPARENT = {"std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit", "std::mem::ManuallyDrop",
               "std::cell::UnsafeCell", "std::rc::Rc", "std::sync::Arc", "std::pin::Pin", "std::mem::maybe_dangling::MaybeDangling",
               "std::mem::MaybeDangling"}
FNCALL = {"std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"}
_norm_cache = {}


def norm(p):
    """std path without the crate it is re-exported from and without generics"""
    r = _norm_cache.get(p)
    if r is not None:
        return r
    x = re.sub(r"\b(core|alloc)::", "std::", p)
    out, d = [], 0
    i = 0
    while i < len(x):
        if x.startswith("::<", i) and not x.startswith("::<impl", i):
            d, i = 1, i + 3
            while d and i < len(x):
                if x[i] == "<":
                    d += 1
                elif x[i] == ">" and x[i - 1] != "-":
                    d -= 1
                i += 1
            continue
        out.append(x[i])
        i += 1
    x = "".join(out)
    x = x.replace("std::slice::<impl [T]>::", "slice::").replace("std::str::<impl str>::", "str::").replace("std::slice::<impl [V]>::", "slice::")
    x = re.sub(r"std::(char|num)::(methods::)?<impl ([a-z0-9]+)>::", r"\3::", x)
    x = re.sub(r"std::str::traits::<impl (\S+) for str>::", r"<str as \1>::", x)
    _norm_cache[p] = x
    return x


class Dead(Exception):
    """the path diverges (panic, exit, unreachable)"""


class St:
    __slots__ = ("c", "f")

    def __init__(self, c, f=()):
        self.c, self.f = c, f

    def copy(self):
        return St(dict(self.c), self.f)

    def assume(self, s, l):
        n = St(dict(self.c), self.f + ((s, l),))
        return n


# decision trees ------------------------------------------------------------
DEAD = ("dead",)


def leaf(target, st):
    return ("leaf", target, st)


def leaves(tr):
    if tr[0] == "leaf":
        yield tr
    elif tr[0] == "node":
        for _, s in tr[2]:
            yield from leaves(s)


def map_leaves(tr, f, memo=None):
    memo = {} if memo is None else memo
    if tr[0] == "dead":
        return tr
    k = id(tr)
    if k in memo:
        return memo[k][1]
    r = f(tr) if tr[0] == "leaf" else ("node", tr[1], [(l, map_leaves(s, f, memo)) for l, s in tr[2]])
    memo[k] = (tr, r)
    return r


def merge(tr, memo=None):
    memo = {} if memo is None else memo
    if tr[0] == "dead":
        return None
    if tr[0] == "leaf":
        return tr[2]
    if id(tr) in memo:
        return memo[id(tr)][1]
    subs = [(l, merge(s, memo)) for l, s in tr[2]]
    live = [(l, s) for l, s in subs if s is not None]
    if not live:
        r = None
    elif len({id(s) for _, s in live}) == 1:
        r = live[0][1]
    else:
        keys = {}
        for _, s in live:
            keys.update(dict.fromkeys(s.c))
        c = {}
        for k in keys:
            vs = [(l, s.c.get(k, ABS)) for l, s in live]
            v0 = vs[0][1]
            c[k] = v0 if all(v is v0 for _, v in vs) else sw(tr[1], vs)
        f = live[0][1].f
        for _, s in live[1:]:
            n = 0
            while n < len(f) and n < len(s.f) and f[n] == s.f[n]:
                n += 1
            f = f[:n]
        r = St(c, f)
    memo[id(tr)] = (tr, r)
    return r


def treeval(tr, f):
    """term deciding the tree with f at its leaves (absurd for the dead)"""
    if tr[0] == "dead":
        return ABS
    if tr[0] == "leaf":
        return f(tr)
    cs = [(l, treeval(s, f)) for l, s in tr[2]]
    cs = [(l, x) for l, x in cs if x.op != "absurd"]
    if not cs:
        return ABS
    if len(cs) == 1 and len(tr[2]) > 1:
        return cs[0][1]
    return sw(tr[1], cs)


# control flow --------------------------------------------------------------
class Cfg:
    def __init__(self, f):
        self.f = f
        B = self.B = f["blocks"]
        self.n = len(B)
        self.succ = [self.succs(i) for i in range(self.n)]
        self.loops = {}
        self.find_loops()
        self.pd = {}

    def succs(self, i):
        b = self.B[i]
        if not b:
            return []
        k = b[1]
        if k[0] == "goto":
            s = [k[1]]
        elif k[0] == "switch":
            s = [x[1] for x in k[2]] + [k[3]]
        elif k[0] == "drop":
            s = [k[2]]
        elif k[0] == "call":
            s = [k[4]]
        elif k[0] == "assert":
            s = [k[3]]
        else:
            s = []
        return [x for x in dict.fromkeys(s) if x is not None and self.B[x]]

    def find_loops(self):
        n = self.n
        # dominators over reachable blocks
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        rpo = order[::-1]
        pred = {u: [] for u in rpo}
        for u in rpo:
            for v in self.succ[u]:
                pred[v].append(u)
        full = (1 << n) - 1
        dom = {u: full for u in rpo}
        dom[0] = 1
        ch = True
        while ch:
            ch = False
            for u in rpo:
                if u == 0:
                    continue
                d = full
                for q in pred[u]:
                    d &= dom[q]
                d |= 1 << u
                if d != dom[u]:
                    dom[u] = d
                    ch = True
        for u in rpo:
            for h in self.succ[u]:
                if dom[u] >> h & 1:
                    body = self.loops.setdefault(h, {h})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        self.reach = set(rpo)

    def ipdom(self, region, u):
        """immediate post-dominator of u within region (None: function,
        header: one iteration of that loop); None if it is the exit"""
        if region not in self.pd:
            self.pd[region] = self._pdoms(region)
        return self.pd[region].get(u)

    def _pdoms(self, region):
        if region is None:
            nodes = set(self.reach)
            exits = {u for u in nodes if self.B[u][1][0] == "return"}
            succ = {u: list(self.succ[u]) for u in nodes}
            for u in exits:
                succ[u] = [-1]
        else:
            nodes = set(self.loops[region])
            succ = {u: [v if v in nodes and v != region else -1 for v in self.succ[u]] for u in nodes}
        # only blocks that can reach the exit count
        can = {-1}
        ch = True
        while ch:
            ch = False
            for u in nodes:
                if u not in can and any(v in can for v in succ[u]):
                    can.add(u)
                    ch = True
        succ = {u: [v for v in succ[u] if v in can] for u in nodes if u in can}
        full = (1 << (self.n + 1)) - 1
        pd = {u: full for u in succ}
        bit = lambda u: 1 << (u + 1)
        pd[-1] = bit(-1)
        ch = True
        while ch:
            ch = False
            for u in sorted(succ, reverse=True):
                d = full
                for v in succ[u]:
                    d &= pd[v]
                d |= bit(u)
                if d != pd[u]:
                    pd[u] = d
                    ch = True
        res = {}
        for u in succ:
            cands = [v for v in succ if v != u and pd[u] & bit(v)]
            # the closest one post-dominates the fewest
            best = None
            for v in cands:
                if best is None or bin(pd[v]).count("1") > bin(pd[best]).count("1"):
                    best = v
            res[u] = best
        return res


class Frame:
    __slots__ = ("id", "f", "cfg", "region")


class Loop:
    def __init__(self, e, p, st0):
        self.e, self.p, self.st0 = e, p, st0
        self.more = t.fresh("more")
        self.driver = None  # (cellpath, base, endvalue, marker)
        self.bad = None
        self.probe = False
        self.ords = {}


class Listed(Exception):
    """the loop goes through a known list"""

    def __init__(self, L):
        self.L = L


CONT = "cont"


ENGINES = None           # where the engines made are noted, if asked for


class Eng:
    MAXDEPTH = 60
    BUDGET = 400000
    UNROLL = 40          # longest explicit list gone through element by element

    def __init__(self, facts):
        self.F = facts
        self.cfgs = {}
        self.fnobj = {}
        self.frames = itertools.count(1)
        self.loops = []
        self.stack = []
        self.textclass = {}   # text symbol -> (least length, ASCII)
        self.panics = []      # (function, line, what, facts, value)
        self.unknown = {}     # uninterpreted callee -> call sites
        self.visited = {}     # key -> count
        self.calls = 0
        self.ords0 = {}
        self.opaque = set()   # paths of functions not to follow
        self.hooks = {}       # path -> model
        self.muted = 0
        self.steps = 0
        for a in facts.adts.values():
            if a["enum"]:
                t.ENUMS.setdefault(norm(a["path"]), tuple(v["name"] for v in a["variants"]))
                t.DISCR.setdefault(norm(a["path"]), {v["discr"]: v["name"] for v in a["variants"]})
        from . import models
        self.models = models.MODELS
        self.M = models
        if ENGINES is not None:
            ENGINES.append(self)

    # ---------------------------------------------------------------- entry
    def fresh_state(self):
        return St({("ev",): EMPTY}, ())

    def eval_fn(self, key, args, st=None):
        st = st or self.fresh_state()
        f = self.F.fns[key]
        v = self.run_fn(st, f, list(args))
        return v, st

    # ---------------------------------------------------------------- cells
    def deref_target(self, st, v):
        return v.op == "mref"

    def read_cell(self, st, cell, path):
        v = st.c.get(cell)
        if v is None:
            return mk("sym", f"undef{cell}")
        return self.walk(st, v, path)

    def step(self, st, v, el):
        if el == "*":
            if v.op == "mref":
                return self.read_cell(st, v.a[0], v.a[1])
            if v.op == "sw" and any(x.op == "mref" for _, x in v.a[1]):
                return sw(v.a[0], [(l, self.step(st, x, el)) for l, x in v.a[1]])
            return v
        if el[0] == "f":
            _, variant, name = el
            if v.op == "mref":  # field of a raw reference value (fat pointer parts)
                return v
            if v.op == "clo":
                i = int(name)
                return v.a[1][i] if i < len(v.a[1]) else mk("sym", "undefcap")
            return t.proj(v, variant, name)
        if el[0] == "i":
            return t.index(v, el[1])
        if el[0] == "sub":
            return subslice(v, el[1], el[2], el[3])
        if el[0] == "m":
            from .models import mapget
            return mapget(v, el[1])[1]
        if el[0] == "id":
            return v
        raise KeyError(el)

    def walk(self, st, v, path):
        for el in path:
            v = self.step(st, v, el)
        return v

    def upd(self, st, v, path, val):
        if not path:
            return val
        el, rest = path[0], path[1:]
        if el == "*" or el[0] == "id":
            if v is not None and v.op == "mref":
                self.write_cell(st, v.a[0], v.a[1] + rest, val)
                return v
            return self.upd(st, v, rest, val)
        if v is None:
            v = mk("sym", "undef")
        if el[0] == "f":
            if v.op == "clo":
                fs = list(v.a[1])
                fs[int(el[2])] = self.upd(st, fs[int(el[2])], rest, val)
                return mk("clo", v.a[0], tuple(fs))
            new = self.upd(st, t.proj(v, el[1], el[2]) if v.op != "sym" or rest else v, rest, val)
            return t.with_field(v, el[1], el[2], new)
        if el[0] == "i":
            return t.update(v, el[1], self.upd(st, t.index(v, el[1]), rest, val))
        if el[0] == "m" and v.op == "map":
            new = self.upd(st, self.step(st, v, el), rest, val)
            return mk("map", t.seq([v.a[0], t.one(t.tup([el[1], new]))]))
        return mk("ext", "write through " + str(el[0]), v, val)

    def write_cell(self, st, cell, path, val):
        st.c[cell] = self.upd(st, st.c.get(cell), tuple(path), val) if path else val

    # places ------------------------------------------------------------
    def elems(self, fr, st, place):
        out = []
        variant = None
        for el in place[1:]:
            if el == "*":
                out.append("*")
                continue
            k = el[0]
            if k == "v":
                variant = el[1]
                continue
            if k == "f":
                if el[3] is not None and norm(el[3]) in TRANSPARENT:
                    out.append(("id", norm(el[3])))
                else:
                    out.append(("f", variant, el[2] if el[2] is not None else str(el[1])))
            elif k == "i":
                out.append(("i", st.c.get((fr.id, el[1]), mk("sym", "undef"))))
            elif k == "ci":
                if el[3]:
                    out.append(("ie", el[1]))
                else:
                    out.append(("i", num(el[1])))
            elif k == "ss":
                out.append(("sub", el[1], el[2], el[3]))
            else:
                out.append(("id", k))
            variant = None
        return out

    def read(self, fr, st, place):
        v = st.c.get((fr.id, place[0]))
        if v is None:
            v = mk("sym", f"undef:{place[0]}")
        for el in self.elems(fr, st, place):
            if el != "*" and el[0] == "ie":
                v = t.index(v, t.arith("sub", t.length(v), num(el[1])))
            else:
                v = self.step(st, v, el)
        return v

    def addr(self, fr, st, place):
        """location a place denotes: (cell, path)"""
        cell, path = (fr.id, place[0]), []
        els = self.elems(fr, st, place)
        for el in els:
            if el == "*":
                v = self.read_cell(st, cell, path)
                if v.op == "mref":
                    cell, path = v.a[0], list(v.a[1])
                    continue
                if v.op == "sw" and any(x.op == "mref" for _, x in v.a[1]):
                    return None, v
                continue
            if el[0] == "id":
                continue
            if el[0] == "ie":
                v = self.read_cell(st, cell, path)
                el = ("i", t.arith("sub", t.length(v), num(el[1])))
            path.append(el)
        return cell, tuple(path)

    def write(self, fr, st, place, val):
        if len(place) == 1:
            st.c[(fr.id, place[0])] = val
            return
        cell, path = self.addr(fr, st, place)
        if cell is None:  # through a gated reference
            v = path
            i = place.index("*")
            for l, r in v.a[1]:
                if r.op == "mref":
                    rest = tuple(x for x in self.elems(fr, st, [place[0]] + place[i + 1:]) if x != "*" and x[0] != "id")
                    old = self.read_cell(st, r.a[0], r.a[1] + rest)
                    self.write_cell(st, r.a[0], r.a[1] + rest, sw(v.a[0], [(l2, val if l2 == l else old) for l2, _ in v.a[1]]))
            return
        self.write_cell(st, cell, path, val)

    # operands ----------------------------------------------------------
    def operand(self, fr, st, o):
        if o[0] == "k":
            return self.constant(o[1])
        return self.read(fr, st, o[1])

    def constant(self, c):
        if "int" in c:
            ty = c.get("ty")
            if ty == "bool":
                return TRUE if c["int"] else FALSE
            if ty == "char":
                return const(chr(c["int"]))
            if ty in ("f32", "f64"):
                return mk("ext", "float", const(c["int"]))
            return num(c["int"])
        if "str" in c:
            return const(c["str"])
        if "ref" in c:
            return self.constant(c["ref"])
        if "seq" in c:
            return t.lst([self.constant(x) for x in c["seq"]])
        if "adt" in c:
            return t.ctor(norm(c["adt"]), c["variant"], c["names"], [self.constant(x) for x in c["fields"]])
        if "tuple" in c:
            return t.tup([self.constant(x) for x in c["tuple"]])
        if "fn" in c:
            return self.fnval(c["fn"])
        if "closure" in c:
            return mk("clo", c["closure"]["key"], ())
        if "static" in c:
            return mk("call", "static:" + c["static"])
        return mk("ext", "const", const(str(c.get("unk"))))

    def fnval(self, d):
        import json
        k = json.dumps(d, sort_keys=True)
        self.fnobj[k] = d
        return mk("fn", k)

    # facts -------------------------------------------------------------
    def under(self, st, s):
        for sc, l in st.f:
            if s.op in ("const", "lab", "sym"):
                return s
            if t.mentions(s, sc) or (sc.op == "disc" and t.occurs(s, sc.a[0])) or (sc.op == "eq" and l is True and (t.occurs(s, sc.a[0]) or t.occurs(s, sc.a[1]))):
                s = t.restrict(s, sc, l)
        return s

    # ---------------------------------------------------------------- run
    def cfg(self, f):
        c = self.cfgs.get(f["key"])
        if c is None:
            c = self.cfgs[f["key"]] = Cfg(f)
        return c

    def run_fn(self, st, f, args):
        if len(self.stack) > self.MAXDEPTH or sum(1 for k in self.stack if k == f["key"]) >= self.RECUR:
            return self.recursive(st, f, args)
        self.visited[f["key"]] = self.visited.get(f["key"], 0) + 1
        fr = Frame()
        fr.id, fr.f, fr.cfg, fr.region = next(self.frames), f, self.cfg(f), None
        if f.get("spread"):
            sp = f["spread"] - 1
            if sp < len(args):
                tail = args[sp:]
                args = args[:sp] + [tail[0] if len(tail) == 1 else t.tup(tail)]
        n = f["args"]
        for i in range(n):
            st.c[(fr.id, i + 1)] = args[i] if i < len(args) else mk("sym", "undefarg")
        self.stack.append(f["key"])
        try:
            tr = self.run(fr, 0, st, frozenset())
        finally:
            self.stack.pop()
        m = merge(tr)
        if m is None:
            raise Dead()
        v = m.c.get((fr.id, 0), UNIT)
        facts = st.f
        st.c = {k: x for k, x in m.c.items() if k[0] != fr.id}
        st.f = facts
        # references to the callee's own cells cannot outlive it
        if v.op == "mref" and v.a[0][0] == fr.id:
            v = self.walk(St(m.c, ()), m.c.get(v.a[0], UNIT), v.a[1])
        return v

    def unordered(self, v):
        """the elements of a set or map, in the order it yields them"""
        return mk("unordered", v)

    RECUR = 1        # activations of one function at a time

    def recursive(self, st, f, args):
        args = [self.snapshot(st, a) for a in args]
        return mk("call", "rec:" + f["path"], *args)

    def snapshot(self, st, v):
        if v.op == "mref":
            return self.read_cell(st, v.a[0], v.a[1])
        return v

    def run(self, fr, bb, st, stops, first=False):
        while True:
            if bb in stops and not first:
                return leaf(bb, st)
            self.steps += 1
            if self.steps > self.BUDGET:
                raise RuntimeError("step budget")
            if bb in fr.cfg.loops and not first:
                tr = self.run_loop(fr, bb, st)
                r = self.finish(fr, tr, fr.cfg.ipdom(fr.region, bb), stops)
                if r[0] == "go":
                    bb, st = r[1], r[2]
                    continue
                return r[1]
            first = False
            b = fr.cfg.B[bb]
            try:
                for s in b[0]:
                    self.stmt(fr, st, s)
                k = b[1]
                if k[0] == "goto":
                    bb = k[1]
                    continue
                if k[0] == "return":
                    return leaf("ret", st)
                if k[0] in ("unreachable", "unwind"):
                    return DEAD
                if k[0] == "drop":
                    self.drop(fr, st, k[1], k[3])
                    bb = k[2]
                    continue
                if k[0] == "assert":
                    c = self.under(st, self.operand(fr, st, k[1]))
                    want = bool(k[2])
                    if not (c.op == "const" and bool(t.cval(c)) == want):
                        self.panic(fr, k[5] if len(k) > 5 else 0, "assert " + str(k[4]).split("{")[0].strip(), st, c)
                    bb = k[3]
                    continue
                if k[0] == "switch":
                    tr = self.switch(fr, st, self.operand(fr, st, k[1]), k[2], k[3], k[4])
                elif k[0] == "call":
                    fop = k[1]
                    args = [self.operand(fr, st, a) for a in k[2]]
                    self.line = k[5]
                    self.cur = fr
                    v = self.call_op(fr, st, fop, args, k[5])
                    if isinstance(v, tuple):  # decision tree with values
                        def fix(lf):
                            if lf[1] == "skip":
                                return leaf(lf[3], lf[2])
                            s2 = lf[2]
                            self.write(fr, s2, k[3], lf[3])
                            return leaf(k[4], s2)
                        tr = map_leaves(v, fix)
                    else:
                        if k[4] is None:
                            self.panic(fr, k[5], "call " + str(fop)[:80], st, v)
                            return DEAD
                        self.write(fr, st, k[3], v)
                        bb = k[4]
                        continue
                else:
                    raise RuntimeError("terminator " + k[0])
            except Dead:
                return DEAD
            r = self.finish(fr, tr, fr.cfg.ipdom(fr.region, bb), stops)
            if r[0] == "go":
                bb, st = r[1], r[2]
                continue
            return r[1]

    def finish(self, fr, tr, m, stops):
        """run every pending leaf up to m and join there"""
        st2 = stops | {m} if m is not None else stops
        memo = {}

        def go(lf):
            k = (id(lf[2]), lf[1])
            if k not in memo:
                if lf[1] == "ret" or lf[1] in st2:
                    memo[k] = lf
                else:
                    memo[k] = self.run(fr, lf[1], lf[2], st2)
            return memo[k]
        out = map_leaves(tr, go)
        ls = list(leaves(out))
        if not ls:
            return ("tree", DEAD)
        tg = {l[1] for l in ls}
        if len(tg) == 1:
            tgt = next(iter(tg))
            s = merge(out)
            if tgt == "ret" or tgt in stops:
                return ("tree", leaf(tgt, s))
            return ("go", tgt, s)
        if m is not None and m in tg and m not in stops:
            memo2 = {}

            def go2(lf):
                if lf[1] != m:
                    return lf
                if id(lf[2]) not in memo2:
                    memo2[id(lf[2])] = self.run(fr, m, lf[2], stops)
                return memo2[id(lf[2])]
            out = map_leaves(out, go2)
        return ("tree", out)

    def panic(self, fr, line, what, st, v=None):
        if self.muted:
            return
        self.panics.append((fr.f["path"] if fr else "?", line, what, st.f, v))

    # switch ------------------------------------------------------------
    def switch(self, fr, st, s, vals, other, ty):
        B = fr.cfg.B
        ok_other = other is not None and B[other] and not (B[other][1][0] == "unreachable" and not B[other][0])
        return self.decide(st, self.under(st, s), vals, other if ok_other else None, {}, ty)

    def decide(self, st, s, vals, other, shared, ty="bool"):
        def lf(bb, st_=None):
            if bb is None:
                return DEAD
            if st_ is not None:
                return leaf(bb, st_)
            if bb not in shared:
                shared[bb] = leaf(bb, st.copy())
            return shared[bb]
        if s.op == "absurd":
            return DEAD
        if s.op == "dval":
            names = t.DISCR.get(s.a[1], {})
            tg = {names.get(v, v): bb for v, bb in vals}
            return self.lab_tree(st, s.a[0], {l: tg.get(l, other) for l in names.values()}, shared)
        if s.op == "const":
            v = t.cval(s)
            v = int(v) if isinstance(v, bool) else ord(v) if isinstance(v, str) and len(v) == 1 else v
            for x, bb in vals:
                if x == v:
                    return lf(bb)
            return lf(other)
        if ty == "bool":
            tg = {bool(v): bb for v, bb in vals}
            return ("node", s, [(l, lf(tg.get(l, other), assume_bool(st, s, l)) if tg.get(l, other) is not None else DEAD) for l in (False, True)])
        if s.op == "sw":
            subs = [self.decide(st, x, vals, other, shared, ty) for _, x in s.a[1]]
            cnt = {}
            for tr in subs:
                cnt[id(tr)] = cnt.get(id(tr), 0) + 1
            res = []
            for (l, x), tr in zip(s.a[1], subs):
                if tr[0] == "leaf" and cnt[id(tr)] == 1:
                    tr = leaf(tr[1], st.assume(s.a[0], l))
                elif tr[0] == "node":
                    st2 = st.assume(s.a[0], l)
                    tr = self.decide(st2, self.under(st2, x), vals, other, {}, ty)
                res.append((l, tr))
            return ("node", s.a[0], res)
        # integers: a chain of comparisons
        if not vals:
            return lf(other)
        (v, bb), rest = vals[0], vals[1:]
        c = self.under(st, t.eq(s, const(chr(v)) if ty == "char" else num(v)))
        if c is TRUE:
            return lf(bb)
        if c is FALSE:
            return self.decide(st, s, rest, other, shared, ty)
        sf = st.assume(c, False)
        return ("node", c, [(True, lf(bb, st.assume(c, True))), (False, self.decide(sf, s, rest, other, {}, ty))])

    def lab_tree(self, st, d, tg, shared):
        d = self.under(st, d)
        l = t.lab_of(d)

        def lf(bb):
            if bb is None:
                return DEAD
            if bb not in shared:
                shared[bb] = leaf(bb, st.copy())
            return shared[bb]
        if d.op == "absurd":
            return DEAD
        if l is not None:
            return lf(tg.get(l))
        if d.op == "sw":
            res = []
            subs = [self.lab_tree(st, x, tg, shared) for _, x in d.a[1]]
            cnt = {}
            for s in subs:
                cnt[id(s)] = cnt.get(id(s), 0) + 1
            for (l, x), s in zip(d.a[1], subs):
                if s[0] == "leaf" and cnt[id(s)] == 1:
                    s = leaf(s[1], st.assume(d.a[0], l))
                elif s[0] == "node":
                    st2 = st.assume(d.a[0], l)
                    s = self.lab_tree(st2, x, tg, {})
                res.append((l, s))
            return ("node", d.a[0], res)
        cnt = {}
        for l, bb in tg.items():
            cnt[bb] = cnt.get(bb, 0) + 1
        return ("node", d, [(l, DEAD if bb is None else leaf(bb, st.assume(d, l)) if cnt[bb] == 1 else lf(bb)) for l, bb in tg.items()])

    # statements ----------------------------------------------------------
    def stmt(self, fr, st, s):
        place, rv = s
        k = rv[0]
        if k == "setdiscr":
            return
        if k == "use":
            v = self.operand(fr, st, rv[1])
        elif k == "ref":
            v = self.ref(fr, st, rv[1], rv[2])
        elif k == "cast":
            if "BoxDeref" in rv[1] and rv[2][0] != "k":
                c, pth = self.addr(fr, st, rv[2][1])
                v = mk("mref", c, tuple(pth)) if c is not None else self.operand(fr, st, rv[2])
            else:
                v = self.cast(st, rv[1], self.operand(fr, st, rv[2]), rv[3])
        elif k == "bin":
            v = self.binop(rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]))
        elif k == "un":
            v = self.unop(rv[1], self.operand(fr, st, rv[2]), st)
        elif k == "discr":
            b = self.read(fr, st, rv[1])
            if b.op == "mref":
                b = self.snapshot(st, b)
            path = norm(rv[3]) if rv[3] else "?"
            if rv[2] and path not in t.DISCR:
                t.DISCR[path] = {v: n for v, n in rv[2]}
            if rv[2] and path not in t.ENUMS:
                t.ENUMS[path] = tuple(n for _, n in rv[2])
            v = mk("dval", t.disc(b), path)
        elif k == "array":
            v = t.lst([self.operand(fr, st, o) for o in rv[1]])
        elif k == "tuple":
            v = t.tup([self.operand(fr, st, o) for o in rv[1]])
        elif k == "adt":
            p = norm(rv[1])
            ops = [self.operand(fr, st, o) for o in rv[4]]
            if p in TRANSPARENT and len(ops) >= 1:
                v = ops[0]
            else:
                v = t.ctor(p, rv[2], rv[3], ops)
        elif k == "closure":
            v = mk("clo", rv[1]["key"], tuple(self.operand(fr, st, o) for o in rv[2]))
        elif k == "repeat":
            v = self.operand(fr, st, rv[1])
            n = rv[2] if len(rv) > 2 else None
            v = t.lst([v] * n) if isinstance(n, int) and n <= 64 else mk("ext", "repeat", v)
        else:
            v = mk("ext", k)
        self.write(fr, st, place, v)

    def ref(self, fr, st, mut, place):
        if not mut:
            v = self.read(fr, st, place)
            return v
        # a mutable reborrow through a non-reference (Box contents and the like)
        cell, path = self.addr(fr, st, place)
        if cell is None:
            v = path
            i = place.index("*")
            rest = tuple(x for x in self.elems(fr, st, [place[0]] + place[i + 1:]) if x != "*" and x[0] != "id")
            return sw(v.a[0], [(l, mk("mref", r.a[0], r.a[1] + rest) if r.op == "mref" else r) for l, r in v.a[1]])
        return mk("mref", cell, tuple(path))

    def cast(self, st, kind, v, ty):
        if kind == "IntToInt":
            return self.intcast(v, ty)
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            return mk("call", "as " + ty, v)
        return v

    def intcast(self, v, ty):
        if v.op == "const":
            x = t.cval(v)
            x = int(x) if isinstance(x, bool) else ord(x) if isinstance(x, str) else x
            m = re.match(r"([iu])(8|16|32|64|128|size)$", ty)
            if m:
                w = 64 if m.group(2) == "size" else int(m.group(2))
                x &= (1 << w) - 1
                if m.group(1) == "i" and x >> (w - 1):
                    x -= 1 << w
            if ty == "char":
                return const(chr(x))
            return num(x)
        if v.op == "sw":
            return sw(v.a[0], [(l, self.intcast(x, ty)) for l, x in v.a[1]])
        if v.op == "dval":
            inv = {n: d for d, n in t.DISCR.get(v.a[1], {}).items()}
            if v.a[0].op == "lab":
                return num(inv.get(v.a[0].a[0], -1))
            return sw(v.a[0], [(n, num(d)) for n, d in inv.items()])
        if t.bool_like(v):
            return t.ite(v, num(1), num(0))
        return mk("call", "as " + ty, v)

    def binop(self, op, a, b):
        if op.endswith("WithOverflow"):
            r = self.binop(op[:-12], a, b)
            sure = op == "SubWithOverflow" and t.is_const(b) and isinstance(t.cval(b), int) and t.least(a) is not None and t.least(a) >= t.cval(b)
            return t.tup([r, FALSE if r.op == "const" or sure else mk("ovf", op, a, b)])
        if op.endswith("Unchecked"):
            op = op[:-9]
        for i, x in enumerate((a, b)):
            if x.op == "dval":
                y = self.intcast(x, "i128")
                # comparison of two enum discriminants
                o = b if i == 0 else a
                if o.op == "dval" and op in ("Eq", "Ne"):
                    r = self.lab_eq(a.a[0], b.a[0], a.a[1])
                    return r if op == "Eq" else t.not_(r)
                if i == 0:
                    a = y
                else:
                    b = y
        if op == "Eq":
            return t.eq(a, b)
        if op == "Ne":
            return t.not_(t.eq(a, b))
        if op == "Lt":
            return t.lt(a, b)
        if op == "Gt":
            return t.lt(b, a)
        if op == "Le":
            return t.not_(t.lt(b, a))
        if op == "Ge":
            return t.not_(t.lt(a, b))
        m = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "Shl": "shl", "Shr": "shr"}.get(op)
        if m:
            return t.arith(m, a, b)
        return mk("ext", op, a, b)

    def lab_eq(self, a, b, path):
        if a is b:
            return TRUE
        la, lb = t.lab_of(a), t.lab_of(b)
        if la is not None and lb is not None:
            return const(la == lb)
        if a.op == "sw":
            return sw(a.a[0], [(l, self.lab_eq(x, b, path)) for l, x in a.a[1]])
        if b.op == "sw":
            return sw(b.a[0], [(l, self.lab_eq(a, x, path)) for l, x in b.a[1]])
        if lb is not None:
            a, b, la, lb = b, a, lb, la
        names = t.ENUMS.get(path, ())
        if la is not None:
            return sw(b, [(n, const(n == la)) for n in names])
        if names and len(names) <= 40:
            return sw(a, [(n, sw(b, [(n2, const(n2 == n)) for n2 in names])) for n in names])
        return mk("eq", a, b)

    def unop(self, op, a, st):
        if op == "Not":
            if t.bool_like(a) or a in (TRUE, FALSE) or a.op in ("call", "sym", "proj", "bvar", "io", "sw"):
                return t.not_(a)
            return mk("ext", "Not", a)
        if op == "Neg":
            if a.op == "const":
                return num(-t.cval(a))
            return t.arith("sub", num(0), a)
        if op == "PtrMetadata":
            return t.length(self.snapshot(st, a))
        return mk("ext", op, a)

    def drop(self, fr, st, place, ty):
        if ty.startswith("std::io::BufWriter<"):
            v = self.read(fr, st, place)
            if v.op == "ctor" and v.a[0] == "std::io::BufWriter":
                buf, inner = t.proj(v, None, "buf"), t.proj(v, None, "inner")
                if buf is not t.EMPTY:
                    self.io(st, "write_all", self.snapshot(st, inner), buf)
        if "NamedTempFile" in ty or "TempPath" in ty or "TempDir" in ty:
            v = self.read(fr, st, place)
            if not (v.op == "sym" and v.a[0].startswith("undef")):
                self.event(st, "drop", v)

    def event(self, st, name, *args):
        args = [self.snapshot(st, a) for a in args]
        st.c[("ev",)] = t.seq([st.c.get(("ev",), EMPTY), t.one(mk("evt", name, *args))])

    def io(self, st, name, *args):
        """result of an effect: opaque, one per site in iteration"""
        lv = self.loops[-1] if self.loops else None
        ords = lv.ords if lv else self.ords0
        n = ords[name] = ords.get(name, 0) + 1
        ctx = tuple(x for L in self.loops for x in (L.e, L.p))
        args = [self.snapshot(st, a) for a in args]
        self.event(st, name, *args)
        return mk("io", name, n, ctx, *args)

    # ---------------------------------------------------------------- loops
    def run_loop(self, fr, h, st):
        body = fr.cfg.loops[h]
        exits = {v for u in body for v in fr.cfg.succ[u] if v not in body}
        stops = frozenset(exits | {h})

        def iterate(s, L):
            L.header = h
            old = fr.region
            fr.region = h
            try:
                tr = self.run(fr, h, s, stops, first=True)
            finally:
                fr.region = old
            return map_leaves(tr, lambda lf: leaf(CONT, lf[2]) if lf[1] == h else lf)
        if self.STEP:
            tr = self.steps_of(st, iterate)
            if tr is not None:
                return tr
        return self.solve(st, iterate, None)

    STEP = 0        # passes through a loop whose every test is decided, before it is summarised

    def steps_of(self, st, iterate):
        s = st.copy()
        np = len(self.panics)
        for n in range(self.STEP):
            L = Loop(t.fresh("e"), t.fresh("p"), s)
            L.start = dict(s.c)
            L.probe = True
            self.loops.append(L)
            try:
                tr = iterate(s.copy(), L)
            except Listed as x:
                if x.L is not L:
                    raise
                if n:
                    break
                del self.panics[np:]
                return self.unroll_mir(st, iterate, L)
            finally:
                self.loops.pop()
            ls = list(leaves(tr))
            if L.driver or len(ls) != 1:
                break
            if ls[0][1] != CONT:
                return tr
            s = ls[0][2]
        del self.panics[np:]
        return None

    def foreach(self, st, it, body, unwrap=None):
        """body(st, elem, L) -> tree (leaves CONT or exits) for the elements of
        the iterator value `it`; result tree has a "done" leaf"""
        base, stages = it.a[0], it.a[1]

        def iterate(s, L):
            return self.stages(s, L, L.e, stages, 0, True, body, base)
        return self.solve(st, iterate, base, inline=lambda s, e, p: self.one_pass(s, e, p, stages, body, base))

    def one_pass(self, s, e, p, stages, body, base):
        L = Loop(e, p, s)
        return self.stages(s, L, e, stages, 0, True, body, base)

    def stages(self, st, L, v, stages, k, aligned, body, base):
        """push one element through the adaptor stages, then the body"""
        while k < len(stages):
            sg = stages[k]
            kind = sg.a[0]
            k += 1
            if kind == "map":
                try:
                    v = self.apply(st, sg.a[1], [v])
                except Dead:
                    return DEAD
            elif kind == "inspect":
                try:
                    self.apply(st, sg.a[1], [v])
                except Dead:
                    return DEAD
            elif kind == "enumerate":
                v = t.tup([t.length(L.p), v])
            elif kind == "mut":
                v = mk("mref", sg.a[1].a[0], sg.a[1].a[1] + (("i", t.length(L.p)),))
            elif kind in ("filter", "take_while", "filter_map", "map_while"):
                try:
                    c = self.apply(st, sg.a[1], [v])
                except Dead:
                    return DEAD
                if kind.endswith("map") or kind == "map_while":
                    d = self.under(st, t.disc(c))
                    res = []
                    tr = self.lab_tree(st, d, {"Some": "Some", "None": "None"}, {})
                    cv = c

                    def f(lf, k=k, cv=cv):
                        if lf[1] == "None":
                            return leaf(CONT if kind == "filter_map" else "stop", lf[2])
                        return self.stages(lf[2], L, t.proj(self.under(lf[2], cv), "Some", "0"), stages, k, aligned, body, base)
                    return map_leaves(tr, f)
                tr = self.decide(st, self.under(st, c), [(0, "no")], "yes", {})

                def f(lf, k=k, v=v):
                    if lf[1] == "no":
                        return leaf(CONT if kind == "filter" else "stop", lf[2])
                    return self.stages(lf[2], L, v, stages, k, aligned, body, base)
                return map_leaves(tr, f)
            else:
                v = mk("ext", "stage " + kind, v)
        return body(st, v, L)

    def solve(self, st0, iterate, P, inline=None):
        """closed form of a loop; leaves "done" (P given) or the exits"""
        if P is not None and inline is not None:
            els = t.parts_of(P)
            if P.op != "sw" and all(x.op == "one" for x in els) and len(els) <= self.UNROLL:
                return self.unroll(st0, [x.a[0] for x in els], inline)
            if P.op == "sw" and all(t.elements(x) is not None for _, x in P.a[1]):
                subs = []
                for l, x in P.a[1]:
                    subs.append((l, self.solve(st0.assume(P.a[0], l), iterate, x, inline)))
                return ("node", P.a[0], subs)
        M, frozen, opaque = {}, set(), set()
        for attempt in range(14):
            st = st0.copy()
            curs = {}  # sym -> (cell, init)
            for cell in M:
                st.c[cell] = self.shape(st0.c[cell], cell, (), curs, frozen, opaque)
            e, p = t.fresh("e"), t.fresh("p")
            L = Loop(e, p, st0)
            L.start = dict(st.c)
            self.loops.append(L)
            np, nu = len(self.panics), len(self.panics)
            try:
                tr = iterate(st, L)
            finally:
                self.loops.pop()
            if attempt == 0 and P is None and L.driver and not L.bad:
                els = t.elements(L.driver[1])
                if els is not None and len(els) <= self.UNROLL:
                    del self.panics[np:]
                    return self.unroll_mir(st0, iterate, L)
            changed = False
            dcell = L.driver[0][0] if L.driver else None
            for lf in leaves(tr):
                if lf[1] != CONT:
                    continue
                for cell, v in lf[2].c.items():
                    if cell in st0.c and cell != dcell and cell not in M and v is not L.start[cell]:
                        M[cell] = True
                        changed = True
            if not changed:
                # shapes must agree
                for s, (cell, path, init) in curs.items():
                    for lf in leaves(tr):
                        if lf[1] == CONT and self.at(lf[2].c.get(cell), L.start[cell], s) is None and (cell, path) not in opaque:
                            opaque.add((cell, path))
                            changed = True
            if not changed and not frozen:
                fz = set()
                for s, (cell, path, init) in curs.items():
                    if all(self.at(lf[2].c.get(cell), L.start[cell], s) is s for lf in leaves(tr) if lf[1] == CONT):
                        fz.add((cell, path))
                if fz:
                    frozen |= fz
                    changed = True
            if not changed:
                break
            del self.panics[np:]
        else:
            L.bad = "no fixpoint of carried cells"
        return self.close(st0, tr, L, M, curs, P)

    def unroll_mir(self, st0, iterate, L):
        """a loop over an explicit list: one pass per element"""
        cell, base = L.driver[0], L.driver[1]
        end = L.driver[2]
        els = t.elements(base)
        pend = leaf(CONT, st0.copy())
        pre = []

        def step(tree, x, pre, last):
            def f(lf):
                if lf[1] != CONT:
                    return lf
                s = lf[2]
                L2 = Loop(x if x is not None else t.fresh("e"), t.lst(pre), st0)
                L2.start = dict(s.c)
                L2.more = t.TRUE if x is not None else t.FALSE
                L2.ords = ords
                self.loops.append(L2)
                try:
                    s.c[cell[0]] = s.c[cell[0]] if cell[1] else L2.start[cell[0]]
                    tr = iterate(s, L2)
                finally:
                    self.loops.pop()
                if x is None:
                    def g(l2):
                        if l2[1] == CONT:
                            return DEAD
                        self.write_cell(l2[2], cell[0], cell[1], end)
                        return l2
                    return map_leaves(tr, g)

                def g(l2):
                    if l2[1] == CONT:
                        self.write_cell(l2[2], cell[0], cell[1], L2.driver[4])
                    return l2
                return map_leaves(tr, g)
            # join what continues before the next element
            return map_leaves(join_cont(tree), f)
        ords = {}
        tree = pend
        for x in els:
            tree = step(tree, x, list(pre), False)
            pre.append(x)
        return step(tree, None, list(pre), True)

    def unroll(self, st0, els, inline):
        tree = leaf(CONT, st0)
        for k, x in enumerate(els):
            tree = join_cont(tree)
            tree = map_leaves(tree, lambda lf, x=x, k=k: inline(lf[2], x, t.lst(els[:k])) if lf[1] == CONT else lf)
        tree = join_cont(tree)
        return map_leaves(tree, lambda lf: leaf("done", lf[2]) if lf[1] == CONT else lf)

    def shape(self, init, cell, path, curs, frozen, opaque):
        if (cell, path) in frozen:
            return init
        if (cell, path) not in opaque:
            if init.op == "ctor" and init.a[0] not in t.ENUMS and init.a[3]:
                return t.ctor(init.a[0], init.a[1], init.a[2], [self.shape(x, cell, path + (n,), curs, frozen, opaque) for n, x in zip(init.a[2], init.a[3])])
            if init.op == "tup" and init.a[0]:
                return t.tup([self.shape(x, cell, path + (str(n),), curs, frozen, opaque) for n, x in enumerate(init.a[0])])
            if init.op == "set":
                s = t.fresh("cur")
                curs[s] = (cell, path, init.a[0])
                return mk("set", s)
            if init.op in ("fn", "mref"):
                return init
        s = t.fresh("cur")
        curs[s] = (cell, path, init)
        return s

    def at(self, new, start, s):
        """the part of `new` where `start` has the symbol s (None: shape differs)"""
        if new is None:
            return None
        if start is s:
            return new
        if start.op == "ctor":
            for n, x in zip(start.a[2], start.a[3]):
                if t.occurs(x, s):
                    return self.at(t.proj(new, None, n), x, s)
        if start.op == "tup":
            for n, x in enumerate(start.a[0]):
                if t.occurs(x, s):
                    return self.at(t.proj(new, None, str(n)), x, s)
        if start.op == "set":
            return unset(new)
        return None

    def close(self, st0, tr, L, M, curs, P):
        e, p, more = L.e, L.p, L.more
        if P is None:
            if L.driver:
                P = L.driver[1]
                T, N = restrict_tree(tr, more, True), restrict_tree(tr, more, False)
                c0 = L.driver[0]
                for lf in leaves(T):
                    if lf[1] == CONT and lf[2].c.get(c0[0]) is not None and self.walk(lf[2], lf[2].c[c0[0]], c0[1]) is not L.driver[3]:
                        L.bad = "iterator changed in the loop"
            else:
                r = self.counter(tr, L, curs)
                if r is None:
                    L.bad = "no bounded driver"
                    P = mk("havoc", next(HAV))
                    T, N = tr, tr
                else:
                    P, T, N, i = r
                    m = {i: e}
                    T = self.subst_tree(T, m)
                    N = N  # at the end the counter has its final value
        else:
            T, N = tr, None
        if L.bad:
            return self.havoc(st0, tr, L, M, curs, P)
        if N is not None and any(lf[1] == CONT for lf in leaves(N)):
            L.bad = "continues after the end"
            return self.havoc(st0, tr, L, M, curs, P)
        # values at the end of one iteration
        news = {}
        for s, (cell, path, init) in curs.items():
            news[s] = treeval(T, lambda lf: self.at(lf[2].c.get(cell), L.start[cell], s) if lf[1] == CONT else ABS)
        closed = {}
        pending = dict(curs)
        prog = True
        while pending and prog:
            prog = False
            for s in list(pending):
                cell, path, init = pending[s]
                n = news[s]
                sol = {q: closed[q](p) for q in closed}
                n = t.subst(n, sol) if sol else n
                others = [q for q in pending if q is not s]
                if any(t.occurs(n, q) for q in others):
                    continue
                b = self.closed_form(n, s, init, e, p)
                if b is not None:
                    closed[s] = b
                    del pending[s]
                    prog = True
        for s, (cell, path, init) in list(pending.items()):
            n = t.subst(news[s], {q: closed[q](p) for q in closed})
            if not any(t.occurs(n, q) for q in pending if q is not s):
                closed[s] = (lambda n, s, init: lambda X: t.fold(X, e, p, n, init, s))(n, s, init)
            else:
                closed[s] = (lambda k: lambda X: mk("havoc", k, X))(next(HAV))
        at_p = {s: closed[s](p) for s in closed}
        at_P = {s: closed[s](P) for s in closed}
        T = self.subst_tree(T, at_p)
        has_exit = any(lf[1] != CONT for lf in leaves(T))

        def normal():
            if N is None:
                s = st0.copy()
                for cell in M:
                    s.c[cell] = t.subst(L.start[cell], at_P)
                return leaf("done", s)
            tr2 = self.subst_tree(N, at_P)

            def fin(lf):
                s = lf[2].copy()
                if L.driver:
                    self.write_cell(s, L.driver[0][0], L.driver[0][1], L.driver[2])
                return leaf(lf[1], s)
            return map_leaves(tr2, fin)
        if not has_exit:
            return normal()
        X = treeval(T, lambda lf: FALSE if lf[1] == CONT else TRUE)
        anyx = t.anyof(P, e, p, X)
        if anyx is FALSE:
            return normal()
        fe, up = t.first(P, e, p, X), t.until(P, e, p, X)
        ex = self.subst_tree(prune(T), {e: fe, p: up})
        if anyx is TRUE:
            return ex
        exf = map_leaves(ex, lambda lf: leaf(lf[1], lf[2].assume(anyx, True)))
        nof = map_leaves(normal(), lambda lf: leaf(lf[1], lf[2].assume(anyx, False)))
        return ("node", anyx, [(True, exf), (False, nof)])

    def counter(self, tr, L, curs):
        """`while i < n` with i stepping by one"""
        if tr[0] != "node" or tr[1].op != "lt":
            return None
        i, n = tr[1].a
        if i not in curs or any(t.occurs(n, q) for q in curs):
            return None
        d = dict(tr[2])
        cell, path, init = curs[i]
        T, N = d.get(True, DEAD), d.get(False, DEAD)
        for lf in leaves(T):
            if lf[1] == CONT:
                v = self.at(lf[2].c.get(cell), L.start[cell], i)
                if v is not t.arith("add", i, num(1)):
                    return None
        return t.rng(init, n), T, N, i

    def havoc(self, st0, tr, L, M, curs, P):
        k = next(HAV)
        self.unknown.setdefault("loop: " + str(L.bad), []).append(self.stack[-1] if self.stack else "?")
        m = {s: mk("havoc", k, const(str(j))) for j, s in enumerate(curs)}
        m[L.e] = mk("havoc", k, const("e"))
        m[L.p] = mk("havoc", k, const("p"))
        m[L.more] = mk("havoc", k, const("more"))
        if not any(lf[1] != CONT for lf in leaves(tr)):
            if P is not None and P.op != "havoc":
                s = st0.copy()
                for cell in M:
                    s.c[cell] = t.subst(L.start[cell], m)
                return leaf("done", s)
            return DEAD
        r = self.subst_tree(prune(tr), m)
        if P is not None and P.op != "havoc" and not L.driver:
            s = st0.copy()
            for cell in M:
                s.c[cell] = t.subst(L.start[cell], m)
            r = ("node", mk("havoc", k, const("exit")), [(True, r), (False, leaf("done", s))])
        return r

    def subst_tree(self, tr, m):
        if not m or tr[0] == "dead":
            return tr
        memo = {}

        def go(x):
            if x[0] == "dead":
                return x
            if id(x) in memo:
                return memo[id(x)][1]
            if x[0] == "leaf":
                r = leaf(x[1], St({k: t.subst(v, m) for k, v in x[2].c.items()}, tuple((t.subst(a, m), l) for a, l in x[2].f)))
            else:
                s = t.subst(x[1], m)
                l0 = t.lab_of(s)
                subs = [(l, go(y)) for l, y in x[2]]
                if l0 is not None:
                    r = dict(subs).get(l0, DEAD)
                elif s.op == "absurd":
                    r = DEAD
                else:
                    r = ("node", s, subs)
            memo[id(x)] = (x, r)
            return r
        return go(tr)

    def closed_form(self, n, s, init, e, p):
        """value after a prefix X of the sequence, as a function of X"""
        if n.op == "absurd":
            return lambda X: init  # never continues
        if n is s:
            return lambda X: init
        if not t.occurs(n, s):
            if n is init:
                return lambda X: init
            # last value wins
            def last(X):
                els = t.elements(X)
                if els is not None:
                    return init if not els else t.subst(n, {e: els[-1], p: t.lst(els[:-1])})
                return t.ite(t.eq(t.length(X), num(0)), init, t.subst(n, {e: mk("last", X), p: mk("butlast", X)}))
            return last
        a = append_form(n, s)
        if a is not None and not t.occurs(a, s):
            return lambda X: t.seq([init, t.fm(X, e, p, a)])
        a = cat_form(n, s)
        if a is not None and not t.occurs(a, s):
            return lambda X: t.cat([init, t.strcat(t.fm(X, e, p, a))])
        a = map_form(n, s, p)
        if a is not None:
            a = t.subst(a, {t.index(s, t.length(p)): e})
            if not t.occurs(a, s):
                return lambda X: t.fm(X, e, p, t.one(a))
        a = count_form(n, s)
        if a is not None and not t.occurs(a, s):
            return lambda X: t.arith("add", init, t.length(t.fm(X, e, p, a)))
        o = or_form(n, s)
        if o is not None and not t.occurs(o, s):
            return lambda X: t.or_(init, t.anyof(X, e, p, o))
        o = and_form(n, s)
        if o is not None and not t.occurs(o, s):
            return lambda X: t.and_(init, t.not_(t.anyof(X, e, p, t.not_(o))))
        return None

    # ---------------------------------------------------------------- calls
    def call_op(self, fr, st, fop, args, line):
        if fop[0] == "k" and "fn" in fop[1]:
            return self.call(st, fop[1]["fn"], args, line)
        f = self.operand(fr, st, fop)
        return self.apply(st, f, args)

    def apply(self, st, f, args):
        f0 = f
        if f.op == "mref":
            f0 = self.read_cell(st, f.a[0], f.a[1])
        if f0.op == "clo":
            fn = self.F.fns.get(f0.a[0])
            if fn is None:
                return self.ext(st, "closure " + f0.a[0], args)
            # a closure that changes its own captured state needs its cell
            return self.run_fn(st, fn, [f if f.op == "mref" else f0] + list(args))
        if f0.op == "fn":
            return self.call(st, self.fnobj[f0.a[0]], args, self.line)
        if f0.op == "sw":
            subs = []
            for l, x in f0.a[1]:
                s2 = st.assume(f0.a[0], l)
                try:
                    v = self.apply(s2, x, args)
                    s2.c[("rv",)] = v
                    subs.append((l, leaf("r", s2)))
                except Dead:
                    subs.append((l, DEAD))
            m = merge(("node", f0.a[0], subs))
            if m is None:
                raise Dead()
            v = m.c.pop(("rv",))
            st.c = m.c
            return v
        return self.ext(st, "indirect", [f0] + list(args))

    line = 0

    def call(self, st, d, args, line):
        """d: resolved callee"""
        self.calls += 1
        if "ctor" in d:
            adt, var = d["ctor"]
            p = norm(adt)
            names = [str(i) for i in range(len(args))]
            a = self.F.adts.get(adt)
            if a:
                for v in a["variants"]:
                    if v["name"] == var:
                        names = [f[0] for f in v["fields"]][:len(args)]
            return t.ctor(p, var, names, args)
        inst = d.get("inst")
        path = norm(d["path"])
        ipath = norm(inst["path"]) if inst else path
        key = inst["key"] if inst else None
        fn = self.F.fns.get(key) if key else None
        for q in (ipath, path):
            if q in self.hooks:
                r = self.hooks[q](self, st, d, args)
                if r is not None:
                    return r
        if path in FNCALL and len(args) == 2:
            r = self.M.m_callfn(self, st, d, args)
            if r is not None:
                return r
        if fn is not None and fn["local"] and not fn["poly"]:
            if fn["path"] in self.opaque:
                return mk("call", fn["path"], *[self.snapshot(st, a) for a in args])
            if inst.get("derived"):
                r = self.M.derived(self, st, path, d, args, fn)
                if r is not None:
                    return r
            return self.run_fn(st, fn, args)
        m = self.models.get(path) or self.models.get(ipath)
        if m is None:
            for pat, g in self.M.PATTERNS:
                if pat.match(ipath) or pat.match(path):
                    m = g
                    break
        if m is not None:
            d["_path"] = ipath
            r = m(self, st, d, args)
            if r is not None:
                return r
        if fn is not None and not fn["poly"]:
            return self.run_fn(st, fn, args)
        if fn is not None and fn["local"]:
            return self.run_fn(st, fn, args)
        return self.ext(st, ipath, args)

    def ext(self, st, path, args):
        self.unknown.setdefault(path, []).append(self.stack[-1] if self.stack else "?")
        snap = [self.snapshot(st, a) for a in args]
        for a in args:  # what it may write through
            if a.op == "mref":
                self.write_cell(st, a.a[0], a.a[1], mk("ext", "after " + path, *snap))
        return mk("ext", path, *snap)


HAV = itertools.count(1)


def can_be(s, l):
    """may boolean term s be l"""
    if s.op == "const":
        return t.cval(s) is l
    if s.op == "sw":
        return any(can_be(x, l) for _, x in s.a[1])
    return s.op != "absurd"


def assume_bool(st, s, l):
    f = list(st.f)

    def go(s, l):
        if s.op == "sw":
            live = [(k, x) for k, x in s.a[1] if can_be(x, l)]
            if len(live) == 1:
                go(s.a[0], live[0][0]) if isinstance(live[0][0], bool) else f.append((s.a[0], live[0][0]))
                if live[0][1].op != "const":
                    go(live[0][1], l)
                return
        f.append((s, l))
    go(s, l)
    return St(dict(st.c), tuple(f))


def restrict_tree(tr, scrut, label):
    if tr[0] == "dead":
        return tr
    if tr[0] == "leaf":
        s = tr[2]
        c = {k: (t.assume1(v, scrut, label) if t.occurs(v, scrut) else v) for k, v in s.c.items()}
        return leaf(tr[1], St(c, tuple(x for x in s.f if x[0] is not scrut)))
    if tr[1] is scrut:
        return restrict_tree(dict(tr[2]).get(label, DEAD), scrut, label)
    s = t.assume1(tr[1], scrut, label)
    l0 = t.lab_of(s)
    if l0 is not None:
        return restrict_tree(dict(tr[2]).get(l0, DEAD), scrut, label)
    return ("node", s, [(l, restrict_tree(x, scrut, label)) for l, x in tr[2]])


def prune(tr):
    """drop what continues"""
    if tr[0] == "dead":
        return tr
    if tr[0] == "leaf":
        return DEAD if tr[1] == CONT else tr
    subs = [(l, prune(s)) for l, s in tr[2]]
    live = [(l, s) for l, s in subs if s[0] != "dead"]
    if not live:
        return DEAD
    if len(live) == 1:
        l, s = live[0]
        return map_leaves(s, lambda lf: leaf(lf[1], lf[2].assume(tr[1], l)))
    return ("node", tr[1], subs)


def join_cont(tr):
    """merge the continuing leaves of a tree where nothing else is left"""
    ls = list(leaves(tr))
    if len(ls) > 1 and all(lf[1] == CONT for lf in ls):
        return leaf(CONT, merge(tr).copy())
    return tr


def unset(v):
    if v.op == "set":
        return v.a[0]
    if v.op == "sw":
        cs = [(l, unset(x)) for l, x in v.a[1]]
        if any(x is None for _, x in cs):
            return None
        return sw(v.a[0], cs)
    return None


def append_form(n, s):
    if n is s:
        return EMPTY
    if n.op == "seq" and n.a[0] and n.a[0][0] is s:
        return t.seq(n.a[0][1:])
    if n.op == "seq" and n.a[0] and n.a[0][0].op == "sw":
        h = append_form(n.a[0][0], s)
        return None if h is None else t.seq([h] + list(n.a[0][1:]))
    if n.op == "sw" and not t.occurs(n.a[0], s):
        cs = []
        for l, x in n.a[1]:
            a = append_form(x, s)
            if a is None:
                return None
            cs.append((l, a))
        return t.swseq(n.a[0], cs)
    return None


def cat_form(n, s):
    """sequence of appended strings"""
    if n is s:
        return EMPTY
    if n.op == "cat" and n.a[0] and n.a[0][0] is s:
        return t.one(t.cat(n.a[0][1:]))
    if n.op == "cat" and n.a[0] and n.a[0][0].op == "sw":
        h = cat_form(n.a[0][0], s)
        if h is None:
            return None
        return t.one(t.cat([t.strcat(h)] + list(n.a[0][1:])))
    if n.op == "sw" and not t.occurs(n.a[0], s):
        cs = []
        for l, x in n.a[1]:
            a = cat_form(x, s)
            if a is None:
                return None
            cs.append((l, a))
        return t.swseq(n.a[0], cs)
    return None


def map_form(n, s, p):
    """in-place update of the element at hand"""
    if n is s:
        return t.index(s, t.length(p))
    if n.op == "upd" and n.a[0] is s and n.a[1] is t.length(p):
        return n.a[2]
    if n.op == "sw":
        cs = []
        for l, x in n.a[1]:
            a = map_form(x, s, p)
            if a is None:
                return None
            cs.append((l, a))
        sc = n.a[0]
        return sw(sc, cs)
    return None


def count_form(n, s):
    """a sequence as long as what is added"""
    if n is s:
        return EMPTY
    if n.op == "add" and n.a[0] is s and t.is_const(n.a[1]) and 0 < t.cval(n.a[1]) < 8:
        return t.lst([UNIT] * t.cval(n.a[1]))
    if n.op == "sw" and not t.occurs(n.a[0], s):
        cs = []
        for l, x in n.a[1]:
            a = count_form(x, s)
            if a is None:
                return None
            cs.append((l, a))
        return t.swseq(n.a[0], cs)
    return None


def or_form(n, s):
    if n is s:
        return FALSE
    if n is TRUE:
        return TRUE
    if n.op == "sw":
        if n.a[0] is s:
            d = dict(n.a[1])
            if d.get(True) is TRUE:
                return d.get(False)
            return None
        if t.occurs(n.a[0], s):
            return None
        cs = []
        for l, x in n.a[1]:
            a = or_form(x, s)
            if a is None:
                return None
            cs.append((l, a))
        return sw(n.a[0], cs)
    return None


def and_form(n, s):
    if n is s:
        return TRUE
    if n is FALSE:
        return FALSE
    if n.op == "sw":
        if n.a[0] is s:
            d = dict(n.a[1])
            if d.get(False) is FALSE:
                return d.get(True)
            return None
        if t.occurs(n.a[0], s):
            return None
        cs = []
        for l, x in n.a[1]:
            a = and_form(x, s)
            if a is None:
                return None
            cs.append((l, a))
        return sw(n.a[0], cs)
    return None


def subslice(v, frm, to, from_end):
    els = t.elements(v)
    if els is not None:
        return t.lst(els[frm:len(els) - to if from_end else to])
    return mk("call", "subslice", v, num(frm), num(to), const(bool(from_end)))

"""The Rust text of a generated stack library: compiled to MIR with the driver,
and its functions followed with symbols (numbers are the linear terms of wat.py)."""
import json, os, re, shutil, subprocess, tempfile, tomllib
from . import facts, wat
from .wat import Bad, const, atom, add, mul, isconst, un
from .spec import Undecided

# the target is wasm32
SIZE = {"i8": 1, "u8": 1, "bool": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "f32": 4, "usize": 4, "isize": 4, "char": 4, "i64": 8, "u64": 8, "f64": 8}
WASM = {"i32": "I32", "u32": "I32", "usize": "I32", "isize": "I32", "i64": "I64", "u64": "I64", "f32": "F32", "f64": "F64"}
PTR = re.compile(r"^\*(mut|const) (.*)$")


def built(text, manifest):
    """the facts of the crate"""
    driver = facts.build_driver()
    m = tomllib.loads(manifest)
    lib = m.get("lib", {}).get("crate-type", [])
    if "cdylib" not in lib:
        raise Bad("its manifest does not ask for a cdylib, but for %s" % lib)
    d = tempfile.mkdtemp(prefix="vf-rlib-")
    try:
        with open(os.path.join(d, "lib.rs"), "w") as f:
            f.write(text)
        e = facts.env()
        e["LD_LIBRARY_PATH"] = facts.sysroot() + "/lib"
        base = [driver, "rustc", "--sysroot", facts.sysroot(), "--crate-type", "lib", "--emit", "metadata", "-A", "warnings", "--out-dir", d]
        deps = []
        for n in m.get("dependencies", {}):
            src = os.path.join(facts.VERIF, "stubs", n, "lib.rs")
            if not os.path.exists(src):
                raise Undecided("no interface for the dependency " + n)
            n = n.replace("-", "_")
            subprocess.run(base + ["--edition", "2021", "--crate-name", n, src], env=e, check=True, capture_output=True)
            deps += ["--extern", "%s=%s/lib%s.rmeta" % (n, d, n)]
        e["VF_OUT"] = d
        r = subprocess.run(base + ["--edition", str(m["package"].get("edition", "2015")), "--crate-name", "generated", "-C", "debug-assertions=off", "-C", "panic=abort"] +
                           deps + [os.path.join(d, "lib.rs")], env=e, capture_output=True, text=True)
        if r.returncode != 0:
            es = re.findall(r"^error.*(?:\n.+){0,4}", r.stderr, flags=re.M)
            raise Bad("it does not compile: " + " ".join((es or [r.stderr[-400:]])[0].split())[:400])
        return json.load(open(os.path.join(d, "generated.json")))
    finally:
        shutil.rmtree(d)


class State:
    counter = None

    def __init__(self):
        self.writes, self.live, self.wrong, self.n = (), {}, None, 0

    def copy(self):
        s = State()
        s.writes, s.live, s.wrong, s.n = self.writes, dict(self.live), self.wrong, self.n
        return s


class Mod:
    def __init__(self, j):
        self.fns = {f["key"]: f for f in j["fns"]}
        self.adts = {a["path"]: a for a in j["adts"]}
        self.consts = {c["path"]: c["value"] for c in j["consts"]}
        self.exports = {f["export"][0]: f for f in j["fns"] if f.get("export") and f["export"][1].strip('"').split("-")[0] in ("C", "system")}

    def size(self, ty):
        if ty in SIZE:
            return SIZE[ty]
        if PTR.match(ty):
            return 4
        a = self.adts.get(ty)
        if a is None or "size" not in a:
            raise Undecided("the size of " + ty)
        return a["size"]

    def discr(self, adt, variant):
        return next(v["discr"] for v in self.adts[adt]["variants"] if v["name"] == variant)

    # ------------------------------------------------------------ values
    def constant(self, k):
        if "int" in k:
            n, ty = k["int"], k.get("ty")
            if isinstance(n, bool):
                n = int(n)
            if not isinstance(n, int):
                raise Undecided("constant %s" % k)
            return const(n)
        if "ref" in k:
            return ("ref", self.constant(k["ref"]))
        if "tuple" in k:
            return ("tuple", [self.constant(x) for x in k["tuple"]])
        if "static" in k:
            return ("ref", ("static", k["static"]))
        if "adt" in k:
            short = k["adt"].split("::")[-1]
            if short == "Layout":
                d = dict(zip(k["names"], k["fields"]))
                return ("layout", self.constant(d["size"]), self.alignment(d["align"]))
            if self.adts.get(k["adt"], {}).get("enum"):
                return ("enum", k["adt"], k["variant"])
            return ("agg", k["adt"], {n: self.constant(x) for n, x in zip(k["names"], k["fields"])})
        if "bool" in k:
            return const(int(k["bool"]))
        raise Undecided("constant %s" % str(k)[:200])

    def alignment(self, k):
        m = re.search(r"_Align1Shl(\d+)", json.dumps(k))
        if not m:
            raise Undecided("alignment %s" % str(k)[:200])
        return const(1 << int(m.group(1)))

    # ------------------------------------------------------------ memory
    def store(self, s, a, ty, v):
        s.writes = s.writes + ((a, self.size(ty), v),)

    def load(self, s, a, ty):
        w = self.size(ty)
        for a2, w2, v in reversed(s.writes):
            d = add(a, a2, -1)
            if not isconst(d):
                if self.block(s, a) is not None and self.block(s, a2) is not None and self.block(s, a) != self.block(s, a2):
                    continue
                raise Undecided("whether %s and %s are the same address" % (wat.show(a), wat.show(a2)))
            if d[0] == 0 and w == w2:
                return self.into(v, ty)
            if -w < d[0] < w2:
                return atom("part of", repr(v), d, w)
        return atom("mem", a, w)

    def block(self, s, a):
        bs = [x for x, k in a[1] if x[0] == "block" and k == 1]
        return bs[0] if len(bs) == 1 and len(a[1]) == 1 else None

    def into(self, v, ty):
        """memory holding v, read as a ty"""
        a = self.adts.get(ty)
        if a is not None and a["enum"]:
            if v[0] == "enum" and v[1] == ty:
                return v
            if isnum(v) and isconst(v):
                for x in a["variants"]:
                    if x["discr"] == v[0]:
                        return ("enum", ty, x["name"])
                raise Bad("%d is no %s" % (v[0], ty))
            return atom("as", ty, repr(v))
        if v[0] == "enum" and isinstance(v[1], str) and ty in SIZE:
            return const(self.discr(v[1], v[2]))
        return v

    # ------------------------------------------------------------ functions
    def call(self, name, args, s):
        f = self.exports.get(name)
        if f is None:
            raise Bad("there is no export " + name)
        s = s.copy()
        v = self.run(f, args, s, 0)
        return [(s, () if f["locals"][0] == "()" else (v,))]

    def run(self, f, args, s, depth):
        if depth > 40:
            raise Undecided("recursion")
        if len(args) != f["args"]:
            raise Undecided("arguments of " + f["path"])
        env = {i + 1: a for i, a in enumerate(args)}
        b, steps = 0, 0
        while True:
            steps += 1
            if steps > 5000:
                raise Undecided("a long loop in " + f["path"])
            sts, term = f["blocks"][b]
            for pl, r in sts:
                self.assign(f, env, s, pl, self.rvalue(f, env, s, r))
            k = term[0]
            if k == "goto":
                b = term[1]
            elif k == "return":
                return env.get(0, ("tuple", []))
            elif k == "drop":
                b = term[2]
            elif k == "switch":
                v = self.operand(f, env, s, term[1])
                if not isnum(v) or not isconst(v):
                    raise Undecided("a branch on %s in %s" % (show(v), f["path"]))
                b = next((t for x, t in term[2] if x == v[0]), term[3])
            elif k == "assert":
                v = self.operand(f, env, s, term[1])
                if not isnum(v) or not isconst(v):
                    raise Undecided("an assertion on %s in %s" % (show(v), f["path"]))
                if bool(v[0]) != term[2]:
                    raise Bad("%s panics" % f["path"])
                b = term[3]
            elif k == "call":
                v = self.callee(f, env, s, term[1], [self.operand(f, env, s, x) for x in term[2]], depth)
                self.assign(f, env, s, term[3], v)
                if term[4] is None:
                    raise Bad("%s does not return" % f["path"])
                b = term[4]
            else:
                raise Undecided("%s in %s" % (k, f["path"]))

    def callee(self, f, env, s, fn, args, depth):
        if fn[0] != "k" or "fn" not in fn[1]:
            raise Undecided("an indirect call in " + f["path"])
        d = fn[1]["fn"]
        inst = (d.get("inst") or {})
        path, key = d["path"], inst.get("key", d["path"])
        g = self.fns.get(key)
        if g is not None and g["local"] and not g["poly"]:
            return self.run(g, args, s, depth + 1)
        inner = self.fns.get((d.get("inner") or {}).get("key"))
        if path.endswith(("Into::into", "From::from")):
            if inner is not None and inner["local"]:
                return self.run(inner, args, s, depth + 1)
            return args[0]
        last = path.split("::")[-1]
        if "ptr::" in path and last in ("add", "wrapping_add", "offset", "sub", "byte_add"):
            w = 1 if last == "byte_add" else self.size(d["args"][0])
            return add(args[0], mul(args[1], const(w)), -1 if last == "sub" else 1)
        if "ptr::" in path and last in ("cast", "cast_mut", "cast_const", "addr", "expose_provenance", "with_exposed_provenance", "with_exposed_provenance_mut"):
            return args[0]
        if "ptr::" in path and last in ("read", "read_unaligned", "read_volatile"):
            return self.load(s, args[0], d["args"][0])
        if "ptr::" in path and last in ("write", "write_unaligned", "write_volatile"):
            self.store(s, args[0], d["args"][0], args[1])
            return ("tuple", [])
        if last == "size_of":
            return const(self.size(d["args"][0]))
        if last == "align_of":
            return const(self.size(d["args"][0]))
        if path.endswith("Layout::align"):
            return args[0][1][2]
        if path.endswith("Layout::size"):
            return args[0][1][1]
        if path.endswith("Layout::from_size_align_unchecked"):
            return ("layout", args[0], args[1])
        if path.endswith("Layout::new"):
            return ("layout", const(self.size(d["args"][0])), const(self.size(d["args"][0])))
        if last in ("alloc", "alloc_zeroed") and "alloc" in path.lower():
            lay = args[-1]
            s.n += 1
            p = atom("block", s.n)
            s.live[p] = (lay[1], lay[2])
            return p
        if last == "dealloc":
            p, lay = args[-2], args[-1]
            if lay[1] == const(0):
                return ("tuple", [])
            if p not in s.live:
                s.wrong = "frees %s, which is not allocated" % wat.show(p)
            else:
                if s.live[p] != (lay[1], lay[2]):
                    s.wrong = "frees %s bytes (alignment %s) of what was allocated as %s bytes (alignment %s)" % tuple(map(wat.show, (lay[1], lay[2]) + s.live[p]))
                del s.live[p]
            return ("tuple", [])
        m = re.search(r"<impl (f32|f64)>::(to|from)_bits$", path)
        if m:
            a, b = m.group(1), "i" + m.group(1)[1:]
            return un("%s.reinterpret_%s" % ((b, a) if m.group(2) == "to" else (a, b)), args[0])
        if path.endswith("mem::transmute"):
            return self.transmute(args[0], d["args"][0], d["args"][1])
        if "panic" in path or "unreachable" in path:
            raise Bad("%s panics" % f["path"])
        raise Undecided("calls without a model: " + path)

    def transmute(self, v, a, b):
        if a == b:
            return v
        if a in SIZE and b in SIZE:
            if self.size(a) != self.size(b):
                raise Bad("transmute from %s to %s" % (a, b))
            if (a[0] == "f") != (b[0] == "f"):
                return un("%s.reinterpret_%s" % tuple("f%d" % (8 * SIZE[x]) if x[0] == "f" else "i%d" % (8 * SIZE[x]) for x in (b, a)), v)
            return v
        return self.into(v, b)

    # ------------------------------------------------------------ places
    def read(self, f, env, s, pl):
        if pl[0] not in env:
            raise Undecided("local %s of %s" % (pl[0], f["path"]))
        v, ty = env[pl[0]], f["locals"][pl[0]]
        return self.walk(f, s, v, ty, pl[1:])

    def walk(self, f, s, v, ty, ps):
        for p in ps:
            if p == "*":
                if v[0] == "ref":
                    v, ty = v[1], re.sub(r"^&(mut )?", "", ty)
                elif isnum(v):
                    m = PTR.match(ty)
                    if not m:
                        raise Undecided("dereference of a " + ty)
                    ty = m.group(2)
                    v = self.load(s, v, ty)
                else:
                    raise Undecided("dereference of %s" % show(v))
            elif p[0] == "f":
                v, ty = self.field(v, p), "?"
            else:
                raise Undecided("projection %s" % p)
        return v

    def field(self, v, p):
        if v[0] == "tuple":
            return v[1][p[1]]
        if v[0] == "agg":
            return v[2][p[2]]
        if v[0] == "union":
            if v[2] == p[2]:
                return v[3]
            return self.view(v, p[2])
        return atom("field", p[2], v) if isnum(v) else atom("field", p[2], repr(v))

    def view(self, v, field):
        """one field of a union, where another was written (little endian)"""
        tys = {n: t for n, t, _ in self.adts[v[1]]["variants"][0]["fields"]} if v[1] in self.adts else {}
        a, b, x = tys.get(v[2], "?"), tys.get(field, "?"), v[3]
        if isnum(x) and a in SIZE and b in SIZE:
            if SIZE[a] == SIZE[b]:
                return self.transmute(x, a, b)
            if SIZE[a] == 8 and SIZE[b] == 4:
                x = un("i32.wrap_i64", self.transmute(x, a, "i64"))
                return self.transmute(x, "i32", b)
        return atom("bits of", v[2], "as", field, repr(x))

    def assign(self, f, env, s, pl, v):
        if len(pl) == 1:
            env[pl[0]] = v
            return
        ps = pl[1:]
        if ps[0] == "*":
            base, ty = env[pl[0]], f["locals"][pl[0]]
            m = PTR.match(ty)
            if not isnum(base) or not m:
                raise Undecided("assignment through %s" % show(base))
            if len(ps) == 2 and ps[1][0] == "f" and ps[1][3] == m.group(2):
                v = ("union", m.group(2), ps[1][2], v)
            elif len(ps) != 1:
                raise Undecided("assignment to a part")
            self.store(s, base, m.group(2), v)
            return
        if len(ps) == 1 and ps[0][0] == "f":
            old = env.get(pl[0])
            if old is None or old[0] == "union":
                env[pl[0]] = ("union", ps[0][3], ps[0][2], v)
                return
            if old[0] == "agg":
                env[pl[0]] = ("agg", old[1], dict(old[2], **{ps[0][2]: v}))
                return
            if old[0] == "tuple":
                env[pl[0]] = ("tuple", old[1][:ps[0][1]] + [v] + old[1][ps[0][1] + 1:])
                return
        raise Undecided("assignment to %s" % pl)

    def operand(self, f, env, s, o):
        if o[0] == "k":
            return self.constant(o[1])
        return self.read(f, env, s, o[1])

    def rvalue(self, f, env, s, r):
        k = r[0]
        op = lambda x: self.operand(f, env, s, x)
        if k == "use":
            return op(r[1])
        if k == "ref":
            pl = r[2]
            if len(pl) > 1 and pl[-1] == "*" and PTR.match(f["locals"][pl[0]]) and len(pl) == 2:
                return env[pl[0]]
            return ("ref", self.read(f, env, s, pl))
        if k == "adt":
            names, vs = r[3], [op(x) for x in r[4]]
            a = self.adts.get(r[1])
            if a is not None and a["enum"]:
                if vs:
                    raise Undecided("a variant with fields")
                return ("enum", r[1], r[2])
            if a is not None and len(a["variants"]) == 1 and len(names) == 1 and len(a["variants"][0]["fields"]) > 1:
                return ("union", r[1], names[0], vs[0])
            return ("agg", r[1], dict(zip(names, vs)))
        if k == "tuple":
            return ("tuple", [op(x) for x in r[1]])
        if k == "discr":
            v = self.read(f, env, s, r[1])
            if v[0] != "enum":
                raise Undecided("the variant of %s" % show(v))
            return const(self.discr(v[1], v[2]))
        if k == "cast":
            return self.cast(r[1], op(r[2]), self.type_of(f, r[2]), r[3])
        if k == "bin":
            return self.bin(r[1], op(r[2]), op(r[3]))
        raise Undecided("%s in %s" % (k, f["path"]))

    def type_of(self, f, o):
        if o[0] == "k":
            return o[1].get("ty", "?")
        return f["locals"][o[1][0]] if len(o[1]) == 1 else "?"

    def cast(self, kind, v, a, b):
        if kind.startswith(("PointerWithExposedProvenance", "PointerExposeProvenance", "PtrToPtr")):
            return v
        if kind.startswith("Transmute"):
            return self.transmute(v, a, b)
        if kind.startswith("IntToInt"):
            if v[0] == "enum":
                v, a = const(self.discr(v[1], v[2])), "i32"
            if a not in SIZE:
                if isconst(v):
                    return v
                raise Undecided("a cast from " + a)
            if SIZE[a] == SIZE[b]:
                return v
            if (SIZE[a], SIZE[b]) == (4, 8):
                return un("i64.extend_i32_" + ("s" if a[0] == "i" else "u"), v)
            if (SIZE[a], SIZE[b]) == (8, 4):
                return un("i32.wrap_i64", v)
        if isnum(v):
            return un("cast %s %s" % (a, b), v)
        raise Undecided("cast %s of %s" % (kind, show(v)))

    def bin(self, o, a, b):
        if not (isnum(a) and isnum(b)):
            raise Undecided("%s of %s and %s" % (o, show(a), show(b)))
        base = re.sub(r"(Unchecked|WithOverflow)$", "", o)
        if base in ("Add", "Sub"):
            v = add(a, b, 1 if base == "Add" else -1)
        elif base == "Mul":
            v = mul(a, b)
        elif base == "Shl" and isconst(b):
            v = mul(a, const(1 << b[0]))
        elif base in ("Div", "Rem") and isconst(a) and isconst(b) and b[0] > 0 and a[0] >= 0:
            v = const(a[0] // b[0] if base == "Div" else a[0] % b[0])
        elif base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and isconst(add(a, b, -1)):
            d = add(a, b, -1)[0]
            if base not in ("Eq", "Ne") and not (isconst(a) and isconst(b)):
                raise Undecided("a comparison of addresses")
            return const(int({"Eq": d == 0, "Ne": d != 0, "Lt": d < 0, "Le": d <= 0, "Gt": d > 0, "Ge": d >= 0}[base]))
        else:
            raise Undecided("%s of %s and %s" % (o, show(a), show(b)))
        return ("tuple", [v, const(0)]) if o.endswith("WithOverflow") else v


def isnum(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], tuple)


def show(v):
    return wat.show(v) if isnum(v) else str(v)[:200]

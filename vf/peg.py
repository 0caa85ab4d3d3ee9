"""The grammar artefact (wasp.pest): parser, canonical form, and a recogniser
over abstract text (literal characters and typed holes)."""
import re

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|("(?:\\.|[^"\\])*")|(\^"(?:\\.|[^"\\])*")|(\'(?:\\.|[^\'])\')|([A-Za-z_]\w*)|(\.\.|\{[\d, ]+\}|[=@$!_{}()~|*+?&^#.,])', re.S)
BUILTIN = {
    "ASCII_ALPHA": lambda c: c.isascii() and c.isalpha(), "ASCII_ALPHA_UPPER": lambda c: c.isascii() and c.isupper(),
    "ASCII_ALPHA_LOWER": lambda c: c.isascii() and c.islower(), "ASCII_DIGIT": lambda c: c.isascii() and c.isdigit(),
    "ASCII_ALPHANUMERIC": lambda c: c.isascii() and c.isalnum(), "ASCII_NONZERO_DIGIT": lambda c: c in "123456789",
    "ASCII_HEX_DIGIT": lambda c: c in "0123456789abcdefABCDEF", "ASCII_BIN_DIGIT": lambda c: c in "01", "ASCII_OCT_DIGIT": lambda c: c in "01234567",
    "ANY": lambda c: True, "ASCII": lambda c: c.isascii(),
}


class GrammarError(Exception):
    pass


class Unsure(Exception):
    """abstract text does not decide a match"""


def unescape(s):
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)", lambda m: {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}.get(m[1]) or chr(int(re.sub(r"[ux{}]", "", m[1]), 16)), s)


def parse(text):
    toks, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise GrammarError("unexpected %r" % text[i:i + 20])
        i = m.end()
        if m.group(0).startswith(("//", "/*")) or m.group(0).isspace():
            continue
        toks.append(m.group(0))
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def take(x=None):
        nonlocal pos
        r = peek()
        if x is not None and r != x:
            raise GrammarError("expected %s got %s" % (x, r))
        pos += 1
        return r

    def choice():
        alts = []
        if peek() == "|":
            take()
        alts.append(seq())
        while peek() == "|":
            take()
            alts.append(seq())
        return alts[0] if len(alts) == 1 else ("alt", tuple(alts))

    def seq():
        xs = [post()]
        while peek() == "~":
            take()
            xs.append(post())
        return xs[0] if len(xs) == 1 else ("seq", tuple(xs))

    def post():
        if peek() in ("!", "&"):
            k = take()
            return ("not" if k == "!" else "and", post())
        x = atom()
        while True:
            k = peek()
            if k in ("*", "+", "?"):
                take()
                x = ({"*": "star", "+": "plus", "?": "opt"}[k], x)
            elif k and re.fullmatch(r"\{[\d, ]+\}", k):
                take()
                x = ("rep", x, k.replace(" ", "")[1:-1])
            else:
                return x

    def atom():
        k = take()
        if k is None:
            raise GrammarError("unexpected end")
        if k == "(":
            x = choice()
            take(")")
            return x
        if k.startswith('"'):
            return ("lit", unescape(k[1:-1]))
        if k.startswith('^"'):
            return ("ilit", unescape(k[2:-1]))
        if k.startswith("'"):
            lo = unescape(k[1:-1])
            take("..")
            hi = unescape(take()[1:-1])
            return ("range", lo, hi)
        if re.match(r"[A-Za-z_]", k):
            return ("ref", k)
        raise GrammarError("unexpected %s" % k)

    rules = {}
    while pos < len(toks):
        name = take()
        take("=")
        mod = ""
        if peek() in ("_", "@", "$", "!"):
            mod = take()
        take("{")
        rules[name] = (mod, choice())
        take("}")
    return rules


class Hole:
    """a stretch of text of which only the class is known"""

    def __init__(self, name, cls):
        self.name, self.cls = name, cls

    def __repr__(self):
        return "<%s>" % self.name


def typename(n):
    """text of a type name: an upper-case letter, then letters or digits"""
    return [Hole(n + "'", "upper"), Hole(n, "alnum")]


def text(*xs):
    """abstract text: a list of characters and holes"""
    out = []
    for x in xs:
        out.extend(x if isinstance(x, (str, list)) else [x])
    return out


class Node:
    __slots__ = ("rule", "text", "kids", "at")

    def __init__(self, rule, text, kids, at):
        self.rule, self.text, self.kids, self.at = rule, text, kids, at

    def tree(self):
        return (self.rule, tuple(k.tree() for k in self.kids)) if self.kids else (self.rule, "".join(map(str, self.text)))


class Peg:
    def __init__(self, rules):
        self.r = rules
        self.used = set()

    def run(self, start, inp):
        """-> Node or None"""
        self.inp, self.memo = inp, {}
        r = self.rule(start, 0, False, False)
        return None if r is None else r[1][0]

    def rule(self, name, i, atomic, quiet):
        if name not in self.r:
            return self.builtin(name, i)
        key = (name, i, atomic, quiet)
        if key in self.memo:
            r = self.memo[key]
            if r == "busy":
                raise GrammarError("left recursion in " + name)
            return r
        self.memo[key] = "busy"
        mod, body = self.r[name]
        a2 = True if mod in "@$" and mod else (False if mod == "!" else atomic)
        q2 = True if mod == "@" else (False if mod in ("$", "!") else quiet)
        r = self.e(body, i, a2, q2)
        if r is not None:
            j, kids = r
            if mod == "_":
                r = (j, kids)
            elif quiet:
                r = (j, [])
            else:
                r = (j, [Node(name, self.inp[i:j], kids, (i, j))])
        self.memo[key] = r
        return r

    def builtin(self, name, i):
        if name == "SOI":
            return (i, []) if i == 0 else None
        if name == "EOI":
            return (i, [Node("EOI", [], [], (i, i))]) if i == len(self.inp) else None
        if name == "NEWLINE":
            for x in ("\n", "\r\n", "\r"):
                r = self.lit(x, i)
                if r:
                    return r
            return None
        if name not in BUILTIN:
            raise GrammarError("unknown rule " + name)
        if i >= len(self.inp):
            return None
        c = self.inp[i]
        if isinstance(c, Hole):
            k = c.cls
            if name == "ANY":
                if k == "guest":
                    return (i + 1, [])
            elif k == "guest":
                raise Unsure("%s against guest text" % name)
            if k == "alpha" or k == "upper" or k == "alnum":
                if name in ("ANY", "ASCII", "ASCII_ALPHANUMERIC") or (name == "ASCII_ALPHA" and k != "alnum") or (name == "ASCII_ALPHA_UPPER" and k == "upper"):
                    return (i + 1, [])
                if k != "alnum" and name == "ASCII_DIGIT" or k == "upper" and name == "ASCII_ALPHA_LOWER":
                    return None
            raise Unsure("%s against %r" % (name, c))
        return (i + 1, []) if BUILTIN[name](c) else None

    def lit(self, s, i, fold=False):
        for k, ch in enumerate(s):
            if i + k >= len(self.inp):
                return None
            c = self.inp[i + k]
            if isinstance(c, Hole):
                if c.cls == "guest":
                    if "<<<GUEST<<<" in s[k:] or "#|" in s[k:]:
                        return None
                    if s[k:].strip() == "" and i + k == i:
                        return None  # leading blanks of guest text belong to the text
                    raise Unsure("literal %r against guest text" % s)
                if not ch.isalnum() or (c.cls == "upper" and not ch.isupper()) or (c.cls == "alpha" and not ch.isalpha()):
                    return None
                raise Unsure("literal %r against %r" % (s, c))
            if c != ch and not (fold and isinstance(c, str) and c.lower() == ch.lower()):
                return None
        return (i + len(s), [])

    def skip(self, i, atomic):
        if atomic:
            return i
        while True:
            for n in ("WHITESPACE", "COMMENT"):
                if n in self.r and i < len(self.inp):
                    r = self.e(self.r[n][1], i, True, True)
                    if r is not None and r[0] > i:
                        i = r[0]
                        break
            else:
                return i

    def e(self, x, i, at, q):
        k = x[0]
        if k == "lit":
            return self.lit(x[1], i)
        if k == "ilit":
            return self.lit(x[1], i, True)
        if k == "range":
            if i >= len(self.inp):
                return None
            c = self.inp[i]
            if isinstance(c, Hole):
                raise Unsure("range")
            return (i + 1, []) if x[1] <= c <= x[2] else None
        if k == "ref":
            return self.rule(x[1], i, at, q)
        if k == "seq":
            kids = []
            for n, y in enumerate(x[1]):
                if n:
                    i = self.skip(i, at)
                r = self.e(y, i, at, q)
                if r is None:
                    return None
                i = r[0]
                kids += r[1]
            return i, kids
        if k == "alt":
            for y in x[1]:
                r = self.e(y, i, at, q)
                if r is not None:
                    self.used.add(id(y))
                    return r
            return None
        if k in ("star", "plus", "opt", "rep"):
            lo, hi = {"star": (0, 1 << 30), "plus": (1, 1 << 30), "opt": (0, 1)}.get(k, (None, None))
            if lo is None:
                a = x[2].split(",")
                lo = int(a[0] or 0)
                hi = lo if len(a) == 1 else int(a[1] or 1 << 30)
            kids, n = [], 0
            while n < hi:
                j = self.skip(i, at) if n else i
                r = self.e(x[1], j, at, q)
                if r is None or (r[0] == i and n):
                    break
                i = r[0]
                kids += r[1]
                n += 1
            return (i, kids) if n >= lo else None
        if k == "not":
            return (i, []) if self.e(x[1], i, at, True) is None else None
        if k == "and":
            return (i, []) if self.e(x[1], i, at, True) is not None else None
        raise GrammarError(k)


# ------------------------------------------------------------ canonical form
def canonical(rules, start):
    """grammar up to: inlined silent and helper-free layout, flattened
    sequences and choices, order of alternatives that start with different
    characters, unreachable rules"""
    out = {}
    names = {}

    def atomicity(name):
        return rules[name][0]

    def inline(name):
        mod, body = rules[name]
        return mod == "_" and name not in ("WHITESPACE", "COMMENT")

    def norm(x, stack):
        k = x[0]
        if k == "ref":
            n = x[1]
            if n in rules and inline(n) and n not in stack:
                return norm(rules[n][1], stack + (n,))
            if n in rules:
                visit(n)
            return x
        if k == "seq":
            xs = []
            for y in x[1]:
                z = norm(y, stack)
                xs += list(z[1]) if z[0] == "seq" else [z]
            return ("seq", tuple(xs))
        if k == "alt":
            xs = []
            for y in x[1]:
                z = norm(y, stack)
                xs += list(z[1]) if z[0] == "alt" else [z]
            if len(set(xs)) == 1:
                return xs[0]
            fs = [first(z, ()) for z in xs]
            if all(f is not None for f in fs) and all(disjoint(a, b) for i, a in enumerate(fs) for b in fs[i + 1:]):
                xs = sorted(xs, key=repr)
            return ("alt", tuple(xs))
        if k == "plus":
            return ("plus", norm(x[1], stack))
        if k in ("star", "opt", "not", "and"):
            return (k, norm(x[1], stack))
        if k == "rep":
            return (k, norm(x[1], stack), x[2])
        return x

    def first(x, seen):
        """set of leading literals, None if unknown"""
        k = x[0]
        if k == "lit":
            return {x[1]} if x[1] else None
        if k == "seq":
            return first(x[1][0], seen)
        if k == "alt":
            r = set()
            for y in x[1]:
                f = first(y, seen)
                if f is None:
                    return None
                r |= f
            return r
        if k == "ref" and x[1] in rules and x[1] not in seen:
            return first(rules[x[1]][1], seen + (x[1],))
        if k == "plus":
            return first(x[1], seen)
        return None

    def disjoint(a, b):
        return not any(x.startswith(y) or y.startswith(x) for x in a for y in b)

    def visit(n):
        if n in out or n not in rules:
            return
        out[n] = None
        out[n] = (rules[n][0], norm(rules[n][1], (n,)))

    visit(start)
    for n in ("WHITESPACE", "COMMENT"):
        visit(n)
    return out

"""W01: the language of aspects."""
import os, random, re
from .. import peg
from ..spec import prop, Undecided, ROOT
from .wasp import Build, sentences, gram, refgram

TOKEN = re.compile(r">>>GUEST>>>.*?<<<GUEST<<<|[()]|\w+", re.S)
WORDS = ["x", "Mut", "pre", "post", "Condition", "I32", "a1", "A", "Args", "global", "advice", "WasmFunction", "Label", "apply", "if_then", "br_if"]


def concrete(xs):
    out, n = [], 0
    for x in xs:
        if isinstance(x, str):
            out.append(x)
        elif x.cls == "alpha":
            out.append("v" + re.sub(r"[^a-z]", "", x.name) + chr(97 + n % 26))
            n += 1
        elif x.cls == "alnum":
            out.append("32")
        elif x.cls == "upper":
            out.append("I")
        else:
            out.append(" code; ")
    return "".join(out)


def accepts(P, s):
    return P.run("wasp_input", list(s)) is not None


def variants(toks, deep):
    """layouts and near misses of a token list"""
    yield "minimal blanks", " ".join(toks)
    yield "no blanks between brackets", re.sub(r" ?([()]) ?", r"\1", " ".join(toks))
    yield "line ends", "\r\n\t".join(toks)
    yield "comments everywhere", "#| c ( |#".join([""] + toks + [""])
    for i in range(len(toks)):
        rest = lambda x: " ".join(toks[:i] + x + toks[i + 1:])
        yield "without %r" % toks[i][:12], rest([])
        yield "%r twice" % toks[i][:12], rest([toks[i], toks[i]])
        if i + 1 < len(toks) and toks[i] != toks[i + 1]:
            yield "%r and %r swapped" % (toks[i][:12], toks[i + 1][:12]), " ".join(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:])
            yield "%r and %r joined" % (toks[i][:12], toks[i + 1][:12]), " ".join(toks[:i]) + " " + toks[i] + toks[i + 1] + " " + " ".join(toks[i + 2:])
        if re.match(r"\w", toks[i]):
            for w in WORDS if deep else WORDS[:6] + [WORDS[6 + (i % (len(WORDS) - 6))]]:
                if w != toks[i]:
                    yield "%r for %r" % (w, toks[i]), rest([w])
            yield "%r in capitals" % toks[i], rest([toks[i].upper()])
            yield "%r longer" % toks[i], rest([toks[i] + "x"])
            yield "%r with digit" % toks[i], rest([toks[i] + "1"])
            yield "%r with underscore" % toks[i], rest([toks[i] + "_a"])
            yield "%r shorter" % toks[i], rest([toks[i][:-1]])
        elif toks[i].startswith(">>>"):
            yield "guest code open", rest([toks[i][:-3]])
            yield "guest code without opening", rest([toks[i][3:]])
            yield "guest code with a delimiter", rest([toks[i].replace("code", "<<<GUEST<<<")])
            yield "guest code with comment", rest([toks[i].replace("code", "#| <<<GUEST<<< |#")])
            yield "guest code with open comment", rest([toks[i].replace("code", "#| ")])
            yield "guest code empty", rest([">>>GUEST>>><<<GUEST<<<"])


class Gen:
    """sentences of a grammar, chosen at random"""

    def __init__(self, rules, rnd):
        self.r, self.rnd = rules, rnd

    def e(self, x, depth, atomic):
        k = x[0]
        rnd = self.rnd
        if k in ("lit", "ilit"):
            return x[1]
        if k == "range":
            return chr(rnd.randint(ord(x[1]), ord(x[2])))
        if k == "ref":
            n = x[1]
            if n in self.r:
                mod, b = self.r[n]
                return self.e(b, depth + 1, atomic or mod in ("@", "$"))
            return {"SOI": "", "EOI": "", "ANY": rnd.choice("a( #|<>\n\u00e9"), "ASCII_ALPHA": rnd.choice("abXY"), "ASCII_ALPHA_UPPER": rnd.choice("IFAD"),
                    "ASCII_ALPHA_LOWER": rnd.choice("abc"), "ASCII_ALPHANUMERIC": rnd.choice("a3B6"), "ASCII_DIGIT": rnd.choice("019"), "NEWLINE": "\n"}.get(n, "z")
        if k == "seq":
            parts = [self.e(y, depth, atomic) for y in x[1]]
            return ("" if atomic else rnd.choice([" ", " ", "", "\n"])).join(parts)
        if k == "alt":
            return self.e(rnd.choice(x[1]), depth, atomic)
        if k in ("star", "plus", "opt", "rep"):
            n = {"star": rnd.choice([0, 1, 1, 2]), "plus": rnd.choice([1, 1, 2, 3]), "opt": rnd.choice([0, 1]), "rep": 1}[k]
            if k == "rep":
                n = int((x[2].split(",")[0]) or 1)
            return ("" if atomic else rnd.choice(["", " "])).join(self.e(x[1], depth, atomic) for _ in range(n))
        return ""


@prop("W01", ["base"], "The grammar text compiled into the parser is read from the compiled crate, parsed, brought to a canonical form (silent rules inlined, nested sequences and choices "
      "flattened, alternatives that cannot overlap sorted) and compared with the language definition; where the forms differ, a recogniser for both decides sentences of either language and near misses.",
      "canonical forms are equal, or every sentence tried is in both languages or in neither")
def w01(c):
    cur, ref = gram(c), refgram()
    at = "grammar of the aspect language (wasp-compiler/wasp.pest)"
    c.note("grammar rules", *cur)
    a, b = peg.canonical(cur, "wasp_input"), peg.canonical(ref, "wasp_input")
    same = a == b
    c.samples.append("canonical forms %s (%d rules)" % ("equal" if same else "differ", len(a)))
    c.obligation("canonical form computed", lambda: None)
    P, R = peg.Peg(cur), peg.Peg(ref)
    bad = {}
    counted = [0]

    def compare(kind, form, s):
        try:
            x, y = accepts(P, s), accepts(R, s)
        except peg.Unsure:
            return
        except peg.GrammarError as e:
            raise Undecided(str(e))
        counted[0] += 1
        if x != y:
            k = "language: %s" % form
            if len(bad) < 12:
                bad.setdefault(k, []).append(s)
                c.violate(k, at, "the grammar %s the %s sentence (%s)\n    %s" % ("accepts" if x else "rejects", "ill-formed" if x else "well-formed", kind, s[:600]))
    if same and c.tier != "thorough":
        # the languages are equal by construction; a few sentences guard the recogniser
        some = 1
    else:
        some = None
    try:
        ss = sentences(c, Build(c.facts("base")), False)
    except Undecided:
        ss = []
    seen = set()
    for s in ss:
        base = concrete(s.txt)
        if len(base) > 900 or base in seen:
            continue
        seen.add(base)

        def go(s=s, base=base):
            compare("as it is", s.name, base)
            toks = TOKEN.findall(base)
            for i, (kind, v) in enumerate(variants(toks, not same)):
                if some and i > 30:
                    break
                compare(kind, s.name, v)
        c.obligation("sentences like: " + s.name, go)

    def generated():
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        for rules, nm in ((cur, "of the grammar"), (ref, "of the language")):
            g = Gen(rules, rnd)
            for k in range(300 if some else 4000):
                s = g.e(("ref", "wasp_input"), 0, False)
                if len(s) < 1500:
                    compare("sentence %s" % nm, "derived sentences", s)
    c.obligation("derived sentences", generated)
    c.note("sentences decided by both grammars", *map(str, range(counted[0])))

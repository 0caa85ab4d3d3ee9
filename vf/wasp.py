"""Bridge between the grammar artefact and the MIR of the wasp compiler: the
parse tree of an abstract sentence becomes the value `pest` hands to the code."""
from . import terms as t, peg
from .terms import mk, const
from .mirflow import Eng, Dead, norm
from .spec import Undecided

RULE = "wasp_compiler::ast::pest::Rule"
PARSER = "wasp_compiler::ast::pest::WaspParser"
PAIRS, PAIR, SPAN = "pest::iterators::Pairs", "pest::iterators::Pair", "pest::Span"


def text_term(xs):
    """abstract text as a term"""
    out, buf = [], ""
    for x in xs:
        if isinstance(x, str):
            buf += x
            continue
        if x.cls == "upper":
            continue  # first character of a type name: part of its symbol
        if buf:
            out.append(const(buf))
            buf = ""
        out.append(t.sym(x.name))
    if buf or not out:
        out.append(const(buf))
    return t.cat(out) if len(out) > 1 else out[0]


def pair(n):
    kids = t.lst([pair(k) for k in n.kids])
    return t.ctor(PAIR, "Pair", ("rule", "text", "inner"), (t.ctor(RULE, n.rule, (), ()), text_term(n.text), kids))


def pairs(items):
    return t.ctor(PAIRS, "Pairs", ("items",), (items,))


class WaspEng(Eng):
    node = None      # parse tree, or None: the parser rejects

    def __init__(self, F):
        Eng.__init__(self, F)
        h = self.hooks
        h["pest::Parser::parse"] = self.h_parse
        h["pest::iterators::Pair::as_rule"] = lambda E, st, d, a: t.proj(self.v(st, a[0]), None, "rule")
        h["pest::iterators::Pair::as_span"] = lambda E, st, d, a: t.ctor(SPAN, "Span", ("text",), (t.proj(self.v(st, a[0]), None, "text"),))
        h["pest::iterators::Pair::as_str"] = lambda E, st, d, a: t.proj(self.v(st, a[0]), None, "text")
        h["pest::Span::as_str"] = lambda E, st, d, a: t.proj(self.v(st, a[0]), None, "text")
        h["pest::iterators::Pair::into_inner"] = lambda E, st, d, a: pairs(t.proj(self.v(st, a[0]), None, "inner"))
        h["pest::iterators::Pairs::peek"] = self.h_peek
        h["<pest::iterators::Pairs<'i, R> as std::iter::Iterator>::next"] = self.h_next
        h["<from_pest::log::Level as std::cmp::PartialOrd<from_pest::log::LevelFilter>>::partial_cmp"] = lambda E, st, d, a: t.some(t.ctor("std::cmp::Ordering", "Greater", (), ()))
        h["from_pest::log::max_level"] = lambda E, st, d, a: t.ctor("from_pest::log::LevelFilter", "Off", (), ())
        h["<std::vec::Vec<T> as from_pest::FromPest<'pest>>::from_pest"] = self.h_vec

    def v(self, st, x):
        from .models import val
        return val(self, st, x)

    def h_parse(self, E, st, d, a):
        self.parsed.append((a[0], a[1]))
        if self.node is None:
            return t.err(t.sym("pest_error"))
        for x in self.node.text:
            if isinstance(x, peg.Hole) and x.cls != "upper":
                self.textclass[x.name] = {"alpha": (1, True), "alnum": (2, True)}.get(x.cls, (0, False))
        return t.ok(pairs(t.lst([pair(self.node)])))

    def items(self, st, r):
        els = t.elements(t.proj(self.v(st, r), None, "items"))
        if els is None:
            raise Undecided("parse tree of unknown length")
        return els

    def h_next(self, E, st, d, a):
        from .models import setv
        els = self.items(st, a[0])
        if not els:
            return t.NONE
        setv(self, st, a[0], pairs(t.lst(els[1:])))
        return t.some(els[0])

    def h_peek(self, E, st, d, a):
        els = self.items(st, a[0])
        return t.some(els[0]) if els else t.NONE

    def h_vec(self, E, st, d, a):
        ty = d["args"][0] if d.get("args") else ""
        ty = norm(ty)
        inner = ty[ty.index("<") + 1:ty.rindex(">")] if "<" in ty else ty
        keys = [k for k, f in self.F.fns.items() if f["local"] and k.endswith(">::from_pest") and k.startswith("<%s as " % inner)]
        if len(keys) != 1:
            raise Undecided("from_pest of " + ty)
        out = []
        while True:
            n = len(self.items(st, a[0]))
            r = self.run_fn(st, self.F.fns[keys[0]], [a[0]])
            l = t.lab_of(t.disc(r))
            if l == "Ok":
                out.append(t.proj(r, "Ok", "0"))
                if len(self.items(st, a[0])) >= n:
                    raise Undecided("from_pest makes no progress")
            elif l == "Err":
                e = t.proj(r, "Err", "0")
                k = t.lab_of(t.disc(e))
                if k == "NoMatch":
                    return t.ok(t.lst(out))
                return r
            else:
                raise Undecided("from_pest result " + t.show(r)[:200])

    def run_compile(self, key, node, inp=None):
        self.node, self.parsed = node, []
        v, st = self.eval_fn(key, [inp if inp is not None else t.sym("source")])
        return v, st


def grammar(F):
    for p, c in F.consts.items():
        if "_PEST_GRAMMAR_WaspParser" in p:
            x = c.get("val") or c.get("value") or c
            return find_str(x)
    raise Undecided("no grammar text")


def find_str(x):
    if isinstance(x, str) and "{" in x:
        return x
    if isinstance(x, dict):
        for y in x.values():
            r = find_str(y)
            if r:
                return r
    if isinstance(x, list):
        for y in x:
            r = find_str(y)
            if r:
                return r
    return None

"""
Models of regular expressions.

The pattern is the one of the verified code, parsed by Python's own parser.  A text that is a concatenation of characters and
runs of digits (of unknown value and length) is matched by backtracking, as Python does; of an opaque text, what is known
is whether it belongs to the language of the pattern.
"""

import re
import re._constants as sc  # type: ignore
import re._parser as sp  # type: ignore
import sys
from typing import Any, Callable, Optional

import z3

from . import core, interp
from .core import Digits, SStr, Sym, Unsupported, ctx, fork
from .interp import METHOD_MODELS, is_plain, resolve
from .models import model
from .seqs import PDict

ASCII_DIGITS = set("0123456789")


# ---------------------------------------------------------------- sets of characters

def category(cat: Any, flags: int) -> tuple:
    "Ranges of characters of a category, and whether they are to be excluded."

    neg = cat in (sc.CATEGORY_NOT_DIGIT, sc.CATEGORY_NOT_SPACE, sc.CATEGORY_NOT_WORD)
    text = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\d", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\s", sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\w"}.get(cat)
    if text is None:
        raise Unsupported("category of characters")
    return ranges_of(text, bool(flags & re.ASCII)), neg


_RANGES: dict = {}
LAST = 0x2FFFF  # the last character of a z3 string


def ranges_of(text: str, is_ascii: bool) -> list:
    key = (text, is_ascii)
    if key not in _RANGES:
        p = re.compile(text, re.ASCII if is_ascii else 0)
        out: list = []
        for k in range(LAST + 1):
            if p.match(chr(k)):
                if out and out[-1][1] == k - 1:
                    out[-1][1] = k
                else:
                    out.append([k, k])
        _RANGES[key] = out
    return _RANGES[key]


def atom_ranges(op: Any, av: Any, flags: int) -> tuple:
    "Ranges of characters that a single-character item accepts, and whether they are excluded instead."

    if flags & re.IGNORECASE:
        raise Unsupported("case-insensitive pattern")
    if op is sc.LITERAL:
        return [[av, av]], False
    if op is sc.NOT_LITERAL:
        return [[av, av]], True
    if op is sc.ANY:
        return ([], True) if flags & re.DOTALL else ([[10, 10]], True)
    if op is sc.CATEGORY:
        return category(av, flags)
    assert op is sc.IN
    neg, out = False, []
    for o, v in av:
        if o is sc.NEGATE:
            neg = True
        elif o is sc.LITERAL:
            out.append([v, v])
        elif o is sc.RANGE:
            out.append(list(v))
        elif o is sc.CATEGORY:
            r, n = category(v, flags)
            if n:
                raise Unsupported("negated category in a set of characters")
            out.extend(r)
        else:
            raise Unsupported("set of characters")
    return out, neg


ATOMS = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.CATEGORY)


def accepts(op: Any, av: Any, flags: int, ch: str) -> bool:
    r, neg = atom_ranges(op, av, flags)
    return any(a <= ord(ch) <= b for a, b in r) != neg


def accepts_digits(op: Any, av: Any, flags: int) -> Optional[bool]:
    "Whether a single-character item accepts all digits, or none."

    got = {accepts(op, av, flags, d) for d in ASCII_DIGITS}
    if len(got) > 1:
        return None
    return got.pop()


# ---------------------------------------------------------------- structured texts

PART = "part"  # position within a run of digits


def tokens_of(s: Any) -> Optional[list]:
    "Characters and runs of digits; nothing if the text has parts of which nothing is known."

    out: list = []
    for p in [s] if isinstance(s, str) else s.pieces:
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, Digits):
            out.append(p)
        else:
            return None
    return out


def run_length(d: Digits) -> Any:
    if isinstance(d.length, int):
        return d.length
    if d.len_t is None:
        d.len_t = ctx().fresh(z3.IntSort(), "length")
        ctx().add_fact(d.len_t >= 1)
    return d.len_t


class Matcher:
    def __init__(self, tokens: list, flags: int):
        self.tokens, self.flags = tokens, flags

    def seq(self, items: Any, k: int, pos: tuple, caps: dict, cont: Callable) -> Any:
        if k == len(items):
            return cont(pos, caps)
        op, av = items[k]
        rest = lambda p, c: self.seq(items, k + 1, p, c, cont)  # noqa: E731
        return self.item(op, av, pos, caps, rest)

    def item(self, op: Any, av: Any, pos: tuple, caps: dict, cont: Callable) -> Any:
        if op in ATOMS:
            return self.repeat_atom(op, av, 1, 1, 0, pos, caps, cont, True)
        if op is sc.SUBPATTERN:
            group, add, sub, p = av
            if add or sub:
                raise Unsupported("flags within a pattern")

            def done(end: tuple, c: dict) -> Any:
                return cont(end, {**c, group: (pos, end)} if group is not None else c)

            return self.seq(p, 0, pos, caps, done)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(alt, 0, pos, caps, cont)
                if r is not None:
                    return r
            return None
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and not self.flags & re.MULTILINE:
                return cont(pos, caps) if pos == (0, None) else None
            if av is sc.AT_END_STRING:
                return cont(pos, caps) if pos == (len(self.tokens), None) else None
            if av is sc.AT_END and not self.flags & re.MULTILINE:
                n = len(self.tokens)
                if pos == (n, None) or (pos == (n - 1, None) and self.tokens[-1] == "\n"):
                    return cont(pos, caps)
                return None
            raise Unsupported("position in a pattern")
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is sc.MAX_REPEAT
            if len(p) == 1 and p[0][0] in ATOMS:
                return self.repeat_atom(p[0][0], p[0][1], lo, hi, 0, pos, caps, cont, greedy)
            return self.repeat(p, lo, hi, 0, pos, caps, cont, greedy)
        raise Unsupported(f"pattern: {op}")

    def repeat(self, p: Any, lo: int, hi: Any, n: int, pos: tuple, caps: dict, cont: Callable, greedy: bool) -> Any:
        def more() -> Any:
            if hi is not sc.MAXREPEAT and n >= hi:
                return None
            return self.seq(p, 0, pos, caps, lambda q, c: None if q == pos else self.repeat(p, lo, hi, n + 1, q, c, cont, greedy))

        stop = lambda: cont(pos, caps) if n >= lo else None  # noqa: E731
        for f in (more, stop) if greedy else (stop, more):
            r = f()
            if r is not None:
                return r
        return None

    def repeat_atom(self, op: Any, av: Any, lo: int, hi: Any, n: Any, pos: tuple, caps: dict, cont: Callable, greedy: bool) -> Any:
        "A single-character item, repeated; `n` characters have been consumed."

        def enough() -> bool:
            return n >= lo if isinstance(n, int) else fork(n >= lo)

        def stop() -> Any:
            return cont(pos, caps) if enough() else None

        def more() -> Any:
            i, part = pos
            if hi is not sc.MAXREPEAT and isinstance(n, int) and n >= hi or i >= len(self.tokens):
                return None
            t = self.tokens[i]
            if isinstance(t, str):
                if not accepts(op, av, self.flags, t):
                    return None
                if hi is not sc.MAXREPEAT and not isinstance(n, int) and not fork(n < hi):
                    return None
                return self.repeat_atom(op, av, lo, hi, n + 1, (i + 1, None), caps, cont, greedy)
            ok = accepts_digits(op, av, self.flags)
            if ok is None or ok and part:
                raise Unsupported("pattern that tells digits apart or splits them")
            if not ok:
                return None
            length = run_length(t)
            fits = hi is sc.MAXREPEAT
            if not fits:
                total = n + length
                fits = total <= hi if isinstance(total, int) else fork(total <= hi)
            whole = (lambda: self.repeat_atom(op, av, lo, hi, n + length, (i + 1, None), caps, cont, greedy)) if fits else (lambda: None)

            # stopping within the run: what follows in the pattern has to go on with digits, which is not supported
            def within() -> Any:
                return cont((i, PART), caps) if not (isinstance(length, int) and length <= 1) else None

            for f in (whole, within) if greedy else (within, whole):
                r = f()
                if r is not None:
                    return r
            return None

        for f in (more, stop) if greedy else (stop, more):
            r = f()
            if r is not None:
                return r
        return None


def text_between(tokens: list, a: tuple, b: tuple) -> Any:
    if a[1] or b[1]:
        raise Unsupported("part of a run of digits")
    s = SStr(tokens[a[0] : b[0]])
    return "".join(s.pieces) if all(isinstance(p, str) for p in s.pieces) else s


class SMatch(Sym):
    "A match object."

    def __init__(self, pattern: Any, text: Any, tokens: list, end: tuple, caps: dict):
        self.pattern, self.text, self.tokens, self.caps = pattern, text, tokens, {**caps, 0: ((0, None), end)}

    def vc_truth(self) -> bool:
        return True

    def text_of(self, g: Any, default: Any = None) -> Any:
        g = resolve(g)
        if isinstance(g, str):
            if g not in self.pattern.groupindex:
                interp.raise_py(IndexError)
            g = self.pattern.groupindex[g]
        if not isinstance(g, int):
            raise Unsupported("group of a match")
        if g < 0 or g > self.pattern.groups:
            interp.raise_py(IndexError)
        return text_between(self.tokens, *self.caps[g]) if g in self.caps else default

    def vc_getitem(self, key: Any) -> Any:
        return self.text_of(key)

    def vc_getattr(self, name: str) -> Any:
        def group(*gs: Any) -> Any:
            if not gs:
                return self.text_of(0)
            return self.text_of(gs[0]) if len(gs) == 1 else tuple(self.text_of(g) for g in gs)

        def groups(default: Any = None) -> Any:
            return tuple(self.text_of(g, default) for g in range(1, self.pattern.groups + 1))

        def groupdict(default: Any = None) -> Any:
            d = PDict()
            for k, g in self.pattern.groupindex.items():
                interp.setitem(d, k, self.text_of(g, default))
            return d

        if name in ("group", "groups", "groupdict"):
            return interp.Model({"group": group, "groups": groups, "groupdict": groupdict}[name], f"match.{name}")
        if name == "string":
            return self.text
        if name == "re":
            return self.pattern
        if name == "lastindex":
            raise Unsupported("lastindex")
        return NotImplemented


class OpaqueMatch(Sym):
    "A match of an opaque text: there is one."

    def vc_truth(self) -> bool:
        return True


# ---------------------------------------------------------------- languages

def z3_class(op: Any, av: Any, flags: int) -> Any:
    r, neg = atom_ranges(op, av, flags)
    parts = [z3.Range(chr(a), chr(min(b, LAST))) for a, b in r if a <= LAST]
    sort = z3.ReSort(z3.StringSort())
    u = z3.Empty(sort) if not parts else parts[0] if len(parts) == 1 else z3.Union(*parts)
    return z3.Intersect(z3.AllChar(sort), z3.Complement(u)) if neg else u


def language(items: Any, flags: int, top: bool = True, first: bool = True) -> tuple:
    "The language of a pattern, and how it ends: open, at the end of the text, or at the end or before a final line break."

    parts: list = []
    end = "open"
    for op, av in items:
        if end != "open":
            raise Unsupported("pattern goes on after its end")
        if op in ATOMS:
            parts.append(z3_class(op, av, flags))
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags within a pattern")
            l, end = language(av[3], flags, top, first and not parts)
            parts.append(l)
        elif op is sc.BRANCH:
            ls = [language(alt, flags, False)[0] for alt in av[1]]
            parts.append(z3.Union(*ls) if len(ls) > 1 else ls[0])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            l, _ = language(p, flags, False)
            if hi is sc.MAXREPEAT:
                star = z3.Star(l)
                parts.append(star if lo == 0 else z3.Plus(l) if lo == 1 else z3.Concat(z3.Loop(l, lo, lo), star))
            elif (lo, hi) == (0, 1):
                parts.append(z3.Option(l))
            else:
                parts.append(z3.Loop(l, lo, hi))
        elif op is sc.AT and top and not flags & re.MULTILINE:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and first and not parts:
                continue
            elif av is sc.AT_END_STRING:
                end = "end"
            elif av is sc.AT_END:
                end = "line"
            else:
                raise Unsupported("position in a pattern")
        else:
            raise Unsupported(f"pattern: {op}")
    if not parts:
        return z3.Re(z3.StringVal("")), end
    return (parts[0] if len(parts) == 1 else z3.Concat(*parts)), end


def anything() -> Any:
    return z3.Full(z3.ReSort(z3.StringSort()))


def simple(items: list, flags: int, how: str, t: Any) -> Any:
    "Membership, for a text at the beginning, any characters, a text at the end; nothing for other patterns."

    items = list(items)
    if how == "search" and not (items and items[0][0] is sc.AT) or flags & (re.MULTILINE | re.IGNORECASE):
        return None
    if items and items[0] in ((sc.AT, sc.AT_BEGINNING), (sc.AT, sc.AT_BEGINNING_STRING)):
        items = items[1:]
    end = "end" if how == "fullmatch" else "open"
    if items and items[-1][0] is sc.AT:
        if items[-1][1] not in (sc.AT_END, sc.AT_END_STRING):
            return None
        end = "line" if items[-1][1] is sc.AT_END and how != "fullmatch" else "end"
        items = items[:-1]
    at = [k for k, (op, _) in enumerate(items) if op is not sc.LITERAL]
    if len(at) != 1 or end == "open":
        return None
    op, av = items[at[0]]
    if op not in (sc.MAX_REPEAT, sc.MIN_REPEAT) or av[1] is not sc.MAXREPEAT or len(av[2]) != 1 or av[2][0][0] is not sc.ANY or flags & re.DOTALL:
        return None
    before, after = ("".join(chr(v) for _, v in part) for part in (items[: at[0]], items[at[0] + 1 :]))
    if "\n" in before + after:
        return None

    def whole(x: Any) -> Any:
        return z3.And(
            z3.PrefixOf(z3.StringVal(before), x), z3.SuffixOf(z3.StringVal(after), x),
            z3.Length(x) >= len(before) + len(after) + av[0], z3.Not(z3.Contains(x, z3.StringVal("\n"))),
        )

    if end == "end":
        return whole(t)
    return z3.Or(whole(t), z3.And(z3.SuffixOf(z3.StringVal("\n"), t), whole(z3.SubString(t, 0, z3.Length(t) - 1))))


def matching(pattern: Any, text: Any, how: str) -> Any:
    if not isinstance(pattern.pattern, str):
        raise Unsupported("pattern of bytes")
    tree = sp.parse(pattern.pattern, pattern.flags & ~re.UNICODE if pattern.flags & re.ASCII else pattern.flags)
    flags = pattern.flags
    items = list(tree)
    text = resolve(text)
    if not isinstance(text, (str, SStr)):
        if interp.kind_of(text) is None:
            raise Unsupported("text of a match")
        interp.raise_py(TypeError)
    tokens = tokens_of(text)
    if tokens is not None:
        m = Matcher(tokens, flags)

        def done(end: tuple, caps: dict) -> Any:
            if end[1]:
                if how == "fullmatch":
                    return None
                raise Unsupported("match of a part of a run of digits")
            if how == "fullmatch" and end != (len(tokens), None):
                return None
            return end, caps

        if how == "search":
            raise Unsupported("search")
        r = m.seq(items, 0, (0, None), {}, done)
        return None if r is None else SMatch(pattern, text, tokens, *r)
    if any(isinstance(p, Digits) for p in text.pieces):
        raise Unsupported("pattern on a text of unknown parts and digits")
    f = simple(items, flags, how, text.t)
    if f is not None:
        return OpaqueMatch() if fork(f) else None
    anchored = bool(items) and items[0][0] is sc.AT
    l, end = language(items, flags)
    if how == "search" and not anchored:
        l = z3.Concat(anything(), l)
    if how != "fullmatch":
        if end == "open":
            l = z3.Concat(l, anything())
        elif end == "line":
            l = z3.Concat(l, z3.Option(z3.Re("\n")))
    return OpaqueMatch() if fork(z3.InRe(text.t, l)) else None


def _compiled(pattern: Any, flags: Any = 0) -> Any:
    if isinstance(pattern, re.Pattern):
        return pattern
    if not is_plain(pattern) or not is_plain(flags):
        raise Unsupported("pattern is not constant")
    try:
        return re.compile(pattern, flags)
    except re.error:
        interp.raise_py(re.error)


MATCHERS = ("match", "fullmatch", "search")


@model(re.compile)
def m_compile(pattern: Any, flags: Any = 0) -> Any:
    return _compiled(pattern, flags)


for _how in MATCHERS:

    @model(getattr(re, _how))
    def m_match(pattern: Any, string: Any, flags: Any = 0, _how: str = _how) -> Any:
        p = _compiled(pattern, flags)
        return getattr(p, _how)(string) if is_plain(string) else matching(p, string, _how)


def _method(p: Any, name: str) -> Any:
    if name in MATCHERS:
        def run(string: Any, *bounds: Any) -> Any:
            if is_plain(string) and is_plain(bounds):
                return getattr(p, name)(string, *bounds)
            if bounds:
                raise Unsupported("bounds of a match")
            return matching(p, string, name)

        return interp.Model(run, f"pattern.{name}")
    r = getattr(p, name)
    if callable(r):
        def plain(*a: Any, **kw: Any) -> Any:
            if not all(is_plain(x) for x in a) or not all(is_plain(x) for x in kw.values()):
                raise Unsupported(f"pattern.{name}")
            return r(*a, **kw)

        return interp.Model(plain, f"pattern.{name}")
    return r


METHOD_MODELS[("re.Pattern", "*")] = _method

"""
Texts made of literals and of parts of which only some traits are known (a word, a line, a normalised text).

The methods of strings are exact on what the traits determine, and unsupported otherwise.
"""

import re
from typing import Any, Optional

import z3

from .core import SStr, Unsupported, ctx, fork
from .models import method, model
from .seqs import PList

WHITESPACE = "".join(chr(k) for k in range(0x3001) if chr(k).isspace())
normal = z3.Function("whitespace_normalised", z3.StringSort(), z3.StringSort())


class Trait:
    def __init__(self, without: str = "", trimmed: bool = False, nonempty: bool = False, squeezed: bool = False, plain_lines: bool = False):
        self.without = set(without)  # characters that do not occur
        self.trimmed = trimmed  # does not begin or end with whitespace
        self.nonempty = nonempty
        self.squeezed = squeezed or trimmed and self.without >= set(WHITESPACE)  # whitespace is single spaces
        self.plain_lines = plain_lines  # no line begins with a colon


WORD = Trait(WHITESPACE, trimmed=True, nonempty=True)
LINE = Trait(WHITESPACE.replace(" ", ""), trimmed=True, squeezed=True)

TRAITS: dict = {}  # by name of the function that yields the text


def trait(p: Any) -> Optional[Trait]:
    if not z3.is_expr(p) or not z3.is_app(p):
        return None
    if p.decl().eq(normal):
        return LINE
    return TRAITS.get(p.decl().name())


def pieces_of(s: Any) -> list:
    return [s] if isinstance(s, str) else list(s.pieces)


def known(s: Any) -> bool:
    return all(isinstance(p, str) or trait(p) is not None for p in pieces_of(s))


def text(pieces: list) -> Any:
    s = SStr(pieces)
    return "".join(s.pieces) if all(isinstance(p, str) for p in s.pieces) else s


def is_empty(p: Any) -> bool:
    return fork(z3.Length(p) == 0)


def strip_left(pieces: list, chars: str, space: bool) -> list:
    pieces = list(pieces)
    while pieces:
        p = pieces[0]
        if isinstance(p, str):
            q = p.lstrip(chars)
            if q:
                return [q] + pieces[1:]
        else:
            t = trait(p)
            if t is None:
                raise Unsupported("strip")
            if not t.nonempty and is_empty(p):
                pieces = pieces[1:]
                continue
            if t.trimmed and space or t.without >= set(chars):
                return pieces
            raise Unsupported("strip")
        pieces = pieces[1:]
    return []


def strip_right(pieces: list, chars: str, space: bool) -> list:
    back = [p[::-1] if isinstance(p, str) else p for p in reversed(pieces)]
    return [p[::-1] if isinstance(p, str) else p for p in reversed(strip_left(back, chars, space))]


def strip(self: Any, chars: Any, left: bool, right: bool) -> Any:
    if chars is not None and not isinstance(chars, str):
        raise Unsupported("strip")
    pieces = pieces_of(self)
    space = chars is None or set(chars) <= set(WHITESPACE)
    if chars is None and left and right and len(pieces) == 1 and not isinstance(pieces[0], str) and trait(pieces[0]) is not None:
        if not trait(pieces[0]).trimmed:  # type: ignore
            return SStr([Trimmed.of(pieces[0])])
    if not known(self):
        raise Unsupported("strip")
    cs = WHITESPACE if chars is None else chars
    if left:
        pieces = strip_left(pieces, cs, space)
    if right:
        pieces = strip_right(pieces, cs, space)
    return text(pieces)


class Trimmed:
    fn = z3.Function("without_outer_whitespace", z3.StringSort(), z3.StringSort())

    @classmethod
    def of(cls, p: Any) -> Any:
        return cls.fn(p)


@method("str", "strip")
def s_strip(self: Any, chars: Any = None) -> Any:
    return strip(self, chars, True, True)


@method("str", "lstrip")
def s_lstrip(self: Any, chars: Any = None) -> Any:
    return strip(self, chars, True, False)


@method("str", "rstrip")
def s_rstrip(self: Any, chars: Any = None) -> Any:
    return strip(self, chars, False, True)


def find(pieces: list, sep: str) -> Optional[tuple]:
    "What comes before and after the first occurrence."
    out: list = []
    k = 0
    while k < len(pieces):
        p = pieces[k]
        if isinstance(p, str):
            i = p.find(sep)
            # an occurrence across a border needs a border character of the next part
            if i >= 0:
                return out + [p[:i]], [p[i + len(sep) :]] + list(pieces[k + 1 :])
            if k + 1 < len(pieces) and len(sep) > 1:
                t = trait(pieces[k + 1])
                if t is None or not (t.nonempty and (t.without >= set(sep) or t.trimmed and not sep.strip())):
                    raise Unsupported("search across parts of a text")
        else:
            t = trait(p)
            if t is None or not t.without >= set(sep):
                raise Unsupported("search in a part of a text")
            if len(sep) > 1 and not t.nonempty:
                raise Unsupported("search across parts of a text")
        out.append(p)
        k += 1
    return None


@method("str", "split")
def s_split(self: Any, sep: Any = None, maxsplit: Any = -1) -> Any:
    if not known(self) or not isinstance(maxsplit, int):
        raise Unsupported("split")
    if sep is None:
        if maxsplit >= 0:
            raise Unsupported("split")
        return PList.of(words(pieces_of(self)))
    if not isinstance(sep, str) or not sep:
        raise Unsupported("split")
    rest, out = pieces_of(self), []
    while maxsplit < 0 or len(out) < maxsplit:
        r = find(rest, sep)
        if r is None:
            break
        out.append(text(r[0]))
        rest = r[1]
    return PList.of(out + [text(rest)])


def words(pieces: list) -> list:
    out: list = []
    open_ = False
    for p in pieces:
        if isinstance(p, str):
            for k, ch in enumerate(re.split(r"(\s+)", p)):
                if not ch:
                    continue
                if ch.isspace():
                    open_ = False
                elif open_:
                    out[-1].append(ch)
                else:
                    out.append([ch])
                    open_ = True
        else:
            t = trait(p)
            if not (t is not None and t.nonempty and t.without >= set(WHITESPACE)):
                raise Unsupported("words of a text")
            if open_:
                out[-1].append(p)
            else:
                out.append([p])
                open_ = True
    return [text(w) for w in out]


@method("str", "partition")
def s_partition(self: Any, sep: Any) -> Any:
    if not known(self) or not isinstance(sep, str) or not sep:
        raise Unsupported("partition")
    r = find(pieces_of(self), sep)
    return (self, "", "") if r is None else (text(r[0]), sep, text(r[1]))


@method("str", "replace")
def s_replace(self: Any, old: Any, new: Any, *a: Any) -> Any:
    if a or not known(self) or not (isinstance(old, str) and isinstance(new, str) and old):
        raise Unsupported("replace")
    out: list = []
    rest = pieces_of(self)
    while (r := find(rest, old)) is not None:
        out += r[0] + [new]
        rest = r[1]
    return text(out + rest)


def squeeze(s: Any) -> Any:
    "Each run of whitespace becomes a space."
    pieces = pieces_of(s)
    if len(pieces) == 1 and z3.is_expr(pieces[0]) and pieces[0].decl().eq(Trimmed.fn):
        return SStr([normal(pieces[0].arg(0))])
    out: list = []
    for k, p in enumerate(pieces):
        if isinstance(p, str):
            if k and p[:1].isspace() or k + 1 < len(pieces) and p[-1:].isspace():
                near = [trait(x) for x in pieces if not isinstance(x, str)]
                if not all(t is not None and t.trimmed and t.nonempty for t in near):
                    raise Unsupported("whitespace across parts of a text")
            out.append(re.sub(r"\s+", " ", p))
        else:
            t = trait(p)
            if t is None or not t.squeezed:
                raise Unsupported("whitespace of a part of a text")
            out.append(p)
    return text(out)


@model(re.sub)
def m_re_sub(pattern: Any, repl: Any, s: Any, *a: Any, **kw: Any) -> Any:
    if isinstance(s, str) and isinstance(pattern, (str, re.Pattern)) and isinstance(repl, str):
        return re.sub(pattern, repl, s, *a, **kw)
    if isinstance(pattern, re.Pattern) and pattern.flags == re.UNICODE:
        pattern = pattern.pattern
    if pattern == r"\s+" and repl == " " and not a and not kw and isinstance(s, SStr):
        return squeeze(s)
    raise Unsupported("re.sub")




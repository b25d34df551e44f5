"""
Abstraction of strings.

Most obligations only compare strings.  Constraints are translated to a theory in which strings are members of an
uninterpreted sort, literals are distinct constants, and every string operation is an uninterpreted function.  What is
unsatisfiable in the abstraction is unsatisfiable; what is satisfiable is so in fact if there are no string operations,
otherwise the solver for strings decides.
"""

from typing import Any

import z3

from . import core

Str = z3.DeclareSort("Str")
_V = z3.Datatype("Va")
for _k in range(core.V.num_constructors()):
    _c = core.V.constructor(_k)
    _fields = []
    for _j in range(_c.arity()):
        _a = core.V.accessor(_k, _j)
        _s = _c.domain(_j)
        _fields.append((str(_a.name()) + "_a", Str if _s == z3.StringSort() else _s))
    _V.declare(str(_c.name()) + "_a", *_fields)
Va = _V.create()

_by_decl: dict = {}
for _k in range(core.V.num_constructors()):
    _by_decl[core.V.constructor(_k).get_id()] = Va.constructor(_k)
    _by_decl[core.V.recognizer(_k).get_id()] = Va.recognizer(_k)
    for _j in range(core.V.constructor(_k).arity()):
        _by_decl[core.V.accessor(_k, _j).get_id()] = Va.accessor(_k, _j)

lit_index = z3.Function("lit_index", Str, z3.IntSort())
str_len = z3.Function("str_len", Str, z3.IntSort())
_keep: list = []
_literals: dict = {}
_memo: dict = {}


class Side:
    "What an abstracted term needs besides itself."

    __slots__ = ("facts", "strong")

    def __init__(self, facts: tuple = (), strong: bool = False):
        self.facts, self.strong = facts, strong


EMPTY = Side()


def _sort(s: Any) -> Any:
    if s == z3.StringSort():
        return Str
    if s == core.V:
        return Va
    return s


def literal(text: str) -> Any:
    r = _literals.get(text)
    if r is None:
        c = z3.Const(f"lit!{len(_literals)}", Str)
        _literals[text] = r = (c, z3.And(lit_index(c) == len(_literals), str_len(c) == len(text)))
    return r


def _decl(d: Any) -> Any:
    r = _by_decl.get(d.get_id())
    if r is None:
        r = z3.Function(f"{d.name()}", *[_sort(d.domain(j)) for j in range(d.arity())], _sort(d.range()))
        if r.eq(d):
            r = d
        else:
            r = z3.Function(f"{d.name()}_a{d.get_id()}", *[_sort(d.domain(j)) for j in range(d.arity())], _sort(d.range()))
        _by_decl[d.get_id()] = r
        _keep.append(d)
    return r


def abstract(t: Any) -> tuple:
    k = t.get_id()
    r = _memo.get(k)
    if r is None:
        r = _abstract(t)
        _memo[k] = r
        _keep.append(t)
    return r


def _merge(sides: list) -> Side:
    facts: dict = {}
    strong = False
    some = [s for s in sides if s is not EMPTY]
    if not some:
        return EMPTY
    if len(some) == 1:
        return some[0]
    for s in some:
        strong = strong or s.strong
        for f in s.facts:
            facts[f.get_id()] = f
    return Side(tuple(facts.values()), strong)


def _abstract(t: Any) -> tuple:
    if not z3.is_app(t):
        raise core.Unsupported("quantifier")
    if z3.is_string_value(t):
        c, f = literal(t.as_string())
        return c, Side((f,))
    args = [abstract(a) for a in t.children()]
    terms = [a[0] for a in args]
    side = _merge([a[1] for a in args])
    d = t.decl()
    kind = d.kind()
    if kind in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER, z3.Z3_OP_DT_ACCESSOR):
        if kind == z3.Z3_OP_DT_IS and d.get_id() not in _by_decl:
            for k in range(core.V.num_constructors()):
                if d.eq(core.V.recognizer(k)):
                    _by_decl[d.get_id()] = Va.recognizer(k)
                    _keep.append(d)
                    break
            else:
                raise core.Unsupported("recognizer")
        return _decl(d)(*terms) if terms or True else None, side
    if kind == z3.Z3_OP_SEQ_LENGTH and t.arg(0).sort() == z3.StringSort():
        r = str_len(terms[0])
        empty, ef = literal("")
        return r, _merge([side, Side((ef, z3.And(r >= 0, (r == 0) == (terms[0] == empty))))])
    strings = t.sort() == z3.StringSort() or any(a.sort() == z3.StringSort() or z3.is_re(a) for a in t.children()) or z3.is_re(t)
    if strings and kind not in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE):
        if z3.is_re(t):
            return z3.Const(f"re!{t.get_id()}", Str), Side(side.facts, True)
        f = z3.Function(f"str_op_{d.name()}_{len(terms)}_{t.sort()}", *[x.sort() for x in terms], _sort(t.sort()))
        return f(*terms), Side(side.facts, True)
    if kind == z3.Z3_OP_EQ:
        return terms[0] == terms[1], side
    if kind == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*terms), side
    if kind == z3.Z3_OP_ITE:
        return z3.If(*terms), side
    if not terms:
        return t, side
    if all(x.eq(y) for x, y in zip(terms, t.children())):
        return t, side
    return d(*terms), side


def substitute(f: Any, *pairs: Any) -> Any:
    "Substitution that carries the abstraction of the term over to the result."
    r = z3.substitute(f, *pairs)
    k = r.get_id()
    if k not in _memo:
        a, side = abstract(f)
        ap = [(abstract(x)[0], abstract(y)[0]) for x, y in pairs]
        extra = [abstract(y)[1] for _, y in pairs]
        own = Side(tuple(z3.substitute(x, *ap) for x in side.facts), side.strong) if side is not EMPTY else EMPTY
        _memo[k] = (z3.substitute(a, *ap), _merge([own] + extra))
        _keep.append(r)
    return r


def keep(t: Any) -> None:
    _keep.append(t)

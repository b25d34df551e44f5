"Symbolic type expressions."

import typing
from typing import Any, Optional

import z3

from . import core
from .core import Sym, Ty, ctx

_consts: dict[Any, Any] = {}


def ty_const(cls: Any) -> Any:
    "The term that stands for a known Python class."
    key = cls
    if key not in _consts:
        _consts[key] = z3.Const(f"Ty:{getattr(cls, '__qualname__', cls)}:{len(_consts)}", Ty)
    t = _consts[key]
    ctx().axiom(("distinct-ty", len(_consts)), lambda: z3.Distinct(*_consts.values()) if len(_consts) > 1 else z3.BoolVal(True))
    return t


class SType(Sym):
    "A type expression."


class TyOpaque(SType):
    "An arbitrary type of which nothing is known (but what predicates say)."

    def __init__(self, t: Any):
        self.t = t

    def vc_subst(self, go: Any, pairs: list) -> "TyOpaque":
        t = core.substitute(self.t, *pairs)
        return self if t.eq(self.t) else TyOpaque(t)

    def __repr__(self) -> str:
        return f"TyOpaque({self.t})"


class TyGen(SType):
    "A generic type or special form `origin[args]`; `args` is a tuple or an STuple; new_style for `X | Y`."

    def __init__(self, origin: Any, args: Any, new_style: bool = False):
        self.origin, self.args, self.new_style = origin, args, new_style

    def vc_subst(self, go: Any, pairs: list) -> "TyGen":
        return TyGen(self.origin, go(self.args), self.new_style)

    def __repr__(self) -> str:
        return f"{self.origin}[{self.args}]"


class TyAnn(SType):
    "Annotated[inner, *metadata]"

    def __init__(self, inner: Any, metadata: tuple):
        self.inner, self.metadata = inner, metadata

    def vc_subst(self, go: Any, pairs: list) -> "TyAnn":
        return TyAnn(go(self.inner), go(self.metadata))


class TyFwd(SType):
    "A forward reference whose target is `target`."

    def __init__(self, arg: Any, target: Any):
        self.arg, self.target = arg, target


class ClassSym(SType):
    """
    An arbitrary class of a given kind ("dataclass", "namedtuple", "enum", "plain"), given by its traits, which
    the contracts on `dataclasses`, `typing` and `enum` refer to.
    """

    def __init__(self, t: Any, kind: str, **traits: Any):
        self.t, self.kind, self.traits = t, kind, traits

    def vc_subst(self, go: Any, pairs: list) -> "ClassSym":
        t = core.substitute(self.t, *pairs)
        return self if t.eq(self.t) else ClassSym(t, self.kind, **self.traits)

    def __repr__(self) -> str:
        return f"ClassSym({self.kind})"


def type_eq(a: Any, b: Any) -> Any:
    "Condition under which two types are the same object."

    if a is b:
        return True
    ta, tb = type_term(a), type_term(b)
    if ta is not None and tb is not None:
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a is b
        if isinstance(a, ClassSym) and not isinstance(b, Sym) or isinstance(b, ClassSym) and not isinstance(a, Sym):
            return False  # an arbitrary class is a user-defined class
        return ta == tb
    return False


def type_term(a: Any) -> Optional[Any]:
    if isinstance(a, (TyOpaque, ClassSym)):
        return a.t
    if isinstance(a, type) or a is typing.Any:
        return ty_const(a)
    return None

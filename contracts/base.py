"""
Common vocabulary of the contracts.

Types that a function under contract takes as a parameter are *opaque*: nothing is known about them but what their
contracts say.  The reader of an opaque type T (with options o, in context c) is characterised by three functions:
`P_ok(T, o, c, x)` tells whether it accepts the JSON value x, `P_val` is the value that it returns, and `P_exc` the class
of exception that it raises.  Likewise, `S_ok`, `S_val` and `S_exc` characterise the writer.  A caller is verified
against these, never against the body of a particular reader.
"""

import os
import sys
import types
import typing
from typing import Any, Callable

import z3

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import strong_typing.auxiliary as A  # noqa: E402
import strong_typing.deserializer as D  # noqa: E402
import strong_typing.inspection as I  # noqa: E402
import strong_typing.mapping as M  # noqa: E402
import strong_typing.serializer as S  # noqa: E402
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError  # noqa: E402

from pyvc import core, interp, models, seqs, verify  # noqa: E402,F401
from pyvc.core import SBool, SBytes, SFloat, SInt, SObj, SStr, SV, Sym, Unsupported, V, as_bool, as_int, ctx, fork  # noqa: E402,F401
from pyvc.interp import CONTRACTS, EXC_CLASSES, MODELS, ExcVal, Model, Obj, PyRaise, call, getattr_, to_V  # noqa: E402,F401
from pyvc.seqs import ConcSeq, FnSeq, HandleSeq, NewObj, PDict, PList, PSet, STuple  # noqa: E402,F401
from pyvc.types_ import ClassSym, SType, TyAnn, TyFwd, TyGen, TyOpaque, type_term  # noqa: E402,F401
from pyvc.verify import goal, obligation, outcome, refuted, same_outcome, same_value  # noqa: E402,F401

HERE = os.path.dirname(os.path.abspath(__file__))
for _r in (os.path.join(REPO, "strong_typing") + "/", HERE + "/"):
    if _r not in interp.VERIFIED_ROOTS:
        interp.VERIFIED_ROOTS.append(_r)

interp.FIELD_CLASSES.extend(
    c
    for c in (A.Alias, A.Signed, A.Storage, A.IntegerRange, A.Precision, A.TimePrecision, A.MinLength, A.MaxLength)
    if c not in interp.FIELD_CLASSES
)

INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()


class Other(Exception):
    "Any exception that is none of those that the library documents."


if not EXC_CLASSES:
    EXC_CLASSES.extend([JsonKeyError, JsonTypeError, JsonValueError, ValueError, UnicodeError, Other])

# ---------------------------------------------------------------- readers and writers of opaque types

P_ok = z3.Function("P_ok", core.Ty, BOOL, core.Ob, V, BOOL)
P_val = z3.Function("P_val", core.Ty, BOOL, core.Ob, V, V)
P_exc = z3.Function("P_exc", core.Ty, BOOL, core.Ob, V, INT)
S_ok = z3.Function("S_ok", core.Ty, core.Ob, V, BOOL)
S_val = z3.Function("S_val", core.Ty, core.Ob, V, V)
S_exc = z3.Function("S_exc", core.Ty, core.Ob, V, INT)

# the type is optional; the type without None
opt = z3.Function("is_optional", core.Ty, BOOL)
unopt = z3.Function("without_none", core.Ty, core.Ty)

# knobs of the current obligation
N_DOC = 5  # the first N exception classes are the documented ones


class Mode:
    other_exceptions = True  # readers of opaque types may raise undocumented exceptions
    json_writer = True  # writers of opaque types produce JSON values (induction hypothesis of C09)
    round_trip = False  # induction hypothesis of C03: P(S(v)) = v
    hooks: list = []
    written: Any = None  # what else holds of what the writers of opaque types produce

    @classmethod
    def reset(cls) -> None:
        cls.other_exceptions, cls.json_writer, cls.round_trip, cls.hooks = True, True, False, []
        cls.written = None


verify.RESET.append(Mode.reset)


def ctx_term(context: Any) -> Any:
    if context is None:
        return z3.Const("no_context", core.Ob)
    if isinstance(context, SObj):
        return context.t
    return interp.obj_const(context)


def json_value(t: Any) -> SV:
    seqs.json_fact(t)
    return SV(t, True)


def skip_flag(options: Any) -> Any:
    s = getattr_(options, "skip_unassigned")
    if isinstance(s, bool):
        return z3.BoolVal(s)
    if isinstance(s, SBool):
        return s.t
    raise Unsupported("skip_unassigned is not a boolean")


def read_opaque(ty: Any, skip: Any, c: Any, data: Any) -> Any:
    "Outcome of reading a JSON value as an opaque type."
    d = to_V(data)
    if fork(P_ok(ty, skip, c, d)):
        r = P_val(ty, skip, c, d)
        for h in Mode.hooks:
            h(ty, skip, c, d, r)
        return SV(r)
    e = P_exc(ty, skip, c, d)
    ctx().add_fact(z3.And(e >= 0, e < (len(EXC_CLASSES) if Mode.other_exceptions else N_DOC)))
    raise PyRaise(ExcVal(None, e))


class AbsParser(Sym):
    def __init__(self, ty: Any, skip: Any, c: Any):
        self.ty, self.skip, self.c = ty, skip, c

    def vc_getattr(self, name: str) -> Any:
        if name == "parse":
            return Model(lambda data: read_opaque(self.ty, self.skip, self.c, data), "parse")
        if name == "build":
            return Model(lambda context: None, "build")
        raise Unsupported(f"attribute {name} of a parser")

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return AbsParser(*[core.substitute(t, *pairs) for t in (self.ty, self.skip, self.c)])

    def vc_same(self, other: Any, what: str) -> None:
        if not isinstance(other, AbsParser):
            refuted(what, False)
        goal(z3.And(self.ty == other.ty, self.skip == other.skip, self.c == other.c), what)

    def vc_truth(self) -> bool:
        return True


def write_opaque(ty: Any, c: Any, value: Any) -> Any:
    v = to_V(value)
    if Mode.round_trip is not False:
        # hypothesis: what is written is of the type, hence can be written
        ctx().axiom(("writable", ty, c, v), lambda: S_ok(ty, c, v))
    if fork(S_ok(ty, c, v)):
        return write_fact(ty, c, v)
    e = S_exc(ty, c, v)
    ctx().add_fact(z3.And(e >= 0, e < len(EXC_CLASSES)))
    raise PyRaise(ExcVal(None, e))


def write_fact(ty: Any, c: Any, v: Any) -> SV:
    r = S_val(ty, c, v)
    if Mode.round_trip is not False:
        skip = Mode.round_trip
        ctx().axiom(
            ("rt", ty, c, v),
            lambda: z3.And(P_ok(ty, skip, c, r), P_val(ty, skip, c, r) == v, z3.Implies(V.is_none(r), V.is_none(v))),
        )
        # reading what is not null as an optional type is reading it as the type without None
        u = unopt(ty)
        ctx().axiom(
            ("rt-optional", ty, c, v),
            lambda: z3.Implies(z3.And(opt(ty), z3.Not(V.is_none(r))), z3.And(P_ok(u, skip, c, r), P_val(u, skip, c, r) == v)),
        )
    if Mode.written is not None:
        Mode.written(ty, c, v, r)
    if Mode.json_writer:
        return json_value(r)
    return SV(r)


class AbsSerializer(Sym):
    def __init__(self, ty: Any, c: Any):
        self.ty, self.c = ty, c

    def vc_getattr(self, name: str) -> Any:
        if name == "generate":
            return Model(lambda v: write_opaque(self.ty, self.c, v), "generate")
        if name == "build":
            return Model(lambda context: None, "build")
        raise Unsupported(f"attribute {name} of a generator")

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return AbsSerializer(*[core.substitute(t, *pairs) for t in (self.ty, self.c)])

    def vc_truth(self) -> bool:
        return True


import datetime
import ipaddress
import uuid

BASIC = (type(None), bool, int, float, str, bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address)


def _opaque(typ: Any) -> bool:
    return isinstance(typ, TyOpaque)


def c_get_deserializer(typ: Any, context: Any, options: Any) -> Any:
    "Contract of `_get_deserializer`: the reader of the type, with the given options, in the given context."
    if isinstance(typ, SV):
        raise Unsupported("type of unknown kind")
    if _opaque(typ):
        return AbsParser(typ.t, skip_flag(options), ctx_term(context))
    if isinstance(typ, ClassSym) and typ.traits.get("opaque_reader"):
        return AbsParser(typ.t, skip_flag(options), z3.Const("own_module", core.Ob))
    if typ in BASIC:
        # the cache holds readers made by the factory (verified under C08)
        return call(D._create_deserializer, [typ, options], {})
    return NotImplemented


def c_get_serializer(typ: Any, context: Any) -> Any:
    "Contract of `_get_serializer`: the writer of the type in the given context."
    if _opaque(typ):
        return AbsSerializer(typ.t, ctx_term(context))
    if isinstance(typ, ClassSym) and typ.traits.get("opaque_reader"):
        return AbsSerializer(typ.t, z3.Const("own_module", core.Ob))
    if typ in BASIC:
        return call(S._create_serializer, [typ, context], {})
    return NotImplemented


CONTRACTS[D._get_deserializer] = c_get_deserializer
CONTRACTS[S._get_serializer] = c_get_serializer


# type names are used in messages only
def c_type_name(*args: Any, **kw: Any) -> Any:
    if all(interp.is_plain(a) for a in args):
        return NotImplemented
    return SStr([ctx().fresh(STR, "type_name")])


import strong_typing.name as N  # noqa: E402

CONTRACTS[N.python_type_to_str] = c_type_name
CONTRACTS[N.python_type_to_name] = c_type_name

# ---------------------------------------------------------------- arbitrary arguments


def any_type(name: str = "T") -> TyOpaque:
    return TyOpaque(z3.Const(name, core.Ty))


def any_types(name: str = "Ts") -> STuple:
    "A tuple of arbitrary length of arbitrary types."
    n = z3.Const(f"{name}_n", INT)
    f = z3.Function(name, INT, core.Ty)
    ctx().add_fact(n >= 0)
    return STuple(FnSeq(n, lambda j: TyOpaque(f(as_int(j))), key=name))


def any_json(name: str = "data") -> SV:
    return json_value(z3.Const(name, V))


def any_value(name: str = "value") -> SV:
    return SV(z3.Const(name, V))


def any_context(name: str = "context") -> SObj:
    return SObj(types.ModuleType, z3.Const(name, core.Ob))


def options_of(skip: Any = None) -> Any:
    "An arbitrary DeserializerOptions."
    o = Obj(D.DeserializerOptions)
    o.attrs["skip_unassigned"] = SBool(z3.Const("skip", BOOL)) if skip is None else skip
    return o


SKIP = z3.Const("skip", BOOL)


def spec(fn: Any) -> Any:
    "Runs a specification written in Python."

    def run(*args: Any) -> Any:
        return call(fn, list(args), {})

    return run


# specification functions that refer to the reader and writer of an opaque type


def read(typ: Any, data: Any) -> Any:
    raise NotImplementedError


def write(typ: Any, value: Any) -> Any:
    raise NotImplementedError


def _m_read(typ: Any, data: Any) -> Any:
    if not _opaque(typ):
        raise Unsupported("specification: opaque type expected")
    return read_opaque(typ.t, SKIP, z3.Const("context", core.Ob), data)


def _m_write(typ: Any, value: Any) -> Any:
    if not _opaque(typ):
        raise Unsupported("specification: opaque type expected")
    return write_opaque(typ.t, z3.Const("context", core.Ob), value)


CONTRACTS[read] = _m_read
CONTRACTS[write] = _m_write


# the writer that goes by the value alone

U_ok, U_val, U_exc = z3.Function("U_ok", V, BOOL), z3.Function("U_val", V, V), z3.Function("U_exc", V, INT)


def write_untyped(value: Any) -> Any:
    raise NotImplementedError


def _m_untyped(value: Any) -> Any:
    "Contract of `object_to_json` for a value of which nothing is known."
    if not isinstance(value, SV):
        return NotImplemented
    v = value.t
    if fork(U_ok(v)):
        r = U_val(v)
        return json_value(r) if Mode.json_writer else SV(r)
    e = U_exc(v)
    ctx().add_fact(z3.And(e >= 0, e < len(EXC_CLASSES)))
    raise PyRaise(ExcVal(None, e))


CONTRACTS[write_untyped] = _m_untyped
CONTRACTS[S.object_to_json] = _m_untyped

pn_plain = z3.Function("plain_property_name", STR, STR)


def plain_property_name(name: Any) -> Any:
    raise NotImplementedError


CONTRACTS[plain_property_name] = lambda name: SStr([pn_plain(interp.str_term(name))])


def reader_of(typ: Any, context: Any = None, options: Any = None) -> Any:
    "Executes the real factory for the reader of a structured type."
    context = context or any_context()
    options = options or options_of()
    p = call(D._create_deserializer, [typ, options], {})
    call(getattr_(p, "build"), [context], {})
    return p


def parse(p: Any, data: Any) -> Any:
    return call(getattr_(p, "parse"), [data], {})


def writer_of(typ: Any, context: Any = None) -> Any:
    context = context or any_context()
    s = call(S._create_serializer, [typ, context], {})
    call(getattr_(s, "build"), [context], {})
    return s


def generate(s: Any, value: Any) -> Any:
    return call(getattr_(s, "generate"), [value], {})


def branch(options: Any) -> Any:
    "One of several cases; all of them are explored."
    options = list(options)
    sel = z3.Const(ctx().name("case"), INT)
    k = ctx().decide([sel == j for j in range(len(options))])
    return options[k]


def require(cond: Any) -> None:
    "Precondition of an obligation."
    if isinstance(cond, bool):
        if not cond:
            raise core.Infeasible()
    else:
        ctx().assume(as_bool(cond))
        if not ctx().feasible():
            raise core.Infeasible()

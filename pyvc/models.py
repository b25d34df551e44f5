"Models of built-in and library functions, and of methods of built-in values (the trusted base)."

import base64
import builtins
import collections.abc
import copy
import dataclasses
import datetime
import decimal
import enum
import functools
import inspect
import ipaddress
import itertools
import keyword
import re
import sys
import types
import typing
import uuid
from typing import Any, Callable, Optional

import z3

from . import core, interp, seqs
from .core import (
    Digits, SBool, SBytes, SFloat, SInt, SObj, SStr, SV, Sym, Unsupported, V, as_int, ctx, fork,
)
from .interp import (
    ABSENT, BoundMethod, Closure, ExcVal, METHOD_MODELS, MODELS, Model, Obj, PyRaise, call, dict_lookup, dict_put, effect,
    getattr_, getitem, is_plain, iterate, kind_of, list_append, materialize, note_read, pyeq, raise_py, resolve, set_add,
    set_contains, setattr_, str_term, to_plain, to_seq, to_V, truth, truth_of,
)
from .seqs import ConcSeq, FnSeq, HandleSeq, LazyGen, NewObj, PDict, PList, PSet, Seq, STuple
from .types_ import ClassSym, SType, TyAnn, TyFwd, TyGen, TyOpaque, ty_const, type_eq, type_term

_NativeType = type
INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()


def model(*fns: Any) -> Callable:
    def wrap(f: Callable) -> Callable:
        for fn in fns:
            MODELS[fn] = f
        return f

    return wrap


def method(kind: str, *names: str) -> Callable:
    def wrap(f: Callable) -> Callable:
        for name in names:
            METHOD_MODELS[(kind, name)] = f
        return f

    return wrap


def uf(name: str, *sorts: Any) -> Any:
    return z3.Function(name, *sorts)


# ---------------------------------------------------------------- classes of values

KIND_CLASS = {
    "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "list": list, "tuple": tuple, "dict": dict,
    "set": set, "none": type(None),
}
isinst = uf("isinstance_of", core.Ob, core.Ty, BOOL)  # membership of an outside object in a class
obj_class = uf("class_of", core.Ob, core.Ty)
ty_is_class = uf("is_class", core.Ty, BOOL)  # an opaque type is a class
subclass = uf("is_subclass", core.Ty, core.Ty, BOOL)


def kind_condition(t: Any, cls: Any) -> Any:
    "Condition under which a value of unknown kind is an instance of a built-in class."
    if cls is object:
        return True
    out = []
    for k, c in KIND_CLASS.items():
        if isinstance(cls, type) and issubclass(c, cls):
            out.append(core.is_kind(t, k))
    if isinstance(cls, type) and not out or cls not in KIND_CLASS.values():
        if isinstance(cls, type) and not issubclass(cls, tuple(KIND_CLASS.values())):
            out.append(z3.And(V.is_obj(t), isinst(V.o(t), ty_const(cls))))
        if cls is type:
            out = [V.is_type(t), *[x for x in out if False]]
    return z3.Or(*out) if out else False


def isinstance_(x: Any, cls: Any) -> Any:
    if isinstance(cls, (PList, STuple)):
        cls = tuple(to_seq(cls).concrete() or ())
    if isinstance(cls, tuple):
        r = interp.any_of([isinstance_cond(x, c) for c in cls])
    else:
        r = isinstance_cond(x, cls)
    return r if isinstance(r, bool) else SBool(r)


def isinstance_cond(x: Any, cls: Any) -> Any:
    if isinstance(cls, TyGen) or isinstance(cls, TyAnn):
        if isinstance(cls, TyGen) and cls.new_style:
            return interp.any_of([isinstance_cond(x, c) for c in cls.args])
        raise PyRaise(ExcVal(TypeError))
    if isinstance(cls, SType):
        tt = type_term(cls)
        if isinstance(x, SObj):
            if x.cls is cls:
                return True
            return isinst(x.t, tt)
        if isinstance(x, NewObj):
            if x.cls is cls or (isinstance(x.cls, ClassSym) and x.cls.t.eq(tt)):
                return True
        if isinstance(x, SV) and not x.json:
            return inst_v(x.t, tt)
        if isinstance(cls, ClassSym) and (x is None or isinstance(x, (bool, int, str, float, SBool, SInt, SFloat, SStr, PList, PDict, SV))):
            return False
        if isinstance(cls, TyOpaque):
            return inst_v(to_V(x), tt)
        raise Unsupported("isinstance with a symbolic class")
    if cls is None:
        raise PyRaise(ExcVal(TypeError))
    if isinstance(x, SV):
        return kind_condition(x.t, cls)
    if isinstance(x, (SBool, SInt, SFloat, SStr, SBytes, PList, PDict, PSet, STuple)):
        return issubclass(KIND_CLASS[kind_of(x) or "?"], cls)
    if isinstance(x, Obj):
        return issubclass(x.cls, cls)
    if isinstance(x, ExcVal):
        if x.cls is None:
            codes = [k for k, c in enumerate(interp.EXC_CLASSES) if issubclass(c, cls)]
            return z3.Or(*[x.code == k for k in codes]) if codes else False
        return issubclass(x.cls, cls)
    if isinstance(x, SObj):
        if isinstance(x.cls, type):
            return issubclass(x.cls, cls)
        if isinstance(x.cls, ClassSym):
            base = x.cls.traits.get("bases", (object,))
            return any(issubclass(b, cls) for b in base)
        return isinst(x.t, ty_const(cls))
    if isinstance(x, NewObj):
        if isinstance(x.cls, ClassSym):
            return any(issubclass(b, cls) for b in x.cls.traits.get("bases", (object,)))
        return issubclass(x.cls, cls)
    if isinstance(x, ClassSym):
        if cls is type or cls is object:
            return True
        if cls is enum.EnumType:
            return x.kind == "enum"
        return False
    if isinstance(x, TyOpaque):
        if cls is type:
            return ty_is_class(x.t)
        if cls is types.UnionType:
            return z3.And(z3.Not(ty_is_class(x.t)), uf("is_new_union", core.Ty, BOOL)(x.t))
        if cls is enum.EnumType:
            return z3.And(ty_is_class(x.t), is_enum_class(x.t))
        if cls in (str, typing.ForwardRef):
            return False  # an arbitrary type is taken to be resolved
        if cls is types.GenericAlias:
            return z3.And(z3.Not(ty_is_class(x.t)), uf("is_generic_alias", core.Ty, BOOL)(x.t))
        raise Unsupported(f"isinstance of a type with {cls}")
    if isinstance(x, TyGen):
        if cls is types.UnionType:
            return x.new_style
        if cls is types.GenericAlias:
            return not x.new_style and x.origin in (list, dict, set, tuple, frozenset, type)
        if cls is object:
            return True
        return False
    if isinstance(x, TyAnn):
        return cls is object
    if isinstance(x, TyFwd):
        return cls in (typing.ForwardRef, object)
    if isinstance(x, (Closure, BoundMethod, Model)):
        if cls in (types.FunctionType, types.MethodType):
            return isinstance(x, Closure) == (cls is types.FunctionType)
        return cls in (object, collections.abc.Callable)
    if isinstance(x, LazyGen):
        return cls in (object, collections.abc.Iterable, collections.abc.Iterator)
    if isinstance(x, Sym):
        if hasattr(x, "vc_isinstance"):
            return x.vc_isinstance(cls)
        raise Unsupported(f"isinstance of {type(x).__name__}")
    try:
        return isinstance(x, cls)
    except TypeError:
        raise PyRaise(ExcVal(TypeError)) from None


is_enum_class = uf("is_enum_class", core.Ty, BOOL)
inst_v = uf("is_instance_v", V, core.Ty, BOOL)


@model(isinstance)
def m_isinstance(x: Any, cls: Any) -> Any:
    if hasattr(x, "vc_isinstance"):
        return x.vc_isinstance(cls)
    return isinstance_(x, cls)


def may_be_exception(x: ClassSym) -> bool:
    "Any class that may have arbitrary bases may derive from an exception."
    return x.kind in ("plain", "dataclass") and x.traits.get("bases", (object,)) == (object,)


@model(issubclass)
def m_issubclass(x: Any, cls: Any) -> Any:
    if isinstance(cls, (tuple, STuple, PList)):
        return any(truth(m_issubclass(x, c)) for c in to_seq(cls).concrete() or ())
    if isinstance(x, ClassSym):
        if isinstance(cls, type):
            if cls is Exception and may_be_exception(x):
                return SBool(subclass(x.t, ty_const(cls)))
            return any(issubclass(b, cls) for b in x.traits.get("bases", (object,)))
        return SBool(z3.Or(x.t == type_term(cls), subclass(x.t, type_term(cls))))
    if isinstance(x, TyOpaque):
        if cls is object:
            return True
        if not fork(ty_is_class(x.t)):
            raise_py(TypeError)
        if isinstance(cls, type):
            return SBool(subclass(x.t, ty_const(cls)))
        return SBool(z3.Or(x.t == type_term(cls), subclass(x.t, type_term(cls))))
    if isinstance(x, SType):
        raise_py(TypeError)
    if isinstance(x, Sym):
        if isinstance(x, SV):
            x = resolve(x)
            if not isinstance(x, SV) and isinstance(x, TyOpaque):
                return m_issubclass(x, cls)
        raise_py(TypeError)
    if isinstance(cls, Sym):
        if isinstance(x, type):
            return False
        raise Unsupported("issubclass")
    try:
        return issubclass(x, cls)
    except TypeError:
        raise PyRaise(ExcVal(TypeError)) from None


@model(type)
def m_type(x: Any) -> Any:
    x = resolve(x)
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, (SBool, SInt, SFloat, SStr, SBytes, PList, PDict, PSet, STuple)):
        return KIND_CLASS[kind_of(x) or "?"]
    if isinstance(x, (SObj, NewObj)):
        if x.cls is not None:
            return x.cls
        return TyOpaque(obj_class(x.t))
    if isinstance(x, ExcVal):
        return x.cls
    if isinstance(x, TyGen):
        if x.new_style:
            return types.UnionType
        raise Unsupported("type of a generic type")
    if isinstance(x, (ClassSym,)):
        return enum.EnumType if x.kind == "enum" else type
    if isinstance(x, TDelta):
        return datetime.timedelta
    if isinstance(x, Sym):
        raise Unsupported(f"type of {_NativeType(x).__name__}")
    return _NativeType(x)


@model(callable)
def m_callable(x: Any) -> Any:
    if isinstance(x, (Closure, BoundMethod, Model, SType)):
        return True
    if isinstance(x, Obj):
        return interp.class_lookup(x.cls, "__call__") is not None
    if isinstance(x, SV):
        return SBool(z3.Or(V.is_type(x.t), z3.And(V.is_obj(x.t), uf("is_callable", core.Ob, BOOL)(V.o(x.t)))))
    if isinstance(x, SObj):
        return SBool(uf("is_callable", core.Ob, BOOL)(x.t))
    if isinstance(x, Sym):
        return hasattr(x, "vc_call")
    return callable(x)


# ---------------------------------------------------------------- constructors and conversions


@model(bool)
def m_bool(x: Any = False) -> Any:
    if isinstance(x, SBool):
        return x
    if isinstance(x, SV) and ctx().implied(V.is_bool(x.t)):
        return SBool(V.b(x.t))
    return truth(x)


@model(int)
def m_int(x: Any = 0, base: Any = None) -> Any:
    x = resolve(x)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(as_int(x))
    if isinstance(x, SStr) and base is None:
        return int_of_str(x)
    if isinstance(x, Digits):
        return SInt(as_int(x.value))
    if isinstance(x, SFloat):
        return SInt(uf("float_to_int", core.Fl, INT)(x.t))
    if is_plain(x):
        try:
            return int(x) if base is None else int(x, base)
        except Exception as ex:
            raise PyRaise(ExcVal(type(ex))) from None
    if x is None or isinstance(x, (PList, PDict, PSet, STuple)):
        raise_py(TypeError)
    raise Unsupported(f"int of {_NativeType(x).__name__}")


def int_of_str(x: SStr) -> Any:
    if len(x.pieces) == 1 and isinstance(x.pieces[0], Digits):
        d = x.pieces[0]
        # the interpreter converts up to 4300 digits
        if d.length is not None:
            if d.length > 4300:
                raise_py(ValueError)
        elif not (d.shortest and ctx().implied(as_int(d.value) < 10**100)):
            from . import regex

            if fork(regex.run_length(d) > 4300):
                raise_py(ValueError)
        return SInt(as_int(d.value))
    if len(x.pieces) == 2 and x.pieces[0] == "-" and isinstance(x.pieces[1], Digits):
        return SInt(z3.simplify(-as_int(x.pieces[1].value)))
    # any text: int() succeeds or not
    s = x.t
    if fork(uf("int_text_ok", STR, BOOL)(s)):
        return SInt(uf("int_text", STR, INT)(s))
    raise_py(ValueError)


f_ofstr_ok = uf("float_text_ok", STR, BOOL)


@model(float)
def m_float(x: Any = 0.0) -> Any:
    x = resolve(x)
    if isinstance(x, SFloat):
        return x
    if isinstance(x, (SInt, SBool)):
        t = as_int(x)
        if not fork(core.f_fits(t)):
            raise_py(OverflowError)
        f = core.i2f(t)
        return SFloat(f)
    if isinstance(x, SStr):
        if fork(f_ofstr_ok(x.t)):
            return SFloat(uf("float_text", STR, core.Fl)(x.t))
        raise_py(ValueError)
    if is_plain(x):
        try:
            return float(x)
        except Exception as ex:
            raise PyRaise(ExcVal(type(ex))) from None
    if x is None or isinstance(x, (PList, PDict, PSet, STuple, Obj)):
        raise_py(TypeError)
    raise Unsupported("float")


str_of = uf("str_of", V, STR)


@model(str)
def m_str(x: Any = "", *args: Any) -> Any:
    if args:
        raise Unsupported("str with encoding")
    if isinstance(x, SV):
        if ctx().implied(V.is_str(x.t)):
            return SStr([V.s(x.t)])
        return SStr([z3.If(V.is_str(x.t), V.s(x.t), str_of(x.t))])
    if isinstance(x, SStr):
        return x
    if isinstance(x, SInt):
        return SStr(interp.format_value(x, ""))
    if isinstance(x, Obj):
        m = interp.class_lookup(x.cls, "__str__")
        if isinstance(m, types.FunctionType) and interp.is_verified(m):
            return call(m, [x], {})
        raise Unsupported("str of an object")
    m = METHOD_MODELS.get((interp.model_kind(x), "__str__"))
    if m is not None:
        return m(x)
    if isinstance(x, SObj):
        return SStr([str_of(V.obj(x.t))])
    if isinstance(x, SBool):
        return "True" if fork(x.t) else "False"
    if isinstance(x, Sym):
        raise Unsupported(f"str of {_NativeType(x).__name__}")
    return str(x)


repr_of = uf("repr_of", V, STR)


@model(repr)
def m_repr(x: Any) -> Any:
    if is_plain(x):
        return repr(x)
    if isinstance(x, Obj):
        m = interp.class_lookup(x.cls, "__repr__")
        if isinstance(m, types.FunctionType) and interp.is_verified(m):
            return call(m, [x], {})
    if isinstance(x, SType):
        raise Unsupported("repr of a type")
    try:
        return SStr([repr_of(to_V(x))])
    except Unsupported:
        raise Unsupported("repr") from None


@model(bytes)
def m_bytes(x: Any = b"") -> Any:
    if isinstance(x, SBytes):
        return x
    if is_plain(x):
        return bytes(x)
    raise Unsupported("bytes")


@model(list)
def m_list(x: Any = ()) -> Any:
    out = PList()
    x = resolve(x)
    if isinstance(x, PList) and ctx().recorder is None:
        note_read(x)
        out.segs = list(x.segs)
        return out
    if isinstance(x, STuple):
        out.segs = list(x.pl.segs)
        return out
    if hasattr(x, "vc_seq") and getattr(x, "whole", False):
        out.segs = [("seq", x.vc_seq())]  # type: ignore
        return out
    iterate(x, lambda y: list_append(out, y))
    return out


@model(tuple)
def m_tuple(x: Any = ()) -> Any:
    if isinstance(x, tuple):
        return x
    x = resolve(x)
    if isinstance(x, STuple):
        return x
    out = PList()
    iterate(x, lambda y: list_append(out, y))
    its = out.items()
    return tuple(its) if its is not None else STuple(out)


@model(set, frozenset)
def m_set(x: Any = ()) -> Any:
    if interp.NEW_SET is not None and isinstance(x, tuple) and not x:
        return interp.NEW_SET()
    if interp.NEW_SET is not None and getattr(x, "whole", False):
        return interp.NEW_SET(x)
    out = PSet()
    x = resolve(x)
    if isinstance(x, PSet) and ctx().recorder is None:
        note_read(x)
        out.segs = list(x.segs)
        return out
    iterate(x, lambda y: set_add(out, y))
    return out


@model(dict)
def m_dict(x: Any = None, **kw: Any) -> Any:
    if x is None and not kw and interp.NEW_DICT is not None:
        return interp.NEW_DICT()
    out = PDict()
    if hasattr(x, "vc_dict"):
        return x.vc_dict()
    if x is not None:
        dict_update(out, x)
    for k, v in kw.items():
        if k == "**":
            dict_update(out, v)
        else:
            dict_put(out, k, v)
    return out


@model(dict.fromkeys)
def m_fromkeys(x: Any, value: Any = None) -> Any:
    out = PDict()
    x = resolve(x)
    if interp.is_symbolic_iter(x):
        pl = materialize(x)
        q = pl.as_seq() if hasattr(pl, "as_seq") else to_seq(pl)
        i = z3.Const(ctx().name("any"), INT)
        ctx().add_fact(z3.And(i >= 0, z3.Implies(as_int(q.n) > 0, i < as_int(q.n))))
        pos = ctx().pos
        e = q.at(i)
        if not is_plain(e) or ctx().pos != pos:
            raise Unsupported("dict.fromkeys of different keys")
        # all keys are the same
        if fork(as_int(q.n) > 0):
            dict_put(out, e, value)
        return out
    iterate(x, lambda y: dict_put(out, y, value))
    return out


def dict_update(out: PDict, x: Any) -> None:
    x = resolve(x)
    if isinstance(x, PDict):
        if not out.segs and ctx().recorder is interp.container_birth(out):
            note_read(x)
            out.segs = list(x.segs)
            return
        interp.iterate_items(x, lambda k, v: dict_put(out, k, v))
        return
    if isinstance(x, dict):
        for k, v in x.items():
            dict_put(out, k, v)
        return

    def cb(p: Any) -> None:
        s = to_seq(p)
        if not isinstance(s.n, int) or s.n != 2:
            raise Unsupported("pairs expected")
        dict_put(out, s.at(0), s.at(1))

    iterate(x, cb)


# ---------------------------------------------------------------- iteration helpers


def dict_size(d: PDict) -> Any:
    "A number between 0 and the number of assignments that is 0 exactly if the dictionary is empty."
    state = tuple(id(s) for s in d.segs)
    if getattr(d, "size", (None, None))[0] == state:
        return d.size[1]  # type: ignore
    n = ctx().fresh(INT, "size")
    most: Any = 0
    for s in d.segs:
        if s[0] == "seq":
            most = seqs.iadd(most, s[1].n)
        elif s[0] == "put":
            most = seqs.iadd(most, 1)
        else:
            raise Unsupported("len of a dictionary")
    ctx().add_fact(z3.And(n >= 0, n <= as_int(most)))
    ctx().add_fact(n == 0 if interp.is_empty(d) else n > 0)
    d.size = (state, n)  # type: ignore
    return n


@model(len)
def m_len(x: Any) -> Any:
    x = resolve(x)
    if isinstance(x, PList):
        note_read(x)
        n = x.length()
    elif isinstance(x, STuple):
        n = x.pl.length()
    elif isinstance(x, PDict):
        note_read(x)
        if all(s[0] == "put" for s in x.segs):
            interp.check_distinct_keys(x)
            n = len(x.segs)
        elif len(x.segs) == 1 and x.segs[0][0] == "handle":
            n = core.dict_len(x.segs[0][1])
            ctx().axiom(("len", x.segs[0][1]), lambda: n >= 0)
        else:
            n = dict_size(x)
    elif isinstance(x, PSet):
        note_read(x)
        n = set_size(x)
    elif isinstance(x, SStr):
        if any(isinstance(p, Digits) for p in x.pieces):
            n = 0
            for p in x.pieces:
                if isinstance(p, Digits):
                    if p.length is None:
                        raise Unsupported("length of a digit run")
                    n = seqs.iadd(n, p.length)
                else:
                    n = seqs.iadd(n, len(p) if isinstance(p, str) else z3.Length(p))
        else:
            n = z3.Length(x.t)
    elif isinstance(x, SBytes):
        n = uf("bytes_len", core.By, INT)(x.t)
    elif hasattr(x, "vc_len"):
        return x.vc_len()
    elif isinstance(x, ClassSym) and "members" in x.traits:
        n = x.traits["members"].n
    elif isinstance(x, Sym):
        if isinstance(x, (SInt, SBool, SFloat)) or x is None:
            raise_py(TypeError)
        raise Unsupported(f"len of {_NativeType(x).__name__}")
    else:
        try:
            return len(x)
        except TypeError:
            raise PyRaise(ExcVal(TypeError)) from None
    if isinstance(n, int):
        return n
    n = z3.simplify(n)
    return n.as_long() if z3.is_int_value(n) else SInt(n)


def set_size(x: PSet) -> Any:
    if len(x.segs) == 1 and x.segs[0][0] == "handle":
        n = core.set_len(x.segs[0][1])
        ctx().axiom(("len", x.segs[0][1]), lambda: n >= 0)
        return n
    if all(s[0] == "item" for s in x.segs):
        items: list = []
        for s in x.segs:
            if not any(truth_of(pyeq(s[1], y)) for y in items):
                items.append(s[1])
        x.segs = [("item", y) for y in items]
        return len(items)
    # some elements from a sequence: the number is known to be zero, one or more
    firsts: list = []
    n = ctx().fresh(INT, "setlen")
    if len(x.segs) == 1 and x.segs[0][0] == "seq":
        q = x.segs[0][1]
        if not fork(as_int(q.n) > 0):
            return 0
        a = q.at(0)
        k = seqs.find_first(q.n, lambda j: not truth_of(pyeq(q.at(j), a)))
        if k is None:
            x.segs = [("item", a)]
            return 1
        ctx().add_fact(z3.And(n >= 2, n <= as_int(q.n)))
        return n
    raise Unsupported("size of a set")


@model(all)
def m_all(x: Any) -> Any:
    return search(x, lambda y: not truth(y), True)


@model(any)
def m_any(x: Any) -> Any:
    return search(x, lambda y: truth(y), False)


class _Stop(Exception):
    pass


def search(x: Any, pred: Callable[[Any], bool], default: bool) -> bool:
    "True if some element satisfies the predicate; generators are evaluated lazily."

    def cb(y: Any) -> None:
        if pred(y):
            raise interp.StopSig(not default)

    try:
        iterate(x, cb)
    except interp.StopSig as s:
        return s.value
    return default


@model(zip)
def m_zip(*xs: Any, strict: bool = False) -> Any:
    ss = [to_seq(x) for x in xs]
    if strict:
        for s in ss[1:]:
            if not seqs.same_int(ss[0].n, s.n):
                raise Unsupported("zip(strict=True) of sequences of different length")
    cs = [s.concrete() for s in ss]
    if all(c is not None for c in cs):
        return PList.of(zip(*cs))  # type: ignore
    return PList.from_seq(seqs.ZipSeq(ss))


@model(enumerate)
def m_enumerate(x: Any, start: Any = 0) -> Any:
    s = to_seq(x)
    c = s.concrete()
    if c is not None and isinstance(start, int):
        return PList.of((k, y) for k, y in enumerate(c, start))
    return PList.from_seq(seqs.EnumSeq(s, start if isinstance(start, int) else as_int(start)))


@model(range)
def m_range(*args: Any) -> Any:
    if all(isinstance(a, int) for a in args):
        return range(*args)
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    return PList.from_seq(seqs.RangeSeq(resolve(lo), resolve(hi)))


@model(map)
def m_map(fn: Any, *xs: Any) -> Any:
    src = xs[0] if len(xs) == 1 else m_zip(*xs)
    return LazyGen(lambda cb: iterate(src, lambda y: cb(call(fn, [y] if len(xs) == 1 else list(y), {}))))


@model(filter)
def m_filter(fn: Any, x: Any) -> Any:
    def run(cb: Any) -> None:
        def cb2(y: Any) -> None:
            if truth(y if fn is None else call(fn, [y], {})):
                cb(y)

        iterate(x, cb2)

    return LazyGen(run)


@model(itertools.chain)
def m_chain(*xs: Any) -> Any:
    def run(cb: Any) -> None:
        for x in xs:
            iterate(x, cb)

    return LazyGen(run)


@model(itertools.chain.from_iterable)
def m_chain_it(x: Any) -> Any:
    return LazyGen(lambda cb: iterate(x, lambda y: iterate(y, cb)))


@model(iter)
def m_iter(x: Any) -> Any:
    if isinstance(x, LazyGen):
        return x
    return OneIter(x)


class OneIter(LazyGen):
    "An iterator over a sequence; next() takes the first element."

    def __init__(self, x: Any):
        super().__init__(lambda cb: iterate(x, cb))


_no_default = object()


@model(next)
def m_next(it: Any, default: Any = _no_default) -> Any:
    if not isinstance(it, LazyGen):
        raise_py(TypeError)

    def cb(y: Any) -> None:
        raise interp.StopSig((y,))

    try:
        iterate(it, cb)
    except interp.StopSig as s:
        return s.value[0]
    if default is _no_default:
        raise_py(StopIteration)
    return default


@model(sorted)
def m_sorted(x: Any, **kw: Any) -> Any:
    if hasattr(x, "vc_sorted"):
        return x.vc_sorted(**kw)
    p = materialize(x)
    its = p.items()
    if its is not None and all(is_plain(i) for i in its):
        if "key" in kw and isinstance(kw["key"], Sym):
            raise Unsupported("sorted with key")
        return PList.of(sorted(its, **kw))
    if its is None and "key" in kw and not kw.get("reverse"):
        return PList(partition(p.to_seq(), kw["key"]))
    raise Unsupported("sorted")


@model(reversed)
def m_reversed(x: Any) -> Any:
    s = to_seq(x)
    c = s.concrete()
    if c is not None:
        return PList.of(reversed(c))
    n = as_int(s.n)
    return PList.from_seq(seqs.FnSeq(s.n, lambda j: s.at(z3.simplify(n - 1 - as_int(j)))))


def _minmax(lt: Callable) -> Callable:
    def f(*args: Any, **kw: Any) -> Any:
        if kw:
            raise Unsupported("min/max with options")
        if len(args) == 1:
            its = to_seq(args[0]).concrete()
            if its is None:
                s = to_seq(args[0])
                if not fork(as_int(s.n) > 0):
                    raise_py(ValueError)
                m = ctx().fresh(INT, "extreme")
                k = ctx().fresh(INT, "at")
                ctx().add_fact(z3.And(k >= 0, k < as_int(s.n)))
                w = resolve(s.at(k))
                if not isinstance(w, (SInt, SBool)):
                    raise Unsupported("min/max")
                i0 = z3.Const(ctx().name("i"), INT)
                paths = core.explore(lambda: as_int(resolve(s.at(i0))), index=i0, bound=as_int(s.n))
                for p in paths:
                    ctx().add_universal(core.Universal(i0, as_int(s.n), z3.Implies(p.cond, lt(as_int(w), p.result))))
                ctx().add_fact(m == as_int(w))
                return SInt(m)
        else:
            its = list(args)
        if not its:
            raise_py(ValueError)
        if all(is_plain(x) for x in its):
            return min(its) if lt(1, 2) is True else max(its)
        cur = as_int(resolve(its[0]))
        for x in its[1:]:
            y = as_int(resolve(x))
            cur = z3.If(lt(cur, y), cur, y)
        return SInt(z3.simplify(cur))

    return f


MODELS[min] = _minmax(lambda a, b: a <= b)
MODELS[max] = _minmax(lambda a, b: a >= b)


@model(sum)
def m_sum(x: Any, start: Any = 0) -> Any:
    its = materialize(x).items()
    if its is None:
        raise Unsupported("sum")
    import ast

    for y in its:
        start = interp.binop(ast.Add(), start, y)
    return start


@model(abs)
def m_abs(x: Any) -> Any:
    x = resolve(x)
    if isinstance(x, SInt):
        return SInt(z3.If(x.t >= 0, x.t, -x.t))
    if is_plain(x):
        return abs(x)
    raise Unsupported("abs")


@model(id)
def m_id(x: Any) -> Any:
    raise Unsupported("id")


@model(print)
def m_print(*a: Any, **kw: Any) -> None:
    return None


# ---------------------------------------------------------------- attributes

obj_attr = uf("attr", core.Ob, STR, V)
obj_has = uf("has_attr", core.Ob, STR, BOOL)


@model(getattr)
def m_getattr(obj: Any, name: Any, default: Any = _no_default) -> Any:
    name = name if isinstance(name, str) else resolve(name)
    if isinstance(name, SStr) and all(isinstance(p, str) for p in name.pieces):
        name = "".join(name.pieces)
    obj = resolve(obj)
    if hasattr(obj, "vc_attr"):
        return obj.vc_attr(name, default)
    if isinstance(obj, SObj) and not (isinstance(name, str) and name.startswith("__")):
        cls = obj.cls
        if isinstance(cls, ClassSym) and "getattr" in cls.traits:
            return cls.traits["getattr"](obj, name)
        raise Unsupported("getattr of an opaque object")
    if isinstance(obj, NewObj):
        found, v = dict_lookup(obj.attrs, name)
        if found:
            return v
        if default is not _no_default:
            return default
        raise_py(AttributeError)
    if not isinstance(name, str):
        raise Unsupported("symbolic attribute name")
    try:
        return getattr_(obj, name)
    except PyRaise as ex:
        if ex.exc.cls is AttributeError and default is not _no_default:
            return default
        raise


@model(hasattr)
def m_hasattr(obj: Any, name: Any) -> Any:
    missing = object()
    try:
        r = m_getattr(obj, name, missing)
    except PyRaise as ex:
        if ex.exc.cls is AttributeError:
            return False
        raise
    return r is not missing


@model(setattr)
def m_setattr(obj: Any, name: Any, value: Any) -> None:
    setattr_(obj, name if isinstance(name, str) else resolve(name), value)


@model(object.__setattr__)
def m_obj_setattr(obj: Any, name: Any, value: Any) -> None:
    interp.touch(obj)
    if isinstance(obj, NewObj):
        dict_put(obj.attrs, name, value)
        return
    if isinstance(obj, Obj) and isinstance(name, str):
        obj.attrs[name] = value
        return
    raise Unsupported("object.__setattr__")


@model(object.__new__)
def m_new(cls: Any) -> Any:
    if isinstance(cls, ClassSym):
        if may_be_exception(cls) and fork(subclass(cls.t, ty_const(Exception))):
            raise_py(TypeError)  # object.__new__(E) is not safe
        return NewObj(cls, PDict())
    if isinstance(cls, type):
        return Obj(cls)
    raise Unsupported("object.__new__")


def new_of(cls: ClassSym) -> Any:
    "The allocator that a class inherits."
    if may_be_exception(cls):
        return Model(lambda c, *args, **kwargs: NewObj(c, PDict()), "__new__")
    return object.__new__


@model(dir)
def m_dir(obj: Any) -> Any:
    if hasattr(obj, "vc_dir"):
        return obj.vc_dir()
    if isinstance(obj, SObj) and isinstance(obj.cls, ClassSym) and "dir" in obj.cls.traits:
        return obj.cls.traits["dir"]()
    raise Unsupported("dir")


@model(vars)
def m_vars(obj: Any) -> Any:
    return getattr_(obj, "__dict__")


# ---------------------------------------------------------------- typing


@model(typing.cast)
def m_cast(t: Any, x: Any) -> Any:
    return x


@model(typing.get_origin)
def m_get_origin(t: Any) -> Any:
    if isinstance(t, TyGen):
        return types.UnionType if t.new_style else t.origin
    if isinstance(t, TyAnn):
        return typing.Annotated
    if isinstance(t, (ClassSym, TyFwd)):
        return None
    if isinstance(t, TyOpaque):
        if ctx().implied(ty_is_class(t.t)):
            return None
        return OpaqueOrigin(t)
    if isinstance(t, SV):
        t = resolve(t)
        return m_get_origin(t)
    if isinstance(t, Sym):
        return None
    return typing.get_origin(t)


class OpaqueOrigin(Sym):
    "Origin of an arbitrary type: only compared with known origins."

    def __init__(self, ty: TyOpaque):
        self.ty = ty

    def vc_is(self, other: Any) -> Any:
        if other is None:
            return uf("origin_none", core.Ty, BOOL)(self.ty.t)
        names = {typing.Annotated: "ann", typing.Union: "union", types.UnionType: "newunion", typing.Literal: "literal"}
        nm = names.get(other, getattr(other, "__name__", None))
        if nm is None:
            raise Unsupported("origin")
        return origin_of(self.ty.t) == origin_code(nm)


origin_of = uf("origin_of", core.Ty, INT)
_codes: dict[str, int] = {}


def origin_code(nm: str) -> int:
    return _codes.setdefault(nm, len(_codes) + 1)


@model(typing.get_args)
def m_get_args(t: Any) -> Any:
    if isinstance(t, TyGen):
        return t.args
    if isinstance(t, TyAnn):
        if isinstance(t.metadata, STuple):
            return STuple(PList([("item", t.inner), *t.metadata.pl.segs]))
        return (t.inner, *t.metadata)
    if isinstance(t, ClassSym):
        return ()
    if isinstance(t, TyOpaque):
        if ctx().implied(ty_is_class(t.t)):
            return ()
        raise Unsupported("arguments of an arbitrary type")
    return typing.get_args(t)


@method("TyAnn", "__metadata__")
def _() -> None:  # replaced below
    raise AssertionError


del METHOD_MODELS[("TyAnn", "__metadata__")]


def _tyann_attr(self: TyAnn, name: str) -> Any:
    if name == "__metadata__":
        return self.metadata
    if name == "__origin__":
        return self.inner
    if name == "__args__":
        return (self.inner,)
    return getattr_(self.inner, name)  # attribute access is forwarded


TyAnn.vc_getattr = _tyann_attr  # type: ignore


def _tygen_attr(self: TyGen, name: str) -> Any:
    if name == "__origin__":
        return self.origin
    if name == "__args__":
        return self.args
    if name in ("__metadata__", "__annotations__", "to_json", "from_json", "__dataclass_params__", "__dataclass_fields__", "_fields", "__forward_arg__", "__required_keys__"):
        raise_py(AttributeError)
    if name == "__name__":
        if isinstance(self.origin, type):
            return self.origin.__name__
    if name == "__module__":
        return getattr(self.origin, "__module__", "typing")
    if name == "copy_with":
        def copy_with(args: Any) -> Any:
            return TyGen(self.origin, args, self.new_style)

        return Model(copy_with, "copy_with")
    return NotImplemented


TyGen.vc_getattr = _tygen_attr  # type: ignore


def _tygen_hash_eq(a: Any, b: Any) -> Any:
    return None


def _tyopaque_attr(self: TyOpaque, name: str) -> Any:
    if name == "__metadata__":
        # an arbitrary type that is asked for annotations: decided by predicate
        if fork(is_annotated(self.t)):
            raise Unsupported("annotations of an arbitrary type")
        raise_py(AttributeError)
    if name == "__name__":
        return SStr([uf("type_name", core.Ty, STR)(self.t)])
    if name == "__module__":
        return SStr([uf("type_module", core.Ty, STR)(self.t)])
    return NotImplemented


is_annotated = uf("is_annotated", core.Ty, BOOL)
TyOpaque.vc_getattr = _tyopaque_attr  # type: ignore


def _class_attr(self: ClassSym, name: str) -> Any:
    tr = self.traits.get("attrs", {})
    if name in tr:
        v = tr[name]
        if v is AttributeError:
            raise_py(AttributeError)
        return v() if callable(v) and not isinstance(v, (Sym, type)) else v
    if name == "__module__":
        return "__main__"
    if name in ("__name__", "__qualname__"):
        return SStr([uf("type_name", core.Ty, STR)(self.t)])
    if name in ("__metadata__", "__forward_arg__"):
        raise_py(AttributeError)
    if name == "__new__":
        return new_of(self)
    return NotImplemented


ClassSym.vc_getattr = _class_attr  # type: ignore


def _fwd_attr(self: TyFwd, name: str) -> Any:
    if name == "__forward_arg__":
        return self.arg
    if name == "__metadata__":
        raise_py(AttributeError)
    return NotImplemented


TyFwd.vc_getattr = _fwd_attr  # type: ignore


@model(inspect.isclass)
def m_isclass(x: Any) -> Any:
    return isinstance_(x, type)


@model(dataclasses.is_dataclass)
def m_is_dataclass(x: Any) -> Any:
    if isinstance(x, ClassSym):
        return x.kind == "dataclass"
    if isinstance(x, Obj):
        return dataclasses.is_dataclass(x.cls)
    if isinstance(x, (TyGen, TyAnn)):
        return False
    if isinstance(x, (SV, SObj)):
        if isinstance(x, SObj) and isinstance(x.cls, ClassSym):
            return x.cls.kind == "dataclass"
        raise Unsupported("is_dataclass")
    if isinstance(x, TyOpaque):
        raise Unsupported("is_dataclass of an arbitrary type")
    if isinstance(x, Sym):
        return False
    return dataclasses.is_dataclass(x)


@model(dataclasses.fields)
def m_fields(x: Any) -> Any:
    if isinstance(x, ClassSym):
        f = x.traits.get("fields")
        if f is None:
            raise_py(TypeError)
        return STuple(f())
    if isinstance(x, Obj):
        return tuple(dataclasses.fields(x.cls))
    if isinstance(x, SObj) and isinstance(x.cls, ClassSym):
        return m_fields(x.cls)
    if isinstance(x, Sym):
        raise Unsupported("fields")
    try:
        return tuple(dataclasses.fields(x))
    except TypeError:
        raise PyRaise(ExcVal(TypeError)) from None


@model(dataclasses.replace)
def m_replace(x: Any, **kw: Any) -> Any:
    if isinstance(x, Obj):
        attrs = {f.name: x.attrs[f.name] for f in dataclasses.fields(x.cls)}
        attrs.update(kw)
        return call(x.cls, [], attrs)
    raise Unsupported("replace")


@model(typing.get_type_hints)
def m_hints(x: Any, *a: Any, **kw: Any) -> Any:
    if isinstance(x, ClassSym):
        return x.traits["hints"](bool(kw.get("include_extras", False)))
    if isinstance(x, Sym):
        raise Unsupported("get_type_hints")
    return interp.from_native(typing.get_type_hints(x, *a, **kw))


@model(copy.copy)
def m_copy(x: Any) -> Any:
    if isinstance(x, PDict):
        return m_dict(x)
    if isinstance(x, PList):
        return m_list(x)
    if isinstance(x, (SV,)):
        r = resolve(x)
        if isinstance(r, (PDict, PList)):
            return m_copy(r)
        return x
    if isinstance(x, Obj):
        o = Obj(x.cls, dict(x.attrs))
        return o
    if isinstance(x, Sym):
        return x
    return interp.from_native(copy.copy(x))


@model(copy.deepcopy)
def m_deepcopy(x: Any, memo: Any = None) -> Any:
    if isinstance(x, PDict):
        if all(s[0] == "put" for s in x.segs):
            return PDict([("put", s[1], m_deepcopy(s[2])) for s in x.segs])
        if len(x.segs) == 1 and x.segs[0][0] == "handle":
            return PDict(list(x.segs))
    if isinstance(x, PList):
        its = x.items()
        if its is not None:
            return PList.of(m_deepcopy(y) for y in its)
    if isinstance(x, SV):
        return x
    if is_plain(x):
        return interp.from_native(copy.deepcopy(x))
    raise Unsupported("deepcopy")


# ---------------------------------------------------------------- strings


def as_sstr(x: Any) -> SStr:
    x = resolve(x)
    if isinstance(x, str):
        return SStr([x])
    if isinstance(x, SStr):
        return x
    raise_py(TypeError)
    raise AssertionError


@method("str", "endswith")
def s_endswith(self: Any, suffix: Any) -> Any:
    if isinstance(suffix, tuple):
        return any(truth(s_endswith(self, s)) for s in suffix)
    s = as_sstr(self)
    if isinstance(suffix, str):
        if not suffix:
            return True
        tail = trailing_literal(s)
        if tail is not None and len(tail) >= len(suffix):
            return tail.endswith(suffix)
        if tail and not suffix.endswith(tail):
            return False
        if s.pieces and isinstance(s.pieces[-1], Digits):
            if not suffix[-1].isdigit():
                return False
            raise Unsupported("endswith on digits")
    return SBool(z3.SuffixOf(str_term(suffix), s.t))


def trailing_literal(s: SStr) -> Optional[str]:
    if not s.pieces:
        return ""
    return s.pieces[-1] if isinstance(s.pieces[-1], str) else ""


@method("str", "startswith")
def s_startswith(self: Any, prefix: Any) -> Any:
    if isinstance(prefix, tuple):
        return any(truth(s_startswith(self, s)) for s in prefix)
    s = as_sstr(self)
    if isinstance(prefix, str):
        if not prefix:
            return True
        head = s.pieces[0] if s.pieces and isinstance(s.pieces[0], str) else ""
        if head and len(head) >= len(prefix):
            return head.startswith(prefix)
        if head and not prefix.startswith(head):
            return False
        if s.pieces and isinstance(s.pieces[0], Digits):
            if not prefix[0].isdigit():
                return False
            raise Unsupported("startswith on digits")
    return SBool(z3.PrefixOf(str_term(prefix), s.t))


@method("str", "__getitem__")
def s_getitem(self: Any, key: Any) -> Any:
    s = as_sstr(self)
    if not isinstance(key, slice):
        if isinstance(key, int) and key in (0, -1):
            if not fork(z3.Length(s.t) > 0):
                raise_py(IndexError)
            n = z3.Length(s.t)
            return SStr([z3.SubString(s.t, 0 if key == 0 else n - 1, 1)])
        raise Unsupported("string index")
    lo, hi = key.start, key.stop
    if key.step is not None:
        raise Unsupported("string slice with step")
    lo = 0 if lo is None else lo
    if isinstance(lo, int) and lo >= 0 and hi is None:
        if s.pieces and isinstance(s.pieces[0], str) and len(s.pieces[0]) >= lo:
            return SStr([s.pieces[0][lo:], *s.pieces[1:]])
        t = s.t
        return SStr([z3.SubString(t, lo, z3.Length(t) - lo)])
    if lo == 0 and isinstance(hi, int) and hi < 0:
        if s.pieces and isinstance(s.pieces[-1], str) and len(s.pieces[-1]) >= -hi:
            return SStr([*s.pieces[:-1], s.pieces[-1][:hi]])
        t = s.t
        # a slice beyond the start of the string is empty
        return SStr([z3.SubString(t, 0, z3.Length(t) + hi)])
    if lo == 0 and isinstance(hi, (int, SInt)):
        h = as_int(hi)
        t = s.t
        if isinstance(hi, int) or ctx().implied(h >= 0):
            return SStr([z3.SubString(t, 0, h)])
        return SStr([z3.SubString(t, 0, z3.If(h >= 0, h, z3.Length(t) + h))])
    if isinstance(lo, int) and lo < 0 and hi is None:
        t = s.t
        if fork(z3.Length(t) >= -lo):
            return SStr([z3.SubString(t, z3.Length(t) + lo, -lo)])
        return s
    raise Unsupported("string slice")


@method("str", "removesuffix")
def s_removesuffix(self: Any, suffix: Any) -> Any:
    if truth(s_endswith(self, suffix)):
        if isinstance(suffix, str):
            return s_getitem(self, slice(None, -len(suffix), None)) if suffix else self
        t = as_sstr(self).t
        return SStr([z3.SubString(t, 0, z3.Length(t) - z3.Length(str_term(suffix)))])
    return self


@method("str", "removeprefix")
def s_removeprefix(self: Any, prefix: Any) -> Any:
    if truth(s_startswith(self, prefix)):
        if isinstance(prefix, str):
            return s_getitem(self, slice(len(prefix), None, None))
        raise Unsupported("removeprefix")
    return self


@method("str", "join")
def s_join(self: Any, items: Any) -> Any:
    p = materialize(items) if isinstance(items, LazyGen) else items
    p = p if isinstance(p, PList) else PList.from_seq(to_seq(p))
    its = p.items() if not p.is_filter() else None
    if its is None:
        return SStr([JoinTerm.make(self, p)])
    out: list = []
    for k, x in enumerate(its):
        x = resolve(x)
        if not isinstance(x, (str, SStr)):
            raise_py(TypeError)
        if k:
            out.append(self)
        out.extend(x.pieces if isinstance(x, SStr) else [x])
    s = SStr(out)
    if all(isinstance(q, str) for q in s.pieces):
        return "".join(s.pieces)
    return s


class JoinTerm:
    "Text of `sep.join(items)` for a sequence of symbolic length: an opaque string that is determined by the items."

    table: list = []  # the joined texts of the current path
    items_are_not_empty = False

    @classmethod
    def reset(cls) -> None:
        cls.items_are_not_empty = False
        cls.table.clear()

    @staticmethod
    def make(sep: Any, p: PList) -> Any:
        t = ctx().fresh(STR, "join")
        n = as_int(p.length()) if not p.is_filter() else None
        if n is not None and isinstance(sep, str):
            ctx().add_fact(z3.Implies(n == 0, z3.Length(t) == 0))
            if sep:
                ctx().add_fact(z3.Implies(n >= 2, z3.Length(t) > 0))
            if JoinTerm.items_are_not_empty:
                ctx().add_fact(z3.Implies(n >= 1, z3.Length(t) > 0))
        JoinTerm.table.append((t, sep, p))
        return t


@model(__import__("re").escape)
def m_re_escape(x: Any) -> Any:
    x = resolve(x)
    return SStr([uf("re_escape", STR, STR)(interp.str_term(x))])


@method("str", "ljust")
def s_ljust(self: Any, width: Any, fill: Any = " ") -> Any:
    s = as_sstr(self)
    if len(s.pieces) == 1 and isinstance(s.pieces[0], Digits) and fill == "0" and isinstance(width, int):
        d = s.pieces[0]
        if d.length is not None and isinstance(d.length, int):
            if d.length >= width:
                return s
            return SStr([Digits(z3.simplify(as_int(d.value) * 10 ** (width - d.length)), width, False)])
        if d.len_t is not None and ctx().implied(d.len_t >= width):
            return s
    raise Unsupported("ljust")


@method("str", "rjust", "zfill")
def s_rjust(self: Any, width: Any, fill: Any = "0") -> Any:
    s = as_sstr(self)
    if len(s.pieces) == 1 and isinstance(s.pieces[0], Digits) and fill == "0" and isinstance(width, int):
        d = s.pieces[0]
        if d.length is not None and isinstance(d.length, int) and d.length >= width:
            return s
        if d.length is not None and isinstance(d.length, int) or (d.shortest and ctx().implied(as_int(d.value) < 10**width)):
            return SStr([Digits(d.value, width, False)])
    raise Unsupported("rjust")


@method("str", "rstrip")
def s_rstrip(self: Any, chars: Any = None) -> Any:
    raise Unsupported("rstrip")


@method("str", "strip", "lstrip", "split", "partition", "rpartition", "replace", "splitlines", "lower", "upper", "casefold", "find", "index", "count", "isidentifier", "title", "capitalize")
def s_unsupported(self: Any, *a: Any, **kw: Any) -> Any:
    raise Unsupported("string method")


@method("str", "isdigit", "isdecimal")
def s_isdigit(self: Any) -> Any:
    s = as_sstr(self)
    if s.pieces and all(isinstance(p, Digits) or isinstance(p, str) and p.isdigit() for p in s.pieces):
        return True
    raise Unsupported("isdigit")


@method("str", "encode")
def s_encode(self: Any, enc: Any = "utf-8", *a: Any) -> Any:
    return SBytes(uf("encode_" + str(enc), STR, core.By)(as_sstr(self).t))


iskw = uf("is_keyword", STR, BOOL)


@model(keyword.iskeyword)
def m_iskeyword(x: Any) -> Any:
    if isinstance(x, str):
        return keyword.iskeyword(x)
    s = as_sstr(x)
    t = s.t
    return SBool(z3.Or(*[t == z3.StringVal(k) for k in keyword.kwlist]))


# ---------------------------------------------------------------- lists, tuples


@method("list", "append")
def l_append(self: PList, x: Any) -> None:
    list_append(self, x)


@method("list", "extend")
def l_extend(self: PList, x: Any) -> None:
    interp.append_all(self, x)


@method("list", "copy")
def l_copy(self: PList) -> Any:
    return m_list(self)


@method("list", "index")
@method("tuple", "index")
def l_index(self: Any, x: Any) -> Any:
    s = to_seq(self)
    k = seqs.find_first(s.n, lambda j: truth_of(pyeq(s.at(j), x)))
    if k is None:
        raise_py(ValueError)
    return k if isinstance(k, int) else SInt(k)


@method("list", "insert")
def l_insert(self: PList, k: Any, x: Any) -> None:
    if k == 0 and ctx().recorder is interp.container_birth(self):
        self.segs.insert(0, ("item", x))
        self.src = None
        return
    raise Unsupported("insert")


@method("list", "pop")
def l_pop(self: PList, k: Any = -1) -> Any:
    its = self.items()
    if its is None or ctx().recorder is not interp.container_birth(self) or not isinstance(k, int):
        raise Unsupported("pop")
    if not -len(its) <= k < len(its):
        raise_py(IndexError)
    v = its.pop(k)
    self.segs = [("item", x) for x in its]
    self.src = None
    return v


def partition(q: Seq, key: Any) -> list:
    "Items in the order of a key that is a truth value: those for which it is false come first."

    def which(j: Any, want: bool) -> Any:
        x = q.at(j)
        if x is ABSENT:
            return x
        k = resolve(call(key, [x], {}))
        if not isinstance(k, (bool, SBool)):
            raise Unsupported("sort by a key that is not a truth value")
        return x if truth(k) is want else ABSENT

    return [("filter", FnSeq(q.n, lambda j: which(j, False))), ("filter", FnSeq(q.n, lambda j: which(j, True)))]


@method("list", "sort")
def l_sort(self: PList, *, key: Any = None, reverse: Any = False) -> None:
    if key is None or reverse is not False or ctx().recorder is not interp.container_birth(self):
        raise Unsupported("sort")
    its = self.items()
    q = ConcSeq(its) if its is not None else self.to_seq()
    self.segs, self.src = partition(q, key), None


@method("list", "reverse")
def l_reverse(self: PList) -> None:
    its = self.items()
    if its is None or ctx().recorder is not interp.container_birth(self):
        raise Unsupported("reverse")
    self.segs = [("item", x) for x in reversed(its)]


@method("tuple", "count")
def t_count(self: Any, x: Any) -> Any:
    raise Unsupported("count")


# ---------------------------------------------------------------- dictionaries


@method("dict", "get")
def d_get(self: PDict, k: Any, default: Any = None) -> Any:
    check_hashable(k)
    found, v = dict_lookup(self, k)
    return v if found else default


def check_hashable(k: Any) -> None:
    if isinstance(k, (PList, PDict, PSet)):
        raise_py(TypeError)
    if isinstance(k, tuple):
        for x in k:
            check_hashable(x)
    if isinstance(k, SV):
        if ctx().possible(z3.Or(V.is_list(k.t), V.is_dict(k.t), V.is_set(k.t))):
            if fork(z3.Or(V.is_list(k.t), V.is_dict(k.t), V.is_set(k.t))):
                raise_py(TypeError)


@method("dict", "items")
def d_items(self: PDict) -> Any:
    def run(cb: Any) -> None:
        interp.iterate_items(self, lambda k, v: cb((k, v)))

    return DictItems(self, run)


class DictItems(LazyGen):
    def __init__(self, d: PDict, run: Any):
        super().__init__(run)
        self.d = d

    def vc_truth(self) -> bool:
        return truth(self.d)

    def vc_len(self) -> Any:
        return m_len(self.d)


@method("dict", "values")
def d_values(self: PDict) -> Any:
    def run(cb: Any) -> None:
        interp.iterate_items(self, lambda k, v: cb(v))

    return DictItems(self, run)


@method("dict", "keys")
def d_keys(self: PDict) -> Any:
    def run(cb: Any) -> None:
        interp.iterate_items(self, lambda k, v: cb(k))

    return DictKeys(self, run)


class DictKeys(DictItems):
    def vc_contains(self, x: Any) -> Any:
        return interp.contains(self.d, x)


@method("dict", "update")
def d_update(self: PDict, x: Any = None, **kw: Any) -> None:
    if x is not None:
        dict_update(self, x)
    for k, v in kw.items():
        dict_put(self, k, v)


@method("dict", "copy")
def d_copy(self: PDict) -> Any:
    return m_dict(self)


@method("dict", "setdefault")
def d_setdefault(self: PDict, k: Any, default: Any = None) -> Any:
    found, v = dict_lookup(self, k)
    if found:
        return v
    dict_put(self, k, default)
    return default


@method("list", "clear")
@method("dict", "clear")
@method("set", "clear")
def d_clear(self: Any) -> None:
    if ctx().recorder is not interp.container_birth(self):
        raise Unsupported("clear in a loop")
    self.segs, self.src = [], None


@method("dict", "pop")
def d_pop(self: PDict, k: Any, default: Any = _no_default) -> Any:
    if any(s[0] != "put" for s in self.segs) or ctx().recorder is not interp.container_birth(self):
        raise Unsupported("dict.pop")
    for idx, s in reversed(list(enumerate(self.segs))):
        if truth_of(pyeq(s[1], k)):
            v = s[2]
            self.segs = [t for t in self.segs if t is s or not truth_of(pyeq(t[1], k))]
            self.segs = [t for t in self.segs if t is not s]
            self.src = None
            return v
    if default is _no_default:
        raise_py(KeyError)
    return default


# ---------------------------------------------------------------- sets


@method("set", "add")
def st_add(self: PSet, x: Any) -> None:
    check_hashable(x)
    set_add(self, x)


@method("set", "update")
def st_update(self: PSet, *xs: Any) -> None:
    for x in xs:
        iterate(x, lambda y: set_add(self, y))


@method("set", "pop")
def st_pop(self: PSet) -> Any:
    n = set_size(self)
    if isinstance(n, int) and n == 0:
        raise_py(KeyError)
    if len(self.segs) == 1 and self.segs[0][0] == "item":
        v = self.segs[0][1]
        if ctx().recorder is not interp.container_birth(self):
            raise Unsupported("set.pop in a loop")
        self.segs = []
        return v
    raise Unsupported("pop of an arbitrary element")


@method("set", "copy")
def st_copy(self: PSet) -> Any:
    return m_set(self)


@method("set", "issuperset")
def st_issuperset(self: PSet, other: Any) -> Any:
    return search(other, lambda y: not set_contains(self, y), True)


@method("set", "issubset")
def st_issubset(self: PSet, other: Any) -> Any:
    o = other if isinstance(other, PSet) else m_set(other)
    return search(self, lambda y: not set_contains(o, y), True)


@method("set", "isdisjoint")
def st_isdisjoint(self: PSet, other: Any) -> Any:
    return search(other, lambda y: set_contains(self, y), True)


@method("set", "union")
def st_union(self: PSet, *others: Any) -> Any:
    out = m_set(self)
    st_update(out, *others)
    return out


@method("set", "intersection")
def st_intersection(self: PSet, *others: Any) -> Any:
    cur = self
    for o in others:
        os_ = o if isinstance(o, PSet) else m_set(o)
        out = PSet()

        def cb(y: Any, out: PSet = out, os_: PSet = os_) -> None:
            if set_contains(os_, y):
                set_add(out, y)

        iterate(cur, cb)
        cur = out
    return cur


@method("set", "difference")
def st_difference(self: PSet, *others: Any) -> Any:
    cur = self
    for o in others:
        os_ = o if isinstance(o, PSet) else m_set(o)
        out = PSet()

        def cb(y: Any, out: PSet = out, os_: PSet = os_) -> None:
            if not set_contains(os_, y):
                set_add(out, y)

        iterate(cur, cb)
        cur = out
    return cur


@method("set", "discard")
def st_discard(self: PSet, x: Any) -> None:
    if any(s[0] != "item" for s in self.segs) or ctx().recorder is not interp.container_birth(self):
        raise Unsupported("set.discard")
    self.segs = [s for s in self.segs if not truth_of(pyeq(s[1], x))]


# ---------------------------------------------------------------- scalar library types (assumed round-trip contracts)

b64_enc = uf("b64_encode", core.By, core.By)
ascii_dec = uf("decode_ascii", core.By, STR)
b64_ok = uf("b64_valid", STR, BOOL)
b64_dec = uf("b64_decode", STR, core.By)
b64_lax_ok = uf("b64_lax_valid", STR, BOOL)
b64_lax_dec = uf("b64_lax_decode", STR, core.By)


@model(base64.b64encode)
def m_b64encode(x: Any, altchars: Any = None) -> Any:
    x = resolve(x)
    if isinstance(x, SBytes) and altchars is None:
        r = b64_enc(x.t)
        s = ascii_dec(r)
        ctx().axiom(("b64", r), lambda: z3.And(b64_ok(s), b64_dec(s) == x.t, b64_lax_ok(s), b64_lax_dec(s) == x.t))
        return SBytes(r)
    if is_plain(x):
        return base64.b64encode(x)
    raise Unsupported("b64encode")


@method("bytes", "decode")
def by_decode(self: SBytes, enc: Any = "utf-8") -> Any:
    # base64 text is ASCII, hence any ASCII-compatible encoding gives the same text
    if enc in ("ascii", "utf-8", "utf8", "latin-1", "latin1", "iso-8859-1", "us-ascii"):
        if self.t.decl().eq(b64_enc):
            return SStr([ascii_dec(self.t)])
    raise Unsupported("bytes.decode")


@model(base64.b64decode)
def m_b64decode(x: Any, altchars: Any = None, validate: Any = False) -> Any:
    x = resolve(x)
    if altchars is not None:
        raise Unsupported("b64decode with altchars")
    if isinstance(x, SStr):
        ok, dec = (b64_ok, b64_dec) if truth(validate) else (b64_lax_ok, b64_lax_dec)
        if fork(ok(x.t)):
            return SBytes(dec(x.t))
        raise_py(ValueError)  # binascii.Error is a ValueError
    if is_plain(x):
        try:
            return base64.b64decode(x, validate=validate)
        except Exception as ex:
            raise PyRaise(ExcVal(type(ex))) from None
    raise Unsupported("b64decode")


@model(base64.standard_b64encode)
def m_std64(x: Any) -> Any:
    return m_b64encode(x)


def _temporal(cls: type, name: str) -> None:
    iso = uf(f"{name}_iso", core.Ob, STR)
    ok = uf(f"{name}_parse_ok", STR, BOOL)
    parse = uf(f"{name}_parse", STR, core.Ob)

    def isoformat(self: SObj, *a: Any, **kw: Any) -> Any:
        if a or kw:
            raise Unsupported("isoformat with options")
        s = iso(self.t)
        facts = [ok(s), parse(s) == self.t, z3.Not(z3.SuffixOf(z3.StringVal("Z"), s)), z3.Length(s) > 6]
        ctx().axiom(("iso", s), lambda: facts)
        return SStr([s])

    def fromiso(x: Any) -> Any:
        x = resolve(x)
        if is_plain(x):
            try:
                return cls.fromisoformat(x)  # type: ignore
            except Exception as ex:
                raise PyRaise(ExcVal(type(ex))) from None
        if not isinstance(x, SStr):
            raise_py(TypeError)
        if fork(ok(x.t)):
            return SObj(cls, parse(x.t))
        raise_py(ValueError)

    METHOD_MODELS[(f"obj:{cls.__name__}", "isoformat")] = isoformat
    MODELS[cls.fromisoformat] = fromiso  # type: ignore

    def attr(self: SObj, nm: str) -> Any:
        if nm == "tzinfo" and cls is not datetime.date:
            has = uf(f"{name}_has_tz", core.Ob, BOOL)(self.t)
            if fork(has):
                return SObj(datetime.tzinfo, uf(f"{name}_tz", core.Ob, core.Ob)(self.t))
            return None
        raise Unsupported(f"{name}.{nm}")

    METHOD_MODELS[(f"obj:{cls.__name__}", "*")] = attr
    METHOD_MODELS[(f"obj:{cls.__name__}", "__str__")] = lambda self: SStr([uf(f"{name}_str", core.Ob, STR)(self.t)])


_temporal(datetime.datetime, "datetime")
_temporal(datetime.date, "date")
_temporal(datetime.time, "time")


def _textual(cls: type, name: str) -> None:
    text = uf(f"{name}_text", core.Ob, STR)
    ok = uf(f"{name}_text_ok", STR, BOOL)
    parse = uf(f"{name}_of_text", STR, core.Ob)

    def to_str(self: SObj) -> Any:
        s = text(self.t)
        ctx().axiom(("text", s), lambda: [ok(s), parse(s) == self.t])
        return SStr([s])

    def ctor(x: Any) -> Any:
        x = resolve(x)
        if is_plain(x):
            try:
                return cls(x)
            except Exception as ex:
                raise PyRaise(ExcVal(type(ex))) from None
        if isinstance(x, SStr):
            if fork(ok(x.t)):
                return SObj(cls, parse(x.t))
            raise_py(ValueError)
        raise Unsupported(f"{name} of a value that is not a string")

    METHOD_MODELS[(f"obj:{cls.__name__}", "__str__")] = to_str
    MODELS[cls] = ctor


_textual(uuid.UUID, "uuid")
_textual(ipaddress.IPv4Address, "ipv4")
_textual(ipaddress.IPv6Address, "ipv6")


# ---------------------------------------------------------------- timedelta (integer model)

MICROS = 86400 * 10**6
LIMIT_DAYS = 999999999


class TDelta(Sym):
    "A duration as a total number of microseconds."

    def __init__(self, total: Any):
        self.total = total

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return TDelta(core.substitute(self.total, *pairs))

    def vc_truth(self) -> bool:
        return fork(self.total != 0)

    def vc_isinstance(self, cls: Any) -> Any:
        return issubclass(datetime.timedelta, cls)

    def parts(self) -> tuple:
        d = getattr(self, "_parts", None)
        if d is None:
            c = ctx()
            days, secs, mic = (c.fresh(INT, n) for n in ("days", "secs", "micros"))
            c.add_fact(z3.And(self.total == days * MICROS + secs * 10**6 + mic, secs >= 0, secs < 86400, mic >= 0, mic < 10**6))
            d = self._parts = (days, secs, mic)
        return d

    def vc_getattr(self, name: str) -> Any:
        if name in ("days", "seconds", "microseconds"):
            return SInt(self.parts()[("days", "seconds", "microseconds").index(name)])
        if name == "total_seconds":
            raise Unsupported("total_seconds (floating point)")
        return NotImplemented


def timedelta_model(days: Any = 0, seconds: Any = 0, microseconds: Any = 0, milliseconds: Any = 0, minutes: Any = 0, hours: Any = 0, weeks: Any = 0) -> Any:
    vals = [resolve(x) for x in (days, seconds, microseconds, milliseconds, minutes, hours, weeks)]
    if any(isinstance(x, (SFloat, float)) for x in vals):
        raise Unsupported("timedelta of floating-point numbers")
    if not all(isinstance(x, (int, SInt, SBool)) for x in vals):
        raise Unsupported("timedelta")
    d, s, u, ms, m, h, w = (as_int(x) for x in vals)
    total = z3.simplify(d * MICROS + s * 10**6 + u + ms * 1000 + m * (60 * 10**6) + h * (3600 * 10**6) + w * (7 * MICROS))
    return make_delta(total)


def make_delta(total: Any) -> TDelta:
    if not fork(z3.And(total >= -LIMIT_DAYS * MICROS, total < (LIMIT_DAYS + 1) * MICROS)):
        raise_py(OverflowError)
    return TDelta(total)


MODELS[datetime.timedelta] = timedelta_model
METHOD_MODELS[("TDelta", "__neg__")] = lambda self: make_delta(z3.simplify(-self.total))
METHOD_MODELS[("TDelta", "Mult")] = lambda self, k: make_delta(z3.simplify(self.total * as_int(k)))
METHOD_MODELS[("TDelta", "RMult")] = lambda self, k: make_delta(z3.simplify(self.total * as_int(k)))
METHOD_MODELS[("TDelta", "FloorDiv")] = lambda self, o: _td_floordiv(self, o)
METHOD_MODELS[("TDelta", "Mod")] = lambda self, o: _td_mod(self, o)
METHOD_MODELS[("TDelta", "Sub")] = lambda self, o: make_delta(z3.simplify(self.total - td_total(o)))
METHOD_MODELS[("TDelta", "Add")] = lambda self, o: make_delta(z3.simplify(self.total + td_total(o)))
for _nm, _f in (("Lt", lambda a, b: a < b), ("LtE", lambda a, b: a <= b), ("Gt", lambda a, b: a > b), ("GtE", lambda a, b: a >= b)):
    METHOD_MODELS[("TDelta", _nm)] = lambda self, o, _f=_f: SBool(_f(self.total, td_total(o)))


def td_total(o: Any) -> Any:
    if isinstance(o, TDelta):
        return o.total
    if isinstance(o, datetime.timedelta):
        return z3.IntVal((o.days * 86400 + o.seconds) * 10**6 + o.microseconds)
    raise Unsupported("arithmetic with a duration")


def _td_floordiv(self: TDelta, o: Any) -> Any:
    t = z3.simplify(td_total(o))
    if not z3.is_int_value(t) or t.as_long() <= 0:
        raise Unsupported("division by a duration")
    return SInt(self.total / t)


def _td_mod(self: TDelta, o: Any) -> Any:
    t = z3.simplify(td_total(o))
    if not z3.is_int_value(t) or t.as_long() <= 0:
        raise Unsupported("division by a duration")
    return TDelta(self.total % t)


@model(divmod)
def m_divmod(a: Any, b: Any) -> Any:
    import ast

    if is_plain(a) and is_plain(b):
        return divmod(a, b)
    return (interp.binop(ast.FloorDiv(), a, b), interp.binop(ast.Mod(), a, b))

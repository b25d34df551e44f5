"""
Arbitrary classes with members: data classes (frozen or not), named tuples and plain annotated classes.

A class has an arbitrary number of members with distinct names; the type of a member is opaque, and its annotation may be
postponed (i.e. a string).  What the code asks of a member's type is answered by the contracts of the functions in
`strong_typing.inspection` and `strong_typing.mapping` (verified under C16 and C10):

* opt(T), unopt(T): whether T is optional, and what remains without None
* pn(name, T): the property name of a member
"""

import dataclasses
import enum
import typing

from .base import *  # noqa: F403

unann = z3.Function("without_annotations", core.Ty, core.Ty)
pn = z3.Function("property_name", STR, core.Ty, STR)
stripped = z3.Function("without_annotations_at_any_depth", core.Ty, core.Ty)
eval_ty = z3.Function("evaluated", STR, core.Ty)


def c_is_type_optional(typ: Any, strict: Any = False) -> Any:
    if _is_opaque(typ) and strict is False:
        return SBool(opt(typ.t))
    return NotImplemented


def c_unwrap_optional_type(typ: Any) -> Any:
    if _is_opaque(typ):
        if not fork(opt(typ.t)):
            raise Unsupported("unwrap_optional_type of a type that is not optional")
        return TyOpaque(unopt(typ.t))
    return NotImplemented


def c_is_type_annotated(typ: Any) -> Any:
    if _is_opaque(typ):
        return SBool(models.is_annotated(typ.t))
    return NotImplemented


def c_unwrap_annotated_type(typ: Any) -> Any:
    if _is_opaque(typ):
        ctx().axiom(("unann", typ.t), lambda: z3.Implies(z3.Not(models.is_annotated(typ.t)), unann(typ.t) == typ.t))
        return TyOpaque(unann(typ.t))
    return NotImplemented


pn_inverse = z3.Function("member_of_property", STR, STR)


class Distinct:
    "Hypothesis: the members of the class have distinct property names (C10, for members without alias)."

    on = False
    of_type = False

    @classmethod
    def reset(cls) -> None:
        cls.on = cls.of_type = False


verify.RESET.append(Distinct.reset)


def property_of(name: Any, t: Any) -> SStr:
    p = pn(name, t)
    if Distinct.on:
        ctx().axiom(("distinct", p), lambda: pn_inverse(p) == name)
    return SStr([p])


def c_property_name(python_id: Any, python_type: Any = None) -> Any:
    if isinstance(python_type, TyOpaque) and isinstance(python_id, SStr):
        return property_of(python_id.t, python_type.t)
    if python_type is None and isinstance(python_id, SStr):
        return SStr([pn_plain(python_id.t)])
    return NotImplemented


def c_evaluate_type(typ: Any, module: Any) -> Any:
    if isinstance(typ, SStr):
        return TyOpaque(eval_ty(typ.t))
    if isinstance(typ, TyOpaque):
        return typ
    return NotImplemented


def _is_opaque(t: Any) -> bool:
    return isinstance(t, TyOpaque)


def class_contracts() -> None:
    "Makes the contracts on types of members available to the current obligation (they are dropped afterwards)."
    CONTRACTS[I.is_type_optional] = c_is_type_optional
    CONTRACTS[I.unwrap_optional_type] = c_unwrap_optional_type
    CONTRACTS[I.is_type_annotated] = c_is_type_annotated
    CONTRACTS[I.unwrap_annotated_type] = c_unwrap_annotated_type
    CONTRACTS[M.python_field_to_json_property] = c_property_name
    CONTRACTS[I.evaluate_type] = c_evaluate_type


class Epoch:
    "Ghost state: distinguishes what happens when a reader is created from what happens at each use of it."

    now: Any = 0


class Member(Sym):
    "The j-th member of an arbitrary class."

    def __init__(self, cls: "Members", j: Any):
        self.m, self.j = cls, j

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Member(self.m, self.j if isinstance(self.j, int) else core.substitute(self.j, *pairs))

    def vc_truth(self) -> bool:
        return True

    def vc_getattr(self, nm: str) -> Any:
        m, j = self.m, self.j
        if nm == "name":
            return m.name(j)
        if nm == "type":
            if m.postponed and fork(m.f_postponed(as_int(j))):
                s = m.f_text(as_int(j))
                ctx().axiom(("text", s), lambda: eval_ty(s) == m.f_type(as_int(j)))
                return SStr([s])
            return m.type(j)
        if nm == "hint":
            return m.type(j)
        if nm == "property":
            return m.prop(j)
        if nm == "optional":
            return SBool(opt(m.f_type(as_int(j))))
        if nm == "reader":
            t = m.f_type(as_int(j))
            return TyOpaque(unopt(t)) if fork(opt(t)) else TyOpaque(t)
        if nm == "has_default":
            return m.kind == "dataclass" and SBool(m.f_default(as_int(j)))
        if nm == "has_factory":
            return m.kind == "dataclass" and SBool(m.f_factory(as_int(j)))
        if nm == "default":
            m.exclusive(j)
            if not fork(m.f_default(as_int(j))):
                return dataclasses.MISSING
            v = m.f_defval(as_int(j))
            ctx().axiom(("not-missing", v), lambda: z3.Not(as_bool(interp.identical(SV(v), dataclasses.MISSING))))
            return SV(v)
        if nm == "default_factory":
            m.exclusive(j)
            if fork(m.f_factory(as_int(j))):
                return Factory(m, j)
            return dataclasses.MISSING
        if nm in ("init", "repr", "compare", "kw_only"):
            return SBool(z3.Function(f"field_{nm}", INT, z3.BoolSort())(as_int(j)))
        raise Unsupported(f"attribute {nm} of a member")


class Factory(Sym):
    "Default factory of a member; what it makes differs from one use of the reader to the next."

    def __init__(self, m: "Members", j: Any):
        self.m, self.j = m, j

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Factory(self.m, self.j if isinstance(self.j, int) else core.substitute(self.j, *pairs))

    def vc_call(self, args: list, kwargs: dict) -> Any:
        return SV(self.m.f_made(as_int(self.j), as_int(Epoch.now)))

    def vc_truth(self) -> bool:
        return True


class Members:
    def __init__(self, kind: str, name: str, postponed: bool):
        self.kind, self.cname, self.postponed = kind, name, postponed
        f = lambda nm, *s: z3.Function(f"{name}_{nm}", *s)  # noqa: E731
        self.n = z3.Const(f"{name}_n", INT)
        self.f_name, self.f_index = f("name", INT, STR), f("index", STR, INT)
        self.f_type, self.f_postponed, self.f_text = f("type", INT, core.Ty), f("postponed", INT, BOOL), f("text", INT, STR)
        self.f_default, self.f_factory = f("has_default", INT, BOOL), f("has_factory", INT, BOOL)
        self.f_defval, self.f_made = f("default", INT, V), f("made", INT, INT, V)
        self.f_attr = f("attr", core.Ob, INT, V)
        ctx().axiom(("members", name), lambda: self.n >= 0)
        ctx().add_fact(self.n >= 0)

    def exclusive(self, j: Any) -> None:
        j = as_int(j)
        ctx().axiom(("dflt", self.cname, j), lambda: z3.Not(z3.And(self.f_default(j), self.f_factory(j))))

    def name(self, j: Any) -> SStr:
        j = as_int(j)
        s = self.f_name(j)
        rng = z3.And(j >= 0, j < self.n)
        ctx().axiom(("fname", s), lambda: z3.Implies(rng, self.f_index(s) == j))
        return SStr([s])

    def type(self, j: Any) -> TyOpaque:
        return TyOpaque(self.f_type(as_int(j)))

    def prop(self, j: Any) -> SStr:
        return property_of(self.name(j).t, self.f_type(as_int(j)))

    def lookup(self, key: Any) -> Any:
        "Index of the member of a given name, or None."
        key = resolve_name(key)
        if isinstance(key, SStr) and len(key.pieces) == 1 and z3.is_app(key.pieces[0]) and key.pieces[0].decl().eq(self.f_name):
            return key.pieces[0].arg(0)
        if not isinstance(key, (str, SStr)):
            return None
        j = self.f_index(interp.str_term(key))
        if fork(z3.And(j >= 0, j < self.n, self.f_name(j) == interp.str_term(key))):
            ctx().add_index(j)
            self.name(j)
            return j
        return None

    def seq(self) -> Any:
        return FnSeq(self.n, lambda j: Member(self, j), key=self.cname)


def resolve_name(k: Any) -> Any:
    return interp.resolve(k) if isinstance(k, SV) else k


class Hints(Sym):
    "The annotations of the members of a class by name."

    def __init__(self, m: Members, extras: bool = True):
        self.m, self.extras = m, extras

    def type(self, j: Any) -> TyOpaque:
        t = self.m.type(j)
        return t if self.extras else TyOpaque(stripped(t.t))

    def items_seq(self) -> Any:
        if self.m.kind == "dataclass":
            raise Unsupported("annotations of a data class in order (they include class variables)")
        return FnSeq(self.m.n, lambda j: (self.m.name(j), self.type(j)), key=self.m.cname)

    def vc_truth(self) -> bool:
        return fork(self.m.n > 0)

    def vc_seq(self) -> Any:
        s = self.items_seq()
        return FnSeq(s.n, lambda j: s.at(j)[0], key=s.key)

    def vc_len(self) -> Any:
        return SInt(self.m.n)

    def vc_contains(self, key: Any) -> bool:
        return self.m.lookup(key) is not None

    def vc_getitem(self, key: Any) -> Any:
        j = self.m.lookup(key)
        if j is None:
            interp.raise_py(KeyError)
        return self.type(j)

    def vc_getattr(self, nm: str) -> Any:
        if nm == "items":
            return Model(lambda: STuple(self.items_seq()), "items")
        if nm == "keys":
            return Model(lambda: STuple(self.vc_seq()), "keys")
        if nm == "values":
            return Model(lambda: STuple(FnSeq(self.m.n, lambda j: self.items_seq().at(j)[1], key=self.m.cname)), "values")
        if nm == "get":

            def get(key: Any, default: Any = None) -> Any:
                j = self.m.lookup(key)
                return default if j is None else self.type(j)

            return Model(get, "get")
        return NotImplemented


class OwnHints(Hints):
    "The annotations that a class declares itself: those of members that it does not inherit, and possibly others."

    def own(self, key: Any) -> Any:
        j = self.m.lookup(key)
        if j is None:
            return z3.Function(f"declares_{self.m.cname}", STR, BOOL)(interp.str_term(key))
        return z3.Function(f"own_{self.m.cname}", INT, BOOL)(as_int(j))

    def items_seq(self) -> Any:
        raise Unsupported("the annotations that a class declares itself, in order")

    def vc_truth(self) -> Any:
        return fork(z3.Const(f"declares_any_{self.m.cname}", BOOL))

    def vc_len(self) -> Any:
        raise Unsupported("the number of annotations that a class declares itself")

    def vc_contains(self, key: Any) -> Any:
        return self.own(key)

    def vc_getitem(self, key: Any) -> Any:
        if not fork(self.own(key)):
            interp.raise_py(KeyError)
        j = self.m.lookup(key)
        if j is None:
            raise Unsupported("annotation of what is not a member")
        return self.type(j)

    def vc_getattr(self, nm: str) -> Any:
        if nm == "get":
            return Model(lambda key, default=None: self.vc_getitem(key) if fork(self.own(key)) else default, "get")
        return NotImplemented


class FrozenFlag(Sym):
    def __init__(self, frozen: bool):
        self.frozen = frozen

    def vc_getattr(self, nm: str) -> Any:
        if nm == "frozen":
            return self.frozen
        return NotImplemented


def any_class_type(kind: str, name: str = "C", frozen: bool = False, postponed: bool = False) -> ClassSym:
    """
    An arbitrary class of the given kind.

    Assumed: it has no to_json and from_json, and (for data classes) the generated initializer.
    """

    m = Members(kind, name, postponed)
    def bases() -> tuple:
        "An arbitrary base class; which decides whether the class is an exception."
        b = z3.Const(f"base_{name}", core.Ty)
        ctx().axiom(("base", b), lambda: z3.And(
            b != models.ty_const(tuple), models.ty_is_class(b),
            models.subclass(z3.Const(name, core.Ty), models.ty_const(Exception)) == z3.Or(b == models.ty_const(Exception), models.subclass(b, models.ty_const(Exception))),
        ))
        return (TyOpaque(b),)

    attrs: dict = {
        "to_json": AttributeError,
        "from_json": AttributeError,
        "__bases__": (tuple,) if kind == "namedtuple" else bases,
        "_fields": STuple(FnSeq(m.n, m.name, key=name)) if kind == "namedtuple" else AttributeError,
        "__dataclass_params__": FrozenFlag(frozen) if kind == "dataclass" else AttributeError,
        "__annotations__": lambda: Hints(m) if kind == "namedtuple" else OwnHints(m),
    }

    def attribute(obj: Any, nm: Any) -> Any:
        j = m.lookup(nm)
        if j is None:
            interp.raise_py(AttributeError)
        v = m.f_attr(obj.t, as_int(j))
        if Distinct.on:
            # hypothesis of C03: None only where it is what the reader makes of an absent member
            k = as_int(j)
            has = z3.Or(m.f_default(k), m.f_factory(k)) if m.kind == "dataclass" else z3.BoolVal(False)
            absent = z3.And(opt(m.f_type(k)), z3.Not(has))
            if m.kind == "dataclass":
                absent = z3.Or(absent, z3.And(m.f_default(k), V.is_none(m.f_defval(k))))
            if Distinct.of_type:
                # hypothesis of C11: None only where the type is optional
                absent = opt(m.f_type(k))
            ctx().axiom(("absent", v), lambda: z3.Implies(V.is_none(v), absent))
        return SV(v)

    def construct(cls: Any, args: list, kwargs: dict) -> Any:
        if args:
            raise Unsupported("positional arguments of a class")
        return initialized(cls, NewObj(cls, PDict()), kwargs)

    c = ClassSym(
        z3.Const(name, core.Ty), kind, bases=(tuple,) if kind == "namedtuple" else (object,), attrs=attrs, fields=m.seq,
        hints=lambda include_extras: hints_of(m, include_extras), getattr=attribute, construct=construct, frozen=frozen,
        field_seq=lambda: FnSeq(m.n, lambda j: (m.name(j), m.type(j)), key=name), members=m,
    )
    return c


def hints_of(m: Members, include_extras: bool) -> Any:
    return Hints(m, include_extras)


def initialized(cls: Any, obj: NewObj, kwargs: dict) -> NewObj:
    "Contract of the generated initializer: every keyword sets the member of this name; all members must be given."
    d = kwargs.get("**")
    if d is None:
        d = PDict([("put", k, v) for k, v in kwargs.items()])
    elif len(kwargs) > 1:
        raise Unsupported("mixed keyword arguments")
    m = cls.traits["members"]
    if len(d.segs) == 1 and d.segs[0][0] == "seq" and (d.segs[0][1].n is m.n or as_int(d.segs[0][1].n).eq(m.n)):
        obj.attrs.segs = list(d.segs)
        return obj
    if not d.segs and ctx().implied(m.n == 0):
        return obj
    raise Unsupported("arguments of an initializer")


interp.METHOD_MODELS[("NewObj", "__init__")] = lambda self, *a, **kw: None if initialized(self.cls, self, kw) else None


# ---------------------------------------------------------------- specification helpers


def new_object(cls: Any, values: Any) -> Any:
    raise NotImplementedError


CONTRACTS[new_object] = lambda cls, values: NewObj(cls, PDict(list(values.segs)))


class EnumMembers:
    "Members of an arbitrary enumeration, without aliases: distinct values."

    def __init__(self, name: str, kinds: tuple):
        self.kinds = kinds
        self.n = z3.Const(f"{name}_n", INT)
        self.f_val, self.f_obj = z3.Function(f"{name}_value", INT, V), z3.Function(f"{name}_member", INT, core.Ob)
        self.f_index, self.f_oindex = z3.Function(f"{name}_index", V, INT), z3.Function(f"{name}_oindex", core.Ob, INT)
        ctx().add_fact(self.n >= 1)

    def value_of(self, o: Any) -> Any:
        j = self.f_oindex(o)
        return self.value(j)

    def facts(self, j: Any) -> None:
        j = as_int(j)
        rng = z3.And(j >= 0, j < self.n)
        v, o = self.f_val(j), self.f_obj(j)
        ctx().axiom(
            ("enum", v),
            lambda: z3.Implies(rng, z3.And(self.f_index(v) == j, self.f_oindex(o) == j, z3.Or(*[core.is_kind(v, k) for k in self.kinds]))),
        )

    def value(self, j: Any) -> Any:
        self.facts(j)
        v = self.f_val(as_int(j))
        if len(self.kinds) == 1:
            return interp.view(v, self.kinds[0], True)
        return SV(v, True)


def any_enum(name: str = "E", kinds: tuple = ("str",)) -> ClassSym:
    "An arbitrary enumeration whose values are of the given kinds."
    m = EnumMembers(name, kinds)
    cls: Any = None

    def member(j: Any) -> SObj:
        m.facts(j)
        return SObj(cls, m.f_obj(as_int(j)))

    def attribute(obj: Any, nm: Any) -> Any:
        if nm in ("value", "_value_"):
            j = m.f_oindex(obj.t)
            ctx().axiom(("enum-member", obj.t), lambda: z3.And(j >= 0, j < m.n, m.f_obj(j) == obj.t))
            return m.value(j)
        raise Unsupported(f"{nm} of an enumeration member")

    def construct(c: Any, args: list, kwargs: dict) -> Any:
        "Contract of calling an enumeration class: the member whose value equals the argument, or ValueError."
        (x,) = args
        j = seqs.find_first(m.n, lambda j: interp.truth_of(interp.pyeq(m.value(j), x)))
        if j is None:
            interp.raise_py(ValueError)
        return member(j)

    cls = ClassSym(
        z3.Const(name, core.Ty), "enum", bases=(enum.Enum,), attrs={"to_json": AttributeError, "from_json": AttributeError, "__bases__": (enum.Enum,)}, getattr=attribute, construct=construct,
        member=member, values=m,
    )
    cls.vc_seq = lambda: FnSeq(m.n, member, key=name)  # type: ignore
    return cls

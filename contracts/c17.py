"""
C17: membership of an arbitrary object in an arbitrary type, and recursive predicate checks.

Membership of an object in a component type of which nothing is known is an uninterpreted predicate; the functions under
contract are verified against it form by form, whence by induction over the type for all types.
"""

import typing

from .c16 import *  # noqa: F403
from .classes import *  # noqa: F403
from . import spec_check as K

G = z3.Function("is_instance", V, core.Ty, BOOL)
PRED = z3.Function("pred", core.Ty, V, BOOL)


def c_is_generic_instance(obj: Any, typ: Any) -> Any:
    "Contract of `is_generic_instance` for a component type."
    if isinstance(typ, TyOpaque):
        return SBool(G(to_V(obj), typ.t))
    return NotImplemented


def member(obj: Any, typ: Any) -> Any:
    raise NotImplementedError


def spec_contracts() -> None:
    CONTRACTS[I.is_generic_instance] = c_is_generic_instance
    CONTRACTS[K.member] = lambda obj, typ: SBool(G(to_V(obj), typ.t))


def instance(form: str, make: Any, fn: Any, what: str) -> None:
    @obligation("C17", what, "inspection.is_generic_instance", timeout=120)
    def ob() -> None:
        spec_contracts()
        t, args = make()
        v = any_value("obj")
        a = outcome(lambda: call(I.is_generic_instance, [v, t], {}))
        b = outcome(lambda: call(fn, [*args, v], {}))
        if a.exc is not None:
            refuted(f"raises {a.exc}")
        truth_is(a.value, b.value, "membership")


def _list() -> Any:
    t = any_type()
    return TyGen(list, (t,)), [t]


def _set() -> Any:
    t = any_type()
    return TyGen(set, (t,)), [t]


def _dict() -> Any:
    k, t = any_type("K"), any_type("T")
    return TyGen(dict, (k, t)), [k, t]


def _tuple() -> Any:
    ts = any_types()
    return TyGen(tuple, ts), [ts]


def _union() -> Any:
    t = union(branch((False, True)))
    return t, [t.args]


instance("list", _list, K.is_list, "an object is a list[T] exactly if it is a list all of whose items are T")
instance("set", _set, K.is_set, "an object is a set[T] exactly if it is a set all of whose items are T")
instance("dict", _dict, K.is_dict, "an object is a dict[K, V] exactly if it is a dictionary all of whose keys are K and all of whose values are V")
instance("tuple", _tuple, K.is_tuple, "an object is a tuple[...] exactly if it is a tuple of that length whose items are of the types at their positions")
instance("union", _union, K.is_union, "an object is a member of a union exactly if it is a member of one of its types")


@obligation("C17", "an object is a member of a plain class exactly if it is an instance of it", "inspection.is_generic_instance")
def _() -> None:
    cls = branch((int, str, bool, float, list, dict, set, tuple, bytes, type(None)))
    v = any_value("obj")
    truth_is(call(I.is_generic_instance, [v, cls], {}), interp.call(isinstance, [v, cls], {}), "membership")


# ---------------------------------------------------------------- recursive predicate checks

CK = z3.Function("check", core.Ty, V, BOOL)


def checker(whole: Any = None) -> Any:
    "A checker for an arbitrary predicate; components are checked through the contract of `check`."

    def apply(typ: Any, obj: Any) -> Any:
        "The predicate; remembers being asked about the type under consideration as a whole."
        if isinstance(typ, TyGen):
            if typ is not whole:
                refuted("the predicate is applied to another type than the declared one")
            return SBool(PRED(z3.Const("whole", core.Ty), to_V(obj)))
        return SBool(PRED(type_term(typ), to_V(obj)))

    def c_check(self: Any, typ: Any, obj: Any) -> Any:
        if isinstance(typ, TyOpaque):
            if z3.is_app(typ.t) and typ.t.decl().eq(stripped):
                # annotations at any depth make no difference: every obligation below is discharged for annotated types
                typ = TyOpaque(typ.t.arg(0))
            return SBool(CK(typ.t, to_V(obj)))
        return NotImplemented

    CONTRACTS[I.RecursiveChecker.check] = c_check
    CONTRACTS[K.checked] = lambda typ, obj: SBool(CK(typ.t, to_V(obj)))
    CONTRACTS[K.predicate] = apply
    return call(I.RecursiveChecker, [Model(apply, "pred")], {})


def checks(what: str, make: Any, props: Any = "C17") -> None:
    @obligation(props, what, "inspection.RecursiveChecker.check", timeout=120)
    def ob() -> None:
        t, obj, fn, args = make()
        c = checker(t)
        annotated = branch((False, True))
        a = outcome(lambda: call(getattr_(c, "check"), [TyAnn(t, metadata()) if annotated else t, obj], {}))
        b = outcome(lambda: call(fn, [*args, obj], {}))
        if a.exc is not None:
            refuted(f"raises {a.exc}")
        truth_is(a.value, b.value, "check")


def _of(kind: str, make: Any, fn: Any) -> Any:
    def run() -> Any:
        t, args = make()
        v = z3.Const("obj", V)
        ctx().assume(core.is_kind(v, kind))
        obj = interp.view(v, kind, False)
        if kind == "tuple":
            require(as_int(obj.pl.length()) == as_int(t.args.pl.length()))
        return t, obj, fn, args

    return run


def _dict2() -> Any:
    t, (k, x) = _dict()
    return t, [x]


checks("the check of a list is the check of each of its items", _of("list", _list, K.check_items))
checks("the check of a set is the check of each of its items", _of("set", _set, K.check_items))
checks("the check of a dictionary is the check of each of its values", _of("dict", _dict2, K.check_values))
checks("the check of a tuple is the check of each item as the type at its position", _of("tuple", _tuple, K.check_tuple))


def _leaf() -> Any:
    t = branch((*BASIC, __import__("decimal").Decimal, typing.Any))
    return t, any_value("obj"), K.predicate, [t]


def _special() -> Any:
    t = branch((lambda: union(), lambda: union(True), lambda: TyGen(typing.Literal, values())))()
    return t, any_value("obj"), K.predicate, [t]


checks("the predicate is applied to a scalar with its declared type", _leaf)
checks("the predicate is applied to a union or literal as a whole", _special)


def _enum() -> Any:
    e = any_enum("E", ("str", "int"))
    return e, e.traits["member"](z3.Const("index", INT)), K.predicate, [e]


checks("the predicate is applied to a member of an enumeration with its class", _enum)


def _class(kind: str, frozen: bool = False) -> Any:
    def run() -> Any:
        class_contracts()
        cls = any_class_type(kind, frozen=frozen)
        if kind == "plain":
            require(cls.traits["members"].n >= 1)
        members = STuple(cls.traits["members"].seq())
        return cls, SObj(cls, z3.Const("obj", core.Ob)), K.check_members, [members]

    return run


checks("the check of a data class is the check of each of its members", _class("dataclass"))
checks("the check of a plain class is the check of each of its annotated members", _class("plain"))
checks("the check of a named tuple is the check of each of its members", _class("namedtuple"))


@obligation("C17", "type and value predicates are combined as documented", "inspection.check_recursive")
def _() -> None:
    cls = any_class()
    obj = SObj(cls, z3.Const("obj", core.Ob))
    t, v = any_type("member_type"), any_value("member")
    tp, vp = z3.Function("type_pred", core.Ty, BOOL), z3.Function("value_pred", V, BOOL)
    pred = Model(lambda typ, x: SBool(PRED(typ.t, to_V(x))), "pred")
    type_pred = Model(lambda typ: SBool(tp(typ.t)), "type_pred")
    value_pred = Model(lambda x: SBool(vp(to_V(x))), "value_pred")

    def c_check(self: Any, typ: Any, x: Any) -> Any:
        "The check applies the predicate to some member; see the obligations above."
        if typ is not cls or x is not obj:
            refuted("something else than the object is checked as its class")
        return call(getattr_(self, "pred"), [t, v], {})

    CONTRACTS[I.RecursiveChecker.check] = c_check
    kw, expected = branch(
        (
            ({}, z3.BoolVal(True)),
            ({"pred": pred}, PRED(t.t, v.t)),
            ({"value_pred": value_pred}, vp(v.t)),
            ({"type_pred": type_pred, "value_pred": value_pred}, z3.Or(z3.Not(tp(t.t)), vp(v.t))),
            ({"type_pred": type_pred}, None),
            ({"pred": pred, "value_pred": value_pred}, None),
            ({"pred": pred, "type_pred": type_pred, "value_pred": value_pred}, None),
        )
    )
    o = outcome(lambda: call(I.check_recursive, [obj], kw))
    if expected is None:
        if o.exc is None or o.exc.cls is not TypeError:
            refuted("inconsistent predicates are accepted")
        goal(True, "refused")
        return
    if o.exc is not None:
        refuted(f"raises {o.exc}")
    truth_is(o.value, SBool(expected), "result of the predicate")

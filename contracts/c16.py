"""
C16: predicates on types and functions that take types apart.

Each obligation runs the function on every form of type (with arbitrary arguments, arbitrarily many in unions, tuples and
literals), plain and annotated with an arbitrary number of annotations.
"""

import typing

from .base import *  # noqa: F403

NONE = type(None)


def any_class(name: str = "C") -> TyOpaque:
    "A class of which nothing else is known."
    t = any_type(name)
    ctx().assume(models.ty_is_class(t.t))
    ctx().assume(z3.Not(models.is_annotated(t.t)))
    ctx().assume(z3.Not(models.is_enum_class(t.t)))
    return t


def enum_class(name: str = "E") -> ClassSym:
    return ClassSym(z3.Const(name, core.Ty), "enum", bases=(__import__("enum").Enum,))


def metadata(name: str = "meta") -> STuple:
    n = z3.Const(f"{name}_n", INT)
    f = z3.Function(name, INT, V)
    ctx().add_fact(n >= 1)
    return STuple(FnSeq(n, lambda j: SV(f(as_int(j))), key=name))


def values(name: str = "values") -> STuple:
    n = z3.Const(f"{name}_n", INT)
    f = z3.Function(name, INT, V)
    ctx().add_fact(n >= 1)

    def at(j: Any) -> Any:
        v = f(as_int(j))
        ctx().axiom(("literal", v), lambda: z3.Or(*[core.is_kind(v, k) for k in ("none", "bool", "int", "str", "bytes")]))
        return SV(v)

    return STuple(FnSeq(n, at, key=name))


def union(new_style: bool = False) -> TyGen:
    ts = any_types("Us")
    ctx().add_fact(as_int(ts.pl.length()) >= 2)
    return TyGen(typing.Union, ts, new_style)


FORMS: dict = {
    "class": lambda: any_class(),
    "None": lambda: NONE,
    "int": lambda: int,
    "list": lambda: list,
    "Any": lambda: typing.Any,
    "enumeration": lambda: enum_class(),
    "list[T]": lambda: TyGen(list, (any_type(),)),
    "set[T]": lambda: TyGen(set, (any_type(),)),
    "frozenset[T]": lambda: TyGen(frozenset, (any_type(),)),
    "dict[K, V]": lambda: TyGen(dict, (any_type("K"), any_type("V"))),
    "tuple[...]": lambda: TyGen(tuple, any_types()),
    "Union[...]": lambda: union(),
    "X | Y": lambda: union(True),
    "Literal[...]": lambda: TyGen(typing.Literal, values()),
    "forward reference": lambda: TyFwd(SStr([z3.Const("name", STR)]), None),
}


def both(form: Any, fn: Any) -> None:
    "Runs the statement for the type itself and for the type with annotations."
    t = FORMS[form]()
    if form == "forward reference" or branch(("plain", "annotated")) == "plain":
        fn(t, t)
    else:
        fn(TyAnn(t, metadata()), t)


def some_none(t: Any) -> Any:
    if not (isinstance(t, TyGen) and t.origin is typing.Union):
        return False
    return models.search(t.args, lambda a: interp.truth_of(interp.identical(a, NONE)), False)


def truth_is(value: Any, expected: Any, what: str) -> None:
    same_value(value if isinstance(value, (bool, SBool)) else models.m_bool(value), expected if isinstance(expected, (bool, SBool)) else models.m_bool(expected), what)


def predicate(name: str, fn_name: str, expected: Any) -> None:
    @obligation("C16", name, f"inspection.{fn_name}")
    def ob() -> None:
        fn = getattr(I, fn_name)
        form = branch(FORMS)
        both(form, lambda t, u: truth_is(call(fn, [t], {}), expected(form, u), f"{fn_name}({form})"))


def count_is_2(t: Any) -> bool:
    return fork(as_int(t.args.pl.length()) == 2)


predicate("a type is optional exactly if it is a union with None among its members", "is_type_optional", lambda f, t: some_none(t))
predicate(
    "a type is a union exactly if it is a union other than T-or-None",
    "is_type_union",
    lambda f, t: f in ("Union[...]", "X | Y") and not (count_is_2(t) and some_none(t)),
)
for _nm, _form in (("is_type_literal", "Literal[...]"), ("is_generic_list", "list[T]"), ("is_generic_set", "set[T]"), ("is_generic_dict", "dict[K, V]"), ("is_type_enum", "enumeration")):
    predicate(f"{_nm} holds for {_form} only", _nm, lambda f, t, _form=_form: f == _form)


@obligation("C16", "strictly optional means a union of exactly two members, one of them None", "inspection.is_type_optional")
def _() -> None:
    form = branch(FORMS)
    both(
            form,
            lambda t, u: truth_is(
                call(I.is_type_optional, [t], {"strict": True}), form in ("Union[...]", "X | Y") and count_is_2(u) and some_none(u), f"is_type_optional({form}, strict=True)"
            ),
        )


@obligation("C16", "exactly the annotated types are annotated", "inspection.is_type_annotated")
def _() -> None:
    form = branch(FORMS)
    both(form, lambda t, u: truth_is(call(I.is_type_annotated, [t], {}), t is not u, f"is_type_annotated({form})"))


@obligation("C16", "unwrapping annotations gives the annotated type", "inspection.unwrap_annotated_type")
def _() -> None:
    form = branch(FORMS)
    both(form, lambda t, u: same_value(call(I.unwrap_annotated_type, [t], {}), u, f"unwrap_annotated_type({form})"))


def unwraps(name: str, fn_name: str, form: str, expected: Any, rewrap: bool) -> None:
    @obligation("C16", name, f"inspection.{fn_name}")
    def ob() -> None:
        fn = getattr(I, fn_name)

        def check(t: Any, u: Any) -> None:
            e = expected(u)
            if rewrap and t is not u:
                e = TyAnn(e, t.metadata)
            same_value(call(fn, [t], {}), e, f"{fn_name}({form})")

        both(form, check)


unwraps("unwrapping a list gives its item type, with annotations kept", "unwrap_generic_list", "list[T]", lambda t: t.args[0], True)
unwraps("unwrapping a set gives its item type, with annotations kept", "unwrap_generic_set", "set[T]", lambda t: t.args[0], True)
unwraps("unwrapping a dictionary gives key and value type", "unwrap_generic_dict", "dict[K, V]", lambda t: t.args, False)
unwraps("unwrapping a literal gives its values in order", "unwrap_literal_values", "Literal[...]", lambda t: t.args, False)
unwraps("types of literal values in order", "unwrap_literal_types", "Literal[...]", lambda t: STuple(seqs.MapSeq(to_seq_(t.args), models.m_type)), False)


def to_seq_(x: Any) -> Any:
    return interp.to_seq(x)


@obligation("C16", "unwrapping a union gives its members in order", "inspection.unwrap_union_types")
def _() -> None:
    for form in ("Union[...]", "X | Y"):
        t = FORMS[form]()
        same_value(call(I.unwrap_union_types, [t], {}), t.args, "unwrap_union_types")


def spec_without_none(args):
    return tuple(a for a in args if a is not NONE)


@obligation("C16", "removing None from an optional keeps all other members in order and the annotations", "inspection.unwrap_optional_type")
def _() -> None:
    form = branch(("Union[...]", "X | Y"))
    if True:

        def check(t: Any, u: Any) -> None:
            require(some_none(u))
            e = interp.make_special(typing.Union, call(spec_without_none, [u.args], {}))
            if t is not u:
                e = TyAnn(e, t.metadata)
            same_value(call(I.unwrap_optional_type, [t], {}), e, "unwrap_optional_type")

        both(form, check)


@obligation("C16", "removing None from T-or-None gives T, whatever the position of None", "inspection.unwrap_optional_type")
def _() -> None:
    t = any_type()
    require(t.t != type_term(NONE))
    u = TyGen(typing.Union, branch([(t, NONE), (NONE, t)]), branch([False, True]))
    if branch(("plain", "annotated")) == "plain":
        same_value(call(I.unwrap_optional_type, [u], {}), t, "T")
    else:
        m = metadata()
        same_value(call(I.unwrap_optional_type, [TyAnn(u, m)], {}), TyAnn(t, m), "annotated T")


@obligation("C16", "a type other than a union is refused where a union is expected", "inspection.unwrap_optional_type")
def _() -> None:
    form = branch(f for f in FORMS if f not in ("Union[...]", "X | Y"))
    fn = branch((I.unwrap_optional_type, I.unwrap_union_types))
    t = FORMS[form]()
    o = outcome(lambda: call(fn, [t], {}))
    if o.exc is None:
        refuted(f"{form} taken as a union")
    goal(True, "refused")


class SomeAnnotation:
    pass


def spec_get_annotation(annotations, cls):
    for a in annotations:
        if isinstance(a, cls):
            return a
    return None


@obligation("C16", "annotation lookup returns the first annotation of the class or None", "inspection.get_annotation")
def _() -> None:
    form = branch(FORMS)
    t = FORMS[form]()
    if form == "forward reference" or branch(("plain", "annotated")) == "plain":
        same_value(call(I.get_annotation, [t, SomeAnnotation], {}), None, "no annotations")
    else:
        m = metadata()
        same_value(call(I.get_annotation, [TyAnn(t, m), SomeAnnotation], {}), call(spec_get_annotation, [m, SomeAnnotation], {}), "annotation")


@obligation("C16", "transforming an annotated type keeps its annotations", "inspection.rewrap_annotated_type")
def _() -> None:
    f = z3.Function("transform", core.Ty, core.Ty)
    tr = Model(lambda t: TyOpaque(f(type_term(t))), "transform")
    t = any_class()
    same_value(call(I.rewrap_annotated_type, [tr, t], {}), TyOpaque(f(t.t)), "plain")
    m = metadata()
    same_value(call(I.rewrap_annotated_type, [tr, TyAnn(t, m)], {}), TyAnn(TyOpaque(f(t.t)), m), "annotated")


@obligation("C16", "the single value of a literal", "inspection.unwrap_literal_value")
def _() -> None:
    def check(t: Any, u: Any) -> None:
        o = outcome(lambda: call(I.unwrap_literal_value, [t], {}))
        if fork(as_int(u.args.pl.length()) == 1):
            if o.exc is not None:
                refuted("single value is refused")
            same_value(o.value, interp.getitem(u.args, 0), "value")
        elif o.exc is None or o.exc.cls is not TypeError:
            refuted("several values are accepted")

    both("Literal[...]", check)

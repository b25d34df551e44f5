"C03: composite values survive the round trip if their members do."

import typing

from .c04 import literal_values, no_tags
from .c09 import *  # noqa: F403
from .c16 import metadata


def survives(typ: Any, v: Any, what: str) -> None:
    "Induction hypothesis: what the writer of a member type makes of a value is read back as the same value."
    Mode.round_trip = SKIP
    a = outcome(lambda: generate(writer_of(typ), v))
    if a.exc is not None:
        refuted(f"{what}: cannot be written")
    b = outcome(lambda: parse(reader_of(typ), a.value))
    if b.exc is not None:
        refuted(f"{what}: what is written is rejected")
    same_value(b.value, v, f"{what} read back")


@obligation("C03", "list[T] survives the round trip if T does", ["serializer.TypedListSerializer.generate", "deserializer.ListDeserializer.parse"])
def _() -> None:
    survives(TyGen(list, (any_type(),)), of_kind("list"), "list")


@obligation("C03", "set[T] survives the round trip if T does", ["serializer.TypedSetSerializer.generate", "deserializer.SetDeserializer.parse"])
def _() -> None:
    survives(TyGen(set, (any_type(),)), of_kind("set"), "set")


@obligation("C03", "tuple[...] survives the round trip if its member types do", ["serializer.TypedTupleSerializer.generate", "deserializer.TupleDeserializer.parse"])
def _() -> None:
    ts = any_types()
    v = of_kind("tuple")
    require(as_int(v.pl.length()) == as_int(ts.pl.length()))
    survives(TyGen(tuple, ts), v, "tuple")


@obligation("C03", "dict[str, T] survives the round trip if T does", ["serializer.TypedStringDictSerializer.generate", "deserializer.DictDeserializer.parse"])
def _() -> None:
    f = z3.Function("key", INT, STR)
    survives(TyGen(dict, (str, any_type())), dict_of(lambda j: SStr([f(j)])), "dictionary")


@obligation("C03", "dict[enumeration, T] survives the round trip if T does", ["serializer.TypedEnumDictSerializer.generate", "deserializer.EnumDictDeserializer.parse"])
def _() -> None:
    e, f = any_enum(), z3.Function("key", INT, INT)

    def key(j: Any) -> Any:
        k = f(j)
        ctx().axiom(("key", k), lambda: z3.And(k >= 0, k < e.traits["values"].n))
        ctx().add_index(k)
        return e.traits["member"](k)

    survives(TyGen(dict, (e, any_type())), dict_of(key), "dictionary")


for _k in ("int", "str", "bool"):

    @obligation("C03", f"every value of a literal of {_k} values survives the round trip", ["serializer.LiteralSerializer.generate", "deserializer.LiteralDeserializer.parse"])
    def _(k: str = _k) -> None:
        vs = literal_values(k)
        i = z3.Const("index", INT)
        require(z3.And(i >= 0, i < as_int(vs.pl.length())))
        ctx().add_index(i)
        survives(TyGen(typing.Literal, vs), vs.seq.at(i), "literal value")


@obligation("C03", "an annotated type survives the round trip if the type does", ["serializer._create_serializer", "deserializer._get_deserializer"])
def _() -> None:
    t = TyGen(list, (any_type(),))
    v, c, o = of_kind("list"), any_context(), options_of()
    Mode.round_trip = SKIP
    m = TyAnn(t, metadata())
    same_value(generate(call(S._get_serializer, [m, c], {}), v), generate(call(S._get_serializer, [t, c], {}), v), "what is written")
    j = generate(call(S._get_serializer, [m, c], {}), v)
    same_value(parse(call(D._get_deserializer, [m, c, o], {}), j), v, "list read back")


@obligation("C03", "an optional type survives the round trip if the type does", ["serializer.UnionSerializer.generate", "deserializer.UnionDeserializer.parse"])
def _() -> None:
    no_tags()
    t, none = any_type(), type(None)
    first = branch([False, True])
    typ = TyGen(typing.Union, (none, t) if first else (t, none), branch([False, True]))
    v = any_value()
    context = z3.Const("context", core.Ob)
    if fork(V.is_none(v.t)):
        # a type that reads null reads it as None
        v, n = None, to_V(None)
        ctx().assume(z3.Implies(P_ok(t.t, SKIP, context, n), P_val(t.t, SKIP, context, n) == n))
    else:
        # hypothesis: what the writer makes of the value without knowing its type is read back
        u = U_val(v.t)
        ctx().assume(z3.And(U_ok(v.t), z3.Not(V.is_none(u)), P_ok(t.t, SKIP, context, u), P_val(t.t, SKIP, context, u) == v.t))
        ctx().assume(z3.Not(V.is_none(v.t)))
    Mode.other_exceptions = False
    survives(typ, v, "optional value")


# ---------------------------------------------------------------- classes

def class_survives(kind: str, frozen: bool) -> None:
    class_contracts()
    Epoch.now = 0
    cls = any_class_type(kind, frozen=frozen)
    m = cls.traits["members"]
    Distinct.on = True
    if kind == "plain":
        require(m.n >= 1)
    Mode.round_trip = SKIP
    w, r = writer_of(cls), reader_of(cls)
    obj = SObj(cls, z3.Const("obj", core.Ob))
    members = STuple(m.seq())
    j = outcome(lambda: generate(w, obj))
    if j.exc is not None:
        refuted("a member cannot be written")
    back = outcome(lambda: parse(r, j.value))
    if back.exc is not None:
        refuted(f"what is written is rejected: {back.exc}")
    same_value(back.value, call(copied, [cls, members, obj], {}), "object read back")


def copied(cls, members, obj):
    values = {}
    for m in members:
        values[m.name] = getattr(obj, m.name)
    return new_object(cls, values)


for _name, _kind, _frozen in (
    ("data class", "dataclass", False),
    ("frozen data class", "dataclass", True),
    ("named tuple", "namedtuple", False),
    ("annotated class", "plain", False),
):

    @obligation("C03", f"a {_name} survives the round trip if its members do", [f"serializer: writer of a {_name}", f"deserializer: reader of a {_name}"], timeout=120)
    def _(kind: str = _kind, frozen: bool = _frozen) -> None:
        class_survives(kind, frozen)

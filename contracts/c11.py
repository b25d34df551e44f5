"C11: what the writer makes of a value is accepted by the schema of its type."

import typing

from .c03 import *  # noqa: F403
from .schemas import *  # noqa: F403
from . import spec_schema as X


def conforms(typ: Any, v: Any, what: str) -> None:
    "Induction hypothesis: what the writers of the member types make of their values is accepted by their schemas."
    schema_contracts()
    schema = schema_of(typ)
    j = outcome(lambda: generate(writer_of(typ), v))
    if j.exc is not None:
        refuted(f"{what}: cannot be written")
    accepts(schema, j.value, what)


def accepts(schema: Any, data: Any, what: str) -> None:
    r = outcome(lambda: call(X.accepts, [schema, data], {}))
    if r.exc is not None:
        raise Unsupported(f"specification: {r.exc}")
    same_value(r.value, True, f"{what} is accepted by the schema")


for _c in (type(None), bool, int, float, str, bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address):

    @obligation("C11", f"the schema of {_c.__name__} accepts what is written", ["schema.JsonSchemaGenerator._simple_type_to_schema", f"serializer: writer of {_c.__name__}"])
    def _(c: Any = _c) -> None:
        v = any_of_class(c)
        if c is datetime.datetime:
            with_offset(v)
        conforms(c, v, c.__name__)


@obligation("C11", "the schema of list[T] accepts what is written", ["schema.JsonSchemaGenerator.type_to_schema", "serializer.TypedListSerializer.generate"])
def _() -> None:
    conforms(TyGen(list, (any_type(),)), of_kind("list"), "list")


@obligation("C11", "the schema of tuple[...] accepts what is written", ["schema.JsonSchemaGenerator.type_to_schema", "serializer.TypedTupleSerializer.generate"])
def _() -> None:
    ts = any_types()
    v = of_kind("tuple")
    require(as_int(v.pl.length()) == as_int(ts.pl.length()))
    conforms(TyGen(tuple, ts), v, "tuple")


@obligation("C11", "the schema of dict[str, T] accepts what is written", ["schema.JsonSchemaGenerator.type_to_schema", "serializer.TypedStringDictSerializer.generate"])
def _() -> None:
    f = z3.Function("key", INT, STR)
    conforms(TyGen(dict, (str, any_type())), dict_of(lambda j: SStr([f(j)])), "dictionary")


for _k in ("int", "str", "bool"):

    @obligation("C11", f"the schema of a literal of {_k} values accepts each of them", ["schema.JsonSchemaGenerator.type_to_schema", "serializer.LiteralSerializer.generate"])
    def _(k: str = _k) -> None:
        vs = literal_values(k)
        i = z3.Const("index", INT)
        require(z3.And(i >= 0, i < as_int(vs.pl.length())))
        ctx().add_index(i)
        conforms(TyGen(typing.Literal, vs), vs.seq.at(i), "literal value")


@obligation("C11", "the schema of an optional type accepts what is written", ["schema.JsonSchemaGenerator.type_to_schema", "serializer.UnionSerializer.generate"])
def _() -> None:
    t, none = any_type(), type(None)
    typ = TyGen(typing.Union, branch([(none, t), (t, none)]), branch([False, True]))
    v = any_value()
    if fork(V.is_none(v.t)):
        v = None
        ctx().assume(z3.Not(accepted(t.t, to_V(None))))  # the type is not optional itself
    else:
        ctx().assume(z3.And(U_ok(v.t), z3.Not(V.is_none(U_val(v.t))), accepted(t.t, U_val(v.t))))
    conforms(typ, v, "optional value")


@obligation("C11", "the schema of a union has the schema of each member as alternative", "schema.JsonSchemaGenerator.type_to_schema")
def _() -> None:
    "What is written is accepted by it if it is by the schema of exactly one member (see known finding F13)."
    schema_contracts()
    ts = any_types()
    require(as_int(ts.pl.length()) >= 2)
    schema = schema_of(TyGen(typing.Union, ts, branch([False, True])))
    same_value(schema, call(spec_union, [ts], {}), "schema of the union")


def spec_union(types):
    return {"oneOf": [schema_for(t) for t in types]}


@obligation("C11", "the schema of an integer or text with bounds accepts what is within them, and nothing else", ["schema.JsonSchemaGenerator._with_metadata", "schema.JsonSchemaGenerator._metadata_to_schema"])
def _() -> None:
    schema_contracts()
    kind = branch(("range", "min", "max", "both"))
    low, high = SInt(z3.Const("low", INT)), SInt(z3.Const("high", INT))
    if kind == "range":
        meta: tuple = (call(A.IntegerRange, [low, high], {}),)
        v: Any = any_of_class(int)
        within = z3.And(low.t <= v.t, v.t <= high.t)
    else:
        meta = tuple(call(c, [x], {}) for n, c, x in (("min", A.MinLength, low), ("max", A.MaxLength, high)) if kind in (n, "both"))
        v = any_of_class(str)
        n = z3.Length(v.t)
        within = z3.And(kind == "max" or low.t <= n, kind == "min" or n <= high.t)
    typ = TyAnn(int if kind == "range" else str, meta)
    schema = schema_of(typ)
    r = call(X.accepts, [schema, generate(writer_of(typ), v)], {})
    goal(as_bool(r) == within, "accepted exactly if within the bounds")


def arbitrary_index(s: Any, name: str = "index") -> Any:
    i = z3.Const(name, INT)
    require(z3.And(i >= 0, i < as_int(s.n)))
    ctx().add_index(i)
    return i


@obligation("C11", "the schema of set[T] accepts what is written", ["schema.JsonSchemaGenerator.type_to_schema", "serializer.TypedSetSerializer.generate"])
def _() -> None:
    "Distinct members are written as distinct items, for they are read back as they were (C03)."
    t, v = any_type(), of_kind("set")
    conforms(TyGen(set, (t,)), v, "set")
    s = interp.to_seq(v)
    i, k = arbitrary_index(s, "i"), arbitrary_index(s, "k")
    x, y = to_V(s.at(i)), to_V(s.at(k))
    require(x != y)
    a, b = to_V(generate(writer_of(TyGen(set, (t,))), v).segs[0][1].at(i)), None
    b = to_V(generate(writer_of(TyGen(set, (t,))), v).segs[0][1].at(k))
    goal(a != b, "items are unique")


for _k in ("int", "str", "bool"):

    @obligation("C11", f"the schema of an enumeration of {_k} values accepts each member", ["schema.JsonSchemaGenerator.type_to_schema", "serializer.EnumSerializer.generate"])
    def _(k: str = _k) -> None:
        e = any_enum("E", (k,))
        i = z3.Const("index", INT)
        require(z3.And(i >= 0, i < e.traits["values"].n))
        ctx().add_index(i)
        conforms(e, e.traits["member"](i), "member of the enumeration")


@obligation("C11", "the schema of dict[enumeration, T] accepts what is written", ["schema.JsonSchemaGenerator.type_to_schema", "serializer.TypedEnumDictSerializer.generate"])
def _() -> None:
    e, f = any_enum(), z3.Function("key", INT, INT)

    def key(j: Any) -> Any:
        k = f(j)
        ctx().axiom(("key", k), lambda: z3.And(k >= 0, k < e.traits["values"].n))
        ctx().add_index(k)
        return e.traits["member"](k)

    conforms(TyGen(dict, (e, any_type())), dict_of(key), "dictionary")


KINDS = (
    ("data class", "dataclass", False),
    ("frozen data class", "dataclass", True),
    ("named tuple", "namedtuple", False),
    ("annotated class", "plain", False),
)


def spec_class_schema(members, documentation):
    "Schema of a class: a property for each member, those of members that are not optional being required."
    properties = {}
    required = []
    for m in members:
        properties[m.property] = schema_for(m.reader)
        if not m.optional:
            required.append(m.property)
    schema = {"type": "object"}
    if len(members) > 0:
        schema["properties"] = properties
        schema["additionalProperties"] = False
    if len(required) > 0:
        schema["required"] = required
    schema.update(documentation)
    return schema


def schema_for(typ: Any) -> Any:
    raise NotImplementedError


CONTRACTS[schema_for] = lambda typ: AbsSchema(typ.t)


for _name, _kind, _frozen in KINDS:
    for _post in (False, True):

        @obligation(
            ("C11", "C10"),
            f"the schema of a {_name}{' with postponed annotations' if _post else ''} has exactly the properties of the members, and requires those that are not optional",
            "schema.JsonSchemaGenerator.type_to_schema", timeout=120,
        )
        def _(kind: str = _kind, frozen: bool = _frozen, postponed: bool = _post) -> None:
            class_contracts()
            schema_contracts()
            cls = any_class_type(kind, frozen=frozen, postponed=postponed)
            members = STuple(cls.traits["members"].seq())
            if kind == "plain":
                require(cls.traits["members"].n >= 1)
            schema = schema_of(cls)
            same_value(schema, call(spec_class_schema, [members, documentation(cls)], {}), "schema of the class")

    @obligation("C11", f"the schema of a {_name} accepts what is written", f"serializer: writer of a {_name}", timeout=120)
    def _(kind: str = _kind, frozen: bool = _frozen) -> None:
        "For the schema of the previous obligation."
        class_contracts()
        schema_contracts()
        Distinct.on = Distinct.of_type = True
        cls = any_class_type(kind, frozen=frozen)
        m = cls.traits["members"]
        if kind == "plain":
            require(m.n >= 1)
        schema = call(spec_class_schema, [STuple(m.seq()), PDict()], {})
        j = outcome(lambda: generate(writer_of(cls), SObj(cls, z3.Const("obj", core.Ob))))
        if j.exc is not None:
            refuted(f"{kind}: cannot be written")
        accepts(schema, j.value, "object")

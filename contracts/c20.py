"C20: types created from a schema."

import decimal
import enum
import sys as _sys

from .c16 import *  # noqa: F403

import strong_typing.classdef as CD  # noqa: E402

FIXED_INT = {"int16": A.int16, "int32": A.int32, "int64": A.int64}
RANGE = {A.int16: 2**15, A.int32: 2**31, A.int64: 2**63}


@obligation("C20", "an integer range becomes a type whose range contains it", "classdef.integer_range_to_type")
def _() -> None:
    low, high, x = (SInt(z3.Const(n, INT)) for n in ("min_value", "max_value", "x"))
    require(low.t <= high.t)
    t = call(CD.integer_range_to_type, [low, high], {})
    require(z3.And(low.t <= x.t, x.t <= high.t))
    in_range(t, x.t)


def in_range(t: Any, x: Any) -> None:
    "The value is one of the integer type."
    if t is int:
        goal(True, "unbounded")
        return
    if not isinstance(t, type(A.int16)) and t not in RANGE:
        refuted(f"not an integer type: {t}")
    bound = next((m for m in t.__metadata__ if isinstance(m, A.IntegerRange)), None)
    if bound is None or t.__origin__ is not int:
        refuted(f"not an integer type: {t}")
    goal(z3.And(x >= bound.minimum, x <= bound.maximum), "the value is within the range of the type")


def optional(name: str, kind: str) -> SV:
    "None or a value of a kind."
    v = z3.Const(name, V)
    ctx().assume(z3.Or(V.is_none(v), core.is_kind(v, kind)))
    return SV(v, True)


def node(cls: Any, **given: Any) -> Obj:
    "An arbitrary node of a schema."
    o = Obj(cls)
    basic = {"title": "str", "description": "str", "format": "str", "minimum": None, "maximum": None, "minLength": "int", "maxLength": "int"}
    for f in cls.__dataclass_fields__:
        if f in given:
            o.attrs[f] = given[f]
        elif f in basic:
            o.attrs[f] = optional(f, basic[f] or ("int" if cls is CD.JsonSchemaInteger else "float"))
        elif f == "type":
            o.attrs[f] = {"JsonSchemaInteger": "integer", "JsonSchemaString": "string", "JsonSchemaNumber": "number", "JsonSchemaBoolean": "boolean", "JsonSchemaArray": "array", "JsonSchemaObject": "object"}[cls.__name__]
        else:
            o.attrs[f] = None
    return o


READ = z3.Function("read_default", core.Ty, V, V)


def reading_contract() -> None:
    "Contract of `json_to_object` (C04, C05): the default is read as the type of the member."

    def c(typ: Any, data: Any, *a: Any, **kw: Any) -> Any:
        return SV(READ(key_of(typ), to_V(data)))

    CONTRACTS[CD.json_to_object] = c


def key_of(typ: Any) -> Any:
    t = type_term(typ)
    return t if t is not None else z3.Const(f"type:{typ}", core.Ty)


def typedef(n: Any) -> Any:
    module = SObj(types.ModuleType, z3.Const("module", core.Ob))
    return call(CD.node_to_typedef, [module, "Context", n], {})


def default_is(td: Any, typ: Any, value: Any) -> None:
    d = getattr_(td, "default")
    if fork(interp.truth_of(interp.identical(value, None))):
        same_value(d, __import__("dataclasses").MISSING, "no default")
    else:
        same_value(d, SV(READ(key_of(typ), to_V(value))), "default")


def is_type(td: Any, typ: Any, what: str) -> None:
    t = getattr_(td, "type")
    if not (t is typ or (not isinstance(t, Sym) and t == typ)):
        refuted(f"{what}: {t} instead of {typ}")
    goal(True, what)


@obligation("C20", "a constant becomes a literal type of this value", "classdef.node_to_typedef", timeout=120)
def _() -> None:
    cls, kind = branch(((CD.JsonSchemaBoolean, "bool"), (CD.JsonSchemaInteger, "int"), (CD.JsonSchemaNumber, "float"), (CD.JsonSchemaString, "str")))
    v = z3.Const("const", V)
    ctx().assume(core.is_kind(v, kind))
    reading_contract()
    td = typedef(node(cls, const=SV(v, True)))
    t = getattr_(td, "type")
    if not (isinstance(t, TyGen) and t.origin is typing.Literal):
        refuted(f"not a literal: {t}")
    same_value(t.args if isinstance(t.args, tuple) else tuple(to_seq_(t.args).concrete()), (SV(v, True),), "value of the literal")


@obligation("C20", "an integer node becomes an integer type that contains its range and its values, with its default", "classdef.node_to_typedef", timeout=120)
def _() -> None:
    reading_contract()
    default = optional("default", "int")
    n = node(CD.JsonSchemaInteger, default=default)
    low, high, fmt = n.attrs["minimum"], n.attrs["maximum"], n.attrs["format"]
    # a schema whose range is not within that of its format contradicts itself
    named = [V.s(fmt.t) == z3.StringVal(k) for k in FIXED_INT]
    td = typedef(n)
    t = getattr_(td, "type")
    x = z3.Const("x", INT)
    require(z3.Implies(V.is_int(low.t), x >= V.i(low.t)))
    require(z3.Implies(V.is_int(high.t), x <= V.i(high.t)))
    for (k, ft), c in zip(FIXED_INT.items(), named):
        require(z3.Implies(z3.And(V.is_str(fmt.t), c), z3.And(x >= -RANGE[ft], x < RANGE[ft])))
    in_range(t, x)
    default_is(td, t, default)


FORMATS = {
    "date-time": datetime.datetime, "date": datetime.date, "time": datetime.time, "duration": datetime.timedelta, "uuid": uuid.UUID,
    "ipv4": ipaddress.IPv4Address, "ipv6": ipaddress.IPv6Address,
}


@obligation("C20", "a string format becomes the corresponding type, another string node a string", "classdef.node_to_typedef", timeout=120)
def _() -> None:
    reading_contract()
    default = optional("default", "str")
    n = node(CD.JsonSchemaString, default=default, maxLength=branch((None, SInt(z3.Const("maxLength", INT)))))
    td = typedef(n)
    t = getattr_(td, "type")
    fmt = n.attrs["format"].t
    for name, cls in FORMATS.items():
        if fork(z3.And(V.is_str(fmt), V.s(fmt) == z3.StringVal(name))):
            is_type(td, cls, name)
            default_is(td, t, default)
            return
    if n.attrs["maxLength"] is None:
        is_type(td, str, "string")
        default_is(td, t, default)
    else:
        if not isinstance(t, TyAnn) and typing.get_origin(t) is not typing.Annotated:
            refuted(f"not annotated: {t}")
        (m,) = t.metadata
        if t.inner is not str or m.cls is not A.MaxLength:
            refuted("not a string with maximum length")
        same_value(getattr_(m, "value"), n.attrs["maxLength"], "maximum length")


@obligation("C20", "a Boolean node becomes bool, an unrestricted object any JSON value", "classdef.node_to_typedef")
def _() -> None:
    reading_contract()
    default = optional("default", "bool")
    td = typedef(node(CD.JsonSchemaBoolean, default=default))
    is_type(td, bool, "Boolean")
    default_is(td, bool, default)
    td = typedef(node(CD.JsonSchemaObject))
    is_type(td, CD.JsonType, "unrestricted object")
    same_value(getattr_(td, "default"), __import__("dataclasses").MISSING, "no default")


@obligation("C20", "a number node becomes a number type of its format", "classdef.node_to_typedef")
def _() -> None:
    reading_contract()
    default = optional("default", "float")
    n = node(CD.JsonSchemaNumber, default=default)
    td = typedef(n)
    fmt = n.attrs["format"].t
    t = float
    for name, cls in (("float32", A.float32), ("float64", A.float64)):
        if fork(z3.And(V.is_str(fmt), V.s(fmt) == z3.StringVal(name))):
            t = cls
    is_type(td, t, "number")
    default_is(td, t, default)


# ---------------------------------------------------------------- composite nodes: their parts are arbitrary nodes

import dataclasses as _dc  # noqa: E402

from .loops import invariant  # noqa: E402
from pyvc import text  # noqa: E402

type_of = z3.Function("type_of_node", core.Ob, core.Ty)
has_default = z3.Function("node_has_default", core.Ob, BOOL)
default_of = z3.Function("default_of_node", core.Ob, V)
OB = core.Ob


class Child(Sym):
    "A node of which nothing is known but the type that it becomes (induction hypothesis)."

    def __init__(self, t: Any):
        self.t = t

    def vc_getattr(self, nm: str) -> Any:
        if nm in ("title", "description"):
            v = z3.Function(f"node_{nm}", OB, V)(self.t)
            ctx().axiom((nm, self.t), lambda: z3.Or(V.is_none(v), V.is_str(v)))
            return SV(v, True)
        raise Unsupported(f"{nm} of a node")

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Child(core.substitute(self.t, *pairs))


def default_value(t: Any) -> Any:
    if not fork(has_default(t)):
        return _dc.MISSING
    ctx().axiom(("a default that is present", t), lambda: z3.Not(z3.And(V.is_obj(default_of(t)), V.o(default_of(t)) == interp.obj_const(_dc.MISSING))))
    return SV(default_of(t))


class Member(Sym):
    "Contract of dataclasses.field."

    def __init__(self, default: Any):
        self.default = default

    def vc_getattr(self, nm: str) -> Any:
        return self.default if nm == "default" else NotImplemented

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Member(go(self.default))

    def vc_same(self, other: Any, what: str) -> None:
        if not isinstance(other, Member):
            refuted(f"{what}: not a member")
        missing = [x.default is _dc.MISSING for x in (self, other)]
        if missing[0] is not missing[1]:
            refuted(f"{what}: a default of one only")
        if not missing[0]:
            same_value(self.default, other.default, f"{what}: default")


class OptionalOf(Sym):
    "The optional type of a type."

    def __init__(self, t: Any):
        self.t = t

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return OptionalOf(go(self.t))

    def vc_same(self, other: Any, what: str) -> None:
        if isinstance(other, TyGen) and other.origin is typing.Union and isinstance(other.args, tuple) and len(other.args) == 2:
            rest = [a for a in other.args if a is not None and a is not type(None)]
            if len(rest) == 1:
                same_value(rest[0], self.t, what)
                return
        refuted(f"{what}: not an optional type")


class Made(Sym):
    "A class that has been created."

    def __init__(self, name: Any, fields: Any, module: Any):
        self.name, self.fields, self.module = name, fields, module
        self.doc: Any = None

    def vc_setattr(self, nm: str, value: Any) -> None:
        if nm == "__doc__":
            self.doc = value
        elif nm == "__module__":
            self.module = value
        else:
            raise Unsupported(f"{nm} of a class")


class Module(Sym):
    "A module: names that are defined in it, and those that are assigned."

    def __init__(self) -> None:
        self.has = z3.Function("module_defines", STR, BOOL)
        self.type = z3.Function("module_member", STR, core.Ty)
        self.assigned: list = []
        self.each: Any = None

    def vc_getattr(self, nm: str) -> Any:
        return SStr([z3.Const("module_name", STR)]) if nm == "__name__" else NotImplemented

    def vc_attr(self, nm: Any, default: Any) -> Any:
        t = interp.str_term(nm)
        if fork(self.has(t)):
            return TyOpaque(self.type(t))
        if default is models._no_default:
            interp.raise_py(AttributeError)
        return default

    def vc_setattr(self, nm: Any, value: Any) -> None:
        if not interp.effect(self, "set", nm, value):
            self.assigned.append((nm, value))

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        if not all(len(es) == 1 for _, es in paths):
            raise Unsupported("assignments to a module")
        self.each = seqs.TemplSeq(count, i0, [seqs.Path(p.conds, p.facts, p.universals, p.indices, es[0][1]) for p, es in paths])


def parts_contract() -> None:
    reading_contract()

    def c(module: Any, context: Any, n: Any) -> Any:
        if not isinstance(n, Child):
            return NotImplemented
        return call(CD.TypeDef, [TyOpaque(type_of(n.t)), default_value(n.t)], {})

    CONTRACTS[CD.node_to_typedef] = c
    CONTRACTS[_dc.field] = lambda default=_dc.MISSING: Member(default)
    CONTRACTS[_dc.make_dataclass] = lambda name, fields, module=None, namespace=None: Made(name, fields, module)
    CONTRACTS[CD.Docstring.__str__] = lambda d: SStr([z3.Const("documentation", STR)])


def of_module(n: Any, module: Any = None) -> Any:
    return call(CD.node_to_typedef, [Module() if module is None else module, "Context", n], {})


def no_default(td: Any) -> None:
    if getattr_(td, "default") is not _dc.MISSING:
        refuted("a default that the node does not have")


@obligation("C20", "an array becomes a list of the type of its items", "classdef.node_to_typedef")
def _() -> None:
    parts_contract()
    child = Child(z3.Const("items", OB))
    o = outcome(lambda: of_module(node(CD.JsonSchemaArray, items=child)))
    if o.exc is not None:
        if o.exc.cls is not TypeError:
            refuted(f"ends in {o.exc.cls}")
        goal(has_default(child.t), "refused since an item has a default")
        return
    t = getattr_(o.value, "type")
    if not isinstance(t, TyGen) or t.origin is not list:
        refuted(f"not a list: {t}")
    same_value(t.args, (TyOpaque(type_of(child.t)),), "type of an item")
    no_default(o.value)


@obligation("C20", "alternatives become the union of their types, any number of them", "classdef.node_to_typedef")
def _() -> None:
    parts_contract()
    n, f = z3.Const("alternatives", INT), z3.Function("alternative", INT, OB)
    ctx().add_fact(n >= 2)
    items = PList([("seq", FnSeq(n, lambda j: Child(f(as_int(j)))))])
    o = outcome(lambda: of_module(node(CD.JsonSchemaOneOf, oneOf=items)))
    if o.exc is not None:
        if o.exc.cls is not TypeError:
            refuted(f"ends in {o.exc.cls}")
        if seqs.find_first(n, lambda j: fork(has_default(f(as_int(j))))) is None:
            refuted("refused without reason")
        goal(z3.BoolVal(True), "refused since an alternative has a default")
        return
    t = getattr_(o.value, "type")
    if not isinstance(t, TyGen) or t.origin is not typing.Union:
        refuted(f"not a union: {t}")
    same_value(t.args, STuple(FnSeq(n, lambda j: TyOpaque(type_of(f(as_int(j)))))), "types of the union")
    no_default(o.value)


REFERENCE = r"^#/definitions/(\w+)$"
text.TRAITS["c20_name"] = text.WORD


class Group(Sym):
    def __init__(self, whole: Any, name: Any):
        self.groups = (whole, name)

    def vc_truth(self) -> bool:
        return True

    def vc_getattr(self, nm: str) -> Any:
        return Model(lambda k=0: self.groups[k], "group") if nm == "group" else NotImplemented

    def vc_getitem(self, k: Any) -> Any:
        return self.groups[k]


@obligation("C20", "a reference becomes the type of the named definition, or a reference to it by name", "classdef.node_to_typedef")
def _() -> None:
    parts_contract()
    name = SStr([z3.Const("c20_name", STR)])
    formed = branch((True, False))
    ref = SStr(["#/definitions/", *name.pieces]) if formed else SStr([z3.Const("another_reference", STR)])

    def match(pattern: Any, s: Any, *a: Any) -> Any:
        "Contract of the pattern of references."
        if pattern != REFERENCE or a or s is not ref:
            raise Unsupported("pattern of a reference")
        return Group(s, name) if formed else None

    CONTRACTS[re_.match] = match
    CONTRACTS[typing.ForwardRef] = lambda nm, is_argument=True, module=None: Made("reference", nm, module)
    module = Module()
    o = outcome(lambda: of_module(node(CD.JsonSchemaRef, ref=ref), module))
    if o.exc is not None:
        if formed or o.exc.cls is not ValueError:
            refuted(f"ends in {o.exc.cls}")
        goal(z3.BoolVal(True), "refused")
        return
    if not formed:
        refuted("a text that is no reference is accepted")
    t = getattr_(o.value, "type")
    if fork(module.has(name.t)):
        same_value(t, TyOpaque(module.type(name.t)), "type of the definition")
    else:
        if not isinstance(t, Made) or t.name != "reference":
            refuted("not a reference")
        same_value(t.fields, name, "name of the definition")
        same_value(t.module, getattr_(module, "__name__"), "module of the definition")
    no_default(o.value)


re_ = __import__("re")


class Required(Sym):
    def __init__(self) -> None:
        self.has = z3.Function("is_required", STR, BOOL)

    def vc_contains(self, x: Any) -> Any:
        return self.has(interp.str_term(x))

    def vc_truth(self) -> bool:
        return fork(z3.Const("some_required", BOOL))


def properties() -> tuple:
    n, key, f = z3.Const("properties", INT), z3.Function("property_name", INT, STR), z3.Function("property_node", INT, OB)
    ctx().add_fact(n >= 0)
    q = FnSeq(n, lambda j: (SStr([key(as_int(j))]), Child(f(as_int(j)))))
    q.distinct = True
    return PDict([("seq", q)]), n, key, f


@obligation("C20", "properties become members, optional exactly if they are not required, with their defaults", "classdef.node_to_typedef", timeout=200)
def _() -> None:
    parts_contract()
    props, n, key, f = properties()
    required = branch((None, Required()))
    additional = branch((False, None, True))
    module = Module()
    o = outcome(lambda: of_module(node(CD.JsonSchemaObject, properties=props, required=required, additionalProperties=additional), module))
    if o.exc is not None:
        if additional is False or o.exc.cls is not TypeError:
            refuted(f"ends in {o.exc.cls}")
        goal(z3.BoolVal(True), "refused")
        return
    if additional is not False:
        refuted("properties that are not listed are admitted")
    made = getattr_(o.value, "type")
    no_default(o.value)
    if not isinstance(made, Made) or made.name != "Context":
        refuted("not the class")

    def member(j: Any, with_default: bool) -> Any:
        i = as_int(j)
        t: Any = TyOpaque(type_of(f(i)))
        d = default_value(f(i))
        if (d is not _dc.MISSING) is not with_default:
            return seqs.ABSENT
        if required is None or not fork(required.has(key(i))):
            t = OptionalOf(t)
        return (SStr([key(i)]), t, Member(d))

    want = PList([("filter", FnSeq(n, lambda j: member(j, False))), ("filter", FnSeq(n, lambda j: member(j, True)))])
    same_value(made.fields, want, "members")
    same_value(made.module, getattr_(module, "__name__"), "module of the class")
    if len(module.assigned) != 1 or module.assigned[0][0] != "Context" or module.assigned[0][1] is not made:
        refuted("the class is not a member of the module")


@obligation("C20", "each definition becomes a member of the module, and the schema the type of its node", "classdef.schema_to_type")
def _() -> None:
    parts_contract()
    n, key, f = z3.Const("definitions", INT), z3.Function("definition_name", INT, STR), z3.Function("definition_node", INT, OB)
    ctx().add_fact(n >= 0)
    defs = branch((None, PDict([("seq", FnSeq(n, lambda j: (SStr([key(as_int(j))]), Child(f(as_int(j))))))])))
    module = Module()

    class Top(Child):
        def vc_getattr(self, nm: str) -> Any:
            return defs if nm == "definitions" else super().vc_getattr(nm)

    top = Top(z3.Const("top", OB))
    schema = any_json("schema")

    def read(typ: Any, data: Any, **kw: Any) -> Any:
        if typ is not CD.JsonSchemaTopLevelObject or data is not schema or kw:
            raise Unsupported("reading of another schema")
        return top

    CONTRACTS[CD.json_to_object] = read
    o = outcome(lambda: call(CD.schema_to_type, [schema], {"module": module, "class_name": "Context"}))
    if o.exc is not None:
        if o.exc.cls is not TypeError or defs is None:
            refuted(f"ends in {o.exc.cls}")
        if seqs.find_first(n, lambda j: fork(has_default(f(as_int(j))))) is None:
            refuted("refused without reason")
        goal(z3.BoolVal(True), "refused since a definition has a default")
        return
    same_value(o.value, TyOpaque(type_of(top.t)), "type of the schema")
    if defs is None or ctx().implied(n == 0):
        return
    if module.each is None:
        refuted("definitions are not members of the module")
    want = FnSeq(n, lambda j: (SStr([key(as_int(j))]), TyOpaque(type_of(f(as_int(j))))))
    same_value(PList([("seq", module.each)]), PList([("seq", want)]), "members of the module")


# ---------------------------------------------------------------- enumerations


@obligation("C20", "an integer enumeration becomes an integer type that contains its values", "classdef.node_to_typedef")
def _() -> None:
    reading_contract()
    n, f = z3.Const("values", INT), z3.Function("listed_value", INT, INT)
    ctx().add_fact(n >= 1)
    values = PList([("seq", FnSeq(n, lambda j: SInt(f(as_int(j)))))])
    fmt = SStr([z3.Const("format", STR)])
    default = optional("default", "int")
    nd = node(CD.JsonSchemaInteger, enum=values, default=default, format=branch((None, fmt)))
    for k in FIXED_INT:
        ctx().add_fact(fmt.t != z3.StringVal(k))
    td = typedef(nd)
    i = z3.Const("i", INT)
    t = getattr_(td, "type")
    default_is(td, t, default)
    core.explore(lambda: in_range(t, f(i)), index=i, bound=n, keep=False)


# The names of an enumeration: what Python reserves in the body of the class, and `mro`.


def reserved(x: Any, cls: Any) -> Any:
    "Names that do not become members of an enumeration (sunder, dunder, private, empty, mro)."
    s = z3.StringVal
    return z3.Or(
        x == s(""),
        x == s("mro"),
        z3.And(z3.PrefixOf(s("_"), x), z3.SuffixOf(s("_"), x)),
        z3.And(z3.PrefixOf(s("__"), x), z3.SuffixOf(s("__"), x)),
        z3.PrefixOf(z3.Concat(s("_"), cls, s("__")), x),
    )


only_words = z3.Function("only_word_characters", STR, BOOL)


def word_name(x: Any) -> Any:
    "The text has word characters only: each of its parts does."
    pieces = x.pieces if isinstance(x, SStr) else [x]
    if not all(re_.fullmatch(r"\w*", p) for p in pieces if isinstance(p, str)):
        refuted("a name with other characters")
    return z3.And(*[only_words(p) for p in pieces if not isinstance(p, str)])


class Names20(Sym):
    "The dictionary of members while it is filled: at an iteration, an arbitrary set of names has been given."

    def __init__(self, cls: Any):
        self.cls = cls
        self.taken = z3.Function("is_taken", STR, BOOL)
        self.each: Any = None

    def vc_contains(self, key: Any) -> Any:
        return not fork(z3.Not(self.taken(interp.str_term(key))))

    def vc_setitem(self, key: Any, value: Any) -> None:
        t = interp.str_term(key)
        goal(z3.Not(self.taken(t)), "no two values have the same name")
        goal(z3.Not(reserved(t, self.cls)), "the name is not reserved")
        goal(word_name(key), "the name has word characters only")
        if not interp.effect(self, "set", key, value):
            raise Unsupported("a member outside a loop")

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        if self.each is not None or not all(len(es) == 1 for _, es in paths):
            raise Unsupported("members of an enumeration")
        self.each = seqs.TemplSeq(count, i0, [seqs.Path(p.conds, p.facts, p.universals, p.indices, es[0][1]) for p, es in paths])


_LEMMAS: dict = {}


def growth_lemma(before: Any, after: Any) -> None:
    "If what is made of a name that is not reserved is not reserved either, for any name and class, says so."
    x = z3.Const("some_name", STR)
    after_x = core.substitute(after, (before, x))
    k = after_x.sexpr()
    if k not in _LEMMAS:
        query = [z3.Not(reserved(x, CLASS)), reserved(after_x, CLASS)]
        _LEMMAS[k] = core.cvc5_unsat(query)
        if _LEMMAS[k]:
            core.count_backend("cvc5")
    if _LEMMAS[k]:
        ctx().add_fact(z3.Not(reserved(after, CLASS)))


def search_for_name(it: Any, st: Any) -> bool:
    "A loop that goes on until a name is free: its variables are names that are not reserved, and grow."
    import ast

    names = {x.id for y in st.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    before = {}

    def check(what: str) -> None:
        for x in names:
            t = interp.str_term(it.env.vars[x])
            invariant(z3.Not(reserved(t, CLASS)), f"{what}: the name is not reserved")
            invariant(word_name(it.env.vars[x]), f"{what}: word characters only")

    def once() -> bool:
        "An iteration; false if the loop ends with it."
        if not interp.truth(it.eval(st.test)):
            it.exec_block(st.orelse)
            return False
        try:
            it.exec_block(st.body)
        except interp.ContinueSig:
            pass
        except interp.BreakSig:
            return False
        return True

    if not all(isinstance(it.env.vars.get(x), SStr) for x in names):
        raise Unsupported("variables of a loop")
    if not interp.truth(it.eval(st.test)):
        it.exec_block(st.orelse)
        return True
    check("before the loop")
    for x in names:
        before[x] = z3.Const(ctx().name(f"some_{x}"), STR)
        it.env.assign(x, SStr([before[x]]))
        ctx().add_fact(z3.Not(reserved(before[x], CLASS)))
        ctx().add_fact(word_name(before[x]))
    if not once():
        return True
    for x in names:
        growth_lemma(before[x], interp.str_term(it.env.vars[x]))
    check("after an iteration")
    for x in names:
        invariant(z3.Length(interp.str_term(it.env.vars[x])) > z3.Length(before[x]), "the name grows")
    raise core.Infeasible()


CLASS = z3.Const("class_name", STR)


@obligation("C20", "a string enumeration becomes an enumeration of its values, each under a name of its own that is not reserved", ["classdef.node_to_typedef", "classdef.enum_safe_name", "classdef.enum_values_to_type"], timeout=300)
def _() -> None:
    parts_contract()
    n, f = z3.Const("values", INT), z3.Function("listed_text", INT, STR)
    ctx().add_fact(n >= 1)
    values = PList([("seq", FnSeq(n, lambda j: SStr([f(as_int(j))])))])
    fmt = SStr([z3.Const("format", STR)])
    for k in FORMATS:
        ctx().add_fact(fmt.t != z3.StringVal(k))
    default = optional("default", "str")
    nd = node(CD.JsonSchemaString, enum=values, default=default, format=branch((None, fmt)), maxLength=branch((None, SInt(z3.Const("maxLength", INT)))))
    tables: list = []
    subst = z3.Function("with_underscores", STR, STR)

    def table() -> Any:
        tables.append(Names20(CLASS))
        return tables[-1]

    def sub(pattern: Any, repl: Any, s: Any, *a: Any, **kw: Any) -> Any:
        "Contract of replacing each character that is not a word character by an underscore."
        if pattern != r"\W" or repl != "_" or a or kw:
            raise Unsupported("pattern of a name")
        r = subst(interp.str_term(s))
        ctx().axiom(("with underscores", r), lambda: word_name(r))
        return SStr([r])

    def create(name: Any, members: Any, **kw: Any) -> Any:
        "Contract of the functional interface of enum.Enum."
        if kw:
            raise Unsupported("enumeration with options")
        return Made(name, members, None)

    CONTRACTS[re_.sub] = sub
    CONTRACTS[enum.Enum] = create
    CONTRACTS[enum.unique] = lambda c: c  # the values of an enumeration in a schema are distinct
    interp.NEW_DICT, interp.WHILE = table, search_for_name
    module = Module()
    name = SStr([CLASS])
    o = outcome(lambda: call(CD.node_to_typedef, [module, name, nd], {}))
    interp.NEW_DICT = interp.WHILE = None
    if o.exc is not None:
        refuted(f"ends in {o.exc.cls}")
    t = getattr_(o.value, "type")
    if not isinstance(t, Made) or not isinstance(t.fields, Names20) or t.fields.each is None:
        refuted(f"not an enumeration: {t}")
    same_value(t.name, name, "name of the enumeration")
    same_value(t.module, getattr_(module, "__name__"), "module of the enumeration")
    listed = t.fields.each
    i = z3.Const("i", INT)
    core.explore(lambda: same_value(listed.at(i)[1], SStr([f(i)]), "value of a member"), index=i, bound=n, keep=False)
    goal(as_int(listed.n) == n, "number of members")
    if len(module.assigned) != 1 or module.assigned[0][1] is not t:
        refuted("the enumeration is not a member of the module")
    same_value(module.assigned[0][0], name, "name in the module")
    default_is(o.value, t, default)


@obligation("C20", "a number of limited digits becomes a decimal of this precision (bounded: up to 28 digits before and after the point)", "classdef.node_to_typedef", timeout=200)
def _() -> None:
    reading_contract()
    for before in range(29):
        for after in range(29):
            limit: Any = 10**before
            n = node(CD.JsonSchemaNumber, exclusiveMinimum=-limit, exclusiveMaximum=limit, multipleOf=10 ** (-after), format=None, minimum=None, maximum=None)
            if before + after == 0:
                continue
            t = getattr_(typedef(n), "type")
            if typing.get_origin(t) is not typing.Annotated and not isinstance(t, TyAnn):
                refuted(f"not annotated: {t}")
            base, metadata = (t.inner, t.metadata) if isinstance(t, TyAnn) else (t.__origin__, t.__metadata__)
            if base is not decimal.Decimal or len(metadata) != 1:
                refuted(f"not a decimal: {t}")
            m = metadata[0]
            if (getattr_(m, "significant_digits"), getattr_(m, "decimal_digits")) != (before + after, after):
                refuted(f"precision of {before} and {after} digits")
    goal(z3.BoolVal(True), "precision")

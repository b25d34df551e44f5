"C09: what the writer makes of a value is a new JSON tree; its members are what the writers of the member types make."

from .values import *  # noqa: F403
import inspect

from . import spec_write as W


def of_kind(kind: str, name: str = "value") -> Any:
    v = z3.Const(name, V)
    ctx().assume(core.is_kind(v, kind))
    return interp.view(v, kind, False)


def detached(j: Any, v: Any) -> None:
    "The container was made by the writer, and the one that was written is as it was."
    if j is v or getattr(j, "src", None) is not None:
        refuted("the output is the container that was given", definite=False)
    if v.src is None:
        refuted("the container that was given is modified", definite=False)
    goal(True, "detached")


def writes_like(typ: Any, v: Any, fn: Any, *args: Any, kind: str = "list") -> None:
    a = outcome(lambda: generate(writer_of(typ), v))
    same_outcome(a, outcome(lambda: call(fn, [*args, v], {})), "writer")
    if a.exc is None:
        if interp.kind_of(a.value) != kind:
            refuted(f"written as {interp.kind_of(a.value)}")
        detached(a.value, v)


@obligation("C09", "writer of list[T] writes each item as T, into a new list", "serializer.TypedListSerializer.generate")
def _() -> None:
    t = any_type()
    writes_like(TyGen(list, (t,)), of_kind("list"), W.write_list, t)


@obligation("C09", "writer of set[T] writes each item as T, into a new list", "serializer.TypedSetSerializer.generate")
def _() -> None:
    t = any_type()
    writes_like(TyGen(set, (t,)), of_kind("set"), W.write_list, t)


@obligation("C09", "writer of tuple[...] writes each item as the type at its position", "serializer.TypedTupleSerializer.generate")
def _() -> None:
    ts = any_types()
    v = of_kind("tuple")
    require(as_int(v.pl.length()) == as_int(ts.pl.length()))
    writes_like(TyGen(tuple, ts), v, W.write_tuple, ts)


def dict_of(key: Any, name: str = "value") -> Any:
    "An arbitrary dictionary whose j-th key is given."
    n, f = z3.Const(f"{name}_n", INT), z3.Function(name, INT, V)
    ctx().add_fact(n >= 0)
    d = PDict([("seq", FnSeq(n, lambda j: (key(as_int(j)), SV(f(as_int(j)))), key=name))], src=z3.Const(name, V))
    d.birth = None  # type: ignore
    return d


@obligation("C09", "writer of dict[str, T] writes each value as T under its key, into a new dictionary", "serializer.TypedStringDictSerializer.generate")
def _() -> None:
    t, f = any_type(), z3.Function("key", INT, STR)
    writes_like(TyGen(dict, (str, t)), dict_of(lambda j: SStr([f(j)])), W.write_str_dict, t, kind="dict")


@obligation("C09", "writer of dict[enumeration, T] writes each value as T under the value of its key, into a new dictionary", "serializer.TypedEnumDictSerializer.generate")
def _() -> None:
    e, t, f = any_enum(), any_type(), z3.Function("key", INT, INT)

    def key(j: Any) -> Any:
        k = f(j)
        ctx().axiom(("key", k), lambda: z3.And(k >= 0, k < e.traits["values"].n))
        return e.traits["member"](k)

    writes_like(TyGen(dict, (e, t)), dict_of(key), W.write_enum_dict, t, kind="dict")


def writes_class(kind: str, frozen: bool, postponed: bool) -> None:
    class_contracts()
    cls = any_class_type(kind, frozen=frozen, postponed=postponed)
    if kind == "plain":
        require(cls.traits["members"].n >= 1)
    p = writer_of(cls)
    members = STuple(cls.traits["members"].seq())
    obj = SObj(cls, z3.Const("obj", core.Ob))
    a = outcome(lambda: generate(p, obj))
    same_outcome(a, outcome(lambda: call(W.write_class, [members, obj], {})), f"writer of a {kind}")
    if a.exc is None:
        if interp.kind_of(a.value) != "dict" or a.value.src is not None:
            refuted("not a new dictionary")
        goal(True, "new dictionary")


for _name, _kind, _frozen in (
    ("data class", "dataclass", False),
    ("frozen data class", "dataclass", True),
    ("named tuple", "namedtuple", False),
    ("annotated class", "plain", False),
):
    for _post in (False, True):

        @obligation(
            ("C09", "C10") if not _post else ("C09",), f"writer of a {_name}{' with postponed annotations' if _post else ''}: every member that is not None under its own property name, nothing else",
            f"serializer: writer of a {_name}", timeout=120,
        )
        def _(kind: str = _kind, frozen: bool = _frozen, postponed: bool = _post) -> None:
            writes_class(kind, frozen, postponed)


def untyped(name: str, cls: type, kind: str) -> None:
    @obligation("C09", f"a {name} without item types is written item by item, into a new list", f"serializer: writer of {name}")
    def ob() -> None:
        v = of_kind(kind)
        a = outcome(lambda: generate(writer_of(cls), v))
        same_outcome(a, outcome(lambda: call(W.write_untyped_items, [v], {})), "writer")
        if a.exc is None:
            detached(a.value, v)


for _name, _cls in (("list", list), ("set", set), ("tuple", tuple)):
    untyped(_name, _cls, _name)


@obligation("C09", "a dictionary without item types is written with its keys as text, into a new dictionary", "serializer.UntypedDictSerializer.generate")
def _() -> None:
    e, f = any_enum("E", ("str", "int")), z3.Function("key", INT, INT)
    g, h = z3.Function("skey", INT, STR), z3.Function("ikey", INT, INT)

    def member(j: Any) -> Any:
        k = f(j)
        ctx().axiom(("key", k), lambda: z3.And(k >= 0, k < e.traits["values"].n))
        return e.traits["member"](k)

    keys = branch([member, lambda j: SStr([g(j)]), lambda j: SInt(h(j))])
    v = dict_of(keys)
    a = outcome(lambda: generate(writer_of(dict), v))
    same_outcome(a, outcome(lambda: call(W.write_untyped_dict, [v], {})), "writer")
    if a.exc is None:
        detached(a.value, v)


@obligation(("C09", "C03"), "a type with to_json is written by exactly this function", "serializer.CustomSerializer.generate")
def _() -> None:
    class_contracts()
    f = z3.Function("to_json", core.Ob, V)
    cls = any_class_type(branch(["dataclass", "namedtuple", "plain"]))
    cls.traits["attrs"]["to_json"] = Model(lambda obj: SV(f(obj.t)), "to_json")
    obj = SObj(cls, z3.Const("obj", core.Ob))
    same_value(generate(writer_of(cls), obj), SV(f(obj.t)), "to_json")


@obligation(("C05", "C03"), "a type with from_json is read by exactly this function", "deserializer.CustomDeserializer.parse")
def _() -> None:
    class_contracts()
    f = z3.Function("from_json", V, V)
    cls = any_class_type(branch(["dataclass", "namedtuple", "plain"]))
    cls.traits["attrs"]["from_json"] = Model(lambda data: SV(f(to_V(data))), "from_json")
    data = any_json()
    same_value(parse(reader_of(cls), data), SV(f(data.t)), "from_json")


@obligation("C09", "a named tuple without annotations is written as an object of its members", "serializer.UntypedNamedTupleSerializer.generate")
def _() -> None:
    class_contracts()
    cls = any_class_type("namedtuple")
    cls.traits["attrs"]["__annotations__"] = AttributeError
    obj = SObj(cls, z3.Const("obj", core.Ob))
    a = outcome(lambda: generate(writer_of(cls), obj))
    same_outcome(a, outcome(lambda: call(W.write_untyped_tuple, [interp.getattr_(cls, "_fields"), obj], {})), "writer")


@obligation("C09", "a value without a type is written by the writer of its class", "serializer.object_to_json")
def _() -> None:
    "For a value of a class other than those of C01."
    class_contracts()
    kind = branch(["dataclass", "namedtuple", "plain"])
    cls = any_class_type(kind)
    cls.traits["opaque_reader"] = True
    obj = SObj(cls, z3.Const("obj", core.Ob))
    own = z3.Const("own_module", core.Ob)
    a = outcome(lambda: call(S.object_to_json, [obj], {}))
    b = outcome(lambda: write_opaque(cls.t, own, obj))
    same_outcome(a, b, "writer of the class")


# classes without annotations: what they have is found out by listing the attributes of an object

is_reserved = z3.Function("is_reserved", STR, BOOL)
is_method = z3.Function("is_method", V, BOOL)


def c_reserved(name: Any) -> Any:
    "Contract: a function of the name (see the obligation on reserved names)."
    return SBool(is_reserved(interp.str_term(name))) if isinstance(name, SStr) else NotImplemented


def c_method(value: Any) -> Any:
    return SBool(is_method(value.t)) if isinstance(value, SV) else NotImplemented


CONTRACTS[W.reserved_name] = c_reserved
CONTRACTS[W.bound_method] = c_method


@obligation("C09", "an object of a class without annotations is written as an object of its attributes that are neither None nor methods nor reserved", "serializer.UntypedClassSerializer.generate")
def _() -> None:
    "For arbitrarily many attributes (as listed by dir) with arbitrary values."
    class_contracts()
    cls = any_class_type("plain")
    ctx().assume(cls.traits["members"].n == 0)
    n, f, g = z3.Const("attributes_n", INT), z3.Function("attribute", INT, STR), z3.Function("attribute_value", STR, V)
    ctx().add_fact(n >= 0)
    names = FnSeq(n, lambda j: SStr([f(as_int(j))]), key="attributes")
    names.distinct = True
    cls.traits["getattr"] = lambda obj, name: SV(g(interp.str_term(name)))
    cls.traits["dir"] = lambda: PList([("seq", names)], src=z3.Const("dir", V))
    CONTRACTS[I.is_reserved_property] = c_reserved
    CONTRACTS[inspect.ismethod] = c_method
    obj = SObj(cls, z3.Const("obj", core.Ob))
    a = outcome(lambda: generate(writer_of(cls), obj))
    same_outcome(a, outcome(lambda: call(W.write_attributes, [PList([("seq", names)]), obj], {})), "writer of a class without annotations")
    if a.exc is None:
        if interp.kind_of(a.value) != "dict" or a.value.src is not None:
            refuted("not a new dictionary")
        goal(True, "new dictionary")


@obligation("C09", "exactly names that begin and end with two underscores are reserved", "inspection.is_reserved_property")
def _() -> None:
    "For names without line breaks."
    t = z3.Const("name", STR)
    require(z3.Not(z3.Contains(t, z3.StringVal("\n"))))
    name = SStr([t])
    r = call(I.is_reserved_property, [name], {})
    same_value(r, call(W.spec_reserved, [name], {}), "reserved")


# text output

import json  # noqa: E402
import re  # noqa: E402

import strong_typing.serialization as SZ  # noqa: E402

TREE = z3.Const("tree", V)


def keeps_the_tree(options: dict) -> None:
    "Assumed of the library: with these options, parsing the text that is written gives the tree that is written."
    known = ("ensure_ascii", "check_circular", "separators", "indent", "sort_keys", "skipkeys", "allow_nan")
    if any(k not in known or not interp.is_plain(v) for k, v in options.items()):
        raise Unsupported("options of json.dumps")
    item, key = options.get("separators") or (",", ":")
    goal(z3.BoolVal(bool(re.fullmatch(r"[ \t\r\n]*,[ \t\r\n]*", item) and re.fullmatch(r"[ \t\r\n]*:[ \t\r\n]*", key))), "separators are those of JSON")
    indent = options.get("indent")
    goal(z3.BoolVal(indent is None or isinstance(indent, int) or not indent.strip(" \t\r\n")), "indentation is white space")
    goal(z3.BoolVal(options.get("allow_nan", True) is True), "any number is written")


def is_the_tree(x: Any) -> None:
    goal(z3.BoolVal(isinstance(x, SV) and x.t.eq(TREE)), "what is written is the tree that was given")


class TextFile(Sym):
    "A text file, which is written to; what is written is white space or the text of the tree."

    def __init__(self) -> None:
        self.trees = 0

    def text(self, x: Any) -> None:
        for p in [x] if isinstance(x, str) else x.pieces if isinstance(x, SStr) else [None]:
            if isinstance(p, str):
                if p.strip(" \t\r\n"):
                    refuted(f"{p!r} is written")
            elif z3.is_expr(p) and p.eq(z3.Const("text of the tree", STR)):
                self.trees += 1
            else:
                raise Unsupported("text that is written")

    def vc_getattr(self, name: str) -> Any:
        if name == "write":
            return interp.Model(lambda x: self.text(x), "write")
        if name in ("flush",):
            return interp.Model(lambda: None, name)
        return NotImplemented


def dumps(obj: Any, **options: Any) -> Any:
    is_the_tree(obj)
    keeps_the_tree(options)
    return SStr([z3.Const("text of the tree", STR)])


def dump(obj: Any, fp: Any, **options: Any) -> Any:
    fp.text(dumps(obj, **options))


@obligation("C09", "the text of a tree is what the library writes for this tree, with separators and white space of JSON", ["serialization.json_dump_string", "serialization.json_dump"])
def _() -> None:
    CONTRACTS[json.dumps], CONTRACTS[json.dump] = dumps, dump
    tree = SV(TREE, True)
    r = call(SZ.json_dump_string, [tree], {})
    out = TextFile()
    out.text(r)
    goal(z3.BoolVal(out.trees == 1), "the text is that of the tree, once")
    file = TextFile()
    call(SZ.json_dump, [tree, file], {})
    goal(z3.BoolVal(file.trees == 1), "the text is written once")

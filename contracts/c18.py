"""
C18: the text that is printed for a type, taken as an expression, denotes the type.

The text is parsed by Python's own parser.  Texts of component types (names of classes) are stood in for by identifiers that
denote the component (class), by induction; a joined text of arbitrarily many components by an identifier for all of them.
How Python evaluates the type expressions of the grammar below is part of the specification.
"""

import ast
import collections.abc
import typing

from .c16 import FORMS, any_class, metadata, values  # noqa: F401
from .classes import *  # noqa: F403
import strong_typing.name as NM  # noqa: E402
import strong_typing.auxiliary as A  # noqa: E402

NONE = type(None)
Ty = core.Ty
text_of = z3.Function("text_of", Ty, STR)
name_of_class = z3.Function("name_of_class", Ty, STR)
transformed = z3.Function("transformed", Ty, STR)
text_of_value = z3.Function("text_of_value", V, STR)

ORIGINS = {"list": list, "set": set, "frozenset": frozenset, "dict": dict, "tuple": tuple, "type": type, "Literal": typing.Literal, "Callable": collections.abc.Callable}


class Several:
    "Arbitrarily many parts of a text, with what separates them."

    def __init__(self, sep: str, items: Any):
        self.sep, self.items = sep, items


def value_term(x: Any) -> Any:
    "Term for a value, or for an annotation."
    if isinstance(x, Note):
        return x.t
    return z3.Const(f"annotation {x!r}", V) if type(x).__module__ == A.__name__ else to_V(x)


class Note(Sym):
    "An arbitrary annotation."

    def __init__(self, t: Any):
        self.t = t

    def vc_eq(self, other: Any) -> Any:
        return self.t == value_term(other)

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Note(core.substitute(self.t, *pairs))

    def vc_truth(self) -> bool:
        return True


def notes() -> Any:
    "Arbitrarily many annotations."
    n, f = z3.Const("notes", INT), z3.Function("note", INT, V)
    ctx().add_fact(n >= 1)
    return STuple(FnSeq(n, lambda j: Note(f(as_int(j))), key="note"))


def nonempty(t: Any) -> Any:
    ctx().axiom(("nonempty", t), lambda: z3.Length(t) > 0)
    return SStr([t])


def atoms(text: Any) -> tuple:
    "Source text with an identifier for each part that is not known, and what the identifiers stand for."
    text = interp.resolve(text)
    if isinstance(text, str):
        return text, {}
    if not isinstance(text, SStr):
        refuted("what is printed is not a text")
    src, table = "", {}
    for p in text.pieces:
        if isinstance(p, str):
            src += p
            continue
        known: Any = None
        for t, sep, items in models.JoinTerm.table:
            if t.eq(p):
                if fork(as_int(items.length()) == 0):
                    known = ""
                else:
                    known = Several(sep, items)
        if known is None:
            d = p.decl() if z3.is_app(p) and p.num_args() == 1 else None
            if d is None or not any(d.eq(f) for f in (text_of, name_of_class, transformed, text_of_value)):
                raise Unsupported(f"part of a text: {p}")
            known = (d.name(), p.arg(0))
        if known != "":
            name = f"__{len(table)}__"
            if src and (src[-1].isalnum() or src[-1] in "_'\""):
                raise Unsupported("texts run together")
            table[name] = known
            src += name
    return src, table


def denoted(text: Any) -> Any:
    "What a text denotes: a form of type with its parts."
    src, table = atoms(text)
    try:
        e = ast.parse(src, mode="eval").body
    except SyntaxError:
        refuted(f"{src} is not an expression")
    return meaning(e, table)


def part(x: Any) -> Any:
    name, t = x
    return ("value", t) if name == "text_of_value" else ("transformed", t) if name == "transformed" else ("type", t)


def meaning(e: Any, table: dict) -> Any:
    if isinstance(e, ast.Name):
        if e.id in table:
            x = table[e.id]
            if isinstance(x, Several):
                if x.sep.strip() == "|":
                    return ("union", x)
                raise Unsupported("joined text")
            return part(x)
        if e.id in ORIGINS:
            return ("name", ORIGINS[e.id])
        if e.id in ("Optional", "Union", "Annotated", "Any", "Self"):
            return ("name", e.id)
        if e.id in ("bool", "int", "str", "float", "bytes"):
            return ("name", {"bool": bool, "int": int, "str": str, "float": float, "bytes": bytes}[e.id])
        return ("name", e.id)
    if isinstance(e, ast.Constant) and e.value is None:
        return ("none",)
    if isinstance(e, ast.Constant):
        return ("constant", e.value)
    if isinstance(e, ast.List):
        return ("parameters", parts(e.elts, table))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return ("union", flat(e, table))
    if isinstance(e, ast.Subscript):
        base = meaning(e.value, table)
        if base[0] != "name":
            refuted("arguments of something that is not a name", False)
        args = parts(e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice], table)
        if base[1] == "Optional":
            if isinstance(args, Several) or len(args) != 1:
                refuted("Optional has one argument", False)
            return ("union", args + [("none",)])
        if base[1] == "Union":
            return ("union", args)
        return ("generic", base[1], args)
    raise Unsupported(f"expression {ast.unparse(e)}")


def flat(e: Any, table: dict) -> list:
    if isinstance(e, ast.BinOp):
        return flat(e.left, table) + flat(e.right, table)
    return [meaning(e, table)]


def parts(es: list, table: dict) -> Any:
    xs = [table.get(e.id) if isinstance(e, ast.Name) else None for e in es]
    if any(isinstance(x, Several) for x in xs):
        if len(xs) == 1:
            if xs[0].sep.strip() not in (",", "|"):
                refuted("parts are separated otherwise", False)
            return ("one union", xs[0]) if xs[0].sep.strip() == "|" else xs[0]
        if xs[0] is None or isinstance(xs[0], Several) or not isinstance(xs[1], Several) or len(xs) != 2:
            if isinstance(xs[-1], Several) and len(xs) == 2:
                return [meaning(es[0], table), xs[1]]
            raise Unsupported("joined text among others")
        return [meaning(es[0], table), xs[1]]
    return [meaning(e, table) for e in es]


# ---------------------------------------------------------------- comparison

def wrong(what: str, m: Any) -> None:
    "Definitely, unless the expression uses names that are not known here."
    known = not (m[0] in ("name", "generic") and isinstance(m[1], str) and m[1] not in ("Annotated", "Any"))
    refuted(what, known)


def is_type(m: Any, t: Any, what: str) -> None:
    "The meaning is that of a type."
    if isinstance(t, TyOpaque):
        if m[0] not in ("type", "transformed"):
            wrong(what, m)
        goal(m[1] == t.t, what)
    elif t is NONE:
        if m != ("none",):
            wrong(what, m)
    elif t is Ellipsis:
        if m != ("constant", Ellipsis):
            wrong(what, m)
    elif isinstance(t, (PList, list)):
        if m[0] != "parameters":
            wrong(what, m)
        are_types(m[1], interp.to_seq(t), what)
    elif isinstance(t, TyAnn):
        if m[:2] != ("generic", "Annotated"):
            wrong(what, m)
        annotated(m[2], t, what)
    elif isinstance(t, TyGen) and t.origin is typing.Union:
        if m[0] != "union":
            wrong(what, m)
        if isinstance(m[1], Several):
            are_types(m[1], interp.to_seq(t.args), what)
        else:
            # the position of None does not matter
            ms, ts = list(m[1]), list(t.args)
            if len([x for x in ms if x == ("none",)]) != len([x for x in ts if x is NONE]):
                wrong(what, m)
            are_types([x for x in ms if x != ("none",)], tuple(x for x in ts if x is not NONE), what)
    elif isinstance(t, TyGen):
        if m[:2] != ("generic", t.origin):
            wrong(what, m)
        if t.origin is typing.Literal:
            are_values(m[2], interp.to_seq(t.args), what)
        else:
            are_types(m[2], t.args if isinstance(t.args, tuple) else interp.to_seq(t.args), what)
    elif isinstance(t, type) or t is typing.Any:
        if m != ("name", "Any" if t is typing.Any else t):
            wrong(what, m)
    else:
        raise Unsupported("form of type")


def are_types(ms: Any, ts: Any, what: str) -> None:
    each(ms, ts, what, is_type)


def are_values(ms: Any, vs: Any, what: str) -> None:
    def is_value(m: Any, v: Any, what: str) -> None:
        if m[0] != "value":
            wrong(what, m)
        goal(m[1] == value_term(v), what)

    each(ms, vs, what, is_value)


def each(ms: Any, ts: Any, what: str, same: Callable) -> None:
    if isinstance(ts, tuple):
        ts = interp.to_seq(ts)
    n = as_int(ts.n)
    if isinstance(ms, Several):
        q = ms.items.to_seq()
        goal(as_int(q.n) == n, f"{what}: number of parts")
        i = z3.Const(ctx().name("part"), INT)
        require(z3.And(i >= 0, i < n))
        ctx().add_index(i)
        same(denoted(q.at(i)), ts.at(i), what)
        return
    goal(n == len(ms), f"{what}: number of parts")
    for k, m in enumerate(ms):
        same(m, ts.at(k), what)


def annotated(args: Any, t: TyAnn, what: str) -> None:
    if not isinstance(args, list) or len(args) < 2:
        refuted(what)
    is_type(args[0], t.inner, what)
    are_values(args[1] if len(args) == 2 and isinstance(args[1], Several) else args[1:], interp.to_seq(t.metadata), what)


# ---------------------------------------------------------------- the printer

def printer() -> Any:
    f = call(NM.TypeFormatter, [], {"use_union_operator": branch((False, True))})

    def python_type_to_str(self: Any, t: Any) -> Any:
        if not isinstance(t, TyOpaque):
            return NotImplemented
        if any(self.attrs[k] is not f.attrs[k] for k in ("type_transform", "value_transform", "context", "use_union_operator")):
            refuted("a part is printed in another way", False)
        return nonempty(text_of(t.t))

    models.JoinTerm.items_are_not_empty = True  # every part denotes something
    CONTRACTS[NM.TypeFormatter.python_type_to_str] = python_type_to_str
    CONTRACTS[repr] = lambda v: nonempty(text_of_value(value_term(v)))
    return f


def printed(f: Any, t: Any) -> Any:
    o = outcome(lambda: call(getattr_(f, "python_type_to_str"), [t], {}))
    if o.exc is not None:
        refuted(f"ends in {o.exc.cls}")
    return o.value


SHAPES: dict = {
    "list[T]": lambda: TyGen(list, (any_type(),)),
    "set[T]": lambda: TyGen(set, (any_type(),)),
    "frozenset[T]": lambda: TyGen(frozenset, (any_type(),)),
    "dict[K, V]": lambda: TyGen(dict, (any_type("K"), any_type("V"))),
    "tuple[...] of any length": lambda: TyGen(tuple, any_types()),
    "tuple[T, ...]": lambda: TyGen(tuple, (any_type(), Ellipsis)),
    "type[T]": lambda: TyGen(type, (any_type(),)),
    "literal": lambda: TyGen(typing.Literal, values()),
    "optional type": lambda: TyGen(typing.Union, branch([(NONE, not_none()), (not_none(), NONE)]), branch((False, True))),
    "union": lambda: any_union(),
    "callable": lambda: TyGen(collections.abc.Callable, (branch((Ellipsis, PList.from_seq(any_types("Ps").pl.to_seq()))), any_type())),
}


def not_none(name: str = "T") -> Any:
    t = any_type(name)
    require(z3.Not(interp.identical(t, NONE)))
    return t


def any_union() -> Any:
    ts = any_types()
    ctx().add_fact(as_int(ts.pl.length()) >= 3)
    return TyGen(typing.Union, ts, branch((False, True)))


for _n, _f in SHAPES.items():

    @obligation("C18", f"the text of a {_n} denotes it", ["name.TypeFormatter.python_type_to_str", "name.TypeFormatter.plain_type_to_str"])
    def _(n: str = _n, f: Callable = _f) -> None:
        t, fmt = f(), printer()
        is_type(denoted(printed(fmt, t)), t, n)


BASIC: tuple = (NONE, None, typing.Any, Ellipsis, bool, int, str, float, bytes)


@obligation("C18", "the text of a basic type is its name", "name.TypeFormatter.python_type_to_str")
def _() -> None:
    t, fmt = branch(BASIC), printer()
    m = denoted(printed(fmt, t))
    is_type(m, NONE if t is None else t, "basic type")
    goal(z3.BoolVal(True), "denotes the type")


@obligation("C18", "the text of a union of two types denotes it", "name.TypeFormatter.union_to_str")
def _() -> None:
    t, fmt = TyGen(typing.Union, (not_none("S"), not_none("T")), branch((False, True))), printer()
    is_type(denoted(printed(fmt, t)), t, "union")


def a_class() -> Any:
    kind = branch(("dataclass", "namedtuple", "plain", "enum"))
    if kind == "enum":
        return any_enum()
    return any_class_type(kind)


@obligation("C18", "a class is printed by its name, or as the type transformation makes of it", "name.TypeFormatter.plain_type_to_str")
def _() -> None:
    class_contracts()
    cls, fmt = a_class(), printer()
    plain = printed(fmt, cls)
    same_value(plain, getattr_(cls, "__name__"), "name of the class")
    fmt.attrs["type_transform"] = Model(lambda t: nonempty(transformed(cls.t)) if t is cls else refuted("another type is transformed"), "type_transform")
    same_value(printed(fmt, cls), SStr([transformed(cls.t)]), "what the transformation makes of the class")


@obligation("C18", "printing a type takes the union notation that the caller asks for", "name.python_type_to_str")
def _() -> None:
    class_contracts()
    asked: list = []
    CONTRACTS.pop(NM.python_type_to_str, None)  # which is for use in messages
    t = branch((lambda: TyGen(list, (any_type(),)), a_class, lambda: int))()
    operator = branch((None, False, True))

    def python_type_to_str(self: Any, x: Any) -> Any:
        asked.append((self, x))
        return nonempty(text_of(z3.Const("printed", Ty)))

    CONTRACTS[NM.TypeFormatter.python_type_to_str] = python_type_to_str
    r = call(NM.python_type_to_str, [t], {} if operator is None else {"use_union_operator": operator})
    if len(asked) != 1 or asked[0][1] is not t:
        refuted("another type is printed", False)
    f = asked[0][0]
    if f.attrs["use_union_operator"] is not (operator or False) or f.attrs["type_transform"] is not None or f.attrs["value_transform"] is not None:
        refuted("printed in another way")
    same_value(r, SStr([text_of(z3.Const("printed", Ty))]), "text")


@obligation("C18", "a value transformation is applied to each value of a literal", "name.TypeFormatter.value_to_str")
def _() -> None:
    t, fmt = TyGen(typing.Literal, values()), printer()
    del CONTRACTS[repr]
    fmt.attrs["value_transform"] = Model(lambda v: nonempty(text_of_value(value_term(v))), "value_transform")
    is_type(denoted(printed(fmt, t)), t, "literal")


@obligation("C18", "the text of a type with annotations denotes it", "name.TypeFormatter.python_type_to_str")
def _() -> None:
    fmt = printer()
    make = branch((lambda: TyGen(list, (any_type(),)), lambda: TyGen(dict, (any_type("K"), any_type("V"))), lambda: TyGen(typing.Union, (not_none("S"), not_none("T")), branch((False, True)))))
    t = TyAnn(make(), metadata())
    is_type(denoted(printed(fmt, t)), t, "annotated type")


AUXILIARY: dict = {name: t for t, name in A._auxiliary_types.items()}


def extended(args: Any) -> Any:
    "Type and annotations in the arguments of Annotated, the annotations of a fixed-width type being part of it."
    if not isinstance(args, list) or len(args) < 2:
        refuted("Annotated has a type and annotations", False)
    t = AUXILIARY.get(args[0][1]) if args[0][0] == "name" else None
    if t is None:
        return args[0], [], args[1:]
    return ("name", typing.get_args(t)[0]), list(t.__metadata__) if hasattr(t, "__metadata__") else [], args[1:]


@obligation("C18", "a fixed-width type is printed as its name", "name.TypeFormatter.python_type_to_str")
def _() -> None:
    name = branch(tuple(AUXILIARY))
    same_value(printed(printer(), AUXILIARY[name]), name, name)


def same_annotations(ms: list, known: list, t: TyAnn, what: str) -> None:
    "The annotations of a fixed-width type come first."
    q = interp.to_seq(t.metadata)
    k = len(known)
    goal(as_int(q.n) >= k, f"{what}: number")
    require(as_int(q.n) >= k)
    for i, x in enumerate(known):
        goal(value_term(q.at(i)) == value_term(x), what)
    are_values(ms[0] if len(ms) == 1 and isinstance(ms[0], Several) else ms, seqs.SubSeq(q, z3.IntVal(k), z3.simplify(as_int(q.n) - k)) if k else q, what)


def is_annotated(text: Any, t: TyAnn, what: str) -> Any:
    m = denoted(text)
    if m[:2] != ("generic", "Annotated"):
        wrong("the annotations are lost", m)
    base, known, rest = extended(m[2])
    is_type(base, t.inner, what)
    same_annotations(rest, known, t, what)
    return m[2][0]


for _aux in AUXILIARY:

    @obligation("C18", f"the text of {_aux} with further annotations denotes it", "name.TypeFormatter.python_type_to_str")
    def _(name: str = _aux) -> None:
        fmt, aux, more = printer(), AUXILIARY[name], notes()
        t = TyAnn(typing.get_args(aux)[0], STuple(PList([("item", x) for x in aux.__metadata__] + more.pl.segs)))
        if is_annotated(printed(fmt, t), t, name) != ("name", name):
            refuted("a fixed-width type is not printed as its name")


for _base in (int, str, float):

    @obligation("C18", f"the text of {_base.__name__} with annotations denotes it", "name.TypeFormatter.python_type_to_str", timeout=120)
    def _(base: Any = _base) -> None:
        fmt, more = printer(), notes()
        is_annotated(printed(fmt, TyAnn(base, more)), TyAnn(base, more), base.__name__)


# ---------------------------------------------------------------- the text of annotations

import dataclasses  # noqa: E402

ANNOTATIONS: dict = {c.__name__: c for c in vars(A).values() if isinstance(c, type) and c.__module__ == A.__name__ and dataclasses.is_dataclass(c)}


def constructed(text: Any) -> tuple:
    "Class and arguments of an expression that creates an object."
    src, table = atoms(text)
    try:
        e = ast.parse(src, mode="eval").body
    except SyntaxError:
        refuted(f"{src} is not an expression")
    if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Name):
        refuted(f"{src} does not create an object", False)
    value = lambda x: meaning(x, table)  # noqa: E731
    return e.func.id, [value(x) for x in e.args], {k.arg: value(k.value) for k in e.keywords}


for _name, _cls in ANNOTATIONS.items():

    @obligation("C18", f"the text of the annotation {_name} creates it", "auxiliary._compact_dataclass_repr")
    def _(name: str = _name, cls: Any = _cls) -> None:
        CONTRACTS[repr] = lambda v: nonempty(text_of_value(value_term(v)))
        fields = dataclasses.fields(cls)
        args = [SV(z3.Const(f.name, V)) for f in fields]
        obj = call(cls, args, {})
        c, xs, kw = constructed(call(interp.class_lookup(cls, "__repr__"), [obj], {}))
        goal(c == name, "class")
        by_name = {f.name: m for f, m in zip(fields, xs)} | kw
        if len(xs) > len(fields) or not set(by_name) <= {f.name for f in fields}:
            refuted("surplus arguments", False)
        for f in fields:
            m = by_name.get(f.name)
            if m is None:
                # the default of the class applies
                if f.default is dataclasses.MISSING:
                    refuted(f"{f.name} is lost", False)
                goal(getattr_(obj, f.name).t == to_V(f.default), f"{f.name} is lost")
            elif m[0] != "value":
                refuted(f"{f.name} is not the one of the annotation", False)
            else:
                goal(m[1] == to_V(getattr_(obj, f.name)), f.name)

"""
C07: unions that are resolved by a tag.

The classes of the union have literal properties; those that all of them share are the tag properties.  An occurrence is a
literal value that a member class has at a tag property; its key consists of the property and the value (up to equality).
The table of readers is verified with the invariant that it has exactly the keys of the occurrences visited so far, which are
pairwise distinct.
"""

import typing

from .classes import *  # noqa: F403
from .loops import *  # noqa: F403
from .loops import Theory, invariant  # noqa: F811
from . import spec_read as R

Occ, Key, Eq = z3.DeclareSort("Occurrence"), z3.DeclareSort("TagKey"), z3.DeclareSort("UpToEquality")
member_of, prop_of, pos_of = (z3.Function(n, Occ, INT) for n in ("member_of", "tag_of", "position_of"))
occurrence = z3.Function("occurrence", INT, INT, INT, Occ)
count_of = z3.Function("number_of_values", INT, INT, INT)
value_of = z3.Function("literal_value", INT, INT, INT, V)
up_to = z3.Function("up_to_equality", V, Eq)
key_for = z3.Function("key_for", INT, Eq, Key)
key_prop, key_value = z3.Function("key_property", Key, INT), z3.Function("key_value", Key, Eq)
tag_name, tag_index = z3.Function("tag_name", INT, STR), z3.Function("tag_index", STR, INT)
member_type = z3.Function("union_member", INT, core.Ty)
N, TAGS = z3.Const("members_n", INT), z3.Const("tags_n", INT)


def key_of(o: Any) -> Any:
    return key_for(prop_of(o), up_to(value_of(member_of(o), prop_of(o), pos_of(o))))


def there(o: Any) -> Any:
    "There is such an occurrence."
    i, p, v = member_of(o), prop_of(o), pos_of(o)
    return z3.And(i >= 0, i < N, p >= 0, p < TAGS, v >= 0, v < count_of(i, p))


def occurrence_law(o: Any) -> list:
    k = key_of(o)
    return [o == occurrence(member_of(o), prop_of(o), pos_of(o)), key_prop(k) == prop_of(o), key_value(k) == up_to(value_of(member_of(o), prop_of(o), pos_of(o)))]


class Found(Exception):
    pass


class Union(Theory):
    "Occurrences, and their keys."

    def reset(self) -> None:
        super().reset()
        self.keys = Theory(Key, [])
        self.fixed: dict = {}
        self.table: Any = None
        self.building = self.discovering = False
        self.verified = False  # what the loops that build a table do has been verified

    def local(self, fn: Callable) -> None:
        super().local(lambda: self.keys.local(fn))

    def settle(self) -> None:
        for o in list(self.known):
            self.keys.know(key_of(o))
        self.keys.settle()
        super().settle()

    def at(self, i: Any, p: Any, v: Any) -> Any:
        o = occurrence(i, p, v)
        ctx().axiom(("occurrence", o), lambda: z3.And(member_of(o) == i, prop_of(o) == p, pos_of(o) == v))
        self.know(o)
        return o


UNION = Union(Occ, [(1, occurrence_law)])
verify.RESET.append(UNION.reset)

DIMENSIONS = {"member": member_of, "tag": prop_of, "value": pos_of}


class Content:
    "What is in the table: exactly the keys of the occurrences that have been visited, which are distinct."

    def __init__(self, visited: Callable):
        c = ctx()
        self.visited = visited
        has, owner = z3.Function(c.name("has"), Key, BOOL), z3.Function(c.name("owner"), Key, Occ)
        self.has, self.owner = has, owner

        UNION.given(1, lambda o: z3.Implies(z3.And(there(o), visited(o)), z3.And(has(key_of(o)), owner(key_of(o)) == o)))
        UNION.keys.given(1, lambda k: z3.Implies(has(k), z3.And(there(owner(k)), visited(owner(k)), key_of(owner(k)) == k)))


class TagTable(Sym):
    "The readers by tag."

    def __init__(self) -> None:
        self.content = Content(lambda o: z3.BoolVal(False))
        self.put: list = []

    def touched(self) -> None:
        if UNION.discovering:
            raise Found

    def reader(self, o: Any) -> Any:
        return AbsParser(member_type(member_of(o)), SKIP, z3.Const("context", core.Ob))

    def has(self, k: Any) -> Any:
        return z3.Or(self.content.has(k), *[k == x for x, _ in self.put])

    def vc_contains(self, key: Any) -> Any:
        self.touched()
        k = as_key(key)
        UNION.settle()
        if self.put:
            raise Unsupported("several entries in an iteration")
        if fork(self.content.has(k)):
            UNION.know(self.content.owner(k))
            UNION.settle()
            return True
        return False

    def vc_getitem(self, key: Any) -> Any:
        if not self.vc_contains(key):
            raise PyRaise(ExcVal(KeyError))
        return self.reader(self.content.owner(as_key(key)))

    def vc_getattr(self, name: str) -> Any:
        if name == "get":
            return Model(lambda key, default=None: self.reader(self.content.owner(as_key(key))) if self.vc_contains(key) else default, "get")
        raise Unsupported(f"attribute {name} of the table")

    def vc_setitem(self, key: Any, value: Any) -> None:
        self.touched()
        if ctx().recorder is not None or self.put:
            raise Unsupported("assignment to the table")
        self.put.append((as_key(key), value))


def as_key(key: Any) -> Any:
    if not (isinstance(key, tuple) and len(key) == 2):
        raise Unsupported("key of the table")
    name, value = key
    s = interp.str_term(name)
    if z3.is_app(s) and s.decl().eq(tag_name):
        p = s.arg(0)
    else:
        raise Unsupported("key of the table")
    if isinstance(value, SV):
        if value.json is True and not (z3.is_app(value.t) and value.t.decl().eq(value_of)):
            # lists and dictionaries cannot be looked up
            if fork(z3.Or(core.is_kind(value.t, "list"), core.is_kind(value.t, "dict"))):
                raise PyRaise(ExcVal(TypeError))
    v = to_V(value)
    k = key_for(p, up_to(v))
    ctx().axiom(("key", k), lambda: z3.And(key_prop(k) == p, key_value(k) == up_to(v)))
    UNION.keys.know(k)
    if z3.is_app(v) and v.decl().eq(value_of):
        UNION.at(*v.children())
    return k


def loop(dimension: str, n: Any, item: Callable) -> Callable:
    "The invariant: those occurrences have been visited that had been before the loop, or that belong to earlier iterations."

    def run(cb: Callable) -> bool:
        t = UNION.table
        if UNION.discovering:
            cb(item(z3.Const(ctx().name("j"), INT)))
            return True
        if t is None or not UNION.building or not discover(lambda: cb(item(z3.Const(ctx().name("j"), INT)))):
            return False
        if ctx().recorder is not None:
            raise Unsupported("table built in a loop")
        if t.put:
            raise Unsupported("table")
        entry, fixed = t.content.visited, dict(UNION.fixed)
        raised: list = []

        def state(j: Any) -> Callable:
            def visited(o: Any) -> Any:
                return z3.Or(entry(o), z3.And(*[DIMENSIONS[d](o) == x for d, x in fixed.items()], DIMENSIONS[dimension](o) < j))

            return visited

        def body() -> None:
            j = z3.Const(ctx().name(dimension), INT)
            ctx().assume(z3.And(j >= 0, j < n))
            UNION.fixed = {**fixed, dimension: j}
            t.content, t.put = Content(state(j)), []
            UNION.settle()
            try:
                cb(item(j))
            except PyRaise as ex:
                if ex.exc.cls is not JsonTypeError:
                    refuted(f"the creation of the reader fails with {ex.exc}")
                shared(t)
                raised.append(ex.exc)
                UNION.fixed = fixed
                return
            became(t, state(j + 1), fixed)
            UNION.fixed = fixed

        try:
            if not UNION.verified:
                UNION.explore(body)
        finally:
            UNION.fixed = fixed
        if raised and fork(z3.Const(ctx().name("raises"), BOOL)):
            raise PyRaise(raised[0])
        t.content, t.put = Content(state(n)), []
        UNION.settle()
        return True

    return run


def shared(t: TagTable) -> None:
    "Two members share a tag value (if an inner loop has failed, this has been established there)."
    if len(UNION.fixed) < 3:
        return
    o = UNION.at(*[UNION.fixed[d] for d in ("member", "tag", "value")])
    x = t.content.owner(key_of(o))
    UNION.know(x)
    UNION.settle()
    goal(z3.And(there(o), there(x), o != x, key_of(o) == key_of(x)), "the reader is refused only if two members share a tag value")


def discover(fn: Callable) -> bool:
    "Whether the body of a loop uses the table."
    outer = ctx().recorder
    UNION.discovering = True
    try:
        core.explore(lambda: UNION.local(fn), recorder=lambda: interp.Recorder(outer), keep=False)
        return False
    except (Found, PyRaise) as ex:
        return isinstance(ex, Found)
    finally:
        UNION.discovering = False


def became(t: TagTable, visited: Callable, fixed: dict) -> None:
    "The content of the table is as it should be after an iteration."
    o, k = UNION.fresh("o"), UNION.keys.fresh("k")
    UNION.settle()
    UNION.know(t.content.owner(k))
    UNION.know(t.content.owner(key_of(o)))
    UNION.settle()
    before = t.content
    if t.put:
        ((pk, reader),) = t.put
        new = UNION.at(*[UNION.fixed[d] for d in ("member", "tag", "value")]) if len(UNION.fixed) == 3 else None
        if new is None:
            raise Unsupported("entry of the table")
        UNION.settle()
        invariant(pk == key_of(new), "the entry is that of the literal value")
        if not isinstance(reader, AbsParser):
            raise Unsupported("entry of the table")
        same_value(reader, t.reader(new), "reader of the entry")
        owner = lambda x: z3.If(x == pk, new, before.owner(x))  # noqa: E731
    else:
        owner = before.owner
    has = t.has
    invariant(z3.Implies(z3.And(there(o), visited(o)), z3.And(has(key_of(o)), owner(key_of(o)) == o)), "the table has the values of the classes visited, which are distinct")
    x = owner(k)
    UNION.settle()
    invariant(z3.Implies(has(k), z3.And(there(x), visited(x), key_of(x) == k)), "the table has no other entry")


class Tags(Sym):
    "The tag properties, in some order."

    def vc_truth(self) -> bool:
        return fork(TAGS > 0)

    def vc_len(self) -> Any:
        return SInt(TAGS)

    def vc_seq(self) -> Any:
        s = FnSeq(TAGS, name_of_tag, key="tags")
        s.loop = loop("tag", TAGS, name_of_tag)  # type: ignore
        return s


def name_of_tag(j: Any) -> SStr:
    s = tag_name(as_int(j))
    ctx().axiom(("tag", s), lambda: tag_index(s) == as_int(j))
    return SStr([s])


class LiteralTypes(Sym):
    "The literal properties of a member class, which include the tag properties."

    def __init__(self, i: Any):
        self.i = i

    def literal(self, name: Any) -> Any:
        s = interp.str_term(name)
        if not (z3.is_app(s) and s.decl().eq(tag_name)):
            raise Unsupported("literal property")
        i, p = self.i, s.arg(0)
        n = count_of(i, p)
        ctx().add_fact(n >= 1)

        def value(v: Any) -> SV:
            x = value_of(i, p, as_int(v))
            ctx().axiom(("literal", x), lambda: z3.Not(z3.Or(core.is_kind(x, "list"), core.is_kind(x, "dict"))))
            return SV(x)

        q = FnSeq(n, value, key="values")
        q.loop = loop("value", n, value)  # type: ignore
        return TyGen(typing.Literal, STuple(q))

    def vc_contains(self, name: Any) -> bool:
        self.literal(name)
        return True

    def vc_getitem(self, name: Any) -> Any:
        return self.literal(name)

    def vc_getattr(self, name: str) -> Any:
        if name == "get":
            return Model(lambda key, default=None: self.literal(key), "get")
        raise Unsupported(f"attribute {name} of the literal properties")


def union_of_classes(new_style: bool) -> Any:
    def member(j: Any) -> TyOpaque:
        return TyOpaque(member_type(as_int(j)))

    ctx().add_fact(z3.And(N >= 2, TAGS >= 0))
    q = FnSeq(N, member, key="members")
    q.loop = loop("member", N, member)  # type: ignore
    types = STuple(q)

    def tags(types_: Any) -> Any:
        if not isinstance(types_, STuple) or types_.seq.key != "members":
            raise Unsupported("members of another union")
        return Tags()

    def literals(typ: Any) -> Any:
        if not (isinstance(typ, TyOpaque) and z3.is_app(typ.t) and typ.t.decl().eq(member_type)):
            raise Unsupported("literal properties of another class")
        return LiteralTypes(typ.t.arg(0))

    CONTRACTS[D.get_discriminating_properties] = tags
    CONTRACTS[D.get_literal_property_types] = literals
    CONTRACTS[I.unwrap_annotated_type] = lambda typ: typ
    return TyGen(typing.Union, types, new_style)


def reader_of_union() -> Any:
    typ = union_of_classes(branch((False, True)))
    require(TAGS > 0)
    p = call(D._create_deserializer, [typ, options_of()], {})

    def table() -> Any:
        if UNION.table is not None or ctx().recorder is not None:
            raise Unsupported("another dictionary")
        UNION.table = TagTable()
        return UNION.table

    interp.NEW_DICT, UNION.building = table, True
    o = outcome(lambda: call(getattr_(p, "build"), [any_context()], {}))
    interp.NEW_DICT, UNION.building = None, False
    if UNION.table is None:
        raise Unsupported("no table")
    return p, o


@obligation("C07", "the reader of a tagged union is refused exactly if members share a tag value", "deserializer.TaggedUnionDeserializer.build")
def _() -> None:
    p, o = reader_of_union()
    if o.exc is not None:
        if o.exc.cls is not JsonTypeError:
            refuted(f"fails with {o.exc}")
        return  # members share a tag value, see above
    a, b = UNION.fresh("a"), UNION.fresh("b")
    require(z3.And(there(a), there(b), key_of(a) == key_of(b)))
    UNION.settle()
    goal(a == b, "no two members share a tag value")


matched, chosen = z3.Function("matched", Key, BOOL), z3.Function("chosen", Key, Occ)


def read_tagged(tags, data):
    if not isinstance(data, dict):
        raise JsonTypeError
    for name in tags:
        value = data.get(name)
        if value is not None:
            return read_as(name, value, data)
    raise JsonTypeError


def read_as(name: Any, value: Any, data: Any) -> Any:
    raise NotImplementedError


def c_read_as(name: Any, value: Any, data: Any) -> Any:
    "Reading as the class whose literal values at a tag property contain the value."
    value = interp.resolve(value)
    if interp.kind_of(value) in ("list", "dict"):
        raise PyRaise(ExcVal(JsonTypeError))
    k = as_key((name, value))
    UNION.know(chosen(k))
    UNION.settle()
    if not fork(matched(k)):
        raise PyRaise(ExcVal(JsonTypeError))
    return read_opaque(member_type(member_of(chosen(k))), SKIP, z3.Const("context", core.Ob), data)


@obligation(("C07", "C04"), "a tagged union is read as exactly the member whose literal values contain the tag", "deserializer.TaggedUnionDeserializer.parse")
def _() -> None:
    UNION.verified = True
    p, o = reader_of_union()
    if o.exc is not None:
        raise core.Infeasible()
    CONTRACTS[read_as] = c_read_as
    UNION.given(1, lambda o: z3.Implies(there(o), matched(key_of(o))))
    UNION.keys.given(1, lambda k: z3.Implies(matched(k), z3.And(there(chosen(k)), key_of(chosen(k)) == k)))
    UNION.settle()
    data = any_json()
    same_outcome(outcome(lambda: parse(p, data)), outcome(lambda: call(read_tagged, [Tags(), data], {})), "reader of a tagged union")


# ---------------------------------------------------------------- tag properties

literal_type = z3.Function("is_literal_type", core.Ty, BOOL)


def is_literal(typ: Any) -> Any:
    raise NotImplementedError


CONTRACTS[is_literal] = lambda typ: SBool(literal_type(typ.t))


def literal_members(members):
    return {m.property: m.hint for m in members if is_literal(m.hint)}


for _kind in ("dataclass", "namedtuple", "plain"):

    @obligation("C07", f"the literal properties of a class are its members of literal type, by property name ({_kind})", "deserializer.get_literal_property_types")
    def _(kind: str = _kind) -> None:
        class_contracts()
        CONTRACTS[I.is_type_literal] = lambda typ: SBool(literal_type(typ.t)) if isinstance(typ, TyOpaque) else NotImplemented
        Distinct.on = True
        cls = any_class_type(kind, postponed=branch((False, True)))
        members = STuple(cls.traits["members"].seq())
        same_value(call(D.get_literal_property_types, [cls], {}), call(literal_members, [members], {}), "literal properties")


has_literal = z3.Function("has_literal_property", core.Ty, STR, BOOL)


class Names(Sym):
    "The names of properties that satisfy a condition."

    def __init__(self, holds: Callable):
        self.holds = holds

    def vc_contains(self, name: Any) -> Any:
        return SBool(self.holds(interp.str_term(name)))

    def vc_accumulator(self) -> Any:
        return Accumulator([])

    def vc_accumulated(self, values: Any) -> Any:
        "Intersection with a set for each iteration."

        def holds(s: Any) -> Any:
            def fails(j: Any) -> Any:
                v = values.at(j)
                if not isinstance(v, Accumulator):
                    raise Unsupported("sets of properties")
                return z3.Or(*[z3.Not(x.holds(s)) for x in v.sets])

            if not fork(self.holds(s)):
                return z3.BoolVal(False)
            k = seqs.find_first(values.n, fails)
            if k is not None:
                ctx().add_index(as_int(k) + 1)
            return z3.BoolVal(k is None)

        return Names(holds)

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Names(lambda s: core.substitute(self.holds(s), *pairs))


class Accumulator(Sym):
    "The set so far, intersected with others."

    def __init__(self, sets: list):
        self.sets = sets

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Accumulator([go(s) for s in self.sets])


interp.METHOD_MODELS[("Names", "BitAnd")] = lambda a, b: Accumulator([*b.sets, a]) if isinstance(b, Accumulator) else Names(lambda s: z3.And(a.holds(s), b.holds(s)))
interp.METHOD_MODELS[("Accumulator", "BitAnd")] = lambda a, b: Accumulator([*a.sets, b])


@obligation("C07", "the tag properties are the literal properties that all members of the union share, none if a member is not a class", "deserializer.get_discriminating_properties")
def _() -> None:
    f, is_class = z3.Function("Cs", INT, core.Ty), z3.Function("is_class", INT, BOOL)
    n = z3.Const("Cs_n", INT)
    ctx().add_fact(n >= 2)
    ctx().add_index(z3.IntVal(0))

    def member(j: Any) -> Any:
        j = as_int(j)
        if fork(is_class(j)):
            return ClassSym(f(j), "opaque", bases=(object,))
        return TyGen(list, (TyOpaque(f(j)),))

    CONTRACTS[D.get_literal_properties] = lambda typ: Names(lambda s: has_literal(typ.t, s)) if isinstance(typ, ClassSym) else NotImplemented
    tags = call(D.get_discriminating_properties, [STuple(FnSeq(n, member, key="classes"))], {})
    if seqs.find_first(n, lambda j: z3.Not(is_class(j))) is not None:
        if not (isinstance(tags, PSet) and not tags.segs):
            refuted("tag properties of what is not a class", False)
        goal(True, "no tag properties")
        return
    s = z3.Const("property", STR)
    k = seqs.find_first(n, lambda j: z3.Not(has_literal(f(j), s)))
    if k is not None:
        ctx().add_index(as_int(k) - 1)
    in_all = k is None
    if not isinstance(tags, Names):
        raise Unsupported("tag properties")
    goal(tags.holds(s) == z3.BoolVal(in_all), "a tag property is one that all members share")


@obligation("C07", "the names of literal properties are those of the literal members", "deserializer.get_literal_properties")
def _() -> None:
    n, f, g = z3.Const("lits_n", INT), z3.Function("lit_name", INT, STR), z3.Function("lit_type", INT, core.Ty)
    ctx().add_fact(n >= 0)
    d = PDict([("seq", FnSeq(n, lambda j: (SStr([f(as_int(j))]), TyOpaque(g(as_int(j)))), key="lits"))])
    CONTRACTS[D.get_literal_property_types] = lambda typ: d
    names = call(D.get_literal_properties, [any_type()], {})
    same_value(names, call(set, [STuple(FnSeq(n, lambda j: SStr([f(as_int(j))]), key="lits"))], {}), "names")

"""
C08: readers and writers do not depend on earlier calls.

The state that calls share are the tables of readers and writers.  What is in a table was put there by an earlier call of the
same function; a look-up of a key depends on the entry of this key alone.  Hence it suffices that for any two calls, the
second one returns what it would have returned without the first one, and that a failed call leaves nothing behind that may
refer to a reader that is not complete.
"""

from .c04 import *  # noqa: F403
from .c05 import *  # noqa: F403
from .c09 import *  # noqa: F403

import strong_typing.serialization as SZ  # noqa: E402

is_class = z3.Function("is_plain_class", core.Ty, BOOL)
type_module = z3.Function("type_module", core.Ty, STR)
# what a name stands for may change from one call to the next
evaluates = z3.Function("evaluates", INT, core.Ob, STR, BOOL)
evaluated = z3.Function("evaluated", INT, core.Ob, STR, core.Ty)
has_name = z3.Function("module_has", INT, core.Ob, STR, BOOL)
annotated = z3.Function("has_annotations", core.Ty, BOOL)
without_annotations = z3.Function("without_annotations", core.Ty, core.Ty)
creatable = z3.Function("creatable", core.Ty, BOOL)
buildable = z3.Function("buildable", core.Ty, BOOL, core.Ob, BOOL)
module_of_name = z3.Function("module_of_name", STR, core.Ob)


class Form(TyOpaque):
    "An arbitrary type that is not a class."

    def vc_isinstance(self, classes: Any) -> Any:
        return False

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Form(core.substitute(self.t, *pairs))


def the_type(t: Any) -> Any:
    "An arbitrary type: a class or something else."
    if fork(is_class(t)):
        ctx().axiom(("not annotated", t), lambda: z3.Not(annotated(t)))
        return ClassSym(t, "opaque", attrs={"__module__": lambda: SStr([type_module(t)])}, bases=(object,))
    return Form(t)


def same_term(a: Any, b: Any) -> Any:
    return a == b


def type_contracts() -> None:
    def evaluate(typ: Any, module: Any) -> Any:
        text = typ if isinstance(typ, SStr) else getattr_(typ, "__forward_arg__")
        m, s = ctx_term(module), interp.str_term(text)
        if not fork(evaluates(Scene.epoch, m, s)):
            raise PyRaise(ExcVal(NameError))
        return the_type(evaluated(Scene.epoch, m, s))

    def unwrap(typ: Any) -> Any:
        return the_type(without_annotations(typ.t)) if truth_term(annotated_term(typ)) else typ

    CONTRACTS[I.evaluate_type] = evaluate
    CONTRACTS[I.is_type_annotated] = lambda typ: SBool(annotated_term(typ))
    CONTRACTS[I.unwrap_annotated_type] = unwrap
    CONTRACTS[hasattr] = lambda x, name: SBool(has_name(Scene.epoch, x.t, interp.str_term(name))) if isinstance(x, SObj) and isinstance(name, (str, SStr)) else NotImplemented
    CONTRACTS[typing.get_origin] = lambda typ: None if isinstance(typ, (ClassSym, Form)) else NotImplemented


def annotated_term(typ: Any) -> Any:
    if isinstance(typ, (ClassSym, type)):
        return z3.BoolVal(False)
    if isinstance(typ, Form):
        return annotated(typ.t)
    raise Unsupported("annotations of a reference")


def truth_term(c: Any) -> bool:
    return fork(c)


KINDS = ("type", "text", "reference")


class Call:
    "Arbitrary arguments."

    def __init__(self, name: str, case: Any = None):
        self.name = name
        t, s = z3.Const(f"{name}_type", core.Ty), SStr([z3.Const(f"{name}_text", STR)])
        case = case or branch(KINDS)
        self.typ = the_type(t) if case == "type" else s if case == "text" else TyFwd(s, None)
        self.context = branch((any_context(f"{name}_context"), None))
        self.skip = z3.Const(f"{name}_skip", BOOL)
        self.t = t

    def resolved(self) -> Any:
        "The type that is meant, None if there is none."
        t = self.t
        if not isinstance(self.typ, SType) or isinstance(self.typ, TyFwd):
            if self.context is None:
                return None
            m, s = self.context.t, interp.str_term(self.typ if isinstance(self.typ, SStr) else self.typ.arg)
            if not fork(evaluates(Scene.epoch, m, s)):
                return None
            t = evaluated(Scene.epoch, m, s)
        return t

    def expected(self, unwrap: bool = True) -> Any:
        "The reader that is meant: its type and context."
        t = self.resolved()
        if t is None:
            return None
        if unwrap and not fork(is_class(t)) and fork(annotated(t)):
            t = without_annotations(t)
        if fork(is_class(t)):
            return t, module_of_name(type_module(t))
        return t, ctx_term(self.context)


class Product(Sym):
    "A reader or writer as made by the factory for a type (and options); it is complete once it is built."

    def __init__(self, t: Any, skip: Any, options: Any, created_in: Any):
        self.t, self.skip, self.options, self.created_in = t, skip, options, created_in
        self.built: Any = None
        self.during: Any = None

    def vc_truth(self) -> bool:
        return True

    def vc_is(self, other: Any) -> Any:
        return self is other

    def vc_getattr(self, name: str) -> Any:
        if name == "build":
            return Model(self.build, "build")
        raise Unsupported(f"attribute {name} of a reader")

    def build(self, context: Any) -> None:
        c = ctx_term(context)
        self.built = c
        if Scene.during is not None:
            Scene.during(self)
        if not fork(buildable(self.t, self.skip, c)):
            raise PyRaise(ExcVal(Scene.error))


class Scene:
    during: Any = None
    error: Any = TypeError
    epoch: Any = 0


def create_deserializer(typ: Any, options: Any) -> Any:
    return create(typ, bool_of(getattr_(options, "skip_unassigned")), options, None)


def create_serializer(typ: Any, context: Any) -> Any:
    return create(typ, z3.BoolVal(False), None, ctx_term(context))


def create(typ: Any, skip: Any, options: Any, where: Any) -> Any:
    if not isinstance(typ, (ClassSym, Form)):
        raise Unsupported("reader of a reference")
    if not fork(creatable(typ.t)):
        raise PyRaise(ExcVal(TypeError))
    return Product(typ.t, skip, options, where)


def bool_of(b: Any) -> Any:
    return z3.BoolVal(b) if isinstance(b, bool) else b.t


def shared_tables(module: Any, table: Callable) -> list:
    "Replaces the tables of a module, which are empty when it is imported."
    out = []
    for k, v in vars(module).items():
        if type(v) is dict and not k.startswith("__"):
            if v:
                if any(isinstance(x, (D.Deserializer, S.Serializer)) for x in v.values()):
                    raise Unsupported("table that is not empty")
                continue
            interp.REPLACED[id(v)] = table()
            out.append(interp.REPLACED[id(v)])
    if not out:
        raise Unsupported("no table of readers")
    return out


def get_reader(c: Call) -> Any:
    options = Obj(D.DeserializerOptions)
    options.attrs["skip_unassigned"] = SBool(c.skip)
    return interp.call_function(D._get_deserializer, [c.typ, c.context, options], {})


def get_writer(c: Call) -> Any:
    return interp.call_function(S._get_serializer, [c.typ, c.context], {})


def set_up(side: str) -> None:
    Scene.during, Scene.error, Scene.epoch = None, TypeError, z3.IntVal(0)
    type_contracts()
    CONTRACTS[D._create_deserializer] = create_deserializer
    CONTRACTS[S._create_serializer] = create_serializer
    CONTRACTS.pop(D._get_deserializer, None)
    CONTRACTS.pop(S._get_serializer, None)


def is_for(r: Any, c: Call, side: str, what: str) -> None:
    "What is returned is the reader that the call means."
    e = c.expected(side == "reader")
    if e is None:
        refuted(f"{what}: a {side} for a type that cannot be evaluated")
    t, where = e
    if not isinstance(r, Product):
        refuted(f"{what}: not a {side}", False)
    goal(r.t == t, f"{what}: the {side} is that of the type of this call")
    if side == "reader":
        goal(r.skip == c.skip, f"{what}: the reader has the options of this call")
    if r.built is None:
        if side == "reader" or fork(is_class(t)):
            refuted(f"{what}: the {side} is not complete")
    else:
        goal(r.built == where, f"{what}: names are looked up in the context of this call, or the module of the class")
    if side == "writer":
        goal(r.created_in == where, f"{what}: the writer is created in the context of this call, or the module of the class")


def succeeds(c: Call, side: str) -> Any:
    "Whether the call succeeds when it is the first one."
    e = c.expected(side == "reader")
    if e is None:
        return z3.BoolVal(False)
    t, where = e
    built = buildable(t, c.skip if side == "reader" else z3.BoolVal(False), where)
    if side == "writer":
        built = z3.Or(built, z3.Not(is_class(t)))  # a writer of a type that is not a class is complete when it is created
    return z3.And(creatable(t), built)


def second_call(side: str, nested: bool, case: Any = None) -> None:
    set_up(side)
    shared_tables(D if side == "reader" else S, PDict)
    get = get_reader if side == "reader" else get_writer
    first, second = Call("first", case), Call("second")

    def check() -> None:
        o = outcome(lambda: get(second))
        goal(succeeds(second, side) == z3.BoolVal(o.exc is None), "the call succeeds exactly if it does when it is the first one")
        if o.exc is None:
            is_for(o.value, second, side, "later call")

    if not nested:
        o = outcome(lambda: get(first))
        if o.exc is None:
            is_for(o.value, first, side, "first call")
        Scene.epoch = z3.IntVal(1)
        check()
        return

    # the second call is made while the first one is building its reader (which succeeds, otherwise the whole call fails)
    def during(p: Product) -> None:
        Scene.during = None
        require(buildable(p.t, p.skip, p.built))
        check()

    Scene.during = during
    outcome(lambda: get(first))


for _side, _fn in (("reader", "deserializer._get_deserializer"), ("writer", "serializer._fetch_serializer")):

    for _kind in KINDS:

        @obligation("C08", f"a {_side} does not depend on an earlier call with a {_kind}", _fn, timeout=300)
        def _(side: str = _side, kind: str = _kind) -> None:
            second_call(side, False, kind)

    @obligation("C08", f"a {_side} needed for another one does not depend on it", _fn, timeout=300)
    def _(side: str = _side) -> None:
        second_call(side, True)

    @obligation("C08", f"a failed call leaves nothing behind that may refer to a {_side} that is not complete", _fn, timeout=300)
    def _(side: str = _side) -> None:
        failed_call(side)


# ---------------------------------------------------------------- failed calls


class KeyOf(Sym):
    "Key at a position of the table."

    def __init__(self, table: Any, pos: Any):
        self.table, self.pos = table, pos

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return KeyOf(self.table, core.substitute(self.pos, *pairs))

    def vc_eq(self, other: Any) -> Any:
        if isinstance(other, KeyOf):
            return self.pos == other.pos
        if self.table.own is None:
            raise Unsupported("keys of a table")
        goal_same_key(self.table.own[0], other)
        return self.pos == self.table.at


def goal_same_key(a: Any, b: Any) -> None:
    if a is not b and not ctx().implied(as_bool(interp.pyeq(a, b))):
        raise Unsupported("keys of a table")


class Table(Sym):
    """
    A table with any number of entries before the call (and possibly one for another type under the same key); those that are
    made while the reader is being built come after it, and may refer to it.
    """

    def __init__(self) -> None:
        self.before, self.after = z3.Const("entries_before", INT), z3.IntVal(0)
        ctx().assume(self.before >= 0)
        self.own: Any = None
        self.at: Any = None
        self.stale = branch((False, True))
        self.deleted: list = []  # ranges of positions
        self.birth = ctx().recorder

    def total(self) -> Any:
        return self.before + (1 if self.own is not None else 0) + self.after

    def vc_truth(self) -> bool:
        return fork(self.total() > 0)

    def built(self) -> None:
        "What the building of a reader does to the table."
        self.after = z3.Const("entries_after", INT)
        ctx().assume(self.after >= 0)

    def vc_seq(self) -> Any:
        if self.deleted:
            raise Unsupported("iteration over the table")
        return FnSeq(z3.simplify(self.total()), lambda j: KeyOf(self, as_int(j)), key="table")

    def vc_contains(self, key: Any) -> Any:
        if self.own is not None:
            goal_same_key(self.own[0], key)
            return True
        return self.stale

    def found(self, key: Any, default: Any) -> Any:
        if self.own is not None:
            goal_same_key(self.own[0], key)
            return self.own[1]
        if self.stale and isinstance(key, tuple):
            t = z3.Const("type_of_stale_entry", core.Ty)
            ctx().assume(t != Failing.wanted)
            return (the_type(t), Product(t, z3.Const("stale_skip", BOOL), None, None))
        return default

    def vc_getitem(self, key: Any) -> Any:
        r = self.found(key, None)
        if r is None:
            raise PyRaise(ExcVal(KeyError))
        return r

    def vc_setitem(self, key: Any, value: Any) -> None:
        if ctx().recorder is not None or self.own is not None or self.deleted:
            raise Unsupported("assignment to the table")
        if self.stale:
            # the position of the entry that is replaced
            self.at = z3.Const("position_of_entry", INT)
            ctx().assume(z3.And(self.at >= 0, self.at <= self.before))
        else:
            self.at = self.before
        self.own = (key, value)
        ctx().add_index(self.at)

    def remove(self, key: Any) -> None:
        if isinstance(key, KeyOf):
            if not interp.effect(self, "delete", key.pos):
                self.deleted.append((key.pos, key.pos + 1))
        elif self.own is not None:
            goal_same_key(self.own[0], key)
            if not interp.effect(self, "delete", self.at):
                self.deleted.append((self.at, self.at + 1))
        elif ctx().recorder is None:
            self.stale = False
        else:
            raise Unsupported("removal from the table")

    def vc_delitem(self, key: Any) -> None:
        self.remove(key)

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        for p, ops in paths:
            if len(ops) != 1:
                raise Unsupported("loop over the table")
            pos = ops[0][1][0]
            start = z3.simplify(core.substitute(pos, (i0, z3.IntVal(0))))
            if not ctx().implied(pos == start + i0):
                raise Unsupported("loop over the table")
            self.deleted.append((start, start + as_int(count)))

    def vc_getattr(self, name: str) -> Any:
        if name == "get":
            return Model(self.found_or, "get")
        if name == "pop":

            def pop(key: Any, default: Any = None) -> Any:
                self.remove(key)
                return default

            return Model(pop, "pop")
        if name == "keys":
            return Model(lambda: STuple(self.vc_seq()), "keys")
        if name == "clear":
            return Model(lambda: self.deleted.append((z3.IntVal(0), self.total())), "clear")
        raise Unsupported(f"attribute {name} of the table")

    def found_or(self, key: Any, default: Any = None) -> Any:
        return self.found(key, default)


class Failing:
    wanted: Any = None


def failed_call(side: str) -> None:
    set_up(side)
    c = Call("call")
    e = c.expected(side == "reader")
    if e is None:
        raise core.Infeasible()
    Failing.wanted = e[0]
    tables = shared_tables(D if side == "reader" else S, Table)
    if len(tables) != 1:
        raise Unsupported("several tables")
    table = tables[0]
    if side == "writer" or fork(is_class(e[0])):
        require(not table.stale)  # an entry under a class is for this class (proved above)
    Scene.error = branch((TypeError, NameError, RecursionError))

    def during(p: Product) -> None:
        if table.own is not None:
            table.built()

    Scene.during = during
    o = outcome(lambda: (get_reader if side == "reader" else get_writer)(c))
    if o.exc is None:
        goal(z3.BoolVal(not table.deleted), "nothing is removed if the call succeeds")
        return
    if table.own is None:
        goal(True, "nothing is stored")
        return
    if o.exc.cls is not Scene.error:
        refuted(f"the exception {o.exc} is not that of the type", False)
    x = z3.Const("entry", INT)
    require(z3.And(x >= table.at, x < table.total(), z3.Or(x == table.at, x > table.before)))
    goal(z3.Or(*[z3.And(lo <= x, x < hi) for lo, hi in table.deleted]), "an entry that was made for the failed call, or during it, is removed")


# ---------------------------------------------------------------- readers and writers are not modified when they are used


def protect(x: Any, what: str, seen: Any = None) -> None:
    "Whatever belongs to the reader or writer must not be modified from now on."
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (interp.Obj, PList, PDict, PSet)):
        x.protected = lambda y: refuted(f"{what} is modified when it is used", definite=False)  # type: ignore
    if isinstance(x, interp.Obj):
        for v in x.attrs.values():
            protect(v, what, seen)
    elif isinstance(x, (PList, PDict, PSet)):
        for s in x.segs:
            for v in s[1:]:
                protect(v, what, seen)
    elif isinstance(x, STuple):
        protect(x.seq if hasattr(x, "seq") else x.pl, what, seen)
    elif isinstance(x, core_seq):
        protect_seq(x, what, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            protect(v, what, seen)
    elif isinstance(x, dict):
        for v in x.values():
            protect(v, what, seen)


core_seq = interp.seqs.Seq


def protect_seq(q: Any, what: str, seen: Any) -> None:
    if isinstance(q, interp.seqs.TemplSeq):
        for p in q.paths:
            protect(p.result, what, seen)
    elif isinstance(q, interp.seqs.FlatSeq):
        protect_seq(q.parts, what, seen)
    elif q.concrete() is not None:
        for v in q.concrete():
            protect(v, what, seen)


def plain_class(kind: str, frozen: bool = False) -> Any:
    class_contracts()
    Epoch.now = 0
    cls = any_class_type(kind, frozen=frozen)
    if kind == "plain":
        require(cls.traits["members"].n >= 1)
    return cls


def any_literal() -> Any:
    return TyGen(typing.Literal, literal_values(branch(("int", "str"))))


def any_union() -> Any:
    no_tags()
    ts = any_types()
    ctx().add_fact(as_int(ts.pl.length()) >= 2)
    return TyGen(typing.Union, ts, branch((False, True)))


def enum_keys(name: str = "E") -> tuple:
    e, f = any_enum(name), z3.Function("key", INT, INT)

    def key(j: Any) -> Any:
        k = f(j)
        ctx().axiom(("key", k), lambda: z3.And(k >= 0, k < e.traits["values"].n))
        return e.traits["member"](k)

    return e, key


SIMPLE = {c.__name__: c for c in (type(None), bool, int, float, str, bytes, datetime.datetime, datetime.date, datetime.time, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address)}

READ = {
    "a scalar": lambda: branch(SIMPLE.values()),
    "list[T]": lambda: TyGen(list, (any_type(),)),
    "set[T]": lambda: TyGen(set, (any_type(),)),
    "dict[str, T]": lambda: TyGen(dict, (str, any_type())),
    "dict[enumeration, T]": lambda: TyGen(dict, (any_enum(), any_type())),
    "tuple[...]": lambda: TyGen(tuple, any_types()),
    "an enumeration": lambda: any_enum(),
    "a literal": any_literal,
    "a union": any_union,
    "a data class": lambda: plain_class("dataclass"),
    "a frozen data class": lambda: plain_class("dataclass", True),
    "a named tuple": lambda: plain_class("namedtuple"),
    "an annotated class": lambda: plain_class("plain"),
}


def input_untouched(x: Any) -> None:
    "Called when part of a value is modified."
    todo, inner = [x.src], False
    while todo:
        t = todo.pop()
        inner = inner or (z3.is_app(t) and t.decl().name() in ("P_val", "W_val", "U_val"))
        todo.extend(t.children())
    if inner:
        raise Unsupported("modification of what another reader or writer has made")
    refuted("the value that is given is modified")


for _form, _type in READ.items():

    @obligation(("C08", "C09"), f"reading as {_form} changes neither the reader nor the data", f"deserializer: reader of {_form}", timeout=200)
    def _(make: Any = _type) -> None:
        p = reader_of(make())
        protect(p, "the reader")
        data = any_json()
        Epoch.now = 1
        interp.ON_VALUE_MODIFIED = input_untouched
        outcome(lambda: parse(p, data))
        goal(True, "nothing is modified")


def any_dict(key_type: Any, key: Any) -> tuple:
    d = dict_of(key)
    return TyGen(dict, (key_type, any_type())), d


def enum_dict() -> tuple:
    e, key = enum_keys()
    return any_dict(e, key)


def simple_value() -> tuple:
    c = branch(SIMPLE.values())
    return c, None if c is type(None) else any_of_class(c)


def tuple_value() -> tuple:
    ts, v = any_types(), of_kind("tuple")
    require(as_int(v.pl.length()) == as_int(ts.pl.length()))
    return TyGen(tuple, ts), v


def literal_value() -> tuple:
    vs = literal_values(branch(("int", "str")))
    i = z3.Const("index", INT)
    require(z3.And(i >= 0, i < as_int(vs.pl.length())))
    ctx().add_index(i)
    return TyGen(typing.Literal, vs), vs.seq.at(i)


def enum_value() -> tuple:
    e = any_enum()
    i = z3.Const("index", INT)
    require(z3.And(i >= 0, i < e.traits["values"].n))
    return e, e.traits["member"](i)


def object_value(kind: str, frozen: bool = False) -> tuple:
    return plain_class(kind, frozen), None


WRITE = {
    "a scalar": simple_value,
    "list[T]": lambda: (TyGen(list, (any_type(),)), of_kind("list")),
    "set[T]": lambda: (TyGen(set, (any_type(),)), of_kind("set")),
    "dict[str, T]": lambda: any_dict(str, (lambda f: lambda j: SStr([f(j)]))(z3.Function("key", INT, STR))),
    "dict[enumeration, T]": enum_dict,
    "tuple[...]": tuple_value,
    "an enumeration": enum_value,
    "a literal": literal_value,
    "a union": lambda: (any_union(), any_value()),
    "list": lambda: (list, of_kind("list")),
    "set": lambda: (set, of_kind("set")),
    "tuple": lambda: (tuple, of_kind("tuple")),
    "dict": lambda: (dict, dict_of((lambda f: lambda j: SStr([f(j)]))(z3.Function("key", INT, STR)))),
    "a data class": lambda: object_value("dataclass"),
    "a frozen data class": lambda: object_value("dataclass", True),
    "a named tuple": lambda: object_value("namedtuple"),
    "an annotated class": lambda: object_value("plain"),
}

for _form, _make in WRITE.items():

    @obligation(("C08", "C09"), f"writing as {_form} changes neither the writer nor the value", f"serializer: writer of {_form}", timeout=200)
    def _(make: Any = _make) -> None:
        typ, v = make()
        s = writer_of(typ)
        protect(s, "the writer")
        if isinstance(typ, ClassSym) and v is None:
            v = SObj(typ, z3.Const("obj", core.Ob))
        if isinstance(v, Sym):
            v.protected = lambda y: refuted("the value that is given is modified")  # type: ignore
        interp.ON_VALUE_MODIFIED = input_untouched
        outcome(lambda: generate(s, v))
        goal(True, "nothing is modified")


# ---------------------------------------------------------------- what is asked for is what is used

reads = z3.Function("reads", core.Ty, BOOL, V, V)


class Asked:
    "The calls of the factories."

    def __init__(self) -> None:
        self.readers: list = []
        self.writers: list = []
        CONTRACTS[D._get_deserializer] = self.reader
        CONTRACTS[S._get_serializer] = self.writer

    def reader(self, typ: Any, context: Any, options: Any) -> Any:
        self.readers.append((typ, context, options))
        r = Obj(D.Deserializer)
        r.attrs["parse"] = Model(lambda data: SV(reads(typ.t, bool_of(getattr_(options, "skip_unassigned")), to_V(data))), "parse")
        return r

    def writer(self, typ: Any, context: Any) -> Any:
        self.writers.append((typ, context))
        r = Obj(S.Serializer)
        r.attrs["generate"] = Model(lambda value: SV(reads(typ.t, z3.BoolVal(False), to_V(value))), "generate")
        return r


def is_context(c: Any, typ: Any, given: Any) -> None:
    if isinstance(typ, ClassSym):
        return  # the module of the class is used whatever is given (proved above)
    if given is None:
        if c is not None:
            refuted("names are looked up in a module that is not given")
    else:
        goal(z3.BoolVal(c is given) if c is None else ctx_term(c) == ctx_term(given), "names are looked up in the module that is given")


def is_options(o: Any, given: Any) -> None:
    if given is None:
        goal(z3.Not(bool_of(getattr_(o, "skip_unassigned"))), "unknown properties are refused")
        return
    goal(bool_of(getattr_(o, "skip_unassigned")) == SKIP, "the options of this call are used")
    goal(bool_of(getattr_(given, "skip_unassigned")) == SKIP, "the options of the caller are as they were")
    given.attrs["skip_unassigned"] = SBool(z3.Const("changed_later", BOOL))
    goal(bool_of(getattr_(o, "skip_unassigned")) == SKIP, "the options of this call are used even if the caller changes them later")


def arbitrary_call() -> tuple:
    type_contracts()
    typ = the_type(z3.Const("type", core.Ty))
    return typ, branch((None, any_context())), branch((None, options_of()))


def one(calls: list) -> Any:
    if len(calls) != 1:
        refuted("not exactly one reader or writer is asked for", definite=False)
    return calls[0]


@obligation("C08", "the reader is that of the type with the options and the context of this call", "deserializer.create_deserializer")
def _() -> None:
    typ, context, options = arbitrary_call()
    asked = Asked()
    omit = branch((False, True))
    interp.call_function(D.create_deserializer, [typ], {k: v for k, v in (("context", context), ("options", options)) if v is not None or not omit})
    t, c, o = one(asked.readers)
    if t is not typ:
        refuted("the reader of another type", definite=False)
    is_context(c, typ, context)
    is_options(o, options)


@obligation("C08", "the writer is that of the type with the context of this call", "serializer.create_serializer")
def _() -> None:
    typ, context, _ = arbitrary_call()
    asked = Asked()
    interp.call_function(S.create_serializer, [typ, context], {})
    t, c = one(asked.writers)
    if t is not typ:
        refuted("the writer of another type", definite=False)
    is_context(c, typ, context)


for _name in ("json_to_generic", "json_to_object"):

    @obligation("C08", f"{_name} uses the reader of the type with the options and the context of this call", f"serialization.{_name}")
    def _(name: str = _name) -> None:
        typ, _, options = arbitrary_call()
        context = any_context()
        asked = Asked()
        data = any_json()
        given = {"options": options} if options is not None or branch((False, True)) else {}
        value = interp.call_function(getattr(SZ, name), [typ, data], {"context": context, **given})
        t, c, o = one(asked.readers)
        if t is not typ:
            refuted("the reader of another type", definite=False)
        is_context(c, typ, context)
        is_options(o, options)
        same_value(value, SV(reads(typ.t, SKIP if options is not None else z3.BoolVal(False), data.t)), "what is read")


for _name, _module in (("serializer.object_to_json", S), ("serialization.object_to_json", SZ)):

    @obligation("C08", f"{_name} uses the writer of the class of the value", _name)
    def _(module: Any = _module) -> None:
        type_contracts()
        asked = Asked()
        cls = ClassSym(z3.Const("class", core.Ty), "opaque", attrs={"__module__": lambda: SStr([z3.Const("class_module", STR)])}, bases=(object,))
        obj = SObj(cls, z3.Const("obj", core.Ob))
        value = interp.call_function(module.object_to_json, [obj], {})
        t, c = one(asked.writers)
        if not (isinstance(t, ClassSym) and z3.eq(t.t, cls.t)):
            refuted("the writer of another type", definite=False)
        same_value(value, SV(reads(cls.t, z3.BoolVal(False), to_V(obj))), "what is written")

"""
C15: the classes that a type refers to.

`mention(T, y)` means that the type expression T mentions class y outside of the members of classes, and `deps(c, y)` that the
type of a member of class c mentions y.  The collector is verified form by form against a contract on the dependency graph
that it builds; in each form, the recursive calls are replaced by the contract:

  run(T, c), where c is in the graph: the classes that T mentions are added to those that c is linked to, nothing else changes
  for the classes that have been in the graph; each class that is new in the graph is linked to exactly the classes that its
  members mention; all classes that T or the members of a new class mention are in the graph; and each new class belongs to
  each set of classes that includes those that T mentions and that is closed under `deps` (i.e. it is reachable).

The state of the graph is a pair of relations; loops over components and members are verified with the invariant that the
contract holds for the components visited so far.
"""

from .c16 import *  # noqa: F401,F403
from .classes import *  # noqa: F401,F403
from .loops import *  # noqa: F401,F403
from .loops import Theory, invariant  # noqa: F811
import datetime
import itertools
import uuid

TY = core.Ty
mention = z3.Function("mention", TY, TY, BOOL)
deps = z3.Function("deps", TY, TY, BOOL)
closed = z3.Function("closed", TY, BOOL)  # an arbitrary set of classes that is closed under deps


def root() -> Any:
    from pyvc.types_ import ty_const

    return ty_const(I._ROOT)


def l1(x: Any) -> list:
    # the class that stands for the root of the graph is not a type that anything mentions
    return [z3.Not(mention(x, root())), z3.Not(deps(x, root())), z3.Not(deps(root(), x))]


LAWS = [(1, l1), (2, lambda x, y: [z3.Implies(z3.And(closed(x), deps(x, y)), closed(y))])]


class Relations:
    "The graph at a moment."

    def __init__(self, key: Any, ref: Any, updates: tuple):
        self.base_key, self.base_ref, self.updates = key, ref, updates

    def key(self, x: Any) -> Any:
        r = self.base_key(x) if self.base_key is not None else z3.BoolVal(False)
        return z3.Or(r, *[x == u[1] for u in self.updates if u[0] == "new"])

    def ref(self, k: Any, y: Any) -> Any:
        r = self.base_ref(k, y) if self.base_ref is not None else z3.BoolVal(False)
        for u in self.updates:
            if u[0] == "new":
                r = z3.And(k != u[1], r)
            else:
                r = z3.Or(r, z3.And(k == u[1], y == u[2]))
        return r


def contract(a: Relations, b: Relations, c: Any, m: Callable) -> Callable:
    "The postcondition for a call on behalf of class c, with a type that mentions the classes m, for classes k and y."

    def at(k: Any, y: Any) -> list:
        new = z3.And(z3.Not(a.key(k)), b.key(k))
        return [
            ("no class is dropped from the graph", z3.Implies(a.key(k), b.key(k))),
            ("the class is linked to all classes mentioned, and to no other", b.ref(c, y) == z3.Or(a.ref(c, y), m(y))),
            ("links of other classes are kept", z3.Implies(z3.And(a.key(k), k != c), b.ref(k, y) == a.ref(k, y))),
            ("a class new in the graph is linked to the classes that its members mention", z3.Implies(new, b.ref(k, y) == deps(k, y))),
            ("classes mentioned are in the graph", z3.Implies(m(y), b.key(y))),
            ("classes that a new class mentions are in the graph", z3.Implies(z3.And(new, deps(k, y)), b.key(y))),
            ("a class new in the graph is reachable", z3.Implies(new, closed(k))),
        ]

    return at


class DepGraph(Sym):
    "The graph that a collector builds."

    def __init__(self, rel: Relations):
        self.rel = rel

    def update(self, *u: Any) -> None:
        if ctx().recorder is not None:
            raise Unsupported("update of the graph in a loop")
        self.rel = Relations(self.rel.base_key, self.rel.base_ref, (*self.rel.updates, u))

    def vc_getitem(self, k: Any) -> Any:
        t = class_term(k)
        if not fork(self.rel.key(t)):
            raise PyRaise(ExcVal(KeyError))
        return Links(self, t)

    def vc_contains(self, k: Any) -> Any:
        return SBool(self.rel.key(class_term(k)))

    def vc_setitem(self, k: Any, v: Any) -> None:
        if not (isinstance(v, PSet) and not v.segs):
            raise Unsupported("links")
        self.update("new", class_term(k))

    def vc_getattr(self, name: str) -> Any:
        if name == "values":
            return Model(lambda: AllLinks(self), "values")
        if name == "items":
            return Model(lambda: AllItems(self), "items")
        if name == "get":
            return Model(lambda k, d=None: self.vc_getitem(k) if fork(self.rel.key(class_term(k))) else d, "get")
        if name == "setdefault":

            def setdefault(k: Any, v: Any) -> Any:
                if not fork(self.rel.key(class_term(k))):
                    self.vc_setitem(k, v)
                return self.vc_getitem(k)

            return Model(setdefault, "setdefault")
        raise Unsupported(f"attribute {name} of the graph")


def class_term(k: Any) -> Any:
    t = type_term(k)
    if t is None:
        raise Unsupported("class")
    COLLECT.know(t)
    return t


class Links(Sym):
    "The set of classes that a class is linked to."

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Links(self.g, core.substitute(self.k, *pairs))

    def vc_same(self, other: Any, what: str) -> None:
        if not isinstance(other, Links) or other.g is not self.g:
            refuted(what, False)
        goal(self.k == other.k, what)

    def __init__(self, g: DepGraph, k: Any):
        self.g, self.k = g, k

    def vc_getattr(self, name: str) -> Any:
        if name == "add":
            return Model(lambda y: self.g.update("link", self.k, class_term(y)), "add")
        raise Unsupported(f"attribute {name} of the links of a class")

    def vc_truth(self) -> bool:
        rel, k = self.g.rel, self.k
        if fork(z3.Const(ctx().name("linked"), BOOL)):
            ctx().add_fact(rel.ref(k, COLLECT.fresh("y")))
            return True
        COLLECT.given(1, lambda y: z3.Not(rel.ref(k, y)))
        COLLECT.settle()
        return False

    def vc_contains(self, y: Any) -> Any:
        return SBool(self.g.rel.ref(self.k, class_term(y)))

    def vc_seq(self) -> Any:
        s = FnSeq(ctx().fresh(INT, "links"), lambda j: Unsupported)
        s.loop = self.loop  # type: ignore
        return s

    def loop(self, cb: Callable) -> bool:
        "Adding each of the classes to a set."
        y = COLLECT.fresh("y")
        target = sole_effect(lambda: cb(TyOpaque(y)))
        if target is None or target[1] != "add" or not isinstance(target[2][0], TyOpaque) or not target[2][0].t.eq(y):
            raise Unsupported("loop over the links of a class")
        apply_to(target[0], ("links", self.k))
        return True


def apply_to(cont: Any, seg: tuple) -> None:
    if not interp.effect(cont, "segs", [seg]):
        cont.segs.append(seg)
        cont.src = None


def sole_effect(fn: Callable) -> Any:
    outer = ctx().recorder
    out: list = []

    def run() -> None:
        rec = ctx().recorder
        fn()
        out.append(list(rec.effects))

    core.explore(run, recorder=lambda: interp.Recorder(outer), keep=False)
    if len(out) != 1 or len(out[0]) > 1:
        raise Unsupported("loop over the graph")
    return out[0][0] if out[0] else None


class AllLinks(Sym):
    def __init__(self, g: DepGraph):
        self.g = g

    def vc_seq(self) -> Any:
        s = FnSeq(ctx().fresh(INT, "keys"), lambda j: Unsupported)
        s.loop = self.loop  # type: ignore
        return s

    def loop(self, cb: Callable) -> bool:
        k = COLLECT.fresh("k")
        target = sole_effect(lambda: cb(Links(self.g, k)))
        if target is None or target[1] != "segs" or target[2][0] != [("links", k)]:
            raise Unsupported("loop over the graph")
        apply_to(target[0], ("all links", self.g.rel))
        return True


class AllItems(Sym):
    "The classes of the graph, with their links."

    def __init__(self, g: DepGraph):
        self.g, self.rel = g, g.rel

    def vc_seq(self) -> Any:
        n, at, ix = graph_order(self.rel)

        def item(j: Any) -> Any:
            t = at(as_int(j))
            rng = z3.And(as_int(j) >= 0, as_int(j) < n)
            ctx().axiom(("key", t), lambda: z3.Implies(rng, z3.And(self.rel.key(t), ix(t) == as_int(j))))
            return (TyOpaque(t), Links(self.g, t))

        return FnSeq(n, item, key="graph")


def graph_order(rel: Relations) -> Any:
    "The order of the classes in the graph."
    n, at, ix = z3.Const("keys_n", INT), z3.Function("keys", INT, TY), z3.Function("keys_ix", TY, INT)
    COLLECT.given(1, lambda x: rel.key(x) == z3.And(ix(x) >= 0, ix(x) < n, at(ix(x)) == x))
    ctx().add_fact(n >= 0)
    return n, at, ix


class Found(Exception):
    def __init__(self, me: Any, cls: Any):
        self.me, self.cls = me, cls


class Collect(Theory):
    def reset(self) -> None:
        super().reset()
        self.owner: Any = None  # the class on whose behalf the loop of the current form collects
        self.cls: Any = None  # the class that must have been registered before its members are visited
        self.entry: Any = None
        self.graph: Any = None
        self.top = self.discovering = False

    def arbitrary(self) -> DepGraph:
        c = ctx()
        return DepGraph(Relations(z3.Function(c.name("key"), TY, BOOL), z3.Function(c.name("ref"), TY, TY, BOOL), ()))

    def havoc(self, g: DepGraph) -> None:
        g.rel = self.arbitrary().rel

    def check(self, a: Relations, b: Relations, c: Any, m: Callable, what: str, state: Callable = goal) -> None:
        k, y = self.fresh("k"), self.fresh("y")
        self.settle()
        for name, f in contract(a, b, c, m)(k, y):
            state(f, f"{what}: {name}")

    def suppose(self, a: Relations, b: Relations, c: Any, m: Callable) -> None:
        self.given(2, lambda k, y: [f for _, f in contract(a, b, c, m)(k, y)])

    def run(self, me: Any, typ: Any, cls: Any, module: Any) -> Any:
        "Contract of `TypeCollector.run`."
        if self.top:
            self.top = False
            return NotImplemented
        if self.discovering:
            raise Found(me, cls)
        g = graph_of(me)
        c = class_term(cls)
        m = mentioned(typ)
        y = self.fresh("y")
        self.settle()
        invariant(g.rel.key(c), "the class on whose behalf types are collected is in the graph")
        invariant(z3.Implies(m(y), closed(y)), "only classes that the type mentions are collected")
        if self.cls is not None:
            invariant(z3.And(g.rel.key(self.cls), z3.Not(self.entry.key(self.cls))), "members are visited only if the class has been added")
        if ctx().recorder is not None:
            raise Unsupported("types are collected in a loop")
        before = g.rel
        self.havoc(g)
        self.suppose(before, g.rel, c, m)
        self.settle()
        return None

    def loop(self, cb: Callable, n: Any, item: Callable, term: Callable, first: Any) -> bool:
        "A loop over components; `first` gives the index of the first component that mentions a class."
        if self.graph is None and not self.discover(lambda: cb(item(z3.Const(ctx().name("j"), INT)))):
            return False
        g, c = self.graph, self.owner
        entry = g.rel

        def upto(j: Any) -> Callable:
            return lambda y: first(y) < j

        def body() -> None:
            j = z3.Const(ctx().name("j"), INT)
            ctx().assume(z3.And(j >= 0, j < n))
            self.havoc(g)
            self.suppose(entry, g.rel, c, upto(j))
            x = item(j)
            self.given(1, lambda y: z3.Implies(mention(term(j), y), first(y) <= j))
            self.given(1, lambda y: z3.Implies(first(y) == j, mention(term(j), y)))
            self.settle()
            cb(x)
            self.check(entry, g.rel, c, upto(j + 1), "after an iteration", invariant)

        self.explore(body)
        self.havoc(g)
        self.suppose(entry, g.rel, c, upto(n))
        self.settle()
        return True

    def discover(self, fn: Callable) -> bool:
        "Whether types are collected in a loop, and if so, by which collector."
        outer = ctx().recorder
        self.discovering = True
        try:
            core.explore(fn, recorder=lambda: interp.Recorder(outer), keep=False)
            return False
        except Found as f:
            found = f
        finally:
            self.discovering = False
        self.graph, self.owner = graph_of(found.me), class_term(found.cls)
        return True


COLLECT = Collect(TY, LAWS)
verify.RESET.append(COLLECT.reset)


def graph_of(me: Any) -> DepGraph:
    "The graph of a collector; a graph with known classes that are not linked to anything is represented likewise."
    g = getattr_(me, "graph")
    if isinstance(g, PDict) and all(s[0] == "put" and isinstance(s[2], PSet) and not s[2].segs for s in g.segs):
        g = DepGraph(Relations(None, None, tuple(("new", class_term(s[1])) for s in g.segs)))
        interp.setattr_(me, "graph", g)
    if not isinstance(g, DepGraph):
        raise Unsupported("graph of a collector")
    return g


def mentioned(t: Any) -> Callable:
    "The classes that a type mentions."
    if t is None or t is NONE or t is typing.Any:
        return lambda y: z3.BoolVal(False)
    if isinstance(t, TyOpaque):
        COLLECT.know(t.t)
        return lambda y: mention(t.t, y)
    if isinstance(t, SStr):
        e = eval_ty(interp.str_term(t))
        COLLECT.know(e)
        return lambda y: mention(e, y)
    if isinstance(t, ClassSym) or isinstance(t, type):
        c = class_term(t)
        return lambda y: y == c
    if isinstance(t, TyAnn):
        return mentioned(t.inner)
    if isinstance(t, TyFwd):
        return mentioned(t.target)
    if isinstance(t, TyGen):
        if t.origin is typing.Literal:
            return lambda y: z3.BoolVal(False)
        if isinstance(t.args, STuple):
            n, first = as_int(t.args.pl.length()), first_of(t.args)
            return lambda y: first(y) < n
        ms = [mentioned(a) for a in t.args]
        return lambda y: z3.Or(*[m(y) for m in ms])
    raise Unsupported(f"mention of {t}")


def first_of(args: Any) -> Any:
    return args.first


def components(name: str) -> STuple:
    "Arbitrarily many arbitrary types, in a tuple that is visited with an invariant."
    n = z3.Const(f"{name}_n", INT)
    f, first = z3.Function(name, INT, TY), z3.Function(f"{name}_first", TY, INT)
    ctx().add_fact(n >= 0)
    s = FnSeq(n, lambda j: TyOpaque(f(as_int(j))), key=name)
    t = STuple(s)
    seq = t.pl.segs[0][1]
    seq.loop = lambda cb: COLLECT.loop(cb, n, seq.at, lambda j: f(as_int(j)), first)
    t.first = first  # type: ignore
    COLLECT.given(1, lambda y: z3.And(first(y) >= 0, first(y) <= n))
    return t


def with_members(kind: str, postponed: bool) -> ClassSym:
    "A class whose members are visited with an invariant."
    c = any_class_type("plain" if kind == "enum" else kind, "C", False, postponed)
    m = c.traits["members"]
    if kind == "enum":
        m.kind = c.kind = "enum"
        c.traits["bases"] = (enum.Enum,)
        c.traits["attrs"]["__bases__"] = (enum.Enum,)
    first = z3.Function("C_first", TY, INT)
    COLLECT.given(1, lambda y: [z3.And(first(y) >= 0, first(y) <= m.n), deps(c.t, y) == (first(y) < m.n)])

    def invariant_loop(s: Any) -> Any:
        s.loop = lambda cb: COLLECT.loop(cb, m.n, s.at, lambda j: m.f_type(as_int(j)), first)
        return s

    seq = m.seq
    c.traits["fields"] = lambda: invariant_loop(seq())

    class Visited(Hints):
        def items_seq(self) -> Any:
            return invariant_loop(super().items_seq())

        def vc_getattr(self, nm: str) -> Any:
            if nm == "values":
                return Model(lambda: STuple(invariant_loop(FnSeq(m.n, lambda j: self.items_seq().at(j)[1]))), "values")
            return super().vc_getattr(nm)

    c.traits["hints"] = lambda include_extras: Visited(m, include_extras)
    return c


def c_evaluate(typ: Any, module: Any) -> Any:
    if isinstance(typ, TyFwd) and typ.target is not None:
        return typ.target
    return c_evaluate_type(typ, module)


def collector(g: Any) -> Obj:
    o = Obj(I.TypeCollector)
    o.attrs["graph"] = g
    return o


def contracts() -> None:
    class_contracts()
    CONTRACTS[I.evaluate_type] = c_evaluate
    CONTRACTS[I.TypeCollector.run] = COLLECT.run


def setting() -> tuple:
    "An arbitrary graph, and a class in it."
    contracts()
    g = COLLECT.arbitrary()
    c = COLLECT.fresh("cls")
    ctx().assume(g.rel.key(c))
    ctx().assume(c != z3.Const("C", TY))
    return g, c


def collects(g: DepGraph, c: Any, t: Any, module: Any = None) -> None:
    "The contract of the collector for a type."
    m = mentioned(t)
    COLLECT.given(1, lambda y: z3.Implies(m(y), closed(y)))  # the set of classes includes those that the type mentions
    COLLECT.settle()
    COLLECT.entry, COLLECT.graph = g.rel, g
    COLLECT.top = True
    r = call(I.TypeCollector.run, [collector(g), t, TyOpaque(c), module or any_context("module")], {})
    COLLECT.check(COLLECT.entry, g.rel, c, m, "classes collected")
    same_value(r, None, "result")


SIMPLE: dict = {
    "None": lambda: None,
    "NoneType": lambda: NONE,
    "Any": lambda: typing.Any,
    "list[T]": FORMS["list[T]"],
    "set[T]": FORMS["set[T]"],
    "frozenset[T]": FORMS["frozenset[T]"],
    "dict[K, V]": FORMS["dict[K, V]"],
    "Literal[...]": FORMS["Literal[...]"],
    "Annotated[T, ...]": lambda: TyAnn(any_type(), metadata()),
    "forward reference": lambda: TyFwd(SStr([z3.Const("name", STR)]), any_type()),
    "text": lambda: SStr([z3.Const("name", STR)]),
}


@obligation("C15", "containers, annotations, forward references and literals refer to the classes that their components refer to", "inspection.TypeCollector.run", timeout=120)
def ob_simple() -> None:
    g, c = setting()
    COLLECT.owner = c
    collects(g, c, SIMPLE[branch(SIMPLE)]())


@obligation("C15", "unions and tuples refer to the classes that any of their components refers to", "inspection.TypeCollector.run", timeout=120)
def ob_many() -> None:
    g, c = setting()
    COLLECT.owner = c
    form = branch(("tuple", "Union"))
    ts = components("Ts")
    if form == "Union":
        ctx().add_fact(as_int(ts.pl.length()) >= 2)
    collects(g, c, TyGen(tuple if form == "tuple" else typing.Union, ts))


def class_form(kind: str) -> None:
    @obligation("C15", f"a class ({kind}) is linked to exactly the classes that its members mention, once", "inspection.TypeCollector.run", timeout=120)
    def ob() -> None:
        g, c = setting()
        t = with_members(kind, branch((False, True)) if kind == "dataclass" else False)
        COLLECT.know(t.t)
        COLLECT.owner = COLLECT.cls = t.t
        if branch(("other", "itself")) == "itself":
            # the class mentions itself
            c = t.t
            ctx().assume(g.rel.key(c))
        collects(g, c, t)


for _k in ("dataclass", "namedtuple", "enum", "plain"):
    class_form(_k)


def closed_references(typ: Any, r: Any, m: Callable) -> None:
    "The result is the least set of classes that includes those mentioned and is closed."
    if not isinstance(r, PSet) or len(r.segs) != 1 or r.segs[0][0] != "all links":
        raise Unsupported("set of references")
    rel = r.segs[0][1]
    x, y, k = COLLECT.fresh("x"), COLLECT.fresh("y"), COLLECT.fresh("k")
    COLLECT.know(root())
    COLLECT.settle()

    def among(z: Any) -> Any:
        return z3.Or(*[z3.And(rel.key(w), rel.ref(w, z)) for w in COLLECT.known])

    goal(z3.Implies(z3.And(rel.key(k), rel.ref(k, y)), closed(y)), "each class collected is reachable")
    goal(z3.Implies(m(y), among(y)), "each class that the type mentions is collected")
    goal(z3.Implies(z3.And(rel.key(k), rel.ref(k, x), deps(x, y)), among(y)), "each class that a member of a collected class mentions is collected")


@obligation("C15", "the classes that a type refers to are exactly the classes reachable from it", ["inspection.get_referenced_types", "inspection.TypeCollector.references"], timeout=60)
def ob_references() -> None:
    contracts()
    t = any_type()
    m = mentioned(t)
    COLLECT.given(1, lambda y: z3.Implies(m(y), closed(y)))
    r = call(I.get_referenced_types, [t, any_context("module")], {})
    closed_references(t, r, m)


@obligation("C15", "collecting from several classes gives what is reachable from any of them", ["inspection.TypeCollector.traverse_all", "inspection.TypeCollector.traverse", "inspection.TypeCollector.references"], timeout=60)
def ob_traverse() -> None:
    contracts()
    o = call(I.TypeCollector, [], {})
    g = graph_of(o)
    ts = components("Cs")
    COLLECT.owner, COLLECT.graph = root(), g
    m = mentioned(TyGen(tuple, ts))
    COLLECT.given(1, lambda y: z3.Implies(m(y), closed(y)))
    COLLECT.know(root())
    COLLECT.settle()
    before = g.rel
    call(I.TypeCollector.traverse_all, [o, ts], {})
    COLLECT.check(before, g.rel, root(), m, "classes collected")
    closed_references(None, getattr_(o, "references"), m)


@obligation("C15", "a class without annotated members refers to no class", "inspection.TypeCollector.run", timeout=60)
def ob_basic() -> None:
    g, c = setting()
    t = branch((bool, int, float, str, bytes, object, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID))
    k = class_term(t)
    COLLECT.given(1, lambda y: z3.Not(deps(k, y)))
    COLLECT.owner = COLLECT.cls = k
    collects(g, c, t)


@obligation("C15", "unions written with | refer to the classes that any of their members refers to", "inspection.TypeCollector.run", timeout=60)
def ob_new_union() -> None:
    "Predicates on the union and its members other than None are given by contract (C16)."
    g, c = setting()
    ts = components("Ts")
    n = as_int(ts.pl.length())
    ctx().add_fact(n >= 2)
    u = TyGen(typing.Union, ts, True)
    m = mentioned(u)
    rest = any_type("members other than None")
    COLLECT.given(1, lambda y: mention(rest.t, y) == m(y))  # None mentions no class
    optional = z3.Const("optional", BOOL)
    CONTRACTS[I.is_type_optional] = lambda t, strict=False: SBool(optional) if t is u else NotImplemented
    CONTRACTS[I.is_type_union] = lambda t: SBool(z3.Not(z3.And(optional, n == 2))) if t is u else NotImplemented
    CONTRACTS[I.unwrap_optional_type] = lambda t: rest if t is u else NotImplemented
    CONTRACTS[I.unwrap_union_types] = lambda t: ts if t is u else NotImplemented
    COLLECT.owner = c
    collects(g, c, u)


import strong_typing.topological as T  # noqa: E402


@obligation("C14", "types are sorted by the graph of classes that the given classes refer to", "topological.type_topological_sort", timeout=60)
def ob_sort_types() -> None:
    "Without additional dependencies (with a function for dependencies: bounded)."
    contracts()
    ts = components("Cs")
    seq = ts.pl.segs[0][1]
    item = seq.fn

    def a_class(j: Any) -> Any:
        t = item(j)
        ctx().axiom(("class", t.t), lambda: z3.And(models.ty_is_class(t.t), z3.Not(models.is_annotated(t.t))))
        return t

    seq.fn = a_class
    m = mentioned(TyGen(tuple, ts))
    COLLECT.given(1, lambda y: z3.Implies(m(y), closed(y)))
    COLLECT.know(root())
    COLLECT.settle()
    given: list = []

    def c_sort(graph: Any) -> Any:
        given.append(graph)
        return PList([("seq", FnSeq(z3.Const("sorted_n", INT), lambda j: SV(z3.Function("sorted", INT, V)(as_int(j))), key="sorted"))], src=z3.Const("sorted", V))

    CONTRACTS[T.topological_sort] = c_sort
    r = call(T.type_topological_sort, [ts], {})
    goal(z3.BoolVal(isinstance(r, PList) and r.src is not None and r.src.eq(z3.Const("sorted", V))), "the result is that of the topological sort")
    (graph,) = given
    if not isinstance(graph, PDict) or len(graph.segs) != 1 or graph.segs[0][0] != "seq":
        raise Unsupported("graph of types")
    s = graph.segs[0][1]
    rel = COLLECT.graph.rel
    j = z3.Const("arbitrary position", INT)
    ctx().assume(z3.And(j >= 0, j < as_int(s.n)))
    n, at, ix = z3.Const("keys_n", INT), z3.Function("keys", INT, TY), z3.Function("keys_ix", TY, INT)
    goal(as_int(s.n) == n, "all classes in the graph are considered")
    x = s.at(j)
    t = at(j)
    COLLECT.know(t)
    y = COLLECT.fresh("y")
    COLLECT.settle()
    if x is seqs.ABSENT:
        goal(t == root(), "no class is left out")
        return
    goal(t != root(), "the root of the graph is left out")
    same_value(x, (TyOpaque(t), Links(COLLECT.graph, t)), "class and its links")
    goal(z3.Implies(rel.ref(t, y), z3.And(rel.key(y), y != root())), "all classes that a class is linked to are in the graph")


# sorting with a function for additional dependencies

dep = z3.Function("additional dependency", TY, TY, BOOL)
dep_n, dep_at, dep_ix = z3.Function("dep_n", TY, INT), z3.Function("dep_at", TY, INT, TY), z3.Function("dep_ix", TY, TY, INT)


class Order:
    "The order in which the members of a set of types (or the keys of a dictionary) come up; each member comes up once."

    def __init__(self, member: Callable):
        c = ctx()
        self.member = member
        self.n, self.at, self.ix = z3.Const(c.name("order_n"), INT), z3.Function(c.name("order"), INT, TY), z3.Function(c.name("order_ix"), TY, INT)
        c.add_fact(self.n >= 0)
        DEPS.given(1, lambda t: member(t) == z3.And(self.ix(t) >= 0, self.ix(t) < self.n, self.at(self.ix(t)) == t))
        DEPS.orders.append(self)

    def facts(self, j: Any) -> Any:
        return z3.Implies(z3.And(j >= 0, j < self.n), z3.And(self.member(self.at(j)), self.ix(self.at(j)) == j))

    def seq(self, item: Callable) -> FnSeq:
        def at(j: Any) -> Any:
            ctx().axiom(("order", self.n, as_int(j)), lambda: self.facts(as_int(j)))
            return item(self.at(as_int(j)))

        return FnSeq(self.n, at)


class Deps(Theory):
    def reset(self) -> None:
        super().reset()
        self.orders: list = []
        self.witnesses: list = []
        self.focus: tuple = ()  # the two types that the conclusion is about

    def union(self, count: Any, i0: Any, effects: list, arity: int) -> Callable:
        "What the iterations of a loop have added altogether; each effect is a formula about the individuals, for iteration i0."
        order = next((o for o in self.orders if o.n.eq(as_int(count))), None)
        if order is None:
            raise Unsupported("loop that does not visit all types")
        w = z3.Function(ctx().name("iteration"), *[TY] * arity, INT)

        def in_iteration(j: Any, *xs: Any) -> Any:
            return z3.And(j >= 0, j < order.n, z3.substitute(z3.Or(*[e(*xs) for e in effects]), (i0, j)))

        def added(*xs: Any) -> Any:
            return in_iteration(w(*xs), *xs)

        focus = lambda: [self.focus] if arity == 2 else [(t,) for t in self.known]  # noqa: E731
        self.given(1, lambda t: [z3.Implies(in_iteration(order.ix(t), *xs), added(*xs)) for xs in focus()])
        self.given(0, lambda: [order.facts(w(*xs)) for xs in focus()])
        self.witnesses.append((order, w, arity))
        return added

    def conclude(self, x: Any, y: Any, others: list) -> None:
        "Adds all that is known, for a conclusion on two types."
        self.focus = (x, y)
        for t in others:
            self.know(t)
        for order, w, arity in self.witnesses:
            for xs in [(x, y)] if arity == 2 else [(t,) for t in (x, y, *others)]:
                self.know(order.at(w(*xs)))
        self.settle()


DEPS = Deps(TY, [(2, lambda t, y: dep(t, y) == z3.And(dep_ix(t, y) >= 0, dep_ix(t, y) < dep_n(t), dep_at(t, dep_ix(t, y)) == y))])
verify.RESET.append(DEPS.reset)


def membership(xs: Any) -> Callable:
    "Membership in what a loop or an update goes over."
    if isinstance(xs, (PList, STuple)):
        segs = xs.segs if isinstance(xs, PList) else xs.pl.segs
        if all(k == "seq" and hasattr(s, "members") for k, s in segs):
            ms = [s.members for _, s in segs]
            return lambda y: z3.Or(*[m(y) for m in ms])
    if isinstance(xs, TypeSet):
        interp.note_read(xs)
        return xs.member
    if isinstance(xs, PSet) and not xs.segs:
        return lambda y: z3.BoolVal(False)
    if isinstance(xs, Once):
        return membership(PList([("seq", xs.vc_seq())]))
    raise Unsupported("set of types")


def ty(x: Any) -> Any:
    t = type_term(x)
    if t is None:
        raise Unsupported("type")
    if ctx().recorder is None:
        DEPS.know(t)
    return t


class Poison(Sym):
    "What is not known after a loop."


class Once(Sym):
    "What the caller's function returns: something that can be gone over, perhaps only once."

    whole = True  # copied as a whole by list() and set()

    def __init__(self, t: Any):
        self.t, self.used = t, False

    def vc_seq(self) -> Any:
        if self.used:
            s = FnSeq(0, lambda j: Unsupported)
            s.members = lambda y: z3.BoolVal(False)  # type: ignore
            return s
        self.used = True
        t = self.t

        def at(j: Any) -> Any:
            y = dep_at(t, as_int(j))
            rng = z3.And(as_int(j) >= 0, as_int(j) < dep_n(t))
            ctx().axiom(("dep", y), lambda: z3.Implies(rng, dep(t, y)))
            return TyOpaque(y)

        ctx().add_fact(dep_n(t) >= 0)
        s = FnSeq(dep_n(t), at)
        s.members = lambda y: dep(t, y)  # type: ignore
        s.loop = lambda cb: self.each(cb)  # type: ignore
        return s

    def each(self, cb: Callable) -> bool:
        "A loop that adds each of the types to sets."
        y = z3.Const(ctx().name("y"), TY)
        outer = ctx().recorder
        out: list = []

        def run() -> None:
            rec = ctx().recorder
            cb(TyOpaque(y))
            out.append(list(rec.effects))

        core.explore(run, recorder=lambda: interp.Recorder(outer), keep=False)
        if len(out) != 1:
            raise Unsupported("loop over dependencies")
        for cont, op, args in out[0]:
            if isinstance(cont, interp.Cell):
                cont.assign(Poison())  # a variable of the loop
                continue
            if not (isinstance(cont, (Edges, TypeSet)) and op == "one" and args[-1].eq(y)):
                raise Unsupported(f"loop over dependencies {cont} {op} {args}")
            cont.put("all", *args[:-1], lambda z: dep(self.t, z))
        return True


class Edges(Sym):
    "The sets that types are linked to; shared between the dictionaries."

    def __init__(self, ref: Callable):
        self.ref = ref

    def put(self, op: str, k: Any, what: Any) -> None:
        if not interp.effect(self, op, k, what):
            self.apply([(z3.BoolVal(True), op, k, what)])

    @staticmethod
    def formula(cond: Any, op: str, k: Any, what: Any) -> Callable:
        return lambda x, y: z3.And(cond, x == k, y == what if op == "one" else what(y))

    def apply(self, us: list) -> None:
        fs, ref = [self.formula(*u) for u in us], self.ref
        self.ref = lambda x, y: z3.Or(ref(x, y), *[f(x, y) for f in fs])

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        fs = [self.formula(p.cond, op, *args) for p, es in paths for op, args in es]
        added, ref = DEPS.union(count, i0, fs, 2), self.ref
        self.ref = lambda x, y: z3.Or(ref(x, y), added(x, y))


class RefSet(Sym):
    in_place = True

    def __init__(self, edges: Edges, k: Any):
        self.edges, self.k = edges, k

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return RefSet(self.edges, core.substitute(self.k, *pairs))

    def vc_getattr(self, name: str) -> Any:
        if name == "add":
            return Model(lambda y: self.edges.put("one", self.k, ty(y)), "add")
        if name == "update":
            return Model(lambda *xs: [self.edges.put("all", self.k, membership(x)) for x in xs] and None, "update")
        raise Unsupported(f"attribute {name} of the links of a type")


class TypeSet(Sym):
    whole = True
    in_place = True

    def __init__(self, *a: Any):
        self.member: Callable = membership(a[0]) if a else lambda y: z3.BoolVal(False)
        self.birth = ctx().recorder

    def put(self, op: str, what: Any) -> None:
        if not interp.effect(self, op, what):
            f, m = self.formula(z3.BoolVal(True), op, what), self.member
            self.member = lambda y: z3.Or(m(y), f(y))

    @staticmethod
    def formula(cond: Any, op: str, what: Any) -> Callable:
        return lambda y: z3.And(cond, y == what if op == "one" else what(y))

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        fs = [self.formula(p.cond, op, *args) for p, es in paths for op, args in es]
        added, m = DEPS.union(count, i0, fs, 1), self.member
        self.member = lambda y: z3.Or(m(y), added(y))

    def vc_getattr(self, name: str) -> Any:
        if name == "add":
            return Model(lambda y: self.put("one", ty(y)), "add")
        if name == "update":
            return Model(lambda *xs: [self.put("all", membership(x)) for x in xs] and None, "update")
        raise Unsupported(f"attribute {name} of a set of types")

    def vc_contains(self, y: Any) -> Any:
        interp.note_read(self)
        return self.member(ty(y))

    def vc_seq(self) -> Any:
        interp.note_read(self)
        s = Order(self.member).seq(lambda t: TyOpaque(t))
        s.members = self.member  # type: ignore
        return s


class TypeMap(Sym):
    "A dictionary of types and the sets that they are linked to."

    def __init__(self, key: Any = None, edges: Any = None):
        self.key: Callable = key or (lambda k: z3.BoolVal(False))
        self.edges = edges
        self.birth = ctx().recorder

    def put(self, k: Any) -> None:
        if not interp.effect(self, "key", k):
            key = self.key
            self.key = lambda x: z3.Or(key(x), x == k)

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        fs = [(lambda x, c=p.cond, k=args[0]: z3.And(c, x == k)) for p, es in paths for op, args in es]
        added, key = DEPS.union(count, i0, fs, 1), self.key
        self.key = lambda x: z3.Or(key(x), added(x))

    def value(self, t: Any) -> RefSet:
        assert self.edges is not None
        return RefSet(self.edges, t)

    def vc_setitem(self, k: Any, v: Any) -> None:
        t = ty(k)
        if isinstance(v, RefSet) and v.k.eq(t) and self.edges in (None, v.edges):
            self.edges = v.edges
        elif not (isinstance(v, (TypeSet, PSet)) and z3.is_false(z3.simplify(membership(v)(t))) and not fork(self.key(t))):
            raise Unsupported("links of a type")
        self.put(t)  # a type that is not in a dictionary is not linked to anything so far

    def vc_getitem(self, k: Any) -> Any:
        interp.note_read(self)
        if not fork(self.key(ty(k))):
            raise PyRaise(ExcVal(KeyError))
        return self.value(ty(k))

    def vc_contains(self, k: Any) -> Any:
        interp.note_read(self)
        return self.key(ty(k))

    def vc_seq(self) -> Any:
        interp.note_read(self)
        return Order(self.key).seq(lambda t: TyOpaque(t))

    def vc_getattr(self, name: str) -> Any:
        if name == "items":
            return Model(lambda: STuple(Order(self.key).seq(lambda t: (TyOpaque(t), self.value(t)))), "items")
        if name == "keys":
            return Model(lambda: STuple(self.vc_seq()), "keys")
        if name == "setdefault":

            def setdefault(k: Any, v: Any) -> Any:
                if isinstance(v, (TypeSet, PSet)):
                    y = z3.Const("any", TY)
                    if z3.is_false(z3.simplify(membership(v)(y))):
                        self.put(ty(k))  # a type that is not in a dictionary is not linked to anything so far
                        return self.value(ty(k))
                raise Unsupported("links of a type")

            return Model(setdefault, "setdefault")
        raise Unsupported(f"attribute {name} of a graph of types")


@obligation("C14", "types are sorted by the graph of classes extended by the dependencies that the caller's function returns", "topological.type_topological_sort", timeout=60)
def ob_sort_with_dependencies() -> None:
    "The collector is given by contract (C15). What the function returns may be gone over once. It does not return the collector's root."
    contracts()
    ts = components("Cs")
    seq = ts.pl.segs[0][1]
    item = seq.fn

    def a_class(j: Any) -> Any:
        t = item(j)
        ctx().axiom(("class", t.t), lambda: z3.And(models.ty_is_class(t.t), z3.Not(models.is_annotated(t.t))))
        return t

    seq.fn = a_class
    key0, ref0 = z3.Function("key0", TY, BOOL), z3.Function("ref0", TY, TY, BOOL)
    rt = root()
    DEPS.know(rt)
    ctx().add_fact(key0(rt))
    DEPS.given(2, lambda x, y: [z3.Implies(ref0(x, y), z3.And(key0(x), key0(y), y != rt)), z3.Implies(dep(x, y), y != rt)])
    edges = Edges(lambda x, y: ref0(x, y))
    collected: list = []

    def traverse_all(me: Any, types: Any) -> None:
        if collected:
            raise Unsupported("types are collected more than once")
        collected.append(types)
        interp.setattr_(me, "graph", TypeMap(lambda k: key0(k), edges))

    given: list = []

    def c_sort(graph: Any) -> Any:
        given.append(graph)
        return PList([("seq", FnSeq(z3.Const("sorted_n", INT), lambda j: SV(z3.Function("sorted", INT, V)(as_int(j))), key="sorted"))], src=z3.Const("sorted", V))

    CONTRACTS[I.TypeCollector.traverse_all] = traverse_all
    CONTRACTS[T.topological_sort] = c_sort
    interp.NEW_SET, interp.NEW_DICT_COMP = TypeSet, TypeMap
    try:
        with_function = branch((True, False))
        fn = Model(lambda t: Once(ty(t)), "dependency_fn") if with_function else None
        r = call(T.type_topological_sort, [ts, fn], {})
    finally:
        interp.NEW_SET = interp.NEW_DICT_COMP = None
    goal(z3.BoolVal(isinstance(r, PList) and r.src is not None and r.src.eq(z3.Const("sorted", V))), "the result is that of the topological sort")
    same_value(STuple(collected[0].segs[0][1]) if isinstance(collected[0], PList) and len(collected[0].segs) == 1 else collected[0], ts, "types that are collected")
    (graph,) = given
    if not isinstance(graph, TypeMap):
        raise Unsupported("graph of types")
    # some type that is in the graph of the collector has a dependency on y
    source = z3.Function("source", TY, TY)

    def depended(y: Any) -> Any:
        s = source(y)
        return z3.And(key0(s), s != rt, dep(s, y)) if with_function else z3.BoolVal(False)

    DEPS.given(2, lambda t, y: z3.Implies(z3.And(key0(t), t != rt, dep(t, y), z3.BoolVal(with_function)), depended(y)))
    x, y = DEPS.fresh("x"), DEPS.fresh("y")
    DEPS.conclude(x, y, [source(x), source(y)])
    goal(graph.key(x) == z3.Or(z3.And(key0(x), x != rt), depended(x)), "the types are those collected, and those depended on")
    links = z3.And(key0(x), x != rt, z3.Or(ref0(x, y), z3.And(dep(x, y), z3.BoolVal(with_function))))
    if graph.edges is None:
        raise Unsupported("links of types")
    goal(z3.Implies(graph.key(x), graph.edges.ref(x, y) == links), "each type is linked to the classes it mentions and to those it depends on")
    goal(z3.Implies(z3.And(graph.key(x), graph.edges.ref(x, y)), graph.key(y)), "all links lead to types in the graph")

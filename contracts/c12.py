"""
C12: the definitions of a schema document are exactly those that it refers to, directly or through other definitions.

What the schema of a type refers to is arbitrary: `refers(T, n)` for the schema that stands for T where it is mentioned, and
`describes(T, n)` for the one that is the definition of T.  The loop that collects definitions is verified with the invariant

- each name that has been defined is a name in use, and each name in use is one that is reached from the document;
- what the document and the definitions made so far refer to is in use;
- a name in use stands for the type of this name, and its definition is the one of this type.

Reachability is represented by an arbitrary set of names that includes what the document refers to and is closed under what
definitions refer to; what holds for each such set holds for the least one.
"""

import ast
import datetime
import decimal
import inspect
import uuid

from .classes import *  # noqa: F403
from .loops import *  # noqa: F403
from .loops import Theory, invariant  # noqa: F811
import strong_typing.schema as SC  # noqa: E402

Ty, OB = core.Ty, core.Ob
refers = z3.Function("refers", Ty, STR, BOOL)
refers_expanded = z3.Function("refers_when_expanded", Ty, STR, BOOL)
describes = z3.Function("describes", Ty, STR, BOOL)
type_named = z3.Function("type_named", STR, Ty)
reached = z3.Function("reached", STR, BOOL)
schema_of_type = z3.Function("schema_of_type", Ty, BOOL, OB)
definition_of = z3.Function("definition_of", Ty, OB)


class Closure12(Theory):
    "The names of types in a document."

    def reset(self) -> None:
        super().reset()
        self.tables: list = []
        self.sizes: list = []
        self.derived: list = []  # names that explain how another one came into use
        self.source: Any = None
        self.generator: Any = None
        self.roots: Any = None
        self.in_use: Any = None

    def make(self) -> Any:
        return Names()

    def settle(self) -> None:
        n = -1
        while n != len(self.known):
            n = len(self.known)
            super().settle()

    def name(self, key: Any) -> Any:
        if not isinstance(key, (str, SStr)):
            raise Unsupported("name of a type")
        t = interp.str_term(key)
        self.know(t)
        return t


NAMES = Closure12(STR, [])
verify.RESET.append(NAMES.reset)


class Size:
    "The number of names in a set, and its relation to the sizes of the other sets."

    def __init__(self, has: Callable):
        c = ctx()
        self.has, self.n = has, z3.Const(c.name("names"), INT)
        witness = NAMES.fresh("some_name")
        c.add_fact(z3.And(self.n >= 0, z3.Implies(self.n > 0, has(witness))))
        NAMES.given(1, lambda x: z3.Implies(has(x), self.n > 0))
        for other in NAMES.sizes:
            self.compare(self, other)
            self.compare(other, self)
        NAMES.sizes.append(self)

    def compare(self, a: "Size", b: "Size") -> None:
        "Either a has a name that b has not, or it is a part of b, and equal to b if it is as large."
        e = NAMES.fresh("only_one")
        extra = z3.And(a.has(e), z3.Not(b.has(e)))
        ctx().add_fact(z3.Or(extra, a.n <= b.n))
        NAMES.given(1, lambda x: z3.Implies(z3.And(z3.Not(extra), a.has(x)), b.has(x)))
        NAMES.given(1, lambda x: z3.Implies(z3.And(z3.Not(extra), a.n == b.n, b.has(x)), a.has(x)))


def wrap(kind: str, t: Any) -> Any:
    return TyOpaque(t) if kind == "type" else SObj(None, t)


def unwrap(v: Any) -> tuple:
    if isinstance(v, TyOpaque):
        return "type", v.t
    if isinstance(v, SObj) and v.cls is None:
        return "doc", v.t
    raise Unsupported("value in a table of names")


class Names(Sym):
    "A dictionary by name."

    def __init__(self, has: Any = None, value: Any = None, kind: Any = None):
        self.has = has if has is not None else (lambda n: z3.BoolVal(False))
        self.value, self.kind = value, kind
        self.birth = ctx().recorder
        self._size: Any = None
        self._index: Any = None
        NAMES.tables.append(self)

    def set(self, has: Any, value: Any, kind: Any) -> None:
        if self.kind not in (None, kind):
            raise Unsupported("values of different kinds")
        self.has, self.value, self.kind = has, value, kind
        self._size = self._index = None

    # -- reading

    def size(self) -> Size:
        interp.note_read(self)
        if self._size is None:
            self._size = Size(self.has)
            NAMES.settle()
        return self._size

    def vc_len(self) -> Any:
        return SInt(self.size().n)

    def vc_truth(self) -> bool:
        return fork(self.size().n > 0)

    def vc_contains(self, key: Any) -> Any:
        interp.note_read(self)
        n = NAMES.name(key)
        NAMES.settle()
        return z3.simplify(self.has(n))

    def find(self, key: Any, default: Any = None) -> Any:
        interp.note_read(self)
        n = NAMES.name(key)
        NAMES.settle()
        if self.value is not None and fork(self.has(n)):
            return wrap(self.kind, self.value(n))
        return default

    def vc_getitem(self, key: Any) -> Any:
        r = self.find(key, None)
        if r is None:
            interp.raise_py(KeyError)
        return r

    def index(self) -> tuple:
        "Position of each name, and name at each position."
        if self._index is None:
            c, n, has = ctx(), self.size().n, self.has
            at, ix = z3.Function(c.name("name_at"), INT, STR), z3.Function(c.name("position"), STR, INT)
            NAMES.given(1, lambda x: z3.Implies(has(x), z3.And(ix(x) >= 0, ix(x) < n, at(ix(x)) == x)))
            self._index = (at, ix)
            NAMES.settle()
        return self._index

    def seq(self, fn: Callable) -> seqs.Seq:
        n, has, (at, ix) = self.size().n, self.has, self.index()

        def item(j: Any) -> Any:
            j = as_int(j)
            x = at(j)
            ctx().axiom(("name", x), lambda: z3.Implies(z3.And(j >= 0, j < n), z3.And(has(x), ix(x) == j)))
            NAMES.know(x)
            NAMES.settle()
            return fn(SStr([x]))

        s = FnSeq(n, item)

        def loop(cb: Callable) -> bool:
            NAMES.source = (self, has, at, ix)
            return False

        s.loop = loop  # type: ignore
        return s

    def vc_seq(self) -> Any:
        return self.seq(lambda k: k)

    def vc_getattr(self, name: str) -> Any:
        value, kind = self.value, self.kind
        if name == "keys":
            return Model(lambda: View(self, lambda k: k), "keys")
        if name == "values":
            return Model(lambda: View(self, lambda k: wrap(kind, value(k.t))), "values")
        if name == "items":
            return Model(lambda: View(self, lambda k: (k, wrap(kind, value(k.t))), True), "items")
        if name == "get":
            return Model(self.find, "get")
        if name == "copy":
            return Model(self.vc_dict, "copy")
        if name == "setdefault":
            return Model(self.setdefault, "setdefault")
        raise Unsupported(f"attribute {name} of a table of names")

    def vc_dict(self) -> Any:
        interp.note_read(self)
        return Names(self.has, self.value, self.kind)

    # -- writing

    def vc_setitem(self, key: Any, v: Any) -> None:
        n = NAMES.name(key)
        kind, t = unwrap(v)
        if interp.effect(self, "put", n, kind, t):
            return
        has, value = self.has, self.value
        self.set(lambda x: z3.Or(has(x), x == n), (lambda x: z3.If(x == n, t, value(x))) if value is not None else (lambda x: t), kind)

    def setdefault(self, key: Any, v: Any) -> Any:
        if ctx().recorder is not self.birth:
            raise Unsupported("setdefault in a loop")
        r = self.find(key, None)
        if r is not None:
            return r
        self.vc_setitem(key, v)
        return v

    def mention(self, decl: Any, t: Any) -> None:
        "Names that the schema of a type refers to come into use, each for the type of this name."
        if interp.effect(self, "mention", decl, t):
            return
        self.add(lambda x: decl(t, x))

    def add(self, more: Callable) -> None:
        has, value = self.has, self.value
        v = (lambda x: z3.If(more(x), type_named(x), value(x))) if value is not None else type_named
        self.set(lambda x: z3.Or(has(x), more(x)), v, "type")

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        if NAMES.source is None:
            raise Unsupported("loop that changes a table of names")
        source, inside, at, ix = NAMES.source
        if source is self:
            raise Unsupported("a table of names changes while it is iterated over")
        if any(len(ops) > 1 for _, ops in paths):
            raise Unsupported("several changes in an iteration")
        at_index = lambda f, j: core.substitute(f, (i0, j))  # noqa: E731
        conds = [(z3.And(*p.conds) if p.conds else z3.BoolVal(True), z3.And(*p.facts) if p.facts else z3.BoolVal(True), ops) for p, ops in paths]
        within = lambda j: z3.And(j >= 0, j < as_int(count))  # noqa: E731

        def holds(x: Any) -> Any:
            ctx().add_index(ix(x))
            return z3.Implies(inside(x), z3.And(*[z3.Implies(at_index(c, ix(x)), at_index(f, ix(x))) for c, f, _ in conds]))

        NAMES.given(1, holds)
        done = [(c, ops[0]) for c, _, ops in conds if ops]
        kinds = {op for _, (op, _) in done}
        if kinds == {"put"}:
            key = at(i0)
            if any(not args[0].eq(key) for _, (_, args) in done):
                raise Unsupported("assignment under another name in a loop")
            has, value, kind = self.has, self.value, done[0][1][1][1]
            hit = lambda c, x: z3.And(inside(x), within(ix(x)), at_index(c, ix(x)))  # noqa: E731

            def value2(x: Any) -> Any:
                v = value(x) if value is not None else None
                for c, (_, args) in done:
                    new = at_index(args[2], ix(x))
                    v = new if v is None else z3.If(hit(c, x), new, v)
                return v

            self.set(lambda x: z3.Or(has(x), *[hit(c, x) for c, _ in done]), value2, kind)
        elif kinds == {"mention"}:
            c0 = ctx()
            more, by = z3.Function(c0.name("more"), STR, BOOL), z3.Function(c0.name("mentioned_by"), STR, INT)

            def cause(x: Any, j: Any) -> Any:
                return z3.Or(*[z3.And(at_index(c, j), args[0](at_index(args[1], j), x)) for c, (_, args) in done])

            def known(x: Any) -> Any:
                if not any(d.eq(x) for d in NAMES.derived):
                    NAMES.derived.append(at(by(x)))
                    NAMES.know(at(by(x)))
                return z3.Implies(more(x), z3.And(within(by(x)), inside(at(by(x))), ix(at(by(x))) == by(x), cause(x, by(x))))

            NAMES.given(1, known)
            NAMES.given(2, lambda m, x: z3.Implies(z3.And(inside(m), within(ix(m)), cause(x, ix(m))), more(x)))
            self.add(more)
        elif kinds:
            raise Unsupported("loop that changes a table of names")

class View(Sym):
    def __init__(self, names: Names, fn: Callable, pairs: bool = False):
        self.names, self.fn, self.pairs = names, fn, pairs

    def vc_seq(self) -> Any:
        return self.names.seq(self.fn)

    def vc_len(self) -> Any:
        return self.names.vc_len()

    def vc_sorted(self, **kw: Any) -> Any:
        if kw and not set(kw) <= {"key", "reverse"}:
            raise Unsupported("sorted")
        return self

    def vc_dict(self) -> Any:
        if not self.pairs:
            raise Unsupported("dictionary of a view")
        return self.names.vc_dict()


# ---------------------------------------------------------------- the loop

def used() -> Names:
    u = NAMES.generator.attrs.get("types_used")
    if not isinstance(u, Names):
        raise Unsupported("types in use")
    return u


def statements(u: Names, d: Names, m: Any, n: Any) -> list:
    "The invariant, for any two names."
    out = [
        ("what is defined is in use", z3.Implies(d.has(n), u.has(n))),
        ("what is in use is reached", z3.Implies(u.has(n), reached(n))),
        ("what definitions refer to is in use", z3.Implies(z3.And(d.has(m), describes(type_named(m), n)), u.has(n))),
        ("what the document refers to is in use", z3.Implies(NAMES.roots(n), u.has(n))),
    ]
    if u.value is not None:
        out.append(("a name in use stands for its type", z3.Implies(u.has(n), u.value(n) == type_named(n))))
    if d.value is not None:
        out.append(("a definition is the one of its type", z3.Implies(d.has(n), d.value(n) == definition_of(type_named(n)))))
    return out


def assigned(body: list) -> set:
    return {x.id for st in body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def while_loop(it: Any, st: Any) -> bool:
    if ctx().recorder is not None:
        raise Unsupported("loop within a loop")
    u = used()
    tables = [x for x in NAMES.tables if x is not u and any(v is x for v in it.env.vars.values())]
    if len(tables) != 1:
        raise Unsupported("state of the loop that collects definitions")
    d = tables[0]
    inner = assigned(st.body) | assigned([st])
    if any(x in it.env.vars for x in inner):
        raise Unsupported("loop that changes variables")

    def check(what: str) -> None:
        m, n = NAMES.fresh("m"), NAMES.fresh("n")
        NAMES.settle()
        for name, f in statements(u, d, m, n):
            invariant(f, f"{what}: {name}")

    check("before the loop")
    for x, kind, sort in ((u, "type", Ty), (d, "doc", OB)):
        has, value = z3.Function(ctx().name(f"{kind}_has"), STR, BOOL), z3.Function(ctx().name(f"{kind}_value"), STR, sort)
        x.kind = None
        x.set(has, value, kind)
    uh, uv, dh, dv = u.has, u.value, d.has, d.value
    NAMES.given(2, lambda m, n: [f for _, f in statements(Frozen(uh, uv), Frozen(dh, dv), m, n)])
    NAMES.settle()
    if not interp.truth(it.eval(st.test)):
        it.exec_block(st.orelse)
        return True
    try:
        it.exec_block(st.body)
    except interp.ContinueSig:
        pass
    except interp.BreakSig:
        return True
    if used() is not u or not any(v is d for v in it.env.vars.values()):
        raise Unsupported("state of the loop that collects definitions")
    check("after an iteration")
    invariant(z3.Or(*[z3.And(d.has(x), z3.Not(dh(x))) for x in list(NAMES.known)]), "each iteration defines another name")
    raise core.Infeasible()  # the path ends here: it goes on from an arbitrary state that satisfies the invariant


class Frozen:
    def __init__(self, has: Any, value: Any):
        self.has, self.value = has, value


# ---------------------------------------------------------------- contracts of the functions that make schemas

may_fail = z3.Function("may_fail", Ty, BOOL)


def c_type_to_schema(self: Any, data_type: Any, force_expand: Any = False) -> Any:
    _, t = unwrap(data_type)
    if fork(z3.Or(may_fail(t))):
        raise PyRaise(ExcVal(TypeError))
    e = interp.truth(force_expand)
    used().mention(refers_expanded if e else refers, t)
    return SObj(None, schema_of_type(t, z3.BoolVal(e)))


def c_definition(self: Any, data_type: Any) -> Any:
    _, t = unwrap(data_type)
    if fork(may_fail(t)):
        raise PyRaise(ExcVal(TypeError))
    used().mention(describes, t)
    return SObj(None, definition_of(t))


def document_of(t: Any, expand: bool) -> Any:
    "Runs the generator on a type."
    CONTRACTS[SC.JsonSchemaGenerator.type_to_schema] = c_type_to_schema
    CONTRACTS[SC.JsonSchemaGenerator._type_to_schema_with_lookup] = c_definition
    CONTRACTS[SC.is_type_like] = lambda x: SBool(z3.Const("is_type_like", BOOL))
    interp.NEW_DICT = interp.NEW_DICT_COMP = NAMES.make
    interp.WHILE = while_loop
    NAMES.roots = lambda n: (refers_expanded if expand else refers)(t.t, n)
    NAMES.given(1, lambda n: z3.Implies(NAMES.roots(n), reached(n)))
    NAMES.given(2, lambda m, n: z3.Implies(z3.And(reached(m), describes(type_named(m), n)), reached(n)))
    NAMES.generator = call(SC.JsonSchemaGenerator, [], {})
    if branch((False, True)):
        # it may have been used before
        NAMES.generator.attrs["types_used"] = Names(z3.Function("used_before", STR, BOOL), z3.Function("type_before", STR, Ty), "type")
    return call(getattr_(NAMES.generator, "classdef_to_schema"), [t], {"force_expand": expand})


@obligation("C12", "the definitions of a document are those that it or another definition refers to, and no other", "schema.JsonSchemaGenerator.classdef_to_schema", timeout=150)
def _() -> None:
    t, expand = any_type(), branch((False, True))
    o = outcome(lambda: document_of(t, expand))
    n = NAMES.fresh("n")
    NAMES.settle()
    if o.exc is not None:
        if o.exc.cls is not TypeError:
            refuted(f"ends in {o.exc.cls}")
        return
    if not isinstance(o.value, tuple) or len(o.value) != 2 or not isinstance(o.value[1], Names):
        raise Unsupported("result of the generator")
    doc, defs = o.value
    if defs.kind not in (None, "doc"):
        refuted("what is defined is not a schema")
    same_value(doc, SObj(None, schema_of_type(t.t, z3.BoolVal(expand))), "schema of the type")
    m = NAMES.fresh("m")
    NAMES.settle()
    goal(z3.Implies(NAMES.roots(n), defs.has(n)), "what the document refers to is defined")
    goal(z3.Implies(z3.And(defs.has(m), describes(type_named(m), n)), defs.has(n)), "what a definition refers to is defined")
    goal(z3.Implies(defs.has(n), reached(n)), "nothing else is defined")
    if defs.value is not None:
        goal(z3.Implies(defs.has(n), defs.value(n) == definition_of(type_named(n))), "a definition describes the type of its name")


# ---------------------------------------------------------------- which types the schema of a type refers to

from .schemas import AbsSchema, documentation, schema_contracts  # noqa: E402,F401
from .c04 import *  # noqa: E402,F403


class Uses(Sym):
    "The names of types that the schema generator takes note of, and the types that it takes each name to stand for."

    def __init__(self) -> None:
        self.ways: list = []

    def vc_setitem(self, key: Any, v: Any) -> None:
        self.put(key, v)

    def put(self, key: Any, v: Any) -> Any:
        if not interp.effect(self, "put", interp.str_term(key), v):
            self.ways.append(("one", "put", (interp.str_term(key), v)))
        return v

    def vc_getattr(self, name: str) -> Any:
        if name == "setdefault":
            return Model(self.put, "setdefault")  # a name stands for one type
        raise Unsupported(f"attribute {name} of the types in use")

    def mention(self, decl: Any, t: Any) -> None:
        if not interp.effect(self, "mention", decl, t):
            self.ways.append(("one", "mention", (decl, t)))

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        for p, ops in paths:
            for op, args in ops:
                self.ways.append(("each", op, args, as_int(count), i0, p))

    def arbitrary(self) -> tuple:
        "An arbitrary way in which a name has been taken note of, and the index at which it has."
        if not self.ways:
            goal(z3.BoolVal(True), "nothing is taken note of")
            raise core.Infeasible()
        w = branch(self.ways)
        if w[0] == "one":
            return w[1], w[2], None
        _, op, args, n, i0, p = w
        j = z3.Const(ctx().name("used_at"), INT)
        ctx().assume(z3.And(j >= 0, j < n))
        ctx().add_index(j)
        for f in list(p.conds) + list(p.facts):
            ctx().assume(core.substitute(f, (i0, j)))
        return op, tuple(a if callable(a) or isinstance(a, z3.FuncDeclRef) else seqs.subst(a, [(i0, j)]) for a in args), j

    def includes(self, n: Any, j: Any) -> Any:
        "Whether a name has been taken note of; an index at which it may have been is known."
        def uses(op: str, args: tuple) -> Any:
            return args[0] == n if op == "put" else args[0](args[1], n)

        out = []
        for w in self.ways:
            if w[0] == "one":
                out.append(uses(w[1], w[2]))
                continue
            _, op, args, count, i0, p = w
            for k in (j, z3.IntVal(0)):
                if k is not None:
                    a = tuple(x if isinstance(x, z3.FuncDeclRef) else seqs.subst(x, [(i0, k)]) for x in args)
                    ctx().add_index(k)
                    out.append(z3.And(k >= 0, k < count, *[core.substitute(f, (i0, k)) for f in p.conds], uses(op, a)))
        return z3.Or(*out)


def leaves(value: Any, k: Any) -> Any:
    """
    The types and names that a schema refers to.  If an index is given, all those at this index (or the first) of sequences;
    otherwise, an arbitrary one.
    """
    if isinstance(value, AbsSchema):
        return [(value, None)]
    out: list = []

    def items(q: Any, of_pairs: bool) -> list:
        r = []
        if q.concrete() is not None:
            js = list(range(len(q.concrete())))
            if k is None:
                if not js:
                    return []
                js = [branch(js)]
            return [((q.at(j)[1] if of_pairs else q.at(j)), z3.IntVal(j)) for j in js]
        if k is None:
            j = z3.Const(ctx().name("part_at"), INT)
            ctx().assume(z3.And(j >= 0, j < as_int(q.n)))
            js = [j]
        else:
            js = [j for j in k if fork(z3.And(j >= 0, j < as_int(q.n)))]
        for j in js:
            ctx().add_index(j)
            x = interp.resolve(q.at(j))
            if x is seqs.ABSENT:
                continue
            r.append((x[1] if of_pairs else x, j))
        return r

    def deeper(value: Any, j: Any) -> list:
        return [(leaf, j if i is None else i) for leaf, i in leaves(value, k)]

    parts: list = []
    if isinstance(value, PDict):
        for s in value.segs:
            if s[0] == "put":
                if not isinstance(s[1], str) and not isinstance(s[1], SStr):
                    raise Unsupported("key of a schema")
                if s[1] == "$ref" if isinstance(s[1], str) else False:
                    parts.append(lambda s=s: [(s[2], None)])
                else:
                    parts.append(lambda s=s: deeper(s[2], None))
            elif s[0] == "seq":
                parts.append(lambda s=s: [y for x, j in items(s[1], True) for y in deeper(x, j)])
            else:
                raise Unsupported("part of a schema")
    elif isinstance(value, PList) and any(s[0] == "filter" for s in value.segs):
        for s in value.segs:
            if s[0] == "item":
                parts.append(lambda s=s: deeper(s[1], None))
            else:
                parts.append(lambda s=s: [y for x, j in items(s[1], False) for y in deeper(x, j)])
    elif isinstance(value, (PList, STuple)) or type(value) in (list, tuple):
        q = interp.to_seq(value)
        parts.append(lambda: [y for x, j in items(q, False) for y in deeper(x, j)])
    elif value is None or isinstance(value, (bool, int, float, str, SInt, SStr, SBool, SV)) or interp.is_plain(value):
        return []
    else:
        raise Unsupported(f"part of a schema: {type(value).__name__}")
    if k is None:
        if not parts:
            return []
        return branch(parts)()
    for p in parts:
        out.extend(p())
    return out


def name_in(leaf: Any, path: str) -> Any:
    "Name in a reference."
    if isinstance(leaf, SStr) and leaf.pieces and leaf.pieces[0] == path and len(leaf.pieces) == 2:
        return leaf.pieces[1]
    if isinstance(leaf, str) and leaf.startswith(path):
        return interp.str_term(leaf[len(path):])
    refuted("a reference is not to a definition", False)


def mentions(leaf: Any, n: Any, path: str) -> Any:
    if isinstance(leaf, AbsSchema):
        return (refers_expanded if leaf.expanded else refers)(leaf.ty, n)
    return name_in(leaf, path) == n


def generator_with(uses: Uses) -> Any:
    schema_contracts()
    opaque = CONTRACTS[SC.JsonSchemaGenerator.type_to_schema]

    def type_to_schema(self: Any, data_type: Any, force_expand: Any = False) -> Any:
        if not isinstance(data_type, TyOpaque):
            return NotImplemented
        e = interp.truth(force_expand)
        uses.mention(refers_expanded if e else refers, data_type.t)
        return AbsSchema(data_type.t, None, e)

    CONTRACTS[SC.JsonSchemaGenerator.type_to_schema] = type_to_schema
    g = call(SC.JsonSchemaGenerator, [], {})
    g.attrs["types_used"] = uses
    return g


def refers_to_what_it_uses(make: Callable, what: str, described: bool = True) -> None:
    "What the schema refers to is taken note of, and nothing else."
    uses = Uses()
    g = generator_with(uses)
    if not described:
        # descriptions and default values make no references (see C10 and C11 for what is made of them)
        CONTRACTS[SC.get_class_property_docstrings] = CONTRACTS[inspect.getmembers] = lambda *args: PDict()
        CONTRACTS[SC.docstring_to_schema] = lambda typ: PDict()
    path = g.attrs["options"].attrs["definitions_path"]
    r = outcome(lambda: make(g))
    if r.exc is not None:
        if r.exc.cls not in (TypeError, ValueError):
            refuted(f"{what}: ends in {r.exc.cls}")
        return
    n = z3.Const("name", STR)
    if branch((False, True)):
        got = leaves(r.value, None)
        if not got:
            goal(z3.BoolVal(True), "nothing is referred to")
            return
        ((leaf, j),) = got
        require(mentions(leaf, n, path))
        goal(uses.includes(n, j), f"{what}: what is referred to is taken note of")
    else:
        op, args, j = uses.arbitrary()
        require(args[0] == n if op == "put" else args[0](args[1], n))
        k = [z3.IntVal(0)] if j is None else [j, z3.IntVal(0)]
        goal(z3.Or(*[mentions(leaf, n, path) for leaf, _ in leaves(r.value, k)]), f"{what}: nothing else is taken note of")


def of_type(typ: Any, expand: bool = False) -> Callable:
    return lambda g: call(getattr_(g, "type_to_schema"), [typ], {"force_expand": expand})


def several_types() -> Any:
    ts = any_types()
    require(as_int(ts.pl.length()) >= 1)
    return ts


def optional_type() -> Any:
    return TyGen(typing.Union, branch([(type(None), any_type()), (any_type(), type(None))]), branch([False, True]))


SHAPES: dict = {
    "list[T]": lambda: TyGen(list, (any_type(),)),
    "set[T]": lambda: TyGen(set, (any_type(),)),
    "tuple[...]": lambda: TyGen(tuple, any_types()),
    "dict[str, T]": lambda: TyGen(dict, (branch((str, int)), any_type())),
    "dict[enumeration, T]": lambda: TyGen(dict, (registered_enum(), any_type())),
    "union": lambda: TyGen(typing.Union, several_types(), branch((False, True))),
    "optional type": optional_type,
    "literal": lambda: TyGen(typing.Literal, literal_values(branch(("int", "str", "bool")))),
    "type[T]": lambda: TyGen(type, (any_type(),)),
}


def nonempty_enum() -> Any:
    e = any_enum()
    require(e.traits["values"].n >= 1)
    return e


def registered_enum() -> Any:
    "An enumeration that is used for keys, which may be registered; no reference to it is made."
    e = nonempty_enum()
    if branch((False, True)):
        registered(e, the_name())
    return e


for _n, _f in SHAPES.items():

    @obligation("C12", f"what the schema of a {_n} refers to is in use, and nothing else", "schema.JsonSchemaGenerator.type_to_schema")
    def _(n: str = _n, f: Callable = _f) -> None:
        refers_to_what_it_uses(lambda g: of_type(f())(g), n)


for _kind, _frozen, _name in (("dataclass", False, "data class"), ("dataclass", True, "frozen data class"), ("namedtuple", False, "named tuple"), ("plain", False, "annotated class")):
    for _post in (False, True):

        @obligation("C12", f"what the schema of a {_name}{' with postponed annotations' if _post else ''} refers to is in use, and nothing else", "schema.JsonSchemaGenerator.type_to_schema", timeout=120)
        def _(kind: str = _kind, frozen: bool = _frozen, post: bool = _post) -> None:
            class_contracts()
            cls = any_class_type(kind, frozen=frozen, postponed=post)
            if kind == "plain":
                require(cls.traits["members"].n >= 1)
            refers_to_what_it_uses(of_type(cls), "class", described=False)


import typing  # noqa: E402



class Entry(Sym):
    "An entry of the catalog."

    def __init__(self, identifier: Any, schema: Any = None, examples: Any = None):
        self.identifier, self.schema, self.examples = identifier, schema, examples

    def vc_getattr(self, name: str) -> Any:
        if name in ("identifier", "schema", "examples"):
            return getattr(self, name)
        raise Unsupported(f"attribute {name} of a catalog entry")


REFERENCE = typing.ForwardRef("Name")  # what its name is shows only in what `type_from_ref`, `id_from_ref` and the catalog say


def the_name(n: str = "identifier") -> Any:
    return SStr([z3.Const(n, STR)])


def refers_to(schema: Any, g: Any, name: Any) -> None:
    ref = call(spec_reference, [g.attrs["options"].attrs["definitions_path"], name], {})
    same_value(schema, ref, "reference")


def spec_reference(path, name):
    return {"$ref": path + name}


def same_type(x: Any, y: Any, what: str) -> None:
    goal(x is y or (isinstance(x, TyOpaque) and isinstance(y, TyOpaque) and x.t == y.t), what)


def uses_exactly(uses: Uses, name: Any, typ: Any) -> None:
    "One name has been taken note of, and it stands for this type."
    if len(uses.ways) != 1 or uses.ways[0][:2] != ("one", "put"):
        refuted("other names are taken note of")
    n, t = uses.ways[0][2]
    goal(n == interp.str_term(name), "the name in the reference is taken note of")
    same_type(t, typ, "it stands for the type that is referred to")


def registered(typ: Any, name: Any, found: Any = None) -> None:
    "A type is in the catalog under this name (a forward reference is if the type that it refers to is)."
    CONTRACTS[SC.TypeCatalog.__contains__] = lambda self, x: x is typ
    CONTRACTS[SC.TypeCatalog.get] = lambda self, x: Entry(name) if x is typ else interp.raise_py(KeyError)
    CONTRACTS[SC.TypeCatalog.find] = lambda self, identifier: found if branch_same(identifier, name) else None


def branch_same(x: Any, y: Any) -> bool:
    return fork(interp.str_term(x) == interp.str_term(y))


@obligation("C12", "a registered type is referred to by its name, and the name is in use for this type", "schema.JsonSchemaGenerator.type_to_schema")
def _() -> None:
    class_contracts()
    uses, name = Uses(), the_name()
    g = generator_with(uses)
    make: dict = {
        "class": lambda: any_class_type("dataclass"),
        "enumeration": any_enum,
        "union": lambda: TyGen(typing.Union, several_types(), False),
        "list": lambda: TyGen(list, (any_type(),)),
        "annotated": lambda: TyAnn(TyGen(list, (any_type(),)), (SObj(None, z3.Const("annotation", core.Ob)),)),
    }
    typ = make[branch(tuple(make))]()
    registered(typ, name)
    schema = of_type(typ)(g)
    refers_to(schema, g, name)
    uses_exactly(uses, name, typ)


@obligation("C12", "a forward reference to a registered type is a reference to its definition, and the name is in use for this type", "schema.JsonSchemaGenerator.type_to_schema")
def _() -> None:
    uses, name, typ = Uses(), the_name(), any_type()
    g = generator_with(uses)
    registered(REFERENCE, name, typ)
    refers_to(of_type(REFERENCE)(g), g, name)
    uses_exactly(uses, name, typ)


@obligation("C12", "a forward reference to a type that can be resolved is a reference to its definition, and the name is in use for this type", ["schema.JsonSchemaGenerator.type_to_schema", "schema.type_from_ref"])
def _() -> None:
    uses, name, typ = Uses(), the_name(), any_type()
    g = generator_with(uses)
    CONTRACTS[SC.TypeCatalog.__contains__] = lambda self, x: False
    CONTRACTS[SC.type_from_ref] = lambda ref: (name, typ)
    ref = branch((REFERENCE, "Name"))
    refers_to(of_type(ref)(g), g, name)
    uses_exactly(uses, name, typ)


@obligation("C12", "a reference by name to a registered type that is not in scope is a reference to its definition", ["schema.JsonSchemaGenerator.type_to_schema", "schema.id_from_ref"])
def _() -> None:
    uses, name, typ = Uses(), the_name(), any_type()
    g = generator_with(uses)
    CONTRACTS[SC.TypeCatalog.__contains__] = lambda self, x: False
    CONTRACTS[SC.type_from_ref] = lambda ref: interp.raise_py(NameError)
    CONTRACTS[SC.id_from_ref] = lambda ref: name
    CONTRACTS[SC.TypeCatalog.find] = lambda self, identifier: typ if branch_same(identifier, name) else None
    ref = branch((REFERENCE, "Name"))
    refers_to(of_type(ref)(g), g, name)
    uses_exactly(uses, name, typ)


@obligation("C12", "a reference that is expanded is the schema of the type that it refers to", "schema.JsonSchemaGenerator.type_to_schema")
def _() -> None:
    name, typ = the_name(), any_type()
    CONTRACTS[SC.TypeCatalog.__contains__] = lambda self, x: branch((False, True))
    CONTRACTS[SC.type_from_ref] = lambda ref: (name, typ)
    ref = branch((REFERENCE, "Name"))

    def make(g: Any) -> Any:
        r = of_type(ref, True)(g)
        same_value(r, AbsSchema(typ.t, None, True), "schema of the type")
        return r

    refers_to_what_it_uses(make, "expanded reference")


# ---------------------------------------------------------------- definitions, and the catalog of registered types

import copy  # noqa: E402


class Definition(AbsSchema):
    "The schema that describes a type, to which a description and examples may be added."

    def vc_setitem(self, key: Any, value: Any) -> None:
        if key not in ("title", "description", "examples"):
            refuted(f"a definition is given the keyword {key}")
        interp.setitem(self.extra, key, value)

    def vc_getattr(self, name: str) -> Any:
        if name == "update":
            return Model(self.update, "update")
        raise Unsupported(f"{name} of a schema")

    def update(self, other: Any) -> None:
        for s in other.segs:
            self.vc_setitem(s[1], s[2])


class Registered(Sym):
    "A schema that a user has registered."

    def vc_getattr(self, name: str) -> Any:
        if name in ("update", "pop", "setdefault", "clear", "popitem"):
            return Model(lambda *a, **k: refuted("a registered schema is modified"), name)
        if name == "copy":
            return Model(self.vc_dict, "copy")
        raise Unsupported(f"{name} of a registered schema")

    def vc_setitem(self, key: Any, value: Any) -> None:
        refuted("a registered schema is modified")

    def vc_delitem(self, key: Any) -> None:
        refuted("a registered schema is modified")

    def vc_truth(self) -> bool:
        return branch((True, False))

    def vc_dict(self) -> Any:
        return Copied()


class Copied(Definition):
    "A copy of a registered schema."

    def __init__(self, extra: Any = None) -> None:
        super().__init__(None, extra)

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Copied(go(self.extra))


def definition_from(entry: Entry, typ: Any, uses: Uses) -> Any:
    g = generator_with(uses)

    def type_to_schema(self: Any, data_type: Any, force_expand: Any = False) -> Any:
        if data_type is not typ:
            return NotImplemented
        e = interp.truth(force_expand)
        uses.mention(refers_expanded if e else refers, term_of(typ))
        return Definition(term_of(typ), None, e)

    CONTRACTS[SC.JsonSchemaGenerator.type_to_schema] = type_to_schema
    CONTRACTS[SC.TypeCatalog.get] = lambda self, x: entry if x is typ else interp.raise_py(KeyError)
    CONTRACTS[copy.deepcopy] = lambda x, memo=None: Copied() if isinstance(x, Registered) else NotImplemented
    g.attrs["options"].attrs["use_descriptions"] = branch((False, True))
    g.attrs["options"].attrs["use_examples"] = branch((False, True))
    return call(getattr_(g, "_type_to_schema_with_lookup"), [typ], {})


THE_CLASS = z3.Const("the_class", Ty)


def term_of(typ: Any) -> Any:
    return typ.t if isinstance(typ, TyOpaque) else THE_CLASS


def any_registered() -> Any:
    if branch((False, True)):
        return any_type()
    class_contracts()
    return any_class_type("dataclass")


@obligation("C12", "the definition of a registered type is the schema that describes it, and the catalog stays as it is", "schema.JsonSchemaGenerator._type_to_schema_with_lookup")
def _() -> None:
    typ, uses = any_registered(), Uses()
    given = branch((False, True))
    examples = branch((None, "some"))
    if examples is not None:
        examples = PList.of([SV(z3.Const("example", V))])
        examples.protected = lambda y: refuted("the registered examples are modified", definite=False)  # type: ignore
    o = outcome(lambda: definition_from(Entry(the_name(), Registered() if given else None, examples), typ, uses))
    if o.exc is not None:
        refuted(f"ends in {o.exc.cls}")
    if given:
        if not isinstance(o.value, Copied):
            refuted("the definition is not the registered schema")
        if uses.ways:
            refuted("types are taken note of that a registered schema does not refer to")
        return
    if not isinstance(o.value, Definition) or isinstance(o.value, Copied):
        refuted("the definition is not the schema of the type")
    goal(z3.And(o.value.ty == term_of(typ), o.value.expanded), "the definition describes the type")
    if len(uses.ways) != 1:
        refuted("types are taken note of that the definition does not refer to")
    decl, t = uses.ways[0][2]
    goal(z3.And(decl is refers_expanded, t == term_of(typ)), "what the definition refers to is in use")


class TypeTable(Sym):
    "A table of the catalog: has(key) and entry(key)."

    def __init__(self, name: str, sort: Any):
        self.name = name
        self.has0, self.entry0 = z3.Function(f"{name}_has", sort, BOOL), z3.Function(f"{name}_entry", sort, OB)
        self.at, self.ix, self.n = z3.Function(f"{name}_at", INT, sort), z3.Function(f"{name}_ix", sort, INT), z3.Const(f"{name}_n", INT)
        self.puts: list = []

    def key(self, k: Any) -> Any:
        if isinstance(k, TyOpaque) and self.name == "types":
            return k.t
        if isinstance(k, (str, SStr)) and self.name == "names":
            return interp.str_term(k)
        raise Unsupported("key of a table of the catalog")

    def has(self, k: Any) -> Any:
        t = self.key(k)
        ctx().axiom(("has", self.name, t), lambda: z3.And(self.n >= 0, z3.Implies(self.has0(t), z3.And(self.ix(t) >= 0, self.ix(t) < self.n, self.at(self.ix(t)) == t))))
        ctx().add_index(self.ix(t))
        if self.puts:
            raise Unsupported("a table is read after it has been changed")
        return self.has0(t)

    def vc_contains(self, k: Any) -> Any:
        return self.has(k)

    def vc_getattr(self, name: str) -> Any:
        if name == "get":
            return Model(self.get, "get")
        if name == "items":
            return Model(lambda: FnSeq(self.n, self.item), "items")
        if name in ("pop", "clear", "update", "setdefault"):
            raise Unsupported("change of the catalog")
        return NotImplemented

    def item(self, j: Any) -> Any:
        x = self.at(as_int(j))
        ctx().axiom(("at", self.name, x), lambda: z3.And(self.has0(x), self.ix(x) == as_int(j)))
        return (TyOpaque(x), EntryOf(self.entry0(x)))

    def get(self, k: Any, default: Any = None) -> Any:
        return EntryOf(self.entry0(self.key(k))) if fork(self.has(k)) else default

    def vc_getitem(self, k: Any) -> Any:
        r = self.get(k)
        if r is None:
            interp.raise_py(KeyError)
        return r

    def vc_setitem(self, k: Any, v: Any) -> None:
        self.puts.append((self.key(k), v))

    def vc_delitem(self, k: Any) -> None:
        refuted("a type is removed from the catalog")


class EntryOf(Sym):
    def __init__(self, t: Any):
        self.t = t

    def vc_is(self, other: Any) -> Any:
        return self.t == other.t if isinstance(other, EntryOf) else False

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return EntryOf(core.substitute(self.t, *pairs))

    def vc_same(self, other: Any, what: str) -> None:
        if not isinstance(other, EntryOf):
            refuted(what)
        goal(self.t == other.t, what)


def catalog() -> tuple:
    "A catalog in which each entry that is found by name is the one of a type."
    c = call(SC.TypeCatalog, [], {})
    if sorted(c.attrs) != ["_by_name", "_by_type"]:
        raise Unsupported("tables of the catalog")
    types, names = TypeTable("types", Ty), TypeTable("names", STR)
    c.attrs.update(_by_type=types, _by_name=names)
    return c, types, names


@obligation("C12", "a type is added to the catalog once, by type and by name; what is refused has no effect", "schema.TypeCatalog.add")
def _() -> None:
    c, types, names = catalog()
    typ, name = branch((any_type(), REFERENCE)), the_name()
    schema, examples = branch((None, Registered())), branch((None, SV(z3.Const("examples", V))))
    known = typ is not REFERENCE and fork(types.has(typ))
    args = [typ, schema, name] + ([examples] if examples is not None else [])
    o = outcome(lambda: call(getattr_(c, "add"), args, {}))
    if c.attrs["_by_type"] is not types or c.attrs["_by_name"] is not names:
        raise Unsupported("tables of the catalog")
    if o.exc is not None or known or typ is REFERENCE:
        if types.puts or names.puts:
            refuted("what is refused changes the catalog")
        if not known and typ is not REFERENCE:
            refuted("a type that is not registered is refused")
        if o.exc is None or o.exc.cls is not (ValueError if known else TypeError):
            refuted("what is to be refused is not")
        goal(z3.BoolVal(True), "refused without effect")
        return
    if len(types.puts) != 1 or len(names.puts) != 1:
        refuted("the type is added to one table only", False)
    (t, e), (n, e2) = types.puts[0], names.puts[0]
    goal(t == typ.t, "the type is added")
    goal(n == interp.str_term(name), "it is added by its name")
    if e is not e2 or not isinstance(e, interp.Obj):
        refuted("different entries by type and by name", False)
    same_value(getattr_(e, "identifier"), name, "name in the entry")
    if getattr_(e, "schema") is not schema or getattr_(e, "examples") is not examples:
        refuted("schema or examples are not those registered", False)


@obligation("C12", "the catalog finds a type by itself, and by its name for a forward reference", ["schema.TypeCatalog.__contains__", "schema.TypeCatalog.get"])
def _() -> None:
    c, types, names = catalog()
    typ = branch((any_type(), REFERENCE))
    table, key = (names, REFERENCE.__forward_arg__) if typ is REFERENCE else (types, typ)
    known = fork(table.has(key))
    same_value(call(getattr_(c, "__contains__"), [typ], {}), known, "whether a type is registered")
    o = outcome(lambda: call(getattr_(c, "get"), [typ], {}))
    if not known:
        if o.exc is None:
            refuted("a type that is not registered is found")
        return
    if o.exc is not None:
        refuted("a registered type is not found")
    same_value(o.value, EntryOf(table.entry0(table.key(key))), "entry of the type")


@obligation("C12", "the catalog finds the type that was registered under a name", "schema.TypeCatalog.find")
def _() -> None:
    c, types, names = catalog()
    name, typ = the_name(), any_type()
    n = interp.str_term(name)
    known = fork(names.has(name))
    if known:
        # `add` puts each entry in both tables
        require(z3.And(types.has(typ), types.entry0(typ.t) == names.entry0(n)))
    o = outcome(lambda: call(getattr_(c, "find"), [name], {}))
    if o.exc is not None:
        refuted(f"ends in {o.exc.cls}")
    if not known:
        if o.value is not None:
            refuted("a name that is not registered is found")
        goal(z3.BoolVal(True), "not found")
        return
    if o.value is None:
        refuted("a registered name is not found", False)
    goal(types.entry0(o.value.t) == names.entry0(n), "the type is registered under this name")


@obligation("C12", "registering a type adds it to the catalog under the name given or the name of the type", ["schema.register_schema", "schema.json_schema_type"])
def _() -> None:
    typ, name, own = any_type(), branch((None, the_name())), the_name("name_of_type")
    schema, examples = branch((None, Registered())), branch((None, SV(z3.Const("examples", V))))
    added: list = []

    def add(self: Any, data_type: Any, schema: Any, identifier: Any, examples: Any = None) -> None:
        if fork(z3.Const("registered_before", BOOL)):
            interp.raise_py(ValueError)
        added.append((data_type, schema, identifier, examples))

    CONTRACTS[SC.TypeCatalog.add] = add
    CONTRACTS[SC.python_type_to_name] = lambda t, *a, **k: own if t is typ else NotImplemented
    how = branch(("register_schema", "decorator", "decorator with arguments"))
    if how == "register_schema":
        o = outcome(lambda: call(SC.register_schema, [typ, schema, name, examples], {}))
    elif how == "decorator":
        name = schema = examples = None
        o = outcome(lambda: call(SC.json_schema_type, [typ], {}))
    else:
        name = None
        o = outcome(lambda: call(call(SC.json_schema_type, [], {"schema": schema, "examples": examples}), [typ], {}))
    if o.exc is not None:
        if o.exc.cls is not ValueError or added:
            refuted("registration fails otherwise")
        return
    same_type(o.value, typ, "the type is returned")
    if len(added) != 1:
        refuted("not registered exactly once")
    t, s, n, e = added[0]
    same_type(t, typ, "the type is registered")
    same_value(n, own if name is None else name, "name")
    if s is not schema or e is not examples:
        refuted("schema or examples are not those given")


# ---------------------------------------------------------------- the document

META_ID = {v: v.value.META_SCHEMA["$id"] for v in SC.Validator}
STANDARD = {
    SC.Validator.Draft7: "http://json-schema.org/draft-07/schema#",
    SC.Validator.Draft201909: "https://json-schema.org/draft/2019-09/schema",
    SC.Validator.Draft202012: "https://json-schema.org/draft/2020-12/schema",
    SC.Validator.Latest: "https://json-schema.org/draft/2020-12/schema",
}


def spec_document(standard, definitions, keyword, value):
    "Document for a type whose schema has an (arbitrary) keyword."
    doc = {"$schema": standard}
    if len(definitions) > 0:
        doc["definitions"] = definitions
    doc[keyword] = value
    return doc


@obligation("C12", "a document names the standard, contains the definitions, and conforms to the standard", "schema.classdef_to_schema")
def _() -> None:
    typ = any_type()
    validator = branch((None,) + tuple(SC.Validator.__members__))
    CONTRACTS[SC.is_type_like] = lambda x: SBool(z3.Const("is_type_like", BOOL))
    keyword = z3.Const("keyword", STR)
    ctx().add_fact(z3.And(*[keyword != interp.str_term(k) for k in ("definitions", "$schema")]))
    key, value = SStr([keyword]), SV(z3.Const("value", V))
    n, f, g = z3.Const("definitions", INT), z3.Function("defined_name", INT, STR), z3.Function("definition", INT, V)
    ctx().add_fact(n >= 0)
    q = FnSeq(n, lambda j: (SStr([f(as_int(j))]), SV(g(as_int(j)))))
    fails = z3.Const("generator_fails", BOOL)

    def generate(self: Any, data_type: Any, force_expand: Any = False) -> Any:
        if data_type is not typ or interp.truth(force_expand):
            refuted("the document is of another type")
        if fork(fails):
            interp.raise_py(ValueError)
        return (PDict([("put", key, value)]), PDict([("seq", q)]))

    CONTRACTS[SC.JsonSchemaGenerator.classdef_to_schema] = generate
    checked: list = []
    conforms_ = z3.Const("conforms", BOOL)

    def check(cls: Any) -> Any:
        def check_schema(schema: Any, *args: Any, **kw: Any) -> None:
            checked.append((cls, seqs.subst(schema, []) if not isinstance(schema, PDict) else PDict(list(schema.segs))))
            if not fork(conforms_):
                interp.raise_py(SC.jsonschema.exceptions.SchemaError)

        return check_schema

    for v in set(SC.Validator):
        CONTRACTS[v.value.check_schema.__func__] = lambda cls, *a, **k: check(cls)(*a, **k)
    o = outcome(lambda: call(SC.classdef_to_schema, [typ] + ([] if validator is None else [None, SC.Validator[validator]]), {}))
    standard = SC.Validator[validator or "Latest"]
    if not fork(z3.Const("is_type_like", BOOL)):
        if o.exc is None or o.exc.cls is not TypeError:
            refuted("what is not a type has a document")
        return
    if fork(fails):
        if o.exc is None or o.exc.cls is not ValueError:
            refuted("a failure is not reported")
        return
    if len(checked) != 1 or checked[0][0] is not standard.value:
        refuted("the document is not checked against the standard", False)
    if not fork(conforms_):
        if o.exc is None or o.exc.cls is not TypeError:
            refuted("a document that does not conform is returned")
        return
    if o.exc is not None:
        refuted(f"ends in {o.exc.cls}")
    expected = call(spec_document, [STANDARD[standard], PDict([("seq", q)]), key, value], {})
    same_value(o.value, expected, "document")
    # the name of the standard aside, this is what has been checked
    without = PDict([("put", "$schema", STANDARD[standard])] + [s for s in checked[0][1].segs if s[:2] != ("put", "$schema")])
    same_value(without, expected, "document that is checked")


SIMPLE: tuple = (type(None), bool, int, float, str, bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, decimal.Decimal, uuid.UUID, typing.Any, SC.JsonObject, SC.JsonArray)


@obligation("C12", "the schema of a basic type refers to nothing, also if it is annotated", ["schema.JsonSchemaGenerator._simple_type_to_schema", "schema.JsonSchemaGenerator._with_metadata"])
def _() -> None:
    typ = branch(SIMPLE)
    if typ in (int, str) and branch((False, True)):
        bound = SInt(z3.Const("bound", INT))
        meta = call(A.IntegerRange, [bound, bound], {}) if typ is int else call(branch((A.MinLength, A.MaxLength)), [bound], {})
        typ = TyAnn(typ, (meta,))
    refers_to_what_it_uses(of_type(typ), "basic type")


@obligation("C12", "what the schema of an annotated type refers to is in use, and nothing else", "schema.JsonSchemaGenerator.type_to_schema")
def _() -> None:
    meta = SObj(None, z3.Const("annotation", core.Ob))
    inner = branch((TyGen(list, (any_type(),)), TyGen(dict, (str, any_type())), TyGen(typing.Union, (any_type("A"), any_type("B")), False)))
    refers_to_what_it_uses(of_type(TyAnn(inner, (meta,))), "annotated type")


@obligation("C12", "the schema of an enumeration refers to nothing", "schema.JsonSchemaGenerator.type_to_schema")
def _() -> None:
    class_contracts()
    refers_to_what_it_uses(of_type(any_enum("E", (branch(("int", "str", "bool")),))), "enumeration")


@obligation("C12", "a registered type that is expanded is not a reference to itself", "schema.JsonSchemaGenerator.type_to_schema")
def _() -> None:
    t = any_type()
    typ = TyGen(list, (t,))

    def make(g: Any) -> Any:
        registered(typ, the_name())
        r = of_type(typ, True)(g)
        same_value(r, call(spec_list, [AbsSchema(t.t)], {}), "schema of the list")
        return r

    refers_to_what_it_uses(make, "expanded type")


def spec_list(items):
    return {"type": "array", "items": items}

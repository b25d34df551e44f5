"""
C14: topological sorting.

The graph is arbitrary: any number of nodes, each with any number of adjacent nodes, all of which are nodes.  The two
loops and the recursive function are verified with an invariant over the two containers that they share (which node has
which mark, and the list of nodes that are done), by contract:

- invariant: a node has a mark only if it is a node of the graph; a node is in the list (exactly once) if and only if its
  mark is permanent; for each edge from x to y (other than x to x) where the mark of x is permanent, the mark of y is
  permanent and y comes before x in the list;
- the recursive function, called on node n when each node with a temporary mark has a path to n: if it returns, the
  invariant holds, the mark of n is permanent, no permanent mark is lost, and the same nodes as before have a temporary
  mark; if it raises, it raises RuntimeError and there is a path of edges between different nodes from some node to itself;
- each loop maintains, in addition, that the nodes that it has visited have permanent marks.

Paths are represented by an arbitrary transitive relation that includes all edges between different nodes; what holds for
each such relation holds for the least one.
"""

from .loops import *  # noqa: F401,F403
from .loops import Theory, invariant
import strong_typing.topological as T  # noqa: E402

from pyvc.interp import Closure  # noqa: E402

OB = core.Ob
is_node = z3.Function("is_node", OB, BOOL)
key_at = z3.Function("key_at", INT, OB)
key_ix = z3.Function("key_ix", OB, INT)
n_keys = z3.Const("n_keys", INT)
edge = z3.Function("edge", OB, OB, BOOL)
adj_at = z3.Function("adj_at", OB, INT, OB)
adj_ix = z3.Function("adj_ix", OB, OB, INT)
adj_n = z3.Function("adj_n", OB, INT)
path = z3.Function("path", OB, OB, BOOL)


def g1(x: Any) -> list:
    "What is known about the graph, for any node."
    return [n_keys >= 0, adj_n(x) >= 0, z3.Implies(is_node(x), z3.And(key_ix(x) >= 0, key_ix(x) < n_keys, key_at(key_ix(x)) == x))]


def g2(x: Any, y: Any) -> list:
    i = adj_ix(x, y)
    return [
        z3.Implies(edge(x, y), z3.And(is_node(x), is_node(y), i >= 0, i < adj_n(x), adj_at(x, i) == y)),
        z3.Implies(z3.And(edge(x, y), x != y), path(x, y)),
    ]


def g3(x: Any, y: Any, z: Any) -> list:
    return [z3.Implies(z3.And(path(x, y), path(y, z)), path(x, z))]


class State:
    "The marks and the list at a moment, as functions of a node."

    def __init__(self, seen: PDict, ordered: PList):
        self.dsegs, self.lsegs = list(seen.segs), list(ordered.segs)

    def mark(self, x: Any) -> Any:
        "0: none, 1: temporary, 2: permanent"
        m: Any = z3.IntVal(0)
        k = V.obj(x)
        for s in self.dsegs:
            if s[0] == "handle":
                v = core.dict_get(s[1], k)
                m = z3.If(core.dict_has(s[1], k), z3.If(V.b(v), 2, 1), m)
            elif s[0] == "put":
                if not isinstance(s[2], (bool, SBool)) or not isinstance(s[1], (SObj, SV)):
                    raise Unsupported("marks")
                b = z3.BoolVal(s[2]) if isinstance(s[2], bool) else s[2].t
                m = z3.If(to_V(s[1]) == k, z3.If(b, 2, 1), m)
            else:
                raise Unsupported("marks")
        return m

    def parts(self) -> Any:
        "Yields (contains, position) for each part of the list."
        off: Any = z3.IntVal(0)
        for k, s in self.lsegs:
            if k == "seq" and isinstance(s, OrderSeq):
                yield (lambda x, s=s: s.mem(x), lambda x, s=s, off=off: off + s.pos(x), None)
                off = off + s.n
            elif k == "item" and isinstance(s, SObj):
                yield (lambda x, s=s: s.t == x, lambda x, off=off: off, s.t)
                off = off + 1
            else:
                raise Unsupported("list of nodes")

    def listed(self, x: Any) -> Any:
        return z3.Or(*[c(x) for c, _, _ in self.parts()])

    def position(self, x: Any) -> Any:
        p: Any = z3.IntVal(-1)
        for c, q, _ in self.parts():
            p = z3.If(c(x), q(x), p)
        return p

    # -- invariant

    def invariant(self, x: Any, y: Any) -> list:
        m = self.mark
        return [
            ("marks are of nodes", z3.Implies(m(x) != 0, is_node(x))),
            ("a node is listed if and only if it is done", (m(x) == 2) == self.listed(x)),
            (
                "nodes come after all nodes they point to",
                z3.Implies(z3.And(m(x) == 2, edge(x, y), x != y), z3.And(m(y) == 2, self.position(y) < self.position(x))),
            ),
        ]

    def no_repetition(self) -> Any:
        "No node is listed twice."
        cs: list = []
        before: list = []
        for c, _, item in self.parts():
            if item is not None:
                cs.append(z3.Not(z3.Or(*[b(item) for b in before])))
            elif before:
                raise Unsupported("list of nodes")
            before.append(c)
        return z3.And(*cs)

    def facts(self, x: Any) -> list:
        fs: list = []
        for k, s in self.lsegs:
            if k == "seq":
                fs.append(z3.Implies(s.mem(x), z3.And(s.pos(x) >= 0, s.pos(x) < s.n, s.item(s.pos(x)) == x)))
        for s in self.dsegs:
            if s[0] == "handle":
                fs.append(z3.Implies(core.dict_has(s[1], V.obj(x)), V.is_bool(core.dict_get(s[1], V.obj(x)))))
        return fs


def monotone(a: State, b: State, x: Any) -> Any:
    return z3.And(z3.Implies(a.mark(x) == 2, b.mark(x) == 2), (a.mark(x) == 1) == (b.mark(x) == 1))


same_object = z3.Function("same_object", OB, OB, BOOL)
node_truth = z3.Function("node_truth", OB, BOOL)


class Node(SObj):
    "A node may be any hashable value, also None or one that is false; equal nodes need not be the same object."

    def __init__(self, t: Any):
        super().__init__(None, t)

    def vc_truth(self) -> Any:
        return core.fork(node_truth(self.t))

    def vc_is(self, other: Any) -> Any:
        if other is self:
            return True
        if other is None:
            return self.t == z3.Const("node_None", OB)
        if isinstance(other, Node):
            return z3.And(self.t == other.t, same_object(self.t, other.t))
        raise Unsupported("identity of a node")

    def vc_eq(self, other: Any) -> Any:
        if other is None:
            return self.vc_is(None)
        if isinstance(other, SObj):
            return self.t == other.t
        raise Unsupported("comparison of a node")

    def vc_isinstance(self, cls: Any) -> Any:
        raise Unsupported("class of a node")


class OrderSeq(seqs.Seq):
    "A list of nodes without repetition."

    def __init__(self, name: str):
        c = ctx()
        self.n = z3.Const(c.name("len"), INT)
        self.mem = z3.Function(c.name("listed"), OB, BOOL)
        self.pos = z3.Function(c.name("pos"), OB, INT)
        self.item = z3.Function(c.name("item"), INT, OB)
        c.add_fact(self.n >= 0)

    def at(self, j: Any) -> Any:
        t = self.item(as_int(j))
        ctx().add_fact(z3.Implies(z3.And(as_int(j) >= 0, as_int(j) < self.n), z3.And(self.mem(t), self.pos(t) == as_int(j))))
        SORT.know(t)
        return Node(t)


class Graph(Sym):
    def vc_getattr(self, name: str) -> Any:
        if name == "keys":
            return Model(lambda: Nodes(), "keys")
        if name == "items":
            return Model(lambda: Nodes(lambda x: (x, Adjacent(x.t))), "items")
        if name == "get":
            return Model(lambda n, d=None: self.vc_getitem(n) if self.vc_contains(n) is not False else d, "get")
        if name == "copy":
            return Model(lambda: self, "copy")
        raise Unsupported(f"attribute {name} of a graph")

    def vc_seq(self) -> Any:
        return Nodes().vc_seq()

    def vc_getitem(self, n: Any) -> Any:
        x = node_term(n)
        if not fork(is_node(x)):
            raise PyRaise(ExcVal(KeyError))
        return Adjacent(x)

    def vc_contains(self, n: Any) -> Any:
        x = node_term(n)
        if fork(is_node(x)):
            return True
        return False

    def vc_len(self) -> Any:
        return SInt(n_keys)


def node_term(n: Any) -> Any:
    if not isinstance(n, SObj):
        raise Unsupported("node")
    SORT.know(n.t)
    return n.t


class Nodes(Sym):
    def __init__(self, fn: Any = lambda x: x):
        self.fn = fn

    def vc_seq(self) -> Any:
        def at(j: Any) -> Any:
            j = as_int(j)
            t = key_at(j)
            ctx().add_fact(z3.Implies(z3.And(j >= 0, j < n_keys), z3.And(is_node(t), key_ix(t) == j)))
            SORT.know(t)
            return self.fn(Node(t))

        s = FnSeq(n_keys, at)
        s.loop = lambda cb: SORT.loop(cb, s, lambda y: is_node(y), key_ix)  # type: ignore
        return s


class Adjacent(Sym):
    def __init__(self, x: Any):
        self.x = x

    def vc_seq(self) -> Any:
        x = self.x

        def at(j: Any) -> Any:
            j = as_int(j)
            t = adj_at(x, j)
            ctx().add_fact(z3.Implies(z3.And(j >= 0, j < adj_n(x)), z3.And(edge(x, t), adj_ix(x, t) == j)))
            SORT.know(t)
            return Node(t)

        ctx().add_fact(adj_n(x) >= 0)
        s = FnSeq(adj_n(x), at)
        s.loop = lambda cb: SORT.loop(cb, s, lambda y: z3.And(edge(x, y), x != y), lambda y: adj_ix(x, y))  # type: ignore
        return s

    def vc_len(self) -> Any:
        return SInt(adj_n(self.x))

    def vc_contains(self, n: Any) -> Any:
        return SBool(edge(self.x, node_term(n)))


class Found(Exception):
    def __init__(self, fn: Any, args: list, kwargs: dict):
        self.fn, self.args, self.kwargs = fn, args, kwargs


def same_function(a: Any, b: Any) -> bool:
    return a is b or isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node and a.env is b.env


def containers(fn: Any, args: list, kwargs: dict) -> tuple:
    "The containers that a function has access to."
    vs = list(args) + list(kwargs.values())
    if isinstance(fn, Closure):
        import ast

        if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(fn.node)):
            raise Unsupported("assignment to a variable of an enclosing function")
        e: Any = fn.env
        while e is not None:
            vs += list(e.vars.values())
            e = e.parent
    out: list = []
    for v in vs:
        if isinstance(v, (PList, PDict, PSet)) and not any(v is x for x in out):
            out.append(v)
    ds = [x for x in out if isinstance(x, PDict)]
    ls = [x for x in out if isinstance(x, PList)]
    if len(out) != 2 or len(ds) != 1 or len(ls) != 1:
        raise Unsupported("state of the search")
    return ds[0], ls[0]


class Sort(Theory):
    "Verification of a depth-first search."

    def reset(self) -> None:
        super().reset()
        self.fn: Any = None
        self.state: Any = None
        self.stack: list = []
        self.discovering = False
        self.visiting: Any = None
        interp.CALL_HOOK = None

    def now(self) -> State:
        return State(*self.state)

    def havoc(self) -> State:
        "An arbitrary state that satisfies the invariant."
        seen, ordered = self.state
        seen.segs = [("handle", z3.Const(ctx().name("marks"), core.Hd), False)]
        seen.src = None
        ordered.segs = [("seq", OrderSeq("order"))]
        ordered.src = None
        s = self.now()
        self.given(1, s.facts)
        self.given(2, lambda x, y: [f for _, f in s.invariant(x, y)])
        return s

    def check_invariant(self, what: str) -> None:
        s = self.now()
        x, y = self.fresh("x"), self.fresh("y")
        self.settle()
        for name, f in s.invariant(x, y):
            invariant(f, f"{what}: {name}")
        invariant(s.no_repetition(), f"{what}: no node is listed twice")

    def check_monotone(self, a: State, what: str) -> None:
        x = self.fresh("x")
        self.settle()
        invariant(monotone(a, self.now(), x), f"{what}: marks are kept")

    def check_raised(self, ex: ExcVal, what: str) -> None:
        if ex.cls is None or not issubclass(ex.cls, RuntimeError):
            refuted(f"{what}: raises {ex}")
        # a cycle through one of the nodes that have come up
        self.settle()
        invariant(z3.Or(*[path(x, x) for x in self.known]), f"{what}: an error is raised only if there is a cycle")

    def or_cycle(self) -> None:
        "What has been verified to raise only if there is a cycle may have done so."
        if fork(z3.Const(ctx().name("raised"), BOOL)):
            c = self.fresh("c")
            ctx().add_fact(path(c, c))
            raise PyRaise(ExcVal(RuntimeError))

    # -- the recursive function

    def hook(self, fn: Any, args: list, kwargs: dict) -> Any:
        if same_function(fn, self.fn):
            return self.visit(fn, args, kwargs)
        return interp.call_function(fn, args, kwargs)

    def argument(self, args: list, kwargs: dict) -> Any:
        nodes = [x for x in args + list(kwargs.values()) if isinstance(x, SObj)]
        if len(nodes) != 1:
            raise Unsupported("arguments of the recursive function")
        return node_term(nodes[0])

    def visit(self, fn: Any, args: list, kwargs: dict) -> Any:
        "A call of the recursive function, by its contract."
        n = self.argument(args, kwargs)
        if containers(fn, args, kwargs)[0] is not self.state[0] or containers(fn, args, kwargs)[1] is not self.state[1]:
            raise Unsupported("state of the search")
        self.check_invariant("when a node is visited")
        before = self.now()
        t = self.fresh("t")
        self.settle()
        invariant(is_node(n), "a node that is visited is a node of the graph")
        invariant(z3.Implies(before.mark(t) == 1, path(t, n)), "nodes that are being visited have a path to the node that is visited next")
        if self.visiting is not None:
            m, entry = self.visiting
            x = self.fresh("x")
            self.settle()
            invariant(z3.And(entry.mark(m) == 0, before.mark(m) != 0), "each recursive call has fewer nodes left to visit")
            invariant(z3.Implies(before.mark(x) == 0, entry.mark(x) == 0), "no node becomes unvisited")
        self.or_cycle()
        after = self.havoc()
        self.given(1, lambda x: monotone(before, after, x))
        ctx().add_fact(after.mark(n) == 2)
        self.settle()
        return None

    def verify_visit(self, fn: Any, args: list, kwargs: dict) -> None:
        "The recursive function meets its contract."
        saved = [list(x.segs) for x in self.state]

        def run() -> None:
            try:
                before = self.havoc()
                n = self.fresh("n")
                a2 = [Node(n) if isinstance(x, SObj) else x for x in args]
                k2 = {k: Node(n) if isinstance(x, SObj) else x for k, x in kwargs.items()}
                ctx().assume(is_node(n))
                self.given(1, lambda t: z3.Implies(before.mark(t) == 1, path(t, n)))
                self.settle()
                self.visiting = (n, before)
                try:
                    r = interp.call_function(fn, a2, k2)
                except PyRaise as ex:
                    self.check_raised(ex.exc, "visiting a node")
                    return
                self.check_invariant("after a visit")
                self.check_monotone(before, "a visit")
                invariant(self.now().mark(n) == 2, "a node that has been visited is done")
                same_value(r, None, "result of a visit")
            finally:
                self.visiting = None

        self.explore(run)
        for x, s in zip(self.state, saved):
            x.segs = s

    # -- loops

    def loop(self, cb: Callable, s: seqs.Seq, member: Callable, index: Callable) -> bool:
        if self.discovering:
            self.once(cb, s)
            return True
        if self.fn is None:
            self.discover(cb, s)
        if self.fn is None:
            return False
        if ctx().recorder is not None:
            raise Unsupported("search within a loop")
        self.check_invariant("before a loop")
        entry = self.now()

        def visited(st: State, j: Any) -> Callable:
            return lambda y: z3.Implies(z3.And(member(y), index(y) < j), st.mark(y) == 2)

        def body() -> None:
            st = self.havoc()
            j = z3.Const(ctx().name("j"), INT)
            ctx().assume(z3.And(j >= 0, j < as_int(s.n)))
            self.given(1, lambda x: monotone(entry, st, x))
            self.given(1, visited(st, j))
            item = s.at(j)
            self.settle()
            try:
                cb(item)
            except PyRaise as ex:
                self.check_raised(ex.exc, "a loop")
                return
            except interp.CONTROL:
                raise Unsupported("loop is left early")
            self.check_invariant("after an iteration")
            self.check_monotone(entry, "an iteration")
            y = self.fresh("y")
            self.settle()
            invariant(visited(self.now(), j + 1)(y), "each node that the loop has come across is done")

        saved = [list(x.segs) for x in self.state]
        self.explore(body)
        for x, sg in zip(self.state, saved):
            x.segs = sg
        self.or_cycle()
        st = self.havoc()
        self.given(1, lambda x: monotone(entry, st, x))
        self.given(1, visited(st, as_int(s.n)))
        self.settle()
        return True

    def discover(self, cb: Callable, s: seqs.Seq) -> None:
        "Finds the recursive function that the loop calls, and verifies it."

        def hook(fn: Any, args: list, kwargs: dict) -> Any:
            if any(same_function(fn, x) for x in self.stack):
                raise Found(fn, args, kwargs)
            self.stack.append(fn)
            try:
                return interp.call_function(fn, args, kwargs)
            finally:
                self.stack.pop()

        known, stack = list(self.known), list(self.stack)
        interp.CALL_HOOK, saved = hook, interp.CALL_HOOK
        self.discovering = True
        outer = ctx().recorder
        try:
            core.explore(lambda: self.once(cb, s), recorder=lambda: interp.Recorder(outer), keep=False)
            return
        except Found as f:
            found = f
        finally:
            self.discovering = False
            interp.CALL_HOOK = saved
            self.known, self.stack = known, stack
        self.fn = found.fn
        self.state = containers(found.fn, found.args, found.kwargs)
        interp.CALL_HOOK = self.hook
        self.verify_visit(found.fn, found.args, found.kwargs)

    def once(self, cb: Callable, s: seqs.Seq) -> None:
        "Any one iteration of a loop."
        j = z3.Const(ctx().name("j"), INT)
        if fork(as_int(s.n) > 0):
            ctx().assume(z3.And(j >= 0, j < as_int(s.n)))
            cb(s.at(j))


SORT = Sort(OB, [(1, g1), (2, g2), (3, g3)])
verify.RESET.append(SORT.reset)


@obligation("C14", "sorting returns each node exactly once, after the nodes it points to, or raises because of a cycle", "topological.topological_sort", timeout=240)
def ob_sort() -> None:
    try:
        r = call(T.topological_sort, [Graph()], {})
    except PyRaise as ex:
        SORT.check_raised(ex.exc, "sorting")
        return
    if not isinstance(r, PList):
        refuted("the result is not a list")
    if SORT.state is None:
        raise Unsupported("search")
    s = State(SORT.state[0], r)
    x, y = SORT.fresh("x"), SORT.fresh("y")
    SORT.settle()
    goal(s.listed(x) == is_node(x), "the nodes of the result are the nodes of the graph")
    goal(s.no_repetition(), "no node is returned twice")
    goal(z3.Implies(z3.And(is_node(x), edge(x, y), x != y), s.position(y) < s.position(x)), "each node comes after all nodes it points to")


@obligation("C14", "lemma: a graph whose nodes are in such an order has no cycle", ())
def ob_no_cycle() -> None:
    pos = z3.Function("position", OB, INT)
    p = z3.Function("p", INT, OB)  # a path of edges between different nodes
    i, k = z3.Const("i", INT), z3.Const("k", INT)
    c = ctx()
    # induction over the length of a path: the position decreases by at least one in each step
    c.add_fact(z3.And(i >= 0, i < k))
    c.add_fact(z3.And(edge(p(i), p(i + 1)), p(i) != p(i + 1)))
    c.add_fact(z3.Implies(z3.And(edge(p(i), p(i + 1)), p(i) != p(i + 1)), pos(p(i + 1)) < pos(p(i))))
    goal(pos(p(z3.IntVal(0))) <= pos(p(z3.IntVal(0))) - 0, "no step")
    c.add_fact(pos(p(i)) <= pos(p(z3.IntVal(0))) - i)
    goal(pos(p(i + 1)) <= pos(p(z3.IntVal(0))) - (i + 1), "one more step")
    c.add_fact(pos(p(k)) <= pos(p(z3.IntVal(0))) - k)
    goal(p(k) != p(z3.IntVal(0)), "a path does not return to its start")

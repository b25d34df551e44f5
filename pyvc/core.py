"""
Path exploration, terms and values of the verifier.

A *run* executes a Python callable that builds values and calls `fork(cond)` on symbolic conditions.  `explore`
enumerates all feasible runs by decision replay.  Everything mutable is rebuilt on each run, hence no state needs to be
saved or restored.
"""

import itertools
import time
from typing import Any, Callable, Optional

import z3

# ---------------------------------------------------------------- sorts

Ty = z3.DeclareSort("Ty")  # types that are not inspected structurally
Fl = z3.DeclareSort("Float")  # floating-point numbers, uninterpreted
By = z3.DeclareSort("Bytes")
Hl = z3.DeclareSort("ListH")  # contents of a list or tuple that comes from outside
Hd = z3.DeclareSort("DictH")
Hs = z3.DeclareSort("SetH")
Ob = z3.DeclareSort("Obj")
Ex = z3.DeclareSort("ExcClass")

_V = z3.Datatype("V")
_V.declare("none")
_V.declare("bool", ("b", z3.BoolSort()))
_V.declare("int", ("i", z3.IntSort()))
_V.declare("float", ("f", Fl))
_V.declare("str", ("s", z3.StringSort()))
_V.declare("bytes", ("y", By))
_V.declare("list", ("l", Hl))
_V.declare("tuple", ("tl", Hl))
_V.declare("dict", ("d", Hd))
_V.declare("set", ("st", Hs))
_V.declare("obj", ("o", Ob))
_V.declare("type", ("ty", Ty))
V = _V.create()
KINDS = ["none", "bool", "int", "float", "str", "bytes", "list", "tuple", "dict", "set", "obj", "type"]
JSON_KINDS = ["none", "bool", "int", "float", "str", "list", "dict"]


def is_kind(t: Any, kind: str) -> Any:
    return getattr(V, f"is_{kind}")(t)


# handles
list_len = z3.Function("list_len", Hl, z3.IntSort())
list_item = z3.Function("list_item", Hl, z3.IntSort(), V)
dict_len = z3.Function("dict_len", Hd, z3.IntSort())
dict_key = z3.Function("dict_key", Hd, z3.IntSort(), V)
dict_val = z3.Function("dict_val", Hd, z3.IntSort(), V)
dict_has = z3.Function("dict_has", Hd, V, z3.BoolSort())
dict_get = z3.Function("dict_get", Hd, V, V)
dict_pos = z3.Function("dict_pos", Hd, V, z3.IntSort())
set_len = z3.Function("set_len", Hs, z3.IntSort())
set_item = z3.Function("set_item", Hs, z3.IntSort(), V)
set_has = z3.Function("set_has", Hs, V, z3.BoolSort())

i2f = z3.Function("int_to_float", z3.IntSort(), Fl)
feq_int = z3.Function("float_eq_int", Fl, z3.IntSort(), z3.BoolSort())
f_fits = z3.Function("int_fits_float", z3.IntSort(), z3.BoolSort())


class Unsupported(Exception):
    "The code is outside the subset that the verifier understands: undecided."


class NotProved(Exception):
    "An obligation was not discharged."

    def __init__(self, msg: str, definite: bool, model: Optional[str] = None):
        super().__init__(msg)
        self.definite = definite
        self.model = model


class Infeasible(Exception):
    "The current run contradicts its path condition."


class Budget(Exception):
    "Resource limit of the verifier."


# ---------------------------------------------------------------- exploration


class Universal:
    "A fact that holds for each index in [0, bound)."

    def __init__(self, var: Any, bound: Any, formula: Any, terms: Any = (), domain: Any = None):
        self.var, self.bound, self.formula = var, bound, formula
        self.domain = bound if domain is None else domain  # length of the sequence that the indices belong to
        self.terms = list(terms)  # index terms (witnesses) that the formula mentions

    def instance(self, term: Any) -> Any:
        return z3.Implies(z3.And(term >= 0, term < self.bound), substitute(self.formula, (self.var, term)))

    def subst(self, pairs: list) -> "Universal":
        return Universal(self.var, substitute(self.bound, *pairs), substitute(self.formula, *pairs), [substitute(t, *pairs) for t in self.terms], substitute(self.domain, *pairs))

    def relevant(self, t: Any) -> bool:
        "Statements on the items of a dictionary are of interest for positions in this dictionary, and vice versa."
        d = domain_of(t)
        if d is None or d.eq(self.domain):
            return True
        return not (is_dict_len(d) or is_dict_len(self.domain))


DOMAINS: dict = {}  # length of the sequence that an index term (given by its declaration) belongs to
MAX_NEST = 3


def is_dict_len(t: Any) -> bool:
    return z3.is_app(t) and t.decl().eq(dict_len)


def domain_of(t: Any) -> Any:
    if not z3.is_app(t):
        return None
    if t.decl().eq(dict_pos):
        return dict_len(t.arg(0))
    r = DOMAINS.get(t.decl().name())
    return r


def set_domain(t: Any, n: Any) -> None:
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return
    DOMAINS.pop(t.decl().name(), None)
    if z3.is_expr(n) and (n.num_args() == 0 or is_dict_len(n)) and closed(n):
        DOMAINS[t.decl().name()] = n


def closed(t: Any) -> bool:
    "The term does not depend on an index."
    if t.num_args() == 0:
        return not (t.sort() == z3.IntSort() and t.decl().name()[:2] in ("i!", "fi"))
    return not t.decl().name().startswith("first!") and all(closed(c) for c in t.children())


_nest: dict = {}


def nest(t: Any) -> int:
    "How deeply witnesses are nested in a term."
    k = t.get_id()
    r = _nest.get(k)
    if r is None:
        own = 1 if z3.is_app(t) and (t.decl().eq(dict_pos) or t.decl().name().startswith("first!")) else 0
        r = own + max([nest(c) for c in t.children()], default=0)
        _nest[k] = r
        absstr.keep(t)
    return r


class Stats:
    def __init__(self) -> None:
        self.checks = 0
        self.solver_s = 0.0
        self.runs = 0
        self.backends: dict[str, int] = {}


STATS = Stats()
CHECK_TIMEOUT_MS = 6000
FEASIBILITY_TIMEOUT_MS = 1000


class Path:
    def __init__(self, conds: list, facts: list, universals: list, indices: list, result: Any):
        self.conds, self.facts, self.universals, self.indices, self.result = conds, facts, universals, indices, result

    @property
    def cond(self) -> Any:
        return z3.And(*self.conds) if self.conds else z3.BoolVal(True)


class LazySolver:
    """
    Decides constraints in the abstraction of strings first; the solver for strings is asked only if there are string
    operations and the abstraction does not settle the question.
    """

    def __init__(self) -> None:
        self.log: list = []
        self.abstract = z3.SimpleSolver()
        self.abstract.set("timeout", CHECK_TIMEOUT_MS)
        self.strong = False
        self.known: set = set()
        self.full: Any = None
        self.full_pos = 0
        self.last: Any = None

    def add(self, c: Any) -> None:
        self.log.append(c)
        t, side = absstr.abstract(c)
        self.add_side(side)
        self.abstract.add(t)

    def add_side(self, side: Any) -> None:
        self.strong = self.strong or side.strong
        for f in side.facts:
            if f.get_id() not in self.known:
                self.known.add(f.get_id())
                self.abstract.add(f)

    def check(self, extra: tuple, exact: bool) -> Any:
        terms = []
        strong = self.strong
        facts: list = []
        for e in extra:
            t, side = absstr.abstract(e)
            strong = strong or side.strong
            facts += [f for f in side.facts if f.get_id() not in self.known]
            terms.append(t)
        r = self.abstract.check(*terms, *facts)
        self.last = self.abstract
        if r == z3.unsat or (r == z3.sat and not strong):
            return r
        if not strong and not exact:
            return r
        if self.full is None:
            self.full = z3.Solver()
        for c in self.log[self.full_pos :]:
            self.full.add(c)
        self.full_pos = len(self.log)
        self.full.set("timeout", CHECK_TIMEOUT_MS if exact else FEASIBILITY_TIMEOUT_MS)
        self.last = self.full
        return self.full.check(*extra)

    def model(self) -> Any:
        return self.last.model()


class Ctx:
    "State of the current run."

    def __init__(self, parent: Optional["Ctx"], decisions: list, index_stack: list):
        self.parent = parent
        self.decisions = decisions  # list of [choice, forced, n_alternatives_left]
        self.pos = 0
        self.conds: list = []
        self.facts: list = []
        self.derived: list = []  # instances of universal facts of enclosing runs; not part of the result of this run
        self.universals: list[Universal] = []
        self.indices: list = []
        self.index_depth: dict = {}
        self.index_stack = index_stack
        self.counter = parent.counter if parent else 0
        self.solver = LazySolver()
        self.axiom_keys: set = set()
        self.deadline = parent.deadline if parent else None
        self.recorder: Any = None
        self.fresh_idx_count = 0
        if parent is not None:
            self.axiom_keys = set(parent.axiom_keys)
            for c in parent.all_constraints():
                self.solver.add(c)

    def all_constraints(self) -> list:
        out = self.parent.all_constraints() if self.parent else []
        return out + self.conds + self.facts + self.derived

    def all_universals(self) -> list:
        return (self.parent.all_universals() if self.parent else []) + self.universals

    def all_indices(self) -> list:
        return (self.parent.all_indices() if self.parent else []) + self.indices

    # -- symbols
    def name(self, prefix: str) -> str:
        self.counter += 1
        return f"{prefix}!{self.counter}"

    def fresh(self, sort: Any, prefix: str = "k") -> Any:
        n = self.name(prefix)
        if self.index_stack:
            f = z3.Function(n, *([z3.IntSort()] * len(self.index_stack)), sort)
            return f(*self.index_stack)
        return z3.Const(n, sort)

    # -- facts
    def add_fact(self, f: Any) -> None:
        if f is True or z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)

    def axiom(self, key: Any, f: Callable[[], Any]) -> None:
        "Adds an axiom instance once per run."
        if key not in self.axiom_keys:
            self.axiom_keys.add(key)
            r = f()
            for x in r if isinstance(r, list) else [r]:
                self.add_fact(x)

    def assume(self, c: Any) -> None:
        "Adds a path condition without alternative."
        c = as_bool(c)
        if z3.is_true(c):
            return
        self.conds.append(c)
        self.solver.add(c)

    def add_universal(self, u: Universal) -> None:
        self.universals.append(u)
        for t in self.all_indices():
            self.instantiate(u, t)

    def instantiate(self, u: Universal, t: Any) -> None:
        if not u.relevant(t):
            return
        f = u.instance(t)
        if any(u is x for x in self.universals):
            self.add_fact(f)
        else:
            self.derived.append(f)
            self.solver.add(f)
        d = self.depth_of(t) + 1
        if d <= 2:
            for w in u.terms:
                x = substitute(w, (u.var, t))
                if nest(x) <= MAX_NEST:
                    self.add_index(x, d)

    def depth_of(self, t: Any) -> int:
        c: Any = self
        while c is not None:
            d = c.index_depth.get(t.get_id())
            if d is not None:
                return d
            c = c.parent
        return 0

    def add_index(self, t: Any, depth: int = 0) -> None:
        if isinstance(t, int):
            t = z3.IntVal(t)
        for x in self.all_indices():
            if x.eq(t):
                return
        self.indices.append(t)
        if depth:
            self.index_depth[t.get_id()] = depth
        for u in self.all_universals():
            self.instantiate(u, t)

    # -- solver
    def check(self, *extra: Any, exact: bool = True) -> Any:
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time limit")
        t0 = time.time()
        r = self.solver.check(extra, exact)
        STATS.checks += 1
        STATS.solver_s += time.time() - t0
        return r

    def implied(self, c: Any) -> bool:
        c = as_bool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def possible(self, c: Any) -> bool:
        c = as_bool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(c, exact=False) != z3.unsat

    def feasible(self) -> bool:
        "Whether there may be an input that takes the current path."
        return self.check() != z3.unsat

    def decide(self, options: list) -> int:
        "Chooses one of several conditions, which together must be exhaustive."
        if self.pos < len(self.decisions):
            choice = self.decisions[self.pos][0]
        else:
            feasible = []
            for k, c in enumerate(options):
                c = as_bool(c)
                if z3.is_true(c) and len(options) == 1:
                    feasible.append(k)
                elif z3.is_false(c):
                    continue
                elif self.possible(c):
                    feasible.append(k)
            if not feasible:
                raise Infeasible()
            choice = feasible[0]
            self.decisions.append([choice, feasible[1:]])
        self.pos += 1
        c = as_bool(options[choice])
        if not z3.is_true(c):
            self.conds.append(c)
            self.solver.add(c)
        return choice

    def fork(self, c: Any) -> bool:
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.t
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.decide([c, z3.Not(c)]) == 0


_current: Optional[Ctx] = None


def ctx() -> Ctx:
    assert _current is not None
    return _current


def fork(c: Any) -> bool:
    return ctx().fork(c)


MAX_RUNS = 4000


def explore(
    fn: Callable[[], Any],
    index: Any = None,
    bound: Any = None,
    deadline: Optional[float] = None,
    recorder: Any = None,
    keep: bool = True,
) -> list[Path]:
    "Runs a callable on all feasible paths (beneath the current run if there is one)."

    global _current
    parent = _current
    paths: list[Path] = []
    decisions: list = []
    top_counter = parent.counter if parent else 0
    runs = 0
    while True:
        runs += 1
        STATS.runs += 1
        if runs > MAX_RUNS:
            raise Budget("too many paths")
        stack = list(parent.index_stack) if parent else []
        if index is not None:
            stack.append(index)
        c = Ctx(parent, decisions, stack)
        if deadline is not None:
            c.deadline = deadline
        c.recorder = recorder() if recorder is not None else (parent.recorder if parent else None)
        _current = c
        try:
            if index is not None:
                set_domain(index, bound)
                c.add_fact(z3.And(index >= 0, index < bound))
                c.add_index(index)
            try:
                result = fn()
                if keep:
                    paths.append(Path(c.conds, c.facts, c.universals, c.indices, result))
            except Infeasible:
                pass
        finally:
            _current = parent
        top_counter = max(top_counter, c.counter)
        del decisions[c.pos :]
        while decisions and not decisions[-1][1]:
            decisions.pop()
        if not decisions:
            break
        rest = decisions[-1][1]
        decisions[-1] = [rest[0], rest[1:]]
    if parent is not None:
        parent.counter = top_counter
    return paths


# ---------------------------------------------------------------- values


class Sym:
    "Base class of values that are not plain Python objects."


class SV(Sym):
    "A value of statically unknown kind."

    def __init__(self, t: Any, json: bool = False):
        self.t, self.json = t, json

    def __repr__(self) -> str:
        return f"SV({self.t})"


class SBool(Sym):
    def __init__(self, t: Any):
        self.t = t

    def __repr__(self) -> str:
        return f"SBool({self.t})"


class SInt(Sym):
    def __init__(self, t: Any):
        self.t = t

    def __repr__(self) -> str:
        return f"SInt({self.t})"


class SFloat(Sym):
    def __init__(self, t: Any):
        self.t = t


class SBytes(Sym):
    def __init__(self, t: Any):
        self.t = t


class Digits:
    """
    A run of ASCII digits.  `value` is the number it denotes, `length` its length if known (`None` if it is known to be
    the shortest decimal representation or to have any length of one or more digits; `len_t` is then a term for the length
    if there is one).
    """

    def __init__(self, value: Any, length: Optional[int], shortest: bool, len_t: Any = None):
        self.value, self.length, self.shortest, self.len_t = value, length, shortest, len_t

    def __repr__(self) -> str:
        return f"Digits({self.value},{self.length})"


class SStr(Sym):
    "A string as a concatenation of literals, string terms and digit runs."

    def __init__(self, pieces: list):
        out: list = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = out
        self.excluded: Any = None

    @property
    def t(self) -> Any:
        parts = []
        for p in self.pieces:
            if isinstance(p, str):
                parts.append(z3.StringVal(p))
            elif isinstance(p, Digits):
                parts.append(digits_str(p))
            else:
                parts.append(p)
        if not parts:
            return z3.StringVal("")
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def __repr__(self) -> str:
        return f"SStr({self.pieces})"


_digits_fn = z3.Function("digits_of", z3.IntSort(), z3.IntSort(), z3.StringSort())


def digits_str(d: Digits) -> Any:
    if d.length is None and not d.shortest:
        raise Unsupported("text of a digit run of unknown length")
    v = d.value if not isinstance(d.value, int) else z3.IntVal(d.value)
    return _digits_fn(v, z3.IntVal(-1 if d.length is None else d.length))


class SObj(Sym):
    "An object from outside, known by its class (a Python class or a symbolic class) and its identity."

    def __init__(self, cls: Any, t: Any):
        self.cls, self.t = cls, t

    def __repr__(self) -> str:
        return f"SObj({self.cls},{self.t})"


def as_bool(c: Any) -> Any:
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, SBool):
        return c.t
    return c


def as_int(v: Any) -> Any:
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(v):
        return v
    raise Unsupported(f"integer expected: {v!r}")


def prove(goal: Any, what: str) -> None:
    "Discharges `pc => goal` in the current run."

    c = ctx()
    goal = as_bool(goal)
    if z3.is_true(z3.simplify(goal)):
        count_backend("simplifier")
        return
    r = c.check(z3.Not(goal))
    if r == z3.unsat:
        count_backend("z3")
        return
    if r == z3.unknown:
        if cvc5_unsat(c.all_constraints() + [z3.Not(goal)]):
            count_backend("cvc5")
            return
        raise NotProved(f"{what}: solver undecided", False)
    model = str(c.solver.model())
    raise NotProved(f"{what}: refuted; goal {str(goal)[:300]}", True, model[:4000])


def count_backend(name: str) -> None:
    STATS.backends[name] = STATS.backends.get(name, 0) + 1


def cvc5_unsat(assertions: list) -> bool:
    import subprocess
    import tempfile

    s = z3.Solver()
    for a in assertions:
        s.add(a)
    text = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
        f.write(text)
        f.flush()
        t0 = time.time()
        try:
            p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=20000", f.name], capture_output=True, text=True, timeout=30)
        except Exception:
            return False
        finally:
            STATS.solver_s += time.time() - t0
    return p.stdout.strip().startswith("unsat")


from . import absstr  # noqa: E402
from .absstr import substitute  # noqa: E402

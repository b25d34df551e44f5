"""
Obligations and their discharge.

An obligation is a function that executes code under verification on arbitrary (symbolic) arguments and states its
postcondition with `prove_*`; it is run on all paths, and every statement on every path must be discharged.
"""

import os
import sys
import time
import traceback
import types
from typing import Any, Callable, Optional

import z3

from . import core, interp, models, regex, seqs, text
from .core import Budget, NotProved, SBool, SBytes, SFloat, SInt, SObj, SStr, SV, Sym, Unsupported, V, as_bool, as_int, ctx, explore, fork, prove
from .interp import BoundMethod, Closure, ExcVal, Model, Obj, PyRaise, call, getattr_, is_plain, kind_of, pyeq, resolve, to_seq, to_V
from .seqs import ABSENT, ConcSeq, NewObj, PDict, PList, PSet, Seq, STuple
from .types_ import ClassSym, SType, TyAnn, TyFwd, TyGen, TyOpaque, type_eq, type_term


class Goal:
    "Counts the statements of the obligation that is being discharged."

    count = 0
    where = ""


def goal(cond: Any, what: str) -> None:
    Goal.count += 1
    prove(cond, what)


def refuted(what: str, definite: bool = True) -> None:
    "The statement is false on this path: a refutation if the path is feasible."
    c = ctx()
    r = c.check()
    if r == z3.unsat:
        raise core.Infeasible()
    Goal.count += 1
    model = str(c.solver.model())[:4000] if r == z3.sat else None
    raise NotProved(what, definite and r == z3.sat, model)


# ---------------------------------------------------------------- outcomes


class Outcome:
    def __init__(self, value: Any = None, exc: Optional[ExcVal] = None):
        self.value, self.exc = value, exc

    def __repr__(self) -> str:
        return f"raises {self.exc}" if self.exc is not None else f"returns {self.value}"


def outcome(fn: Callable[[], Any]) -> Outcome:
    try:
        return Outcome(value=fn())
    except PyRaise as ex:
        return Outcome(exc=ex.exc)


def same_outcome(a: Outcome, b: Outcome, what: str, exc_class: bool = True) -> None:
    "The two outcomes are the same: equal values of equal kind, or exceptions of the same class."
    if (a.exc is None) != (b.exc is None):
        refuted(f"{what}: code {a}, specification {b}")
    if a.exc is not None:
        if exc_class:
            same_exception(a.exc, b.exc, what)
        else:
            Goal.count += 1
        return
    same_value(a.value, b.value, what)


class AnyExc:
    "Specification: some exception that is one of the given classes."


def same_exception(a: ExcVal, b: Any, what: str) -> None:
    if isinstance(b, tuple):
        if a.cls is None:
            codes = [k for k, c in enumerate(interp.EXC_CLASSES) if issubclass(c, b)]
            goal(z3.Or(*[a.code == k for k in codes]), f"{what}: class of exception")
            return
        if not issubclass(a.cls, b):
            refuted(f"{what}: raises {a.cls.__name__}, expected {[c.__name__ for c in b]}")
        Goal.count += 1
        return
    if a.cls is None and b.cls is None:
        goal(a.code == b.code, f"{what}: class of exception")
    elif a.cls is not None and b.cls is not None:
        if a.cls is not b.cls:
            refuted(f"{what}: raises {a.cls.__name__}, specification {b.cls.__name__}")
        Goal.count += 1
    else:
        x, y = (a, b) if a.cls is None else (b, a)
        if y.cls not in interp.EXC_CLASSES:
            refuted(f"{what}: raises {a}, specification {b}")
        goal(x.code == interp.EXC_CLASSES.index(y.cls), f"{what}: class of exception")


# ---------------------------------------------------------------- values


def same_value(a: Any, b: Any, what: str) -> None:
    "Proves that two values are equal and of the same kind, recursively."

    if a is b and not isinstance(a, Sym):
        Goal.count += 1
        core.count_backend("simplifier")
        return
    if isinstance(a, SV) and isinstance(b, SV):
        goal(a.t == b.t, what)
        return
    if isinstance(a, SV) or isinstance(b, SV):
        s, o = (a, b) if isinstance(a, SV) else (b, a)
        try:
            t = to_V(o)
        except Unsupported:
            t = None
        if t is not None:
            goal(s.t == t, what)
            return
        # the value of unknown kind must be of the kind of the other one
        k = kind_of(o)
        assert k is not None
        goal(core.is_kind(s.t, k), f"{what}: kind {k}")
        v = interp.view(s.t, k, s.json)
        same_value(v if s is a else o, o if s is a else v, what)
        return
    if hasattr(a, "vc_same"):
        a.vc_same(b, what)
        return
    if hasattr(b, "vc_same"):
        b.vc_same(a, what)
        return
    if isinstance(a, (SType, type)) or isinstance(b, (SType, type)):
        same_type(a, b, what)
        return
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb:
        refuted(f"{what}: {ka} instead of {kb}")
    if ka in ("none",):
        Goal.count += 1
        return
    if ka in ("bool", "int"):
        if ka == "bool":
            goal(as_bool(a if isinstance(a, bool) else a.t) == as_bool(b if isinstance(b, bool) else b.t), what)
        else:
            goal(as_int(a) == as_int(b), what)
        return
    if ka == "float":
        goal(to_V(a) == to_V(b), what)
        return
    if ka == "str":
        c = interp.str_eq(a, b)
        goal(c, what)
        return
    if ka == "bytes":
        if isinstance(a, SBytes) and isinstance(b, SBytes):
            goal(a.t == b.t, what)
        elif is_plain(a) and is_plain(b):
            goal(a == b, what)
        else:
            raise Unsupported("bytes")
        return
    if ka in ("list", "tuple"):
        same_seq(a, b, what)
        return
    if ka == "set":
        same_set(a, b, what)
        return
    if ka == "dict":
        same_dict(a, b, what)
        return
    same_object(a, b, what)


def same_seq(a: Any, b: Any, what: str) -> None:
    if isinstance(a, (PList, STuple)) and isinstance(b, (PList, STuple)) and a.src is not None and b.src is not None:
        goal(a.src == b.src, what)
        return
    pa, pb = (x.pl if isinstance(x, STuple) else x for x in (a, b))
    if any(isinstance(x, PList) and x.is_filter() for x in (pa, pb)):
        if isinstance(pa, PList) and isinstance(pb, PList) and len(pa.segs) != len(pb.segs):
            pa, pb = PList(without_empty(pa.segs)), PList(without_empty(pb.segs))
        if isinstance(pa, PList) and isinstance(pb, PList) and len(pa.segs) == len(pb.segs):
            for (k1, v1), (k2, v2) in zip(pa.segs, pb.segs):
                if k1 == "item" and k2 == "item":
                    same_value(v1, v2, what)
                elif k1 != "item" and k2 != "item":
                    pointwise(v1, v2, what)
                else:
                    raise Unsupported("filtered lists of different shape")
            return
        raise Unsupported("filtered list")
    if any(isinstance(x, PList) and any(k == "seq" and isinstance(q, seqs.FlatSeq) for k, q in x.segs) for x in (pa, pb)):
        if isinstance(pa, PList) and isinstance(pb, PList) and len(pa.segs) == len(pb.segs) == 1 and "item" not in (pa.segs[0][0], pb.segs[0][0]):
            pointwise(pa.segs[0][1], pb.segs[0][1], what)
            return
        raise Unsupported("lists of different shape")
    sa, sb = to_seq(a), to_seq(b)
    pointwise(sa, sb, what)


def as_part(x: Any, like: Any) -> Any:
    if x is ABSENT:
        return type(like)()
    return PDict([("put", x[0], x[1])]) if isinstance(like, PDict) else PList([("item", x)])


def pointwise(sa: Seq, sb: Seq, what: str) -> None:
    if isinstance(sa, seqs.FlatSeq) or isinstance(sb, seqs.FlatSeq):
        pa, pb = (x.parts if isinstance(x, seqs.FlatSeq) else x for x in (sa, sb))
        c = ctx()
        goal(as_int(pa.n) == as_int(pb.n), f"{what}: number of iterations")
        i = z3.Const(c.name("i"), z3.IntSort())

        def part() -> None:
            x, y = pa.at(i), pb.at(i)
            if not isinstance(sa, seqs.FlatSeq):
                x = as_part(x, y)
            if not isinstance(sb, seqs.FlatSeq):
                y = as_part(y, x)
            same_value(x, y, f"{what}[iteration i]")

        explore(part, index=i, bound=as_int(pa.n), keep=False)
        return
    na, nb = sa.n, sb.n
    if isinstance(na, int) and isinstance(nb, int):
        if na != nb:
            refuted(f"{what}: length {na} instead of {nb}")
    else:
        goal(as_int(na) == as_int(nb), f"{what}: length")
    n = na if isinstance(na, int) else nb
    if isinstance(n, int):
        for j in range(n):
            elem(sa.at(j), sb.at(j), f"{what}[{j}]")
        Goal.count += 1
        return
    c = ctx()
    i = z3.Const(c.name("i"), z3.IntSort())
    explore(lambda: elem(sa.at(i), sb.at(i), f"{what}[i]"), index=i, bound=as_int(n), keep=False)


def elem(x: Any, y: Any, what: str) -> None:
    if x is ABSENT or y is ABSENT:
        if x is not y:
            refuted(f"{what}: present in one only", definite=False)
        Goal.count += 1
        return
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and type(x) is tuple and type(y) is tuple:
        for k, (p, q) in enumerate(zip(x, y)):
            same_value(p, q, f"{what}.{k}")
        return
    same_value(x, y, what)


def segs_of(v: Any) -> list:
    if isinstance(v, (PSet, PDict)):
        return v.segs
    if isinstance(v, (set, frozenset)):
        return [("item", x) for x in v]
    return [("put", k, x) for k, x in v.items()]


def without_empty(segs: list) -> list:
    "Leaves out what is known to be empty."

    def empty(s: tuple) -> bool:
        if s[0] in ("item", "put"):
            return False
        q = seg_seq(s)
        return not isinstance(q, seqs.FlatSeq) and ctx().implied(as_int(q.n) == 0)

    return [s for s in segs if not empty(s)]


def seg_seq(s: tuple) -> Seq:
    if s[0] == "item":
        return ConcSeq([s[1]])
    if s[0] == "put":
        return ConcSeq([(s[1], s[2])])
    if s[0] == "handle":
        return interp.HandleDictSeq(s[1], s[2]) if len(s) == 3 else interp.set_handle_seq(s[1])
    return s[1]


def same_set(a: Any, b: Any, what: str) -> None:
    if isinstance(a, PSet) and isinstance(b, PSet) and a.src is not None and b.src is not None:
        goal(a.src == b.src, what)
        return
    sa, sb = segs_of(a), segs_of(b)
    if all(s[0] == "item" for s in sa) and all(s[0] == "item" for s in sb):
        for x in sa:
            if not interp.truth_of(interp.any_of([pyeq(x[1], y[1]) for y in sb])):
                refuted(f"{what}: extra member")
        for y in sb:
            if not interp.truth_of(interp.any_of([pyeq(x[1], y[1]) for x in sa])):
                refuted(f"{what}: missing member")
        Goal.count += 1
        return
    if len(sa) != len(sb):
        sa, sb = without_empty(sa), without_empty(sb)
    if len(sa) != len(sb):
        raise Unsupported("sets of different shape")
    for x, y in zip(sa, sb):
        pointwise(seg_seq(x), seg_seq(y), what)


def same_dict(a: Any, b: Any, what: str) -> None:
    if isinstance(a, PDict) and isinstance(b, PDict) and a.src is not None and b.src is not None:
        goal(a.src == b.src, what)
        return
    sa, sb = segs_of(a), segs_of(b)
    if all(s[0] == "put" for s in sa) and all(s[0] == "put" for s in sb):
        for d in (a, b):
            if isinstance(d, PDict):
                interp.check_distinct_keys(d)
        sa, sb = segs_of(a), segs_of(b)
        rest = list(sb)
        for x in sa:
            hit = None
            for y in rest:
                if interp.truth_of(pyeq(x[1], y[1])):
                    hit = y
                    break
            if hit is None:
                refuted(f"{what}: unexpected key {x[1]}")
            rest.remove(hit)  # type: ignore
            same_value(x[2], hit[2], f"{what}[{x[1] if isinstance(x[1], str) else 'k'}]")  # type: ignore
        if rest:
            refuted(f"{what}: missing key {rest[0][1]}")
        Goal.count += 1
        return
    if len(sa) != len(sb):
        sa, sb = without_empty(sa), without_empty(sb)
    if len(sa) != len(sb):
        raise Unsupported("dictionaries of different shape")
    for x, y in zip(sa, sb):
        pointwise(seg_seq(x), seg_seq(y), what)


def same_object(a: Any, b: Any, what: str) -> None:
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls:
            refuted(f"{what}: {a.cls.__name__} instead of {b.cls.__name__}")
        if set(a.attrs) != set(b.attrs):
            refuted(f"{what}: attributes differ", definite=False)
        for k in a.attrs:
            same_value(a.attrs[k], b.attrs[k], f"{what}.{k}")
        Goal.count += 1
        return
    if isinstance(a, NewObj) and isinstance(b, NewObj):
        same_type(a.cls, b.cls, what)
        same_dict(a.attrs, b.attrs, what)
        return
    if isinstance(a, SObj) and isinstance(b, SObj):
        goal(a.t == b.t, what)
        return
    for x, y in ((a, b), (b, a)):
        if isinstance(x, NewObj) and isinstance(y, SObj) and isinstance(y.cls, ClassSym):
            same_type(x.cls, y.cls, what)
            pointwise_attrs(x, y, what)
            return
    if isinstance(a, SObj) or isinstance(b, SObj):
        goal(to_V(a) == to_V(b), what)
        return
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if type(a) is type(b) and a == b:
            Goal.count += 1
            return
        refuted(what)
    raise Unsupported(f"comparison of {type(a).__name__} with {type(b).__name__}")


def pointwise_attrs(x: NewObj, y: SObj, what: str) -> None:
    "A created object has exactly the attributes of the class, each equal to the one of the given object."
    cls = y.cls
    fs = cls.traits["field_seq"]()
    segs = x.attrs.segs
    want = seqs.FnSeq(fs.n, lambda j: (fs.at(j)[0], cls.traits["getattr"](y, fs.at(j)[0])))
    if len(segs) == 1:
        pointwise(seg_seq(segs[0]), want, what)
        return
    if isinstance(fs.n, int):
        same_dict(x.attrs, PDict([("put", *want.at(j)) for j in range(fs.n)]), what)
        return
    raise Unsupported("attributes of a created object")


def same_type(a: Any, b: Any, what: str) -> None:
    "Proves that two types are the same."
    if a is b:
        Goal.count += 1
        core.count_backend("simplifier")
        return
    if isinstance(a, TyGen) and isinstance(b, TyGen):
        if a.origin is not b.origin or a.new_style != b.new_style:
            refuted(f"{what}: {a} instead of {b}")
        same_args(a.args, b.args, what)
        return
    if isinstance(a, TyAnn) and isinstance(b, TyAnn):
        same_type(a.inner, b.inner, what)
        same_args(a.metadata, b.metadata, what)
        return
    ta, tb = type_term(a), type_term(b)
    if ta is not None and tb is not None:
        goal(as_bool(type_eq(a, b)), what)
        return
    if isinstance(a, (SType, type)) and isinstance(b, (SType, type)):
        refuted(f"{what}: {a} instead of {b}", definite=False)
    refuted(f"{what}: {type(a).__name__} instead of {type(b).__name__}", definite=False)


def same_args(a: Any, b: Any, what: str) -> None:
    if any(isinstance(x, STuple) and x.pl.is_filter() for x in (a, b)):
        same_seq(a, b, what)
        return
    sa, sb = to_seq(a), to_seq(b)
    na, nb = sa.n, sb.n
    if isinstance(na, int) and isinstance(nb, int):
        if na != nb:
            refuted(f"{what}: {na} arguments instead of {nb}")
        for j in range(na):
            same_value(sa.at(j), sb.at(j), f"{what}[{j}]")
        return
    pointwise(sa, sb, what)


# ---------------------------------------------------------------- obligations


class Obligation:
    def __init__(self, prop: str, name: str, fn: Callable[[], None], functions: tuple, bounded: Optional[str] = None, timeout: float = 60):
        self.prop, self.name, self.fn, self.functions, self.bounded, self.timeout = prop, name, fn, functions, bounded, timeout


OBLIGATIONS: dict[str, list[Obligation]] = {}


def obligation(props: Any, name: str, functions: Any = (), timeout: float = 60) -> Callable:
    def wrap(fn: Callable[[], None]) -> Callable[[], None]:
        for p in [props] if isinstance(props, str) else props:
            OBLIGATIONS.setdefault(p, []).append(Obligation(p, name, fn, tuple([functions] if isinstance(functions, str) else functions), timeout=timeout))
        return fn

    return wrap


class Result:
    def __init__(self, ob: Obligation):
        self.name = ob.name
        self.status = "proved"
        self.detail = ""
        self.model: Optional[str] = None
        self.goals = 0
        self.paths = 0
        self.seconds = 0.0
        self.trace: list = []
        self.contracts: list = []
        self.models_: list = []


RESET: list = [models.JoinTerm.reset]  # run before each path of an obligation


def discharge(ob: Obligation) -> Result:
    r = Result(ob)
    t0 = time.time()
    Goal.count = 0
    interp.TRACE.clear()
    interp.CONTRACT_TRACE.clear()
    interp.MODEL_TRACE.clear()
    paths = 0

    def run() -> None:
        nonlocal paths
        for reset in RESET:
            reset()
        try:
            ob.fn()
        except PyRaise as ex:
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
            refuted(f"raises {ex.exc}")
        paths += 1

    saved = dict(interp.CONTRACTS)
    try:
        explore(run, deadline=time.time() + ob.timeout, keep=False)
        if paths == 0:
            r.status, r.detail = "undecided", "vacuous: no feasible path"
        elif Goal.count == 0:
            r.status, r.detail = "undecided", "vacuous: nothing was stated"
    except NotProved as ex:
        r.status = "refuted" if ex.definite else "undecided"
        r.detail, r.model = str(ex), ex.model
    except (Unsupported, Budget) as ex:
        r.status, r.detail = "undecided", f"{type(ex).__name__}: {ex}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    except RecursionError:
        r.status, r.detail = "undecided", "RecursionError"
    except PyRaise as ex:
        r.status, r.detail = "undecided", f"uncaught exception {ex.exc} in the obligation"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    except Exception as ex:  # a defect of the verifier must not look like a verdict
        r.status, r.detail = "undecided", f"verifier error {type(ex).__name__}: {ex}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    finally:
        core._current = None
        interp._depth = 0
        interp.CALL_HOOK = None
        interp.REPLACED.clear()
        interp.NEW_DICT = interp.NEW_DICT_COMP = interp.NEW_SET = interp.WHILE = None
        interp.ON_VALUE_MODIFIED = interp.value_modified
        interp.CONTRACTS.clear()
        interp.CONTRACTS.update(saved)
    r.goals, r.paths, r.seconds = Goal.count, paths, time.time() - t0
    r.trace, r.contracts, r.models_ = sorted(interp.TRACE), sorted(interp.CONTRACT_TRACE), sorted(interp.MODEL_TRACE)
    return r

"""
Symbolic interpreter for the Python source of the code under verification.

The function objects are those of the imported modules; their bodies are taken from the source file on each run (see
`SourceMap`).  Calls into the code under verification are executed symbolically, or replaced by their contract if one is
registered; calls elsewhere must have a model (see models.py) or have plain arguments only.
"""

import ast
import builtins
import collections
import dataclasses
import enum
import inspect
import re
import sys
import types
import typing
from typing import Any, Callable, Optional

import z3

from . import core, seqs
from .core import (
    Digits, Path, SBool, SBytes, SFloat, SInt, SObj, SStr, SV, Sym, Unsupported, V, as_bool, as_int, ctx, explore, fork,
)
from .seqs import (
    ABSENT, ConcSeq, HandleSeq, LazyGen, NewObj, PDict, PList, PSet, Seq, STuple, TemplSeq, iadd, subst,
)
from .types_ import ClassSym, SType, TyAnn, TyFwd, TyGen, TyOpaque, type_eq, type_term


class PyRaise(Exception):
    def __init__(self, exc: "ExcVal"):
        self.exc = exc


class ReturnSig(Exception):
    def __init__(self, value: Any):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class StopSig(Exception):
    def __init__(self, value: Any = None):
        self.value = value


CONTROL = (PyRaise, ReturnSig, BreakSig, StopSig)


class ExcVal(Sym):
    "An exception: of a known class, or of the symbolic class `code`."

    def __init__(self, cls: Any, code: Any = None):
        self.cls, self.code = cls, code

    def __repr__(self) -> str:
        return f"ExcVal({self.cls or self.code})"


EXC_CLASSES: list = []  # filled by models: classes that a symbolic exception may have


def raise_py(cls: Any) -> Any:
    raise PyRaise(ExcVal(cls))


class Obj(Sym):
    "An instance of a class of the code under verification, created during verification."

    def __init__(self, cls: type, attrs: Optional[dict] = None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.birth = ctx().recorder

    def vc_subst(self, go: Any, pairs: list) -> Any:
        new = {k: go(v) for k, v in self.attrs.items()}
        if all(new[k] is self.attrs[k] for k in new):
            return self
        o = Obj(self.cls, new)
        if "protected" in self.__dict__:
            o.protected = self.protected  # type: ignore
        return o

    def __repr__(self) -> str:
        return f"<{self.cls.__name__} {self.attrs}>"


class BoundMethod(Sym):
    def __init__(self, fn: Any, self_: Any):
        self.fn, self.self_ = fn, self_

    def vc_subst(self, go: Any, pairs: list) -> Any:
        s = go(self.self_)
        return self if s is self.self_ else BoundMethod(self.fn, s)


class Closure(Sym):
    "A function defined during verification."

    def __init__(self, node: Any, env: "Env", name: str, defaults: list, kwdefaults: dict, unit: Any):
        self.node, self.env, self.name, self.defaults, self.kwdefaults, self.unit = (
            node, env, name, defaults, kwdefaults, unit,
        )


class Model(Sym):
    "A value that behaves like a function, implemented by the verifier."

    def __init__(self, fn: Callable, name: str = "model"):
        self.fn, self.name = fn, name


class Poison:
    def __repr__(self) -> str:
        return "POISON"


POISON = Poison()
UNBOUND = object()


class Cell:
    "A variable that is assigned to by the iterations of a loop."

    def __init__(self, value: Any):
        self.value, self.birth = value, ctx().recorder

    def assign(self, value: Any) -> None:
        if not effect(self, "set", value):
            self.value = value

    def after_loop(self, count: Any, i0: Any, paths: list) -> None:
        "A constant that is assigned by some iteration, otherwise not known."
        values = [v for _, v in paths if v is not ABSENT]
        if hasattr(self.value, "vc_accumulated"):
            self.assign(self.value.vc_accumulated(TemplSeq(count, i0, [Path(p.conds, p.facts, p.universals, p.indices, v) for p, v in paths])))
            return
        if all(isinstance(v, (bool, int, str, type(None))) and type(v) is type(values[0]) and v == values[0] for v in values):
            t = TemplSeq(count, i0, [Path(p.conds, p.facts, p.universals, p.indices, v is not ABSENT) for p, v in paths])
            if seqs.find_first(count, lambda j: t.at(j)) is not None:
                self.assign(values[0])
        else:
            # the value of the iteration that assigns, if there cannot be two of them
            u = TemplSeq(count, i0, [Path(p.conds, p.facts, p.universals, p.indices, v) for p, v in paths])
            n = as_int(count)
            one, two = (z3.Const(ctx().name("i"), z3.IntSort()) for _ in range(2))

            def both() -> bool:
                ctx().add_fact(one < two)
                return u.at(two) is not ABSENT and ctx().feasible()

            def again() -> bool:
                return u.at(one) is not ABSENT and any(p.result for p in explore(both, index=two, bound=n))

            if any(p.result for p in explore(again, index=one, bound=n)):
                self.assign(POISON)
                return
            j = seqs.find_first(count, lambda j: u.at(j) is not ABSENT)
            if j is not None:
                self.assign(u.at(j))


# makes the empty dictionary that a verified function starts from
NEW_DICT: Optional[Callable] = None
NEW_DICT_COMP: Optional[Callable] = None  # the same for a comprehension
NEW_SET: Optional[Callable] = None  # the same for a set
# deals with a while loop by an invariant: gets the interpreter and the statement, and returns False for what it does not know
WHILE: Optional[Callable] = None

# module-level containers that the current obligation replaces by their symbolic counterpart
REPLACED: dict[int, Any] = {}


class Env:
    def __init__(self, parent: Optional["Env"], globals_: dict, func: Any = None):
        self.vars: dict[str, Any] = {}
        self.parent = parent
        self.globals = globals_
        self.func = func
        self.nonlocal_names: set[str] = set()
        self.global_names: set[str] = set()
        self.is_class_scope = False

    def lookup(self, name: str) -> Any:
        e: Optional[Env] = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is POISON:
                    raise Unsupported(f"value of `{name}` carried over from another loop iteration")
                if v is UNBOUND:
                    raise PyRaise(ExcVal(UnboundLocalError))
                return v
            e = e.parent
        if name in self.globals:
            v = self.globals[name]
            return REPLACED.get(id(v), v) if REPLACED else v
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(ExcVal(NameError))

    def assign(self, name: str, value: Any) -> None:
        if name in self.nonlocal_names:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    if ctx().recorder is not getattr(e, "birth", None):
                        raise Unsupported("assignment to a nonlocal variable in a loop")
                    e.vars[name] = value
                    return
                e = e.parent
            raise Unsupported("nonlocal")
        if name in self.global_names:
            raise Unsupported("assignment to a global variable")
        self.vars[name] = value


class Recorder:
    "Collects the effects of one iteration of a loop on containers that exist outside the loop."

    def __init__(self, parent: Any):
        self.parent = parent
        self.effects: list = []
        self.reads: dict[int, Any] = {}

    def covers(self, birth: Any) -> bool:
        "True if the container was created within the iteration."
        return birth is self


def effect(container: Any, op: str, *args: Any) -> bool:
    "Records an effect on a container; returns False if it is to be applied directly."
    touch(container)
    r = ctx().recorder
    if r is None or container_birth(container) is r:
        return False
    r.effects.append((container, op, args))
    return True


def touch(x: Any) -> None:
    "Called before something is modified."
    if isinstance(x, Sym):
        protected = x.__dict__.get("protected") or getattr(type(x), "protected", None)
        if protected is not None:
            protected(x)


def value_modified(x: Any) -> None:
    # a container that is part of a value of unknown kind has no identity
    raise Unsupported("modification of a value that is given")


# called when a container that is part of a value of unknown kind is modified
ON_VALUE_MODIFIED: Callable = value_modified


def note_read(container: Any) -> None:
    r = ctx().recorder
    b = container_birth(container)
    while r is not None and r is not b:
        r.reads[id(container)] = container
        r = r.parent


def container_birth(c: Any) -> Any:
    if isinstance(c, (PList, PDict, PSet)):
        if not hasattr(c, "birth"):
            c.birth = None
        return c.birth
    return getattr(c, "birth", None)


def _patch_birth(cls: Any) -> None:
    old = cls.__init__

    def init(self: Any, *a: Any, **k: Any) -> None:
        old(self, *a, **k)
        self.birth = ctx().recorder

    cls.__init__ = init


for _c in (PList, PDict, PSet):
    _patch_birth(_c)


# ---------------------------------------------------------------- source


class SourceMap:
    def __init__(self) -> None:
        self.files: dict[str, dict] = {}

    def load(self, filename: str) -> dict:
        if filename not in self.files:
            with open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read(), filename)
            table: dict = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = node.decorator_list[0].lineno if node.decorator_list else node.lineno
                    table[(node.name, line)] = node
                elif isinstance(node, ast.Lambda):
                    table.setdefault(("<lambda>", node.lineno), []).append(node)
            self.files[filename] = table
        return self.files[filename]

    def node(self, fn: types.FunctionType) -> Any:
        code = fn.__code__
        table = self.load(code.co_filename)
        node = table.get((code.co_name, code.co_firstlineno))
        if isinstance(node, list):
            if len(node) != 1:
                raise Unsupported("ambiguous lambda")
            node = node[0]
        if node is None:
            raise Unsupported(f"no source for {fn}")
        return node


SOURCES = SourceMap()
VERIFIED_ROOTS: list[str] = []  # directories whose functions are executed symbolically
CONTRACTS: dict[Any, Callable] = {}  # function -> contract (returns NotImplemented to fall back to the body)
MODELS: dict[Any, Callable] = {}  # library function -> model
METHOD_MODELS: dict[tuple[str, str], Callable] = {}  # (kind, method) -> model
TRACE: set[str] = set()  # functions whose body was executed symbolically
CONTRACT_TRACE: set[str] = set()
MODEL_TRACE: set[str] = set()
MAX_DEPTH = 150
_depth = 0


def is_verified(fn: Any) -> bool:
    return isinstance(fn, types.FunctionType) and any(fn.__code__.co_filename.startswith(r) for r in VERIFIED_ROOTS)


def qualname(fn: Any) -> str:
    return f"{getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', getattr(fn, '__name__', fn))}"


# ---------------------------------------------------------------- iteration


def iterate(value: Any, cb: Callable[[Any], None]) -> None:
    if isinstance(value, LazyGen):
        value.run(cb)
        return
    if isinstance(value, PList) and value.is_filter() or isinstance(value, STuple) and value.pl.is_filter():
        pl = value if isinstance(value, PList) else value.pl
        note_read(pl)
        for k, v in list(pl.segs):
            if k == "item":
                cb(v)
            elif k == "seq":
                iterate_seq(v, cb)
            else:

                def cb2(x: Any) -> None:
                    if x is not ABSENT:
                        cb(x)

                iterate_seq(v, cb2)
        return
    if isinstance(value, PSet):
        note_read(value)
        for s in list(value.segs):
            if s[0] == "item":
                cb(s[1])
            elif s[0] == "seq":
                iterate_seq(s[1], cb)
            elif s[0] == "filter":

                def cb3(x: Any) -> None:
                    if x is not ABSENT:
                        cb(x)

                iterate_seq(s[1], cb3)
            else:
                iterate_seq(set_handle_seq(s[1]), cb)
        return
    if isinstance(value, PDict):
        iterate_items(value, lambda k, v: cb(k))
        return
    iterate_seq(to_seq(value), cb)


def set_handle_seq(h: Any) -> Seq:
    n = core.set_len(h)
    ctx().axiom(("len", h), lambda: n >= 0)

    def at(j: Any) -> Any:
        t = core.set_item(h, as_int(j))
        ctx().axiom(("set", t), lambda: core.set_has(h, t))
        return SV(t)

    return seqs.FnSeq(n, at, key=h)


def dict_items_seq(seg: tuple) -> Seq:
    "Sequence of (key, value) pairs of a segment of a dictionary; values may be ABSENT."
    if seg[0] == "put":
        return ConcSeq([(seg[1], seg[2])])
    if seg[0] == "seq":
        return seg[1]
    return HandleDictSeq(seg[1], seg[2])


class HandleDictSeq(Seq):
    def __init__(self, h: Any, json: bool):
        self.h, self.json = h, json
        self.n = core.dict_len(h)
        ctx().axiom(("len", h), lambda: self.n >= 0)

    def at(self, j: Any) -> Any:
        j = as_int(j)
        c = ctx()
        c.add_index(j)
        k, v = core.dict_key(self.h, j), core.dict_val(self.h, j)
        rng = z3.And(j >= 0, j < self.n)
        c.axiom(
            ("dk", k),
            lambda: [
                z3.Implies(rng, z3.And(core.dict_has(self.h, k), core.dict_get(self.h, k) == v)),
                z3.Implies(rng, core.dict_pos(self.h, k) == j),
            ],
        )
        if self.json:
            c.axiom(("dks", k), lambda: z3.Implies(rng, V.is_str(k)))
            seqs.json_fact(v)
            if c.implied(V.is_str(k)):
                return (SStr([V.s(k)]), SV(v, True))
        return (SV(k, self.json), SV(v, self.json))

    def subst(self, pairs: list) -> Seq:
        return HandleDictSeq(core.substitute(self.h, *pairs), self.json)


def iterate_items(d: PDict, cb: Callable[[Any, Any], None]) -> None:
    note_read(d)
    segs = list(d.segs)
    if len(segs) > 1:
        check_distinct_keys(d)
    for seg in segs:

        def cb2(x: Any) -> None:
            if x is not ABSENT:
                cb(x[0], x[1])

        iterate_seq(dict_items_seq(seg), cb2)


def check_distinct_keys(d: PDict) -> None:
    "Iteration over a series of assignments visits each key once: requires that no key is assigned twice."
    puts = [s for s in d.segs if s[0] == "put"]
    if len(puts) == len(d.segs):
        i = 0
        while i < len(d.segs):
            for j in range(i):
                if fork(pyeq(d.segs[i][1], d.segs[j][1])):
                    d.segs[j] = ("put", d.segs[j][1], d.segs[i][2])
                    del d.segs[i]
                    i -= 1
                    break
            i += 1
        return
    raise Unsupported("iteration over a dictionary assembled from several parts")


def iterate_seq(s: Seq, cb: Callable[[Any], None]) -> None:
    if isinstance(s, seqs.FlatSeq):

        def part(p: Any) -> None:
            if isinstance(p, PDict):
                iterate_items(p, lambda k, v: cb((k, v)))
            else:
                iterate(p, cb)

        iterate_seq(s.parts, part)
        return
    loop = getattr(s, "loop", None)
    if loop is not None and loop(cb):
        return  # the loop is dealt with by an invariant
    if isinstance(s.n, int) or z3.is_int_value(s.n):
        n = s.n if isinstance(s.n, int) else s.n.as_long()
        if n > 400:
            raise Unsupported("long loop")
        for j in range(n):
            cb(s.at(j))
        return

    c = ctx()
    if c.implied(as_int(s.n) == 0):
        return
    outer = c.recorder
    i0 = z3.Const(c.name("i"), z3.IntSort())

    def body() -> Any:
        rec = ctx().recorder
        try:
            cb(s.at(i0))
            out = "normal"
        except CONTROL:
            out = "exit"
        return (out, rec.effects, rec.reads)

    paths = explore(body, index=i0, bound=as_int(s.n), recorder=lambda: Recorder(outer))

    normal = [p for p in paths if p.result[0] == "normal"]
    exits = [p for p in paths if p.result[0] == "exit"]
    containers: dict[int, Any] = {}
    for p in normal:
        for cont, op, args in p.result[1]:
            containers[id(cont)] = cont
    for p in paths:
        for key in p.result[2]:
            if key in containers:
                raise Unsupported("loop body reads a container that it modifies")
        if outer is not None:
            for key, cont in p.result[2].items():
                b = container_birth(cont)
                if b is not outer:
                    outer.reads[key] = cont

    hit = None
    if exits:
        f = z3.Or(*[p.cond for p in exits])
        hit = seqs.split_first(s.n, i0, f, [Path(p.conds, p.facts, p.universals, p.indices, p.result[0] == "exit") for p in paths])
    count = s.n if hit is None else hit
    for cont in containers.values():
        if hasattr(cont, "vc_loop"):
            cont.vc_loop(count, i0, [(p, [(op, a) for c2, op, a in p.result[1] if c2 is cont]) for p in normal])
        elif isinstance(cont, Cell):
            mine = [(p, [a[0] for c2, _, a in p.result[1] if c2 is cont]) for p in normal]
            cont.after_loop(count, i0, [(p, vs[-1] if vs else ABSENT) for p, vs in mine])
        else:
            apply_loop_effects(cont, count, i0, normal)
    if hit is not None:
        cb(s.at(hit))
        raise core.Infeasible()  # the witness leaves the loop


def apply_loop_effects(cont: Any, count: Any, i0: Any, normal: list) -> None:
    new_paths = []
    ops = set()
    multi = False
    always = True
    for p in normal:
        mine = [(op, args) for c2, op, args in p.result[1] if c2 is cont]
        if len(mine) > 1:
            multi = True
        for op, _ in mine:
            ops.add(op)
        if mine:
            op, args = mine[0]
            value = args[0] if op in ("append", "add") else tuple(args)
        else:
            value = ABSENT
            always = False
        new_paths.append((p, mine, value))
    if multi or ops & {"segs"}:
        apply_flat(cont, count, i0, [(p, mine) for p, mine, _ in new_paths])
        return
    if len(ops) != 1:
        raise Unsupported("mixed effects on a container")
    op = ops.pop()
    t = TemplSeq(count, i0, [Path(p.conds, p.facts, p.universals, p.indices, value) for p, _, value in new_paths])
    if op == "append":
        apply_segs(cont, [("seq" if always else "filter", t)])
    elif op == "add":
        apply_segs(cont, [("seq" if always else "filter", t)])
    elif op == "put":
        apply_segs(cont, [("seq", t)])
    else:
        raise Unsupported(f"effect {op} in a loop")


def apply_flat(cont: Any, count: Any, i0: Any, new_paths: list) -> None:
    "The iterations contribute different numbers of items."
    paths = []
    for p, mine in new_paths:
        segs: list = []
        for op, args in mine:
            if op == "append" or op == "add":
                segs.append(("item", args[0]))
            elif op == "put":
                segs.append(("put", *args))
            elif op == "segs":
                segs.extend(args[0])
            else:
                raise Unsupported(f"effect {op} in a loop")
        paths.append(Path(p.conds, p.facts, p.universals, p.indices, type(cont)(segs)))
    if not isinstance(cont, (PList, PDict)):
        raise Unsupported("several effects on one set in a loop iteration")
    apply_segs(cont, [("seq", seqs.FlatSeq(TemplSeq(count, i0, paths)))])


def apply_segs(cont: Any, segs: list) -> None:
    if not effect(cont, "segs", segs):
        cont.segs.extend(segs)
        cont.src = None


# ---------------------------------------------------------------- conversions


def resolve(v: Any) -> Any:
    "Determines the kind of a value of unknown kind; forks over the kinds that are possible."

    if not isinstance(v, SV):
        return v
    t = v.t
    c = ctx()
    kinds = core.JSON_KINDS if v.json else core.KINDS
    if v.json:
        seqs.json_fact(t)
    k = kinds[c.decide([core.is_kind(t, k) for k in kinds])]
    return view(t, k, v.json)


def view(t: Any, k: str, json: bool) -> Any:
    if k == "none":
        return None
    if k == "bool":
        return SBool(V.b(t))
    if k == "int":
        return SInt(V.i(t))
    if k == "float":
        return SFloat(V.f(t))
    if k == "str":
        return SStr([V.s(t)])
    if k == "bytes":
        return SBytes(V.y(t))
    if k == "list":
        p = PList([("seq", HandleSeq(V.l(t), json))], src=t)
        p.birth, p.protected = None, ON_VALUE_MODIFIED
        return p
    if k == "tuple":
        return STuple(HandleSeq(V.tl(t), json), src=t)
    if k == "dict":
        d = PDict([("handle", V.d(t), json)], src=t)
        d.birth, d.protected = None, ON_VALUE_MODIFIED
        return d
    if k == "set":
        s = PSet([("handle", V.st(t))], src=t)
        s.birth, s.protected = None, ON_VALUE_MODIFIED
        return s
    if k == "type":
        return TyOpaque(V.ty(t))
    return SObj(None, V.o(t))


_floats: dict[float, Any] = {}


def to_V(x: Any) -> Any:
    "Term for a value."
    if isinstance(x, SV):
        return x.t
    if x is None:
        return V.none
    if isinstance(x, bool):
        return V.bool(z3.BoolVal(x))
    if isinstance(x, enum.Enum):
        return V.obj(obj_const(x))
    if isinstance(x, int):
        return V.int(z3.IntVal(x))
    if isinstance(x, str):
        return V.str(z3.StringVal(x))
    if isinstance(x, float):
        if x not in _floats:
            _floats[x] = z3.Const(f"float:{x}", core.Fl)
        return V.float(_floats[x])
    if isinstance(x, SBool):
        return V.bool(x.t)
    if isinstance(x, SInt):
        return V.int(x.t)
    if isinstance(x, SFloat):
        return V.float(x.t)
    if isinstance(x, SBytes):
        return V.bytes(x.t)
    if isinstance(x, SStr):
        return V.str(x.t)
    if isinstance(x, SObj):
        return V.obj(x.t)
    if isinstance(x, (PList, PDict, PSet, STuple)) and x.src is not None:
        return x.src
    if isinstance(x, SType) or isinstance(x, type):
        t = type_term(x)
        if t is not None:
            return V.type(t)
    raise Unsupported(f"no term for {type(x).__name__}")


_objs: dict[int, Any] = {}
_obj_keep: list = []


def obj_const(x: Any) -> Any:
    if id(x) not in _objs:
        _objs[id(x)] = z3.Const(f"obj:{x!r}:{len(_objs)}", core.Ob)
        _obj_keep.append(x)
    ctx().axiom(("distinct-obj", len(_objs)), lambda: z3.Distinct(*_objs.values()) if len(_objs) > 1 else z3.BoolVal(True))
    return _objs[id(x)]


def to_seq(v: Any) -> Seq:
    v = resolve(v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, PList):
        note_read(v)
        return v.to_seq()
    if isinstance(v, STuple):
        return v.pl.to_seq()
    if isinstance(v, (tuple, list, range, frozenset, set, str)) or type(v).__name__ in ("dict_values", "dict_keys", "dict_items", "mappingproxy") or isinstance(v, (dict, enum.EnumMeta)):
        return ConcSeq(list(v))
    if isinstance(v, LazyGen):
        return materialize(v).to_seq()
    if isinstance(v, PSet):
        out = PList()
        iterate(v, lambda x: list_append(out, x))
        return out.to_seq()
    if isinstance(v, PDict):
        out = PList()
        iterate(v, lambda x: list_append(out, x))
        return out.to_seq()
    if isinstance(v, SStr):
        raise Unsupported("iteration over characters")
    if hasattr(v, "vc_seq"):
        return v.vc_seq()
    if isinstance(v, (Sym,)) or not hasattr(v, "__iter__"):
        if isinstance(v, (SInt, SBool, SFloat, Closure)) or v is None or not isinstance(v, Sym):
            raise PyRaise(ExcVal(TypeError))
        raise Unsupported(f"iteration over {type(v).__name__}")
    if type(v).__module__ == "builtins" or type(v).__module__ in ("enum", "itertools", "collections"):
        return ConcSeq(list(v))
    raise Unsupported(f"iteration over {type(v).__name__}")


def materialize(g: Any) -> PList:
    out = PList()
    iterate(g, lambda x: list_append(out, x))
    return out


def list_append(pl: PList, x: Any) -> None:
    if not effect(pl, "append", x):
        pl.segs.append(("item", x))
        pl.src = None


def set_add(ps: PSet, x: Any) -> None:
    if not effect(ps, "add", x):
        ps.segs.append(("item", x))
        ps.src = None


def dict_put(pd: PDict, k: Any, v: Any) -> None:
    if not effect(pd, "put", k, v):
        for idx, s in enumerate(pd.segs):
            if s[0] == "put" and is_plain(s[1]) and is_plain(k) and type(s[1]) is type(k) and s[1] == k:
                if all(t[0] == "put" and is_plain(t[1]) for t in pd.segs[idx:]):
                    pd.segs[idx] = ("put", k, v)
                    pd.src = None
                    return
        pd.segs.append(("put", k, v))
        pd.src = None


def truth(v: Any) -> bool:
    "Truth value, forking."
    if isinstance(v, (bool, int, str, float, tuple, frozenset, type(None), type, bytes)):
        return bool(v)
    if isinstance(v, SBool):
        return fork(v.t)
    if isinstance(v, SInt):
        return fork(v.t != 0)
    if isinstance(v, SV):
        if fork(V.is_bool(v.t)):
            return fork(V.b(v.t))
        return truth(resolve(v))
    if isinstance(v, SStr):
        if any(isinstance(p, str) or isinstance(p, Digits) for p in v.pieces):
            return True
        if not v.pieces:
            return False
        return fork(z3.Length(v.t) > 0)
    if isinstance(v, PList):
        note_read(v)
        if any(k != "item" and isinstance(q, seqs.FlatSeq) for k, q in v.segs):
            return not is_empty(v)
        return fork(as_int(v.length()) > 0)
    if isinstance(v, STuple):
        return fork(as_int(v.pl.length()) > 0)
    if isinstance(v, (PDict, PSet)):
        note_read(v)
        return not is_empty(v)
    if isinstance(v, (SType, Closure, Model, BoundMethod, ExcVal, LazyGen)):
        return True
    if isinstance(v, Obj):
        m = class_lookup(v.cls, "__bool__")
        if m is None:
            m = class_lookup(v.cls, "__len__")
        if m is None:
            return True
        return truth(call(BoundMethod(m, v), [], {}))
    if isinstance(v, SFloat):
        raise Unsupported("truth of float")
    if isinstance(v, SBytes):
        return fork(core.z3.Function("bytes_nonempty", core.By, z3.BoolSort())(v.t))
    if hasattr(v, "vc_truth"):
        return v.vc_truth()
    if isinstance(v, SObj):
        return True
    if not isinstance(v, Sym):
        return bool(v)
    raise Unsupported(f"truth of {type(v).__name__}")


def is_empty(v: Any) -> bool:
    for s in v.segs:
        if s[0] in ("put", "item"):
            return False
        if s[0] == "handle":
            n = core.dict_len(s[1]) if isinstance(v, PDict) else core.set_len(s[1])
            ctx().axiom(("len", s[1]), lambda: n >= 0)
            if fork(n > 0):
                return False
        else:
            seq = s[1]
            if isinstance(seq, seqs.FlatSeq):
                seq = seqs.FnSeq(seq.parts.n, lambda j, q=seq.parts: ABSENT if is_empty(q.at(j)) else True)
            k = seqs.find_first(seq.n, lambda j: seq.at(j) is not ABSENT)
            if k is not None:
                return False
            if not isinstance(seq.n, int):
                ctx().add_index(z3.IntVal(0))
                if not ctx().feasible():
                    raise core.Infeasible()
    return True


def kind_of(v: Any) -> Optional[str]:
    "Kind of a value that is statically known."
    if v is None:
        return "none"
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, enum.Enum):
        return "obj"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, (float, SFloat)):
        return "float"
    if isinstance(v, (str, SStr)):
        return "str"
    if isinstance(v, (bytes, SBytes)):
        return "bytes"
    if isinstance(v, (list, PList)):
        return "list"
    if isinstance(v, (tuple, STuple)):
        return "tuple"
    if isinstance(v, (dict, PDict)):
        return "dict"
    if isinstance(v, (set, PSet)):
        return "set"
    if isinstance(v, (SType, type)):
        return "type"
    if isinstance(v, SV):
        return None
    return "obj"


_generic_eq = z3.Function("py_eq", V, V, z3.BoolSort())


def pyeq(a: Any, b: Any) -> Any:
    "Condition for `a == b` in Python (a boolean or a term)."

    if a is b and not isinstance(a, (SFloat, float)):
        return True
    if hasattr(a, "vc_eq"):
        return a.vc_eq(b)
    if hasattr(b, "vc_eq"):
        return b.vc_eq(a)
    if is_plain(a) and is_plain(b):
        return a == b
    if a is dataclasses.MISSING or b is dataclasses.MISSING:
        return False
    if isinstance(a, (SType, type)) or isinstance(b, (SType, type)):
        if isinstance(a, SV):
            a, b = b, a
        if isinstance(b, SV):
            tt = type_term(a)
            return False if tt is None else z3.And(V.is_type(b.t), V.ty(b.t) == tt)
        if isinstance(a, (SType, type)) and isinstance(b, (SType, type)):
            return type_eq(a, b)
        return False
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None:
        if ka is not None:
            a, b, ka, kb = b, a, kb, ka
        # a is of unknown kind
        ta = a.t
        if kb is None:
            tb = b.t
            return z3.Or(ta == tb, z3.And(num_like(ta), num_like(tb), num_eq(ta, tb)), z3.And(composite(ta), composite(tb), _generic_eq(ta, tb)))
        if kb == "none":
            return V.is_none(ta)
        if kb == "str":
            return z3.And(V.is_str(ta), V.s(ta) == str_term(b))
        if kb == "bytes":
            return z3.And(V.is_bytes(ta), V.y(ta) == b.t)
        if kb in ("bool", "int", "float"):
            tb = to_V(b)
            return z3.And(num_like(ta), num_eq(ta, tb))
        if kb == "obj":
            return z3.And(V.is_obj(ta), ta == to_V(b))
        b2 = to_V(b)
        return z3.Or(ta == b2, z3.And(core.is_kind(ta, kb), _generic_eq(ta, b2)))
    num = ("bool", "int", "float")
    if ka in num and kb in num:
        if ka != "float" and kb != "float":
            return as_int(a) == as_int(b)
        return num_eq(to_V(a), to_V(b))
    if ka != kb:
        return False
    if ka == "str":
        return str_eq(a, b)
    if ka == "none":
        return True
    if ka == "bytes":
        return a.t == b.t
    if ka == "obj":
        if isinstance(a, (Closure, Model, BoundMethod, Obj, LazyGen)) or isinstance(b, (Closure, Model, BoundMethod, Obj, LazyGen)):
            if isinstance(a, Obj) and isinstance(b, Obj):
                if a.cls is not b.cls:
                    return False
                if dataclasses.is_dataclass(a.cls):
                    fs = [f.name for f in dataclasses.fields(a.cls) if f.compare]
                    return z3.And(*[as_bool(pyeq(a.attrs[n], b.attrs[n])) for n in fs])
            if isinstance(a, (Closure, BoundMethod, LazyGen)) or isinstance(b, (Closure, BoundMethod, LazyGen)):
                raise Unsupported("comparison of functions")
            return False
        return to_V(a) == to_V(b)
    if ka == "tuple" and isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return z3.And(*[as_bool(pyeq(x, y)) for x, y in zip(a, b)]) if a else True
    if ka in ("list", "tuple"):
        sa, sb = to_seq(a), to_seq(b)
        if not fork(as_int(sa.n) == as_int(sb.n)):
            return False
        k = seqs.find_first(sa.n, lambda j: not truth_of(pyeq(sa.at(j), sb.at(j))))
        return k is None
    raise Unsupported(f"== on {ka}")


def truth_of(c: Any) -> bool:
    return c if isinstance(c, bool) else fork(c)


def composite(t: Any) -> Any:
    return z3.Or(V.is_list(t), V.is_tuple(t), V.is_dict(t), V.is_set(t), V.is_obj(t))


def num_like(t: Any) -> Any:
    return z3.Or(V.is_bool(t), V.is_int(t), V.is_float(t))


def int_of(t: Any) -> Any:
    return z3.If(V.is_bool(t), z3.If(V.b(t), z3.IntVal(1), z3.IntVal(0)), V.i(t))


def num_eq(a: Any, b: Any) -> Any:
    return z3.If(
        V.is_float(a),
        z3.If(V.is_float(b), V.f(a) == V.f(b), core.feq_int(V.f(a), int_of(b))),
        z3.If(V.is_float(b), core.feq_int(V.f(b), int_of(a)), int_of(a) == int_of(b)),
    )


def str_term(s: Any) -> Any:
    return z3.StringVal(s) if isinstance(s, str) else s.t


def str_eq(a: Any, b: Any) -> Any:
    pa = [a] if isinstance(a, str) else a.pieces
    pb = [b] if isinstance(b, str) else b.pieces
    if len(pa) == len(pb) and any(isinstance(p, Digits) for p in pa):
        conds = []
        for x, y in zip(pa, pb):
            if isinstance(x, Digits) and isinstance(y, Digits) and (x.length == y.length) and x.shortest == y.shortest and (x.length is not None or x.shortest):
                conds.append(as_int(x.value) == as_int(y.value))
            elif isinstance(x, str) and isinstance(y, str):
                if x != y:
                    raise Unsupported("comparison of digit strings")
            elif z3.is_expr(x) and z3.is_expr(y):
                conds.append(x == y)
            else:
                raise Unsupported("comparison of digit strings")
        return z3.And(*conds)
    if any(isinstance(p, Digits) for p in pa) and isinstance(b, str) or any(isinstance(p, Digits) for p in pb) and isinstance(a, str):
        lit, pcs = (b, pa) if isinstance(b, str) else (a, pb)
        if lit == "":
            return False
        raise Unsupported("comparison of digit strings")
    return str_term(a) == str_term(b)


def is_plain(v: Any) -> bool:
    "True if the value contains nothing symbolic."
    if v is None or isinstance(v, (bool, int, float, str, bytes, type)):
        return True
    if isinstance(v, Sym):
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(is_plain(x) for x in v)
    if isinstance(v, dict):
        return all(is_plain(k) and is_plain(x) for k, x in v.items())
    return True


def to_plain(v: Any) -> Any:
    "Turns a container without symbolic content into a real one."
    if isinstance(v, PList):
        its = v.items()
        if its is None:
            raise Unsupported("symbolic list in a plain context")
        return [to_plain(x) for x in its]
    if isinstance(v, STuple):
        its = v.pl.items()
        if its is None:
            raise Unsupported("symbolic tuple in a plain context")
        return tuple(to_plain(x) for x in its)
    if isinstance(v, PDict):
        if any(s[0] != "put" for s in v.segs):
            raise Unsupported("symbolic dict in a plain context")
        return {to_plain(s[1]): to_plain(s[2]) for s in v.segs}
    if isinstance(v, PSet):
        if any(s[0] != "item" for s in v.segs):
            raise Unsupported("symbolic set in a plain context")
        return {to_plain(s[1]) for s in v.segs}
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(to_plain(x) for x in v)
    if isinstance(v, SStr) and all(isinstance(p, str) for p in v.pieces):
        return "".join(v.pieces)
    if isinstance(v, LazyGen):
        return to_plain(materialize(v))
    if isinstance(v, Sym):
        raise Unsupported(f"symbolic {type(v).__name__} in a plain context")
    return v


# ---------------------------------------------------------------- attributes


def class_lookup(cls: type, name: str) -> Any:
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def bind(attr: Any, obj: Any, cls: type) -> Any:
    if isinstance(attr, types.FunctionType):
        return BoundMethod(attr, obj)
    if isinstance(attr, property):
        return call(attr.fget, [obj], {})
    if isinstance(attr, staticmethod):
        return attr.__func__
    if isinstance(attr, classmethod):
        return BoundMethod(attr.__func__, cls)
    if hasattr(attr, "vc_bind"):
        return attr.vc_bind(obj)
    if type(attr).__name__ == "singledispatchmethod":
        disp = attr

        def run(*args: Any, **kw: Any) -> Any:
            key = args[0]
            c = key.cls if isinstance(key, Obj) else type(key)
            if isinstance(key, (SObj, SV, SType)):
                raise Unsupported("dispatch on symbolic class")
            return call(BoundMethod(disp.dispatcher.dispatch(c), obj), list(args), kw)

        return Model(run, "singledispatch")
    if type(attr).__name__ == "cached_property":
        v = call(attr.func, [obj], {})
        obj.attrs[attr.attrname] = v
        return v
    return attr


FIELD_CLASSES: list = []  # immutable data classes with members of basic types
_FIELD_SORTS = {"int": (z3.IntSort(), SInt), "str": (z3.StringSort(), lambda t: SStr([t])), "bool": (z3.BoolSort(), SBool)}


def object_field(obj: Any, name: str) -> Any:
    "Member of an arbitrary instance of an immutable data class: a function of the instance."
    from .models import isinst
    from .types_ import ty_const

    for c in FIELD_CLASSES:
        hint = c.__annotations__.get(name)
        prop = class_lookup(c, name)
        if hint is None and not isinstance(prop, property):
            continue
        if obj.cls is not c and not ctx().implied(isinst(obj.t, ty_const(c))):
            continue
        if hint is None:
            return call(prop.fget, [obj], {})
        sort, make = _FIELD_SORTS[hint if isinstance(hint, str) else hint.__name__]
        return make(z3.Function(f"{c.__name__}.{name}", core.Ob, sort)(obj.t))
    return NotImplemented


def getattr_(obj: Any, name: str) -> Any:
    if isinstance(obj, SV):
        obj = resolve(obj)
    if isinstance(obj, Obj):
        if name in obj.attrs:
            return obj.attrs[name]
        if name == "__class__":
            return obj.cls
        if name == "__dict__":
            return PDict([("put", k, v) for k, v in obj.attrs.items()])
        a = class_lookup(obj.cls, name)
        if a is None and not any(name in k.__dict__ for k in obj.cls.__mro__):
            raise PyRaise(ExcVal(AttributeError))
        return bind(a, obj, obj.cls)
    if isinstance(obj, SObj) and isinstance(obj.cls, ClassSym) and "getattr" in obj.cls.traits and not name.startswith("__"):
        return obj.cls.traits["getattr"](obj, name)
    if isinstance(obj, SObj) and (obj.cls is None or obj.cls in FIELD_CLASSES):
        r = object_field(obj, name)
        if r is not NotImplemented:
            return r
    if hasattr(obj, "vc_getattr") and isinstance(obj, Sym):
        r = obj.vc_getattr(name)
        if r is not NotImplemented:
            return r
    k = model_kind(obj)
    if name in MUTATORS:
        touch(obj)
    m = METHOD_MODELS.get((k, name))
    if m is not None:
        return Model(lambda *a, **kw: m(obj, *a, **kw), f"{k}.{name}")
    m = METHOD_MODELS.get((k, "*"))
    if m is not None:
        r = m(obj, name)
        if r is not NotImplemented:
            return r
    if not isinstance(obj, Sym):
        try:
            r = getattr(obj, name)
        except AttributeError:
            raise PyRaise(ExcVal(AttributeError)) from None
        if isinstance(obj, tuple) and not is_plain(obj) and callable(r):
            return Model(lambda *a: _tuple_method(obj, name, a), name)
        if isinstance(obj, (dict, list, set)) and type(obj).__module__ == "builtins" and callable(r):
            return Model(lambda *a, **kw: _native_container(obj, name, r, a, kw), name)
        if isinstance(obj, str) and callable(r) and (k2 := METHOD_MODELS.get(("str", name))) is not None:
            return Model(lambda *a, **kw: k2(obj, *a, **kw) if not all(is_plain(x) for x in a) else r(*a, **kw), name)
        return r
    if isinstance(obj, (SBool, SInt, SFloat, SStr, SBytes, PList, PDict, PSet, STuple)) or obj is None:
        real = {"bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "list": list, "dict": dict, "set": set, "tuple": tuple}[k]
        if not hasattr(real, name):
            raise PyRaise(ExcVal(AttributeError))
        if name == "__class__":
            return real
    raise Unsupported(f"attribute {name} of {type(obj).__name__}")


MUTATORS = {"append", "extend", "add", "update", "pop", "popitem", "clear", "remove", "discard", "insert", "setdefault", "sort", "reverse"}


def _native_container(obj: Any, name: str, r: Any, a: tuple, kw: dict) -> Any:
    if name in MUTATORS:
        raise Unsupported("mutation of a module-level container")
    if all(is_plain(x) for x in a):
        return r(*a, **kw)
    if name == "get" and isinstance(obj, dict):
        key = a[0]
        for k, v in obj.items():
            if truth_of(pyeq(k, key)):
                return v
        return a[1] if len(a) > 1 else None
    raise Unsupported(f"{name} on a module-level container with symbolic argument")


def _tuple_method(obj: tuple, name: str, a: tuple) -> Any:
    if name == "index":
        for k, x in enumerate(obj):
            if truth_of(pyeq(x, a[0])):
                return k
        raise_py(ValueError)
    if name == "count":
        return sum(1 for x in obj if truth_of(pyeq(x, a[0])))
    raise Unsupported(f"tuple.{name}")


def model_kind(obj: Any) -> str:
    if isinstance(obj, SObj):
        return "obj:" + (obj.cls.__name__ if isinstance(obj.cls, type) else "?")
    if isinstance(obj, ClassSym):
        return "class"
    if isinstance(obj, SType):
        return type(obj).__name__
    if isinstance(obj, (SBool, SInt, SFloat, SStr, SBytes, PList, PDict, PSet, STuple)):
        return kind_of(obj) or "?"
    if isinstance(obj, Sym):
        return type(obj).__name__
    return "re.Pattern" if isinstance(obj, re.Pattern) else "native"


def setattr_(obj: Any, name: Any, value: Any) -> None:
    touch(obj)
    if isinstance(obj, Obj):
        if not isinstance(name, str):
            raise Unsupported("symbolic attribute name")
        if ctx().recorder is not obj.birth:
            raise Unsupported("assignment to a member of an outer object in a loop")
        if obj.cls.__dict__.get("__dataclass_params__") is not None and obj.cls.__dataclass_params__.frozen:
            raise_py(dataclasses.FrozenInstanceError)
        obj.attrs[name] = value
        return
    if isinstance(obj, NewObj):
        if isinstance(obj.cls, ClassSym) and obj.cls.traits.get("frozen"):
            raise_py(dataclasses.FrozenInstanceError)
        dict_put(obj.attrs, name, value)
        return
    if hasattr(obj, "vc_setattr"):
        obj.vc_setattr(name, value)
        return
    raise Unsupported(f"setattr on {type(obj).__name__}")


# ---------------------------------------------------------------- calls


def call(fn: Any, args: list, kwargs: dict) -> Any:
    if isinstance(fn, BoundMethod):
        return call(fn.fn, [fn.self_] + list(args), kwargs)
    if isinstance(fn, Model):
        return fn.fn(*args, **kwargs)
    if CALL_HOOK is not None and (isinstance(fn, Closure) or is_verified(fn)):
        return CALL_HOOK(fn, list(args), kwargs)
    return call_function(fn, args, kwargs)


CALL_HOOK: Optional[Callable] = None  # contract of a recursive function of the current obligation


def call_function(fn: Any, args: list, kwargs: dict) -> Any:
    if isinstance(fn, Closure):
        return run_function(fn.node, fn.env, fn.env.globals, args, kwargs, fn.defaults, fn.kwdefaults, fn.name, None)
    if isinstance(fn, types.MethodType):
        f = fn.__func__
        if is_verified(f) or f in CONTRACTS:
            return call(f, [fn.__self__] + list(args), kwargs)
    try:
        contract = CONTRACTS.get(fn)
    except TypeError:
        contract = None
    if contract is not None:
        r = contract(*args, **kwargs)
        if r is not NotImplemented:
            CONTRACT_TRACE.add(qualname(fn))
            return r
    if is_verified(fn):
        TRACE.add(qualname(fn))
        env = Env(None, fn.__globals__)
        if fn.__closure__:
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    env.vars[nm] = cell.cell_contents
                except ValueError:
                    pass
        return run_function(
            SOURCES.node(fn), env, fn.__globals__, args, kwargs,
            list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), fn.__name__, fn,
        )
    try:
        m = MODELS.get(fn)
    except TypeError:
        m = None
    if m is not None:
        r = m(*args, **kwargs)
        if r is not NotImplemented:
            MODEL_TRACE.add(qualname(fn))
            return r
    if isinstance(fn, type):
        return instantiate(fn, args, kwargs)
    if isinstance(fn, ClassSym):
        return NewObj_from_class(fn, args, kwargs)
    if isinstance(fn, Sym):
        if hasattr(fn, "vc_call"):
            return fn.vc_call(args, kwargs)
        if fn is None or isinstance(fn, (SInt, SBool, SStr, PList, PDict)):
            raise PyRaise(ExcVal(TypeError))
        raise Unsupported(f"call of {type(fn).__name__}")
    if not callable(fn):
        raise PyRaise(ExcVal(TypeError))
    # library function on plain values
    pa = [to_plain(a) for a in args]
    pk = {k: to_plain(v) for k, v in kwargs.items()}
    mod = getattr(fn, "__module__", None) or getattr(getattr(fn, "__self__", None), "__module__", None)
    MODEL_TRACE.add(qualname(fn) + " (native)")
    try:
        return from_native(fn(*pa, **pk))
    except Exception as ex:
        raise PyRaise(ExcVal(type(ex))) from None


def from_native(v: Any) -> Any:
    if type(v) is list:
        return PList.of(from_native(x) for x in v)
    if type(v) is dict:
        return PDict([("put", k, from_native(x)) for k, x in v.items()])
    if type(v) is set:
        return PSet([("item", x) for x in v])
    return v


def NewObj_from_class(cls: ClassSym, args: list, kwargs: dict) -> Any:
    ctor = cls.traits.get("construct")
    if ctor is not None:
        return ctor(cls, args, kwargs)
    raise Unsupported("construction of a symbolic class")


def instantiate(cls: type, args: list, kwargs: dict) -> Any:
    if issubclass(cls, BaseException):
        return ExcVal(cls)
    verified = any((sys.modules.get(cls.__module__) is not None) and str(getattr(sys.modules[cls.__module__], "__file__", "")).startswith(r) for r in VERIFIED_ROOTS)
    if verified and not issubclass(cls, enum.Enum):
        init = class_lookup(cls, "__init__")
        obj = Obj(cls)
        if isinstance(init, types.FunctionType) and is_verified(init):
            call(init, [obj] + list(args), kwargs)
            return obj
        if dataclasses.is_dataclass(cls):
            fields = [f for f in dataclasses.fields(cls) if f.init]
            if len(args) > len(fields):
                raise PyRaise(ExcVal(TypeError))
            vals = dict(zip((f.name for f in fields), args))
            for k, v in kwargs.items():
                if k in vals or k not in {f.name for f in fields}:
                    raise PyRaise(ExcVal(TypeError))
                vals[k] = v
            for f in fields:
                if f.name not in vals:
                    if f.default is not dataclasses.MISSING:
                        vals[f.name] = f.default
                    elif f.default_factory is not dataclasses.MISSING:
                        vals[f.name] = call(f.default_factory, [], {})
                    else:
                        raise PyRaise(ExcVal(TypeError))
            obj.attrs.update((f.name, vals[f.name]) for f in fields)
            return obj
        if init is None or init is object.__init__ or init is typing.Generic.__init__ or not isinstance(init, types.FunctionType):
            if args or kwargs:
                raise PyRaise(ExcVal(TypeError))
            return obj
        raise Unsupported(f"construction of {cls.__name__}")
    if cls is object:
        return Obj(object)
    pa = [to_plain(a) for a in args]
    pk = {k: to_plain(v) for k, v in kwargs.items()}
    try:
        return from_native(cls(*pa, **pk))
    except Unsupported:
        raise
    except Exception as ex:
        raise PyRaise(ExcVal(type(ex))) from None


def bind_args(a: ast.arguments, args: list, kwargs: dict, defaults: list, kwdefaults: dict, env: Env) -> None:
    names = [x.arg for x in a.posonlyargs + a.args]
    pos_only = {x.arg for x in a.posonlyargs}
    starkw = kwargs.pop("**", None) if "**" in kwargs else None
    vals: dict[str, Any] = {}
    if len(args) > len(names):
        if a.vararg is None:
            raise PyRaise(ExcVal(TypeError))
        env.vars[a.vararg.arg] = tuple(args[len(names):])
        args = args[: len(names)]
    elif a.vararg is not None:
        env.vars[a.vararg.arg] = ()
    for n, v in zip(names, args):
        vals[n] = v
    extra: dict[str, Any] = {}
    kwonly = {x.arg for x in a.kwonlyargs}
    for k, v in kwargs.items():
        if k in kwonly or (k in names and k not in pos_only):
            if k in vals:
                raise PyRaise(ExcVal(TypeError))
            vals[k] = v
        elif a.kwarg is not None:
            extra[k] = v
        else:
            raise PyRaise(ExcVal(TypeError))
    ndef = len(defaults)
    for idx, n in enumerate(names):
        if n not in vals:
            d = idx - (len(names) - ndef)
            if d >= 0:
                vals[n] = defaults[d]
            elif starkw is not None:
                raise Unsupported("parameter taken from symbolic keyword arguments")
            else:
                raise PyRaise(ExcVal(TypeError))
    for x in a.kwonlyargs:
        if x.arg not in vals:
            if x.arg in kwdefaults:
                vals[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(ExcVal(TypeError))
    if a.kwarg is not None:
        if starkw is not None:
            if extra:
                raise Unsupported("mixed keyword arguments")
            env.vars[a.kwarg.arg] = starkw
        else:
            env.vars[a.kwarg.arg] = PDict([("put", k, v) for k, v in extra.items()])
    elif starkw is not None:
        raise Unsupported("symbolic keyword arguments for plain parameters")
    env.vars.update(vals)


def has_yield(node: Any) -> bool:
    class F(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n: Any) -> None:
            self.found = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n: Any) -> None:
            pass

        visit_Lambda = visit_FunctionDef
        visit_GeneratorExp = visit_FunctionDef

    if not hasattr(node, "_has_yield"):
        f = F()
        for b in node.body:
            f.visit(b)
        node._has_yield = f.found
    return node._has_yield


def run_function(node: Any, parent: Optional[Env], globals_: dict, args: list, kwargs: dict, defaults: list, kwdefaults: dict, name: str, fn: Any) -> Any:
    global _depth
    env = Env(parent, globals_, node)
    env.birth = ctx().recorder  # type: ignore
    bind_args(node.args, list(args), dict(kwargs), defaults, kwdefaults, env)
    env.first_arg = next(iter([x.arg for x in node.args.posonlyargs + node.args.args]), None)  # type: ignore
    if isinstance(node, ast.Lambda):
        _depth += 1
        try:
            if _depth > MAX_DEPTH:
                raise Unsupported("recursion too deep")
            return Interp(env).eval(node.body)
        finally:
            _depth -= 1
    if has_yield(node):

        def run(cb: Callable[[Any], None]) -> None:
            it = Interp(env)
            it.on_yield = cb
            try:
                it.exec_block(node.body)
            except ReturnSig:
                pass

        return LazyGen(run)
    _depth += 1
    if _depth > MAX_DEPTH:
        _depth -= 1
        raise Unsupported("recursion too deep")
    try:
        Interp(env).exec_block(node.body)
        return None
    except ReturnSig as r:
        return r.value
    finally:
        _depth -= 1


def assigned_names(body: list) -> tuple:
    "Names that are assigned to, and those that are the target of augmented assignments only."
    out: set[str] = set()
    augmented: set[str] = set()

    class F(ast.NodeVisitor):
        def visit_Name(self, n: Any) -> None:
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_AugAssign(self, n: Any) -> None:
            if isinstance(n.target, ast.Name):
                augmented.add(n.target.id)
            else:
                self.visit(n.target)
            self.visit(n.value)

        def visit_FunctionDef(self, n: Any) -> None:
            out.add(n.name)

        def visit_Lambda(self, n: Any) -> None:
            pass

        def visit_ListComp(self, n: Any) -> None:
            # walrus in comprehension binds outside
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n: Any) -> None:
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    f = F()
    for b in body:
        f.visit(b)
    return out, augmented - out


def updated_in_place(x: Any) -> bool:
    "Whether this is a container that an augmented assignment modifies rather than replaces."
    return isinstance(x, (PList, PSet, PDict)) or getattr(x, "in_place", False)


class Interp:
    def __init__(self, env: Env):
        self.env = env
        self.on_yield: Optional[Callable[[Any], None]] = None
        self.current_exc: Optional[ExcVal] = None

    # ------------------------------------------------------------ statements

    def exec_block(self, body: list) -> None:
        for st in body:
            self.exec(st)

    def exec(self, st: Any) -> None:
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st)

    def s_Expr(self, st: Any) -> None:
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def s_Pass(self, st: Any) -> None:
        pass

    def s_Return(self, st: Any) -> None:
        raise ReturnSig(self.eval(st.value) if st.value is not None else None)

    def s_Break(self, st: Any) -> None:
        raise BreakSig()

    def s_Continue(self, st: Any) -> None:
        raise ContinueSig()

    def s_If(self, st: Any) -> None:
        if truth(self.eval(st.test)):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def s_Assert(self, st: Any) -> None:
        if not truth(self.eval(st.test)):
            raise_py(AssertionError)

    def s_Assign(self, st: Any) -> None:
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st: Any) -> None:
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    @staticmethod
    def update_in_place(op: Any, cur: Any, rhs: Any) -> bool:
        "Modifies a container that an augmented assignment does not replace."
        if isinstance(op, ast.Add) and isinstance(cur, PList):
            iterate(rhs, lambda x: list_append(cur, x))
            return True
        if isinstance(op, ast.BitOr) and not isinstance(cur, PList) and updated_in_place(cur):
            call(getattr_(cur, "update"), [rhs], {})
            return True
        return False

    def s_AugAssign(self, st: Any) -> None:
        if isinstance(st.target, ast.Name):
            cur = self.env.lookup(st.target.id)
            rhs = self.eval(st.value)
            if self.update_in_place(st.op, cur, rhs):
                return
            self.env.assign(st.target.id, binop(st.op, cur, rhs))
            return
        if isinstance(st.target, ast.Attribute):
            obj = self.eval(st.target.value)
            cur = getattr_(obj, st.target.attr)
            setattr_(obj, st.target.attr, binop(st.op, cur, self.eval(st.value)))
            return
        obj = self.eval(st.target.value)
        key = self.eval(st.target.slice)
        cur = getitem(obj, key)
        rhs = self.eval(st.value)
        if not self.update_in_place(st.op, cur, rhs):
            setitem(obj, key, binop(st.op, cur, rhs))

    def s_Delete(self, st: Any) -> None:
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.env.assign(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                delitem(self.eval(t.value), self.eval(t.slice))
            else:
                raise Unsupported("del")

    def s_Global(self, st: Any) -> None:
        self.env.global_names.update(st.names)

    def s_Nonlocal(self, st: Any) -> None:
        self.env.nonlocal_names.update(st.names)

    def s_Import(self, st: Any) -> None:
        raise Unsupported("import in function")

    def s_ImportFrom(self, st: Any) -> None:
        raise Unsupported("import in function")

    def s_FunctionDef(self, st: Any) -> None:
        if st.decorator_list:
            raise Unsupported("decorated local function")
        self.env.assign(st.name, self.closure(st, st.name))

    def closure(self, node: Any, name: str) -> Closure:
        defaults = [self.eval(d) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return Closure(node, self.env, name, defaults, kwd, None)

    def s_Raise(self, st: Any) -> None:
        if st.exc is None:
            if self.current_exc is None:
                raise Unsupported("bare raise")
            raise PyRaise(self.current_exc)
        e = st.exc
        if isinstance(e, ast.Call):
            # arguments of the exception (the message) are not evaluated
            cls = self.eval(e.func)
            if isinstance(cls, type) and issubclass(cls, BaseException):
                raise PyRaise(ExcVal(cls))
        v = self.eval(e)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(ExcVal(v))
        if isinstance(v, ExcVal):
            raise PyRaise(v)
        raise Unsupported("raise of a computed value")

    def s_Try(self, st: Any) -> None:
        try:
            try:
                self.exec_block(st.body)
            except PyRaise as ex:
                self.handle(st, ex)
            else:
                self.exec_block(st.orelse)
        finally:
            et = sys.exc_info()[0]
            if st.finalbody and (et is None or issubclass(et, CONTROL + (ContinueSig,))):
                self.exec_block(st.finalbody)

    def handle(self, st: Any, ex: PyRaise) -> None:
        for h in st.handlers:
            if h.type is None:
                matches = True
            else:
                matches = exc_matches(ex.exc, self.eval(h.type))
            if matches:
                if h.name:
                    self.env.assign(h.name, ex.exc)
                saved, self.current_exc = self.current_exc, ex.exc
                try:
                    self.exec_block(h.body)
                finally:
                    self.current_exc = saved
                return
        raise ex

    def s_For(self, st: Any) -> None:
        it = self.eval(st.iter)
        names, augmented = assigned_names(st.body)
        names = names | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        # an augmented assignment to a container modifies it in place
        names |= {n for n in augmented if not updated_in_place(self.env.vars.get(n))}
        broke = False
        symbolic = is_symbolic_iter(it)
        cells = {n: Cell(self.env.vars[n]) for n in names if n in self.env.vars} if symbolic else {}

        def cb(x: Any) -> None:
            if symbolic:
                for n in names:
                    acc = getattr(cells[n].value, "vc_accumulator", None) if n in cells else None
                    self.env.vars[n] = acc() if acc is not None else POISON
            self.assign(st.target, x)
            try:
                self.exec_block(st.body)
            except ContinueSig:
                pass
            for n, cell in cells.items():
                if self.env.vars[n] is not POISON:
                    cell.assign(self.env.vars[n])

        try:
            iterate(it, cb)
        except BreakSig:
            broke = True
        if symbolic:
            for n in names:
                if not broke or self.env.vars[n] is POISON:
                    self.env.vars[n] = cells[n].value if n in cells else POISON
        if not broke:
            self.exec_block(st.orelse)

    def s_While(self, st: Any) -> None:
        if WHILE is not None and WHILE(self, st):
            return
        for _ in range(200):
            if not truth(self.eval(st.test)):
                self.exec_block(st.orelse)
                return
            try:
                self.exec_block(st.body)
            except ContinueSig:
                pass
            except BreakSig:
                return
        raise Unsupported("unbounded while loop")

    def s_With(self, st: Any) -> None:
        raise Unsupported("with")

    def assign(self, t: Any, v: Any) -> None:
        if isinstance(t, ast.Name):
            self.env.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                items = to_seq(v).concrete()
                k = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
                after = len(t.elts) - k - 1
                if items is None:
                    if after:
                        raise Unsupported("starred assignment")
                    s = to_seq(v)
                    if not fork(as_int(s.n) >= k):
                        raise_py(ValueError)
                    for i, x in enumerate(t.elts[:k]):
                        self.assign(x, s.at(i))
                    rest = PList([])
                    iterate(slice_seq(v, slice(k, None)), lambda x: list_append(rest, x))
                    self.assign(t.elts[k].value, rest)
                    return
                if len(items) < len(t.elts) - 1:
                    raise_py(ValueError)
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y)
                self.assign(t.elts[k].value, PList.of(items[k : len(items) - after]))
                for x, y in zip(t.elts[k + 1 :], items[len(items) - after :]):
                    self.assign(x, y)
                return
            s = to_seq(v)
            if isinstance(s.n, int):
                if s.n != len(t.elts):
                    raise_py(ValueError)
            elif not fork(as_int(s.n) == len(t.elts)):
                raise_py(ValueError)
            for k, x in enumerate(t.elts):
                self.assign(x, s.at(k))
        elif isinstance(t, ast.Attribute):
            setattr_(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            setitem(self.eval(t.value), self.eval(t.slice), v)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------ expressions

    def eval(self, e: Any) -> Any:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e: Any) -> Any:
        return e.value

    def e_Name(self, e: Any) -> Any:
        return self.env.lookup(e.id)

    def e_NamedExpr(self, e: Any) -> Any:
        v = self.eval(e.value)
        env = self.env
        while getattr(env, "comp", False):
            env = env.parent  # type: ignore
        env.assign(e.target.id, v)
        return v

    def e_Tuple(self, e: Any) -> Any:
        return self.seq_display(e.elts, True)

    def e_List(self, e: Any) -> Any:
        return self.seq_display(e.elts, False)

    def seq_display(self, elts: list, tup: bool) -> Any:
        if not any(isinstance(x, ast.Starred) for x in elts):
            items = [self.eval(x) for x in elts]
            return tuple(items) if tup else PList.of(items)
        out = PList()
        for x in elts:
            if isinstance(x, ast.Starred):
                append_all(out, self.eval(x.value))
            else:
                list_append(out, self.eval(x))
        if tup:
            its = out.items()
            return tuple(its) if its is not None else STuple(out)
        return out

    def e_Set(self, e: Any) -> Any:
        s = PSet()
        for x in e.elts:
            set_add(s, self.eval(x))
        return s

    def e_Dict(self, e: Any) -> Any:
        d = PDict() if e.keys or NEW_DICT is None else NEW_DICT()
        for k, v in zip(e.keys, e.values):
            if k is None:
                call(getattr_(d, "update"), [self.eval(v)], {})
            else:
                kk = self.eval(k)
                dict_put(d, kk, self.eval(v))
        return d

    def e_JoinedStr(self, e: Any) -> Any:
        pieces: list = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                pieces.append(v.value)
            else:
                x = self.eval(v.value)
                spec = ""
                if v.format_spec is not None:
                    sp = self.e_JoinedStr(v.format_spec)
                    if not isinstance(sp, str):
                        raise Unsupported("computed format")
                    spec = sp
                if v.conversion == 114:
                    x = call(repr, [x], {})
                pieces.extend(format_value(x, spec))
        s = SStr(pieces)
        if all(isinstance(p, str) for p in s.pieces):
            return "".join(s.pieces)
        return s

    def e_UnaryOp(self, e: Any) -> Any:
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not truth(v)
        if is_plain(v):
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v)
        v = resolve(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (SInt, SBool)):
                return SInt(z3.simplify(-as_int(v)))
            m = METHOD_MODELS.get((model_kind(v), "__neg__"))
            if m is not None:
                return m(v)
        raise Unsupported("unary operator")

    def e_BoolOp(self, e: Any) -> Any:
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x)
            if k == len(e.values) - 1:
                return v
            t = truth(v)
            if isinstance(v, (SBool,)):
                v = t
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_IfExp(self, e: Any) -> Any:
        return self.eval(e.body) if truth(self.eval(e.test)) else self.eval(e.orelse)

    def e_BinOp(self, e: Any) -> Any:
        return binop(e.op, self.eval(e.left), self.eval(e.right))

    def e_Compare(self, e: Any) -> Any:
        left = self.eval(e.left)
        res: Any = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r)
            res = compare(op, left, right)
            if k < len(e.ops) - 1:
                if not truth(res):
                    return False
            left = right
        return res

    def e_Attribute(self, e: Any) -> Any:
        return getattr_(self.eval(e.value), e.attr)

    def e_Subscript(self, e: Any) -> Any:
        return getitem(self.eval(e.value), self.eval(e.slice))

    def e_Slice(self, e: Any) -> Any:
        return slice(*[self.eval(x) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Lambda(self, e: Any) -> Any:
        return self.closure(e, "<lambda>")

    def e_Yield(self, e: Any) -> Any:
        v = self.eval(e.value) if e.value is not None else None
        if self.on_yield is None:
            raise Unsupported("yield")
        self.on_yield(v)
        return None

    def e_YieldFrom(self, e: Any) -> Any:
        if self.on_yield is None:
            raise Unsupported("yield")
        iterate(self.eval(e.value), self.on_yield)
        return None

    def e_Starred(self, e: Any) -> Any:
        raise Unsupported("starred")

    def comp_env(self) -> "Interp":
        env = Env(self.env, self.env.globals, self.env.func)
        env.comp = True  # type: ignore
        env.birth = ctx().recorder  # type: ignore
        it = Interp(env)
        it.on_yield = self.on_yield
        return it

    def comp(self, gens: list, first: Any, leaf: Callable[["Interp"], None]) -> None:
        def level(k: int, it: "Interp") -> None:
            if k == len(gens):
                leaf(it)
                return
            g = gens[k]
            src = first if k == 0 else it.eval(g.iter)

            def cb(x: Any) -> None:
                it2 = it.comp_env()
                it2.assign(g.target, x)
                for cond in g.ifs:
                    if not truth(it2.eval(cond)):
                        return
                level(k + 1, it2)

            iterate(src, cb)

        level(0, self)

    def e_ListComp(self, e: Any) -> Any:
        out = PList()
        self.comp(e.generators, self.eval(e.generators[0].iter), lambda it: list_append(out, it.eval(e.elt)))
        return out

    def e_SetComp(self, e: Any) -> Any:
        out = PSet()
        self.comp(e.generators, self.eval(e.generators[0].iter), lambda it: set_add(out, it.eval(e.elt)))
        return out

    def e_DictComp(self, e: Any) -> Any:
        out: Any = PDict() if NEW_DICT_COMP is None else NEW_DICT_COMP()

        def leaf(it: Interp) -> None:
            k = it.eval(e.key)
            v = it.eval(e.value)
            if isinstance(out, PDict):
                dict_put(out, k, v)
            else:
                setitem(out, k, v)

        self.comp(e.generators, self.eval(e.generators[0].iter), leaf)
        return out

    def e_GeneratorExp(self, e: Any) -> Any:
        first = self.eval(e.generators[0].iter)
        return LazyGen(lambda cb: self.comp(e.generators, first, lambda it: cb(it.eval(e.elt))))

    def e_Call(self, e: Any) -> Any:
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            try:
                cls = self.env.lookup("__class__")
            except PyRaise:
                raise Unsupported("super") from None
            env: Optional[Env] = self.env
            while env is not None and not hasattr(env, "first_arg"):
                env = env.parent
            return SuperProxy(cls, env.vars[env.first_arg])  # type: ignore
        if isinstance(e.func, ast.Name) and e.func.id == "locals":
            return PDict([("put", k, v) for k, v in self.env.vars.items()])
        fn = self.eval(e.func)
        args: list = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = to_seq(self.eval(a.value)).concrete()
                if items is None:
                    raise Unsupported("symbolic positional arguments")
                args.extend(items)
            else:
                args.append(self.eval(a))
        kwargs: dict = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, PDict) and all(s[0] == "put" and isinstance(s[1], str) for s in d.segs):
                    kwargs.update((s[1], s[2]) for s in d.segs)
                elif isinstance(d, dict):
                    kwargs.update(d)
                else:
                    if "**" in kwargs or not isinstance(d, PDict):
                        raise Unsupported("keyword arguments")
                    note_read(d)
                    kwargs["**"] = PDict(list(d.segs))
            else:
                kwargs[k.arg] = self.eval(k.value)
        return call(fn, args, kwargs)


class SuperProxy(Sym):
    def __init__(self, cls: type, obj: Any):
        self.cls, self.obj = cls, obj

    def vc_getattr(self, name: str) -> Any:
        ocls = self.obj.cls if isinstance(self.obj, Obj) else self.obj
        mro = ocls.__mro__
        for k in mro[mro.index(self.cls) + 1 :]:
            if name in k.__dict__:
                a = k.__dict__[name]
                if name == "__init__" and not isinstance(a, types.FunctionType):
                    return Model(lambda *a, **kw: None, "object.__init__")
                return bind(a, self.obj, ocls)
        raise PyRaise(ExcVal(AttributeError))


def append_all(out: PList, v: Any) -> None:
    if isinstance(v, PList) and ctx().recorder is None:
        note_read(v)
        out.segs.extend(v.segs)
        return
    iterate(v, lambda x: list_append(out, x))


def is_symbolic_iter(v: Any) -> bool:
    if isinstance(v, LazyGen):
        return True
    if isinstance(v, SV):
        return True
    if isinstance(v, (PList, STuple)):
        pl = v if isinstance(v, PList) else v.pl
        return any(k != "item" for k, _ in pl.segs)
    if isinstance(v, (PDict, PSet)):
        return any(s[0] not in ("put", "item") for s in v.segs)
    if isinstance(v, Seq):
        return not isinstance(v.n, int)
    if hasattr(v, "vc_seq"):
        return True
    return False


def exc_matches(exc: ExcVal, handler: Any) -> bool:
    if isinstance(handler, tuple):
        return any(exc_matches(exc, h) for h in handler) if exc.cls is not None else _sym_exc(exc, handler)
    if isinstance(handler, PList) or isinstance(handler, STuple):
        return exc_matches(exc, tuple(to_seq(handler).concrete() or ()))
    if exc.cls is not None:
        return issubclass(exc.cls, handler)
    return _sym_exc(exc, (handler,))


def _sym_exc(exc: ExcVal, handlers: tuple) -> bool:
    codes = [k for k, c in enumerate(EXC_CLASSES) if issubclass(c, handlers)]
    return fork(z3.Or(*[exc.code == k for k in codes])) if codes else False


# ---------------------------------------------------------------- operators


def format_value(x: Any, spec: str) -> list:
    if isinstance(x, SV):
        x = resolve(x)
    if isinstance(x, SStr):
        if spec:
            raise Unsupported("format of a string")
        return list(x.pieces)
    if isinstance(x, (SInt,)):
        if spec in ("", "d"):
            if not ctx().implied(x.t >= 0):
                if fork(x.t < 0):
                    return ["-", Digits(z3.simplify(-x.t), None, True)]
            return [Digits(x.t, None, True)]


        m = re.fullmatch(r"0(\d+)d?", spec)
        if m:
            w = int(m.group(1))
            if ctx().implied(z3.And(x.t >= 0, x.t < 10**w)):
                return [Digits(x.t, w, False)]
            raise Unsupported("number may be wider than its format")
        raise Unsupported(f"format {spec}")
    if isinstance(x, Sym):
        r = call(str, [x], {})
        return list(r.pieces) if isinstance(r, SStr) else [r]
    return [format(x, spec)]


def binop(op: Any, a: Any, b: Any) -> Any:
    if is_plain(a) and is_plain(b) and not isinstance(a, (list, dict, set)):
        import operator

        f = {
            ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
            ast.Mod: operator.mod, ast.Pow: operator.pow, ast.Div: operator.truediv, ast.BitOr: operator.or_,
            ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
        }[type(op)]
        try:
            return f(a, b)
        except Exception as ex:
            raise PyRaise(ExcVal(type(ex))) from None
    if isinstance(op, ast.BitOr) and (isinstance(a, (SType, type)) or isinstance(b, (SType, type))):
        return TyGen(typing.Union, (a, b), True)
    a, b = resolve(a), resolve(b)
    ka, kb = kind_of(a), kind_of(b)
    if isinstance(op, ast.Add):
        if ka == "str" and kb == "str":
            return SStr((a.pieces if isinstance(a, SStr) else [a]) + (b.pieces if isinstance(b, SStr) else [b]))
        if ka == "list" and kb == "list":
            out = PList()
            append_all(out, a)
            append_all(out, b)
            return out
        if ka == "tuple" and kb == "tuple":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            out = PList()
            append_all(out, a)
            append_all(out, b)
            return STuple(out)
    if ka in ("int", "bool") and kb in ("int", "bool"):
        x, y = as_int(a), as_int(b)
        if isinstance(op, ast.Add):
            return SInt(z3.simplify(x + y))
        if isinstance(op, ast.Sub):
            return SInt(z3.simplify(x - y))
        if isinstance(op, ast.Mult):
            return SInt(z3.simplify(x * y))
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if not z3.is_int_value(y) or y.as_long() <= 0:
                raise Unsupported("division by a variable")
            return SInt(x / y) if isinstance(op, ast.FloorDiv) else SInt(x % y)
        if isinstance(op, ast.Pow):
            if fork(y >= 0):
                return SInt(z3.Function("int_pow", z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y))
            if fork(x == 0):
                raise_py(ZeroDivisionError)
            return SFloat(z3.Function("int_pow_negative", z3.IntSort(), z3.IntSort(), core.Fl)(x, y))
        raise Unsupported("arithmetic operator")
    if isinstance(a, PSet) or isinstance(b, PSet):
        if isinstance(a, (PSet, set, frozenset)) and isinstance(b, (PSet, set, frozenset)):
            name = {ast.BitAnd: "intersection", ast.BitOr: "union", ast.Sub: "difference"}.get(type(op))
            if name:
                return call(getattr_(as_pset(a), name), [b], {})
    m = METHOD_MODELS.get((model_kind(a), type(op).__name__))
    if m is not None:
        return m(a, b)
    m = METHOD_MODELS.get((model_kind(b), "R" + type(op).__name__))
    if m is not None:
        return m(b, a)
    raise Unsupported(f"operator {type(op).__name__} on {ka}, {kb}")


def as_pset(v: Any) -> PSet:
    if isinstance(v, PSet):
        return v
    return PSet([("item", x) for x in v])


def compare(op: Any, a: Any, b: Any) -> Any:
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = identical(a, b)
    elif isinstance(op, (ast.Eq, ast.NotEq)):
        r = pyeq(a, b)
    elif isinstance(op, (ast.In, ast.NotIn)):
        r = contains(b, a)
    else:
        return order(op, a, b)
    if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn)):
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r))
    return r if isinstance(r, bool) else SBool(r)


def identical(a: Any, b: Any) -> Any:
    if a is b:
        return True
    if isinstance(a, SV):
        a, b = b, a
    if isinstance(b, SV):
        if a is None:
            return V.is_none(b.t)
        if isinstance(a, bool):
            return z3.And(V.is_bool(b.t), V.b(b.t) == a)
        if isinstance(a, SV):
            return a.t == b.t
        if isinstance(a, (SType, type)):
            tt = type_term(a)
            return False if tt is None else z3.And(V.is_type(b.t), V.ty(b.t) == tt)
        if a is dataclasses.MISSING or a is inspect.Signature.empty or a is Ellipsis:
            return z3.And(V.is_obj(b.t), V.o(b.t) == obj_const(a))
        if isinstance(a, SObj):
            return z3.And(V.is_obj(b.t), V.o(b.t) == a.t)
        raise Unsupported("identity of a symbolic value")
    if isinstance(a, (SType, type)) or isinstance(b, (SType, type)):
        if isinstance(a, (SType, type)) and isinstance(b, (SType, type)):
            if isinstance(a, (TyGen, TyAnn, TyFwd)) and isinstance(b, (TyGen, TyAnn, TyFwd)):
                raise Unsupported("identity of generic types")
            return type_eq(a, b)
        # special forms such as Union or Any
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (TyOpaque,)) and not isinstance(y, Sym) and y is not None and not isinstance(y, (str, int)):
                if y in (typing.Any, Ellipsis):
                    return x.t == special_term(y)
                return False
        return False
    if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
        s, c = (a, b) if isinstance(a, SBool) else (b, a)
        return s.t if c else z3.Not(s.t)
    if hasattr(a, "vc_is"):
        return a.vc_is(b)
    if hasattr(b, "vc_is"):
        return b.vc_is(a)
    if isinstance(a, SObj) and isinstance(b, SObj):
        return a.t == b.t
    if isinstance(a, SObj) or isinstance(b, SObj):
        s, o = (a, b) if isinstance(a, SObj) else (b, a)
        if o is None or isinstance(o, (Sym, bool, int, str)):
            return False
        return s.t == obj_const(o)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return False
        if isinstance(a, Sym) and isinstance(b, Sym) and isinstance(a, (PList, PDict, PSet, Obj, NewObj, Closure)):
            return False
        if isinstance(a, (PList, PDict, PSet, Obj, NewObj, Closure, BoundMethod, Model)) or isinstance(b, (PList, PDict, PSet, Obj, NewObj, Closure, BoundMethod, Model)):
            return False
        if not isinstance(a, Sym) or not isinstance(b, Sym):
            return False
        raise Unsupported("identity")
    return a is b


def special_term(x: Any) -> Any:
    from .types_ import ty_const

    return ty_const(x)


def order(op: Any, a: Any, b: Any) -> Any:
    if is_plain(a) and is_plain(b):
        import operator

        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        try:
            return f(a, b)
        except TypeError:
            raise_py(TypeError)
    a, b = resolve(a), resolve(b)
    ka, kb = kind_of(a), kind_of(b)
    if ka in ("int", "bool") and kb in ("int", "bool"):
        x, y = as_int(a), as_int(b)
        return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
    m = METHOD_MODELS.get((model_kind(a), type(op).__name__))
    if m is not None:
        return m(a, b)
    raise Unsupported(f"ordering of {ka} and {kb}")


def contains(cont: Any, x: Any) -> Any:
    cont = resolve(cont)
    if isinstance(cont, PDict):
        found, _ = dict_lookup(cont, x)
        return found
    if isinstance(cont, PSet):
        return set_contains(cont, x)
    if isinstance(cont, (str, SStr)):
        x = resolve(x)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if not isinstance(x, (str, SStr)):
            raise_py(TypeError)
        return z3.Contains(str_term(cont), str_term(x))
    if isinstance(cont, (dict, set, frozenset)):
        if is_plain(x):
            try:
                return x in cont
            except TypeError:
                raise_py(TypeError)
        return any_of([pyeq(k, x) for k in cont])
    if hasattr(cont, "vc_contains"):
        return cont.vc_contains(x)
    if not isinstance(cont, Sym) or isinstance(cont, Obj):
        m = class_lookup(cont.cls if isinstance(cont, Obj) else type(cont), "__contains__")
        if isinstance(m, types.FunctionType):
            return truth_of(call(m, [cont, x], {}))
    if isinstance(cont, (PList, STuple)) and (cont if isinstance(cont, PList) else cont.pl).is_filter():
        pl = cont if isinstance(cont, PList) else cont.pl
        for k, v in pl.segs:
            if k == "item":
                if truth_of(pyeq(v, x)):
                    return True
            elif seqs.find_first(v.n, lambda j: (lambda y: False if y is ABSENT else truth_of(pyeq(y, x)))(v.at(j))) is not None:
                return True
        return False
    s = to_seq(cont)
    items = s.concrete()
    if items is not None:
        return any_of([True if y is x else pyeq(y, x) for y in items])
    return seqs.find_first(s.n, lambda j: truth_of(pyeq(s.at(j), x))) is not None


def any_of(conds: list) -> Any:
    if any(c is True for c in conds):
        return True
    rest = [as_bool(c) for c in conds if c is not False]
    if not rest:
        return False
    return z3.Or(*rest)


def set_contains(s: PSet, x: Any) -> bool:
    note_read(s)
    for seg in s.segs:
        if seg[0] == "item":
            if truth_of(pyeq(seg[1], x)):
                return True
        elif seg[0] == "handle":
            if fork(core.set_has(seg[1], to_V(x))):
                return True
        else:
            q = seg[1]
            if seqs.find_first(q.n, lambda j: (lambda y: False if y is ABSENT else truth_of(pyeq(y, x)))(q.at(j))) is not None:
                return True
    return False


def dict_lookup(d: PDict, k: Any) -> tuple:
    note_read(d)
    for seg in reversed(d.segs):
        if seg[0] == "put":
            if truth_of(pyeq(seg[1], k)):
                return True, seg[2]
        elif seg[0] == "handle":
            h, json = seg[1], seg[2]
            kt = to_V(k)
            if fork(core.dict_has(h, kt)):
                v = core.dict_get(h, kt)
                p = core.dict_pos(h, kt)
                ctx().axiom(
                    ("dg", h, kt),
                    lambda: z3.And(p >= 0, p < core.dict_len(h), core.dict_key(h, p) == kt, core.dict_val(h, p) == v),
                )
                ctx().add_index(p)
                if json:
                    seqs.json_fact(v)
                return True, SV(v, json)
            ctx().axiom(("dh", h, kt), lambda: z3.BoolVal(True))
        else:
            q = seg[1]

            def hit(j: Any) -> bool:
                y = q.at(j)
                return False if y is ABSENT else truth_of(pyeq(y[0], k))

            j = seqs.find_first(q.n, hit)
            if j is not None:
                y = q.at(j)
                check_last(q, j, k)
                if getattr(q, "distinct", False):
                    # the key of another item is different
                    c = ctx()
                    for t in list(c.all_indices()):
                        e = as_bool(pyeq(q.at(t)[0], y[0]))
                        c.add_fact(z3.Implies(z3.And(t >= 0, t < as_int(q.n), e), t == as_int(j)))
                return True, y[1]
    return False, None


def check_last(q: Seq, j: Any, k: Any) -> None:
    "The assignment found first must be the only one to its key."
    if isinstance(q.n, int):
        for i in range(j + 1, q.n):
            y = q.at(i)
            if y is not ABSENT and truth_of(pyeq(y[0], k)):
                raise Unsupported("key assigned repeatedly")
        return
    if getattr(q, "distinct", False):
        return
    c = ctx()
    i = z3.Const(c.name("i"), z3.IntSort())

    def body() -> bool:
        ctx().add_fact(i > as_int(j))
        y = q.at(i)
        if y is ABSENT:
            return False
        e = pyeq(y[0], k)
        return ctx().possible(e)

    if any(p.result for p in explore(body, index=i, bound=as_int(q.n))):
        raise Unsupported("keys not known to be distinct")


def getitem(obj: Any, key: Any) -> Any:
    obj = resolve(obj)
    if isinstance(obj, PDict):
        found, v = dict_lookup(obj, key)
        if not found:
            raise_py(KeyError)
        return v
    if hasattr(obj, "vc_getitem"):
        return obj.vc_getitem(key)
    if isinstance(obj, (PList, STuple, tuple)):
        if isinstance(key, slice):
            return slice_seq(obj, key)
        s = to_seq(obj)
        key = resolve(key)
        if isinstance(key, bool):
            key = int(key)
        if isinstance(key, int):
            if isinstance(s.n, int):
                if not -s.n <= key < s.n:
                    raise_py(IndexError)
                return s.at(key % s.n if key < 0 else key)
            if key >= 0:
                if not fork(as_int(s.n) > key):
                    raise_py(IndexError)
                return s.at(key)
            if not fork(as_int(s.n) >= -key):
                raise_py(IndexError)
            return s.at(z3.simplify(as_int(s.n) + key))
        if isinstance(key, SInt):
            if not fork(z3.And(key.t >= 0, key.t < as_int(s.n))):
                if fork(z3.And(key.t < 0, key.t >= -as_int(s.n))):
                    return s.at(z3.simplify(as_int(s.n) + key.t))
                raise_py(IndexError)
            return s.at(key.t)
        raise_py(TypeError)
    if isinstance(obj, (SStr, str)):
        if isinstance(obj, str) and is_plain_slice(key):
            try:
                return obj[key]
            except IndexError:
                raise_py(IndexError)
        return METHOD_MODELS[("str", "__getitem__")](obj, key)
    if obj is sys.modules and isinstance(key, SStr):
        # the module in which a class is defined has been imported
        return SObj(types.ModuleType, z3.Function("module_of_name", z3.StringSort(), core.Ob)(str_term(key)))
    if isinstance(obj, dict) and not is_plain(key):
        for k, v in obj.items():
            if truth_of(pyeq(k, key)):
                return v
        raise_py(KeyError)
    if not isinstance(obj, Sym):
        if isinstance(obj, type) or type(obj).__module__ == "typing":
            if not is_plain(key):
                return make_special(obj, key)
        try:
            return obj[to_plain(key)]
        except Unsupported:
            raise
        except Exception as ex:
            raise PyRaise(ExcVal(type(ex))) from None
    if isinstance(obj, (SInt, SBool, SFloat)):
        raise_py(TypeError)
    raise Unsupported(f"subscript of {type(obj).__name__}")


def is_plain_slice(k: Any) -> bool:
    if isinstance(k, slice):
        return all(is_plain(x) for x in (k.start, k.stop, k.step))
    return is_plain(k)


def make_special(origin: Any, key: Any) -> Any:
    "`origin[key]` for a special form or generic class with symbolic parameters."
    if isinstance(key, (STuple, PList)):
        its = (key.pl if isinstance(key, STuple) else key).items()
        args: Any = tuple(its) if its is not None else key
    else:
        args = key if isinstance(key, tuple) else (key,)
    if origin is typing.Annotated and isinstance(args, STuple):
        first = to_seq(args).at(0)
        segs = args.pl.segs
        if segs[0][0] != "item":
            raise Unsupported("Annotated[...]")
        rest = STuple(PList(segs[1:]))
        if isinstance(first, TyAnn):
            inner_md = first.metadata
            md = [("item", x) for x in inner_md] if isinstance(inner_md, tuple) else list(inner_md.pl.segs)
            return TyAnn(first.inner, STuple(PList(md + segs[1:])))
        return TyAnn(first, rest)
    if origin is typing.Annotated:
        if isinstance(args[0], TyAnn):
            if isinstance(args[0].metadata, STuple):
                return TyAnn(args[0].inner, STuple(PList(args[0].metadata.pl.segs + [("item", x) for x in args[1:]])))
            return TyAnn(args[0].inner, args[0].metadata + tuple(args[1:]))
        return TyAnn(args[0], tuple(args[1:]))
    if origin is typing.Optional:
        return TyGen(typing.Union, (args[0], type(None)))
    if origin is typing.Union:
        if isinstance(args, tuple) and len(args) == 1:
            return args[0]
        return TyGen(typing.Union, args)
    if origin is typing.Literal:
        return TyGen(typing.Literal, args)
    if origin in (list, dict, set, tuple, frozenset, type):
        return TyGen(origin, args)
    real = {typing.List: list, typing.Dict: dict, typing.Set: set, typing.Tuple: tuple}.get(origin)
    if real is not None:
        return TyGen(real, args)
    if origin is typing.Callable:
        return TyGen(collections.abc.Callable, args)
    raise Unsupported(f"{origin}[...]")


def slice_seq(obj: Any, key: slice) -> Any:
    s = to_seq(obj)
    if key.step not in (None, 1):
        raise Unsupported("slice step")
    items = s.concrete()
    if items is not None and is_plain_slice(key):
        r = items[key]
        return tuple(r) if isinstance(obj, (tuple, STuple)) else PList.of(r)
    lo, hi = key.start, key.stop
    if lo is None:
        lo = 0
    if isinstance(lo, SInt) and hi is None and ctx().implied(z3.And(lo.t >= 0, lo.t <= as_int(s.n))):
        q = seqs.SubSeq(s, lo.t, z3.simplify(as_int(s.n) - lo.t))
        return STuple(q) if isinstance(obj, (tuple, STuple)) else PList.from_seq(q)
    if lo == 0 and isinstance(hi, int) and 0 <= hi <= 16:
        n = next((k for k in range(hi) if fork(as_int(s.n) == k)), hi)
        r = [s.at(k) for k in range(n)]
        return tuple(r) if isinstance(obj, (tuple, STuple)) else PList.of(r)
    if not isinstance(lo, int) or lo < 0 or hi is not None:
        raise Unsupported("slice of a symbolic sequence")
    if fork(as_int(s.n) >= lo):
        q = seqs.SubSeq(s, lo, z3.simplify(as_int(s.n) - lo))
    else:
        q = ConcSeq([])
    return STuple(q) if isinstance(obj, (tuple, STuple)) else PList.from_seq(q)


def setitem(obj: Any, key: Any, value: Any) -> None:
    obj = resolve(obj)
    touch(obj)
    if isinstance(obj, PDict):
        dict_put(obj, key, value)
        return
    if hasattr(obj, "vc_setitem"):
        obj.vc_setitem(key, value)
        return
    if isinstance(obj, PList):
        its = obj.items()
        if its is not None and isinstance(key, int) and ctx().recorder is container_birth(obj):
            if not -len(its) <= key < len(its):
                raise_py(IndexError)
            its[key] = value
            obj.segs = [("item", x) for x in its]
            obj.src = None
            return
    raise Unsupported("item assignment")


def delitem(obj: Any, key: Any) -> None:
    obj = resolve(obj)
    touch(obj)
    if hasattr(obj, "vc_delitem"):
        obj.vc_delitem(key)
        return
    if isinstance(obj, PDict) and all(s[0] == "put" for s in obj.segs) and ctx().recorder is container_birth(obj):
        keep = [s for s in obj.segs if not truth_of(pyeq(s[1], key))]
        if len(keep) == len(obj.segs):
            raise_py(KeyError)
        obj.segs[:] = keep
        return
    raise Unsupported("del item")

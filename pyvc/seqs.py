"Symbolic sequences and containers."

from typing import Any, Callable, Optional

import z3

from . import core
from .core import (
    Digits, Path, SBool, SBytes, SFloat, SInt, SObj, SStr, SV, Sym, Unsupported, V, as_int, ctx, explore, fork,
)


def iadd(a: Any, b: Any) -> Any:
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return z3.simplify(as_int(a) + as_int(b))


def same_int(a: Any, b: Any) -> bool:
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().implied(as_int(a) == as_int(b))


class Seq:
    n: Any  # int or z3 integer term

    def at(self, j: Any) -> Any:
        raise NotImplementedError

    def concrete(self) -> Optional[list]:
        if isinstance(self.n, int):
            return [self.at(j) for j in range(self.n)]
        return None

    def subst(self, pairs: list) -> "Seq":
        raise NotImplementedError(type(self).__name__)


def sub_n(n: Any, pairs: list) -> Any:
    return n if isinstance(n, int) else core.substitute(n, *pairs)


class ConcSeq(Seq):
    def __init__(self, items: Any):
        self.items = list(items)
        self.n = len(self.items)

    def at(self, j: Any) -> Any:
        if isinstance(j, int):
            return self.items[j]
        for k in range(self.n - 1):
            if fork(as_int(j) == k):
                return self.items[k]
        ctx().assume(as_int(j) == self.n - 1)
        return self.items[-1]

    def subst(self, pairs: list) -> Seq:
        return ConcSeq(subst(x, pairs) for x in self.items)


class HandleSeq(Seq):
    "Items of a list or tuple that comes from outside."

    def __init__(self, h: Any, json: bool):
        self.h, self.json = h, json
        self.n = core.list_len(h)
        ctx().axiom(("len", h), lambda: self.n >= 0)

    def at(self, j: Any) -> Any:
        j = as_int(j)
        ctx().add_index(j)
        t = core.list_item(self.h, j)
        v = SV(t, self.json)
        if self.json:
            json_fact(t)
        return v

    def subst(self, pairs: list) -> Seq:
        return HandleSeq(core.substitute(self.h, *pairs), self.json)


def json_fact(t: Any) -> None:
    ctx().axiom(("json", t), lambda: z3.Or(*[core.is_kind(t, k) for k in core.JSON_KINDS]))


class FnSeq(Seq):
    "Sequence given by a verifier function from index to value."

    def __init__(self, n: Any, fn: Callable[[Any], Any], key: Any = None):
        self.n, self.fn, self.key = n, fn, key
        self.distinct = False  # True if these are items of a dictionary, with distinct keys

    def at(self, j: Any) -> Any:
        if not isinstance(j, int):
            ctx().add_index(j)
        return self.fn(j if isinstance(j, int) else j)

    def subst(self, pairs: list) -> Seq:
        if self.key is not None:
            raise Unsupported("substitution in a contract sequence")
        fn = self.fn
        return FnSeq(sub_n(self.n, pairs), lambda j: subst(fn(j), pairs))


class ZipSeq(Seq):
    def __init__(self, seqs: list[Seq]):
        self.seqs = seqs
        ns = [s.n for s in seqs]
        n = ns[0]
        for m in ns[1:]:
            if isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
            elif same_int(n, m):
                n = n if isinstance(n, int) else m if isinstance(m, int) else n
            elif fork(as_int(n) <= as_int(m)):
                pass
            else:
                n = m
        self.n = n

    def at(self, j: Any) -> Any:
        return tuple(s.at(j) for s in self.seqs)

    def subst(self, pairs: list) -> Seq:
        return FnSeq(sub_n(self.n, pairs), lambda j, s=[q.subst(pairs) for q in self.seqs]: tuple(q.at(j) for q in s))


class EnumSeq(Seq):
    def __init__(self, base: Seq, start: Any):
        self.base, self.start, self.n = base, start, base.n

    def at(self, j: Any) -> Any:
        k = iadd(j, self.start)
        return (k if isinstance(k, int) else SInt(k), self.base.at(j))

    def subst(self, pairs: list) -> Seq:
        return EnumSeq(self.base.subst(pairs), self.start)


class RangeSeq(Seq):
    def __init__(self, lo: Any, hi: Any):
        lo, hi = as_int(lo), as_int(hi)
        self.lo = lo
        if fork(hi >= lo):
            n = z3.simplify(hi - lo)
        else:
            n = z3.IntVal(0)
        self.n = n.as_long() if z3.is_int_value(n) else n

    def at(self, j: Any) -> Any:
        if not isinstance(j, int):
            ctx().add_index(j)
        t = z3.simplify(self.lo + as_int(j))
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def subst(self, pairs: list) -> Seq:
        lo = core.substitute(self.lo, *pairs)
        return FnSeq(sub_n(self.n, pairs), lambda j: SInt(lo + as_int(j)))


class SubSeq(Seq):
    def __init__(self, base: Seq, off: Any, n: Any):
        self.base, self.off, self.n = base, off, n

    def at(self, j: Any) -> Any:
        return self.base.at(iadd(j, self.off))

    def subst(self, pairs: list) -> Seq:
        return SubSeq(self.base.subst(pairs), self.off if isinstance(self.off, int) else core.substitute(self.off, *pairs), sub_n(self.n, pairs))


class MapSeq(Seq):
    def __init__(self, base: Seq, fn: Callable[[Any], Any]):
        self.base, self.fn, self.n = base, fn, base.n

    def at(self, j: Any) -> Any:
        return self.fn(self.base.at(j))

    def subst(self, pairs: list) -> Seq:
        b, fn = self.base.subst(pairs), self.fn
        return FnSeq(sub_n(self.n, pairs), lambda j: subst(fn(b.at(j)), pairs))


def replay(paths: list[Path], i0: Any, j: Any) -> Any:
    "Selects the path taken at index j, and returns its result with the index substituted."

    c = ctx()
    jt = as_int(j)
    c.add_index(jt)
    pairs = [(i0, jt)]
    if len(paths) == 1:
        # the only path there is
        p = paths[0]
        for x in p.conds:
            c.add_fact(core.substitute(x, *pairs))
    else:
        conds = [core.substitute(p.cond, *pairs) for p in paths]
        p = paths[c.decide(conds)]
    for f in p.facts:
        c.add_fact(core.substitute(f, *pairs))
    for u in p.universals:
        c.add_universal(u.subst(pairs))
    for t in p.indices:
        x = core.substitute(t, *pairs)
        if core.nest(x) <= core.MAX_NEST:
            c.add_index(x)
    return subst(p.result, pairs)


class TemplSeq(Seq):
    "Values produced by the iterations of a loop; `pick` extracts the value from the effects of an iteration."

    def __init__(self, n: Any, i0: Any, paths: list[Path]):
        self.n, self.i0, self.paths = n, i0, paths

    def at(self, j: Any) -> Any:
        return replay(self.paths, self.i0, j)

    def subst(self, pairs: list) -> Seq:
        paths = [
            Path(
                [core.substitute(x, *pairs) for x in p.conds],
                [core.substitute(x, *pairs) for x in p.facts],
                [u.subst(pairs) for u in p.universals],
                [core.substitute(x, *pairs) for x in p.indices],
                subst(p.result, pairs),
            )
            for p in self.paths
        ]
        return TemplSeq(sub_n(self.n, pairs), self.i0, paths)


class Absent:
    "Marks an iteration that contributes nothing."

    def __repr__(self) -> str:
        return "ABSENT"


ABSENT = Absent()


# ---------------------------------------------------------------- containers


class PList(Sym):
    """
    A list built by the code: segments are ("item", v), ("seq", Seq) or ("filter", Seq) whose values may be ABSENT.
    `src` is the outside term the list was made from, if any.
    """

    def __init__(self, segs: Optional[list] = None, src: Any = None):
        self.segs = segs if segs is not None else []
        self.src = src

    @staticmethod
    def of(items: Any) -> "PList":
        return PList([("item", x) for x in items])

    @staticmethod
    def from_seq(s: Seq) -> "PList":
        if isinstance(s, ConcSeq):
            return PList.of(s.items)
        return PList([("seq", s)])

    def copy_segs(self) -> list:
        return list(self.segs)

    def items(self) -> Optional[list]:
        out = []
        for k, v in self.segs:
            if k == "item":
                out.append(v)
            elif k == "seq":
                c = v.concrete()
                if c is None:
                    return None
                out.extend(c)
            else:
                if not isinstance(v.n, int):
                    return None
                for j in range(v.n):
                    x = v.at(j)
                    if x is not ABSENT:
                        out.append(x)
        return out

    def to_seq(self) -> Seq:
        its = self.items()
        if its is not None:
            return ConcSeq(its)
        if len(self.segs) == 1 and self.segs[0][0] == "seq":
            return self.segs[0][1]
        if all(k != "filter" for k, _ in self.segs):
            return ConcatSeq([ConcSeq([v]) if k == "item" else v for k, v in self.segs])
        raise Unsupported("filtered list used as a sequence")

    def is_filter(self) -> bool:
        return any(k == "filter" for k, _ in self.segs) and self.items() is None

    def length(self) -> Any:
        n: Any = 0
        for k, v in self.segs:
            if k == "item":
                n = iadd(n, 1)
            elif k == "seq":
                n = iadd(n, v.n)
            else:
                n = iadd(n, filter_count(v))
        return n


def filter_count(v: Seq) -> Any:
    c = ctx()
    m = getattr(v, "count", None)
    if m is None:
        m = c.fresh(z3.IntSort(), "count")
        c.add_fact(z3.And(m >= 0, m <= as_int(v.n)))
        if exists_present(v):
            c.add_fact(m > 0)
        else:
            c.add_fact(m == 0)
        v.count = m  # type: ignore
    return m


def exists_present(v: Seq) -> bool:
    k = find_first(v.n, lambda j: v.at(j) is not ABSENT)
    return k is not None


class FlatSeq(Seq):
    """
    What the iterations of a loop contribute, one after the other: `parts` gives a list of items, or a dictionary of
    assignments, for each iteration.  The length is not known as a term.
    """

    def __init__(self, parts: Seq):
        self.parts = parts

    @property
    def n(self) -> Any:  # type: ignore
        raise Unsupported("number of items that the iterations of a loop contribute")

    def at(self, j: Any) -> Any:
        raise Unsupported("item among those that the iterations of a loop contribute")

    def concrete(self) -> Any:
        return None

    def subst(self, pairs: list) -> Seq:
        return FlatSeq(self.parts.subst(pairs))


class ConcatSeq(Seq):
    def __init__(self, parts: list[Seq]):
        self.parts = parts
        n: Any = 0
        for p in parts:
            n = iadd(n, p.n)
        self.n = n

    def at(self, j: Any) -> Any:
        off: Any = 0
        for p in self.parts[:-1]:
            end = iadd(off, p.n)
            if isinstance(j, int) and isinstance(end, int):
                inside = j < end
            else:
                inside = fork(as_int(j) < as_int(end))
            if inside:
                return p.at(isub(j, off))
            off = end
        return self.parts[-1].at(isub(j, off))

    def subst(self, pairs: list) -> Seq:
        return ConcatSeq([p.subst(pairs) for p in self.parts])


def isub(a: Any, b: Any) -> Any:
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return z3.simplify(as_int(a) - as_int(b))


class STuple(Sym):
    "A tuple of symbolic length."

    def __init__(self, seq: Any, src: Any = None):
        self.pl = seq if isinstance(seq, PList) else PList.from_seq(seq)
        self.src = src

    @property
    def seq(self) -> Seq:
        return self.pl.to_seq()


class PDict(Sym):
    """
    A dictionary built by the code as a series of assignments: ("put", k, v) or ("seq", Seq) whose values are pairs or
    ABSENT; or ("handle", h, json) for a dictionary from outside (always first).  Keys of a "seq" segment are taken to
    be pairwise distinct only where facts say so.
    """

    def __init__(self, segs: Optional[list] = None, src: Any = None):
        self.segs = segs if segs is not None else []
        self.src = src


class PSet(Sym):
    "A set built by the code: like PList but membership only."

    def __init__(self, segs: Optional[list] = None, src: Any = None):
        self.segs = segs if segs is not None else []
        self.src = src


class NewObj(Sym):
    "An object of a symbolic class created by the code."

    def __init__(self, cls: Any, attrs: PDict):
        self.cls, self.attrs = cls, attrs


class LazyGen(Sym):
    "A generator that has not been consumed: running it feeds each value to a callback."

    def __init__(self, run: Callable[[Callable[[Any], None]], None]):
        self.run = run


# ---------------------------------------------------------------- substitution


def subst(v: Any, pairs: list) -> Any:
    memo: dict[int, Any] = {}

    def go(v: Any) -> Any:
        if v is None or isinstance(v, (bool, int, str, float, bytes, type)):
            return v
        if id(v) in memo:
            return memo[id(v)]
        r = go1(v)
        memo[id(v)] = r
        return r

    def st(t: Any) -> Any:
        return core.substitute(t, *pairs)

    def go1(v: Any) -> Any:
        if z3.is_expr(v):
            return st(v)
        if isinstance(v, SV):
            t = st(v.t)
            return v if t.eq(v.t) else SV(t, v.json)
        if isinstance(v, (SBool, SInt, SFloat, SBytes)):
            t = st(v.t)
            return v if t.eq(v.t) else type(v)(t)
        if isinstance(v, SStr):
            return SStr([st(p) if z3.is_expr(p) else go(p) for p in v.pieces])
        if isinstance(v, Digits):
            return Digits(v.value if isinstance(v.value, int) else st(v.value), v.length, v.shortest, v.len_t if v.len_t is None else st(v.len_t))
        if isinstance(v, SObj):
            return SObj(go(v.cls), st(v.t))
        if isinstance(v, tuple):
            if type(v) is not tuple:
                return v
            r = tuple(go(x) for x in v)
            return v if all(a is b for a, b in zip(r, v)) else r
        if isinstance(v, list) and type(v) is list:
            r2 = [go(x) for x in v]
            return v if all(a is b for a, b in zip(r2, v)) else r2
        if isinstance(v, PList):
            return PList([(k, go(x)) for k, x in v.segs], go(v.src))
        if isinstance(v, STuple):
            return STuple(go(v.pl), go(v.src))
        if isinstance(v, PSet):
            return PSet([(s[0],) + tuple(go(x) for x in s[1:]) for s in v.segs], go(v.src))
        if isinstance(v, PDict):
            return PDict([(s[0],) + tuple(go(x) for x in s[1:]) for s in v.segs], go(v.src))
        if isinstance(v, NewObj):
            return NewObj(go(v.cls), go(v.attrs))
        if isinstance(v, Seq):
            return v.subst(pairs)
        if hasattr(v, "vc_subst"):
            return v.vc_subst(go, pairs)
        return v

    return go(v)


# ---------------------------------------------------------------- loops with an exit


def formula_of(paths: list[Path], pred: Callable[[Any], bool]) -> Any:
    return z3.Or(*[p.cond for p in paths if pred(p.result)]) if any(pred(p.result) for p in paths) else z3.BoolVal(False)


def guarded_facts(paths: list[Path]) -> list:
    out = []
    for p in paths:
        for f in p.facts:
            out.append(z3.Implies(p.cond, f) if p.conds else f)
    return out


def find_first(n: Any, pred: Callable[[Any], Any]) -> Any:
    """
    Index of the first element that satisfies a predicate (of the verifier), or `None`; forks accordingly.

    The predicate is explored at an arbitrary index, hence it must not have effects.
    """

    c = ctx()
    if isinstance(n, int):
        for j in range(n):
            r = pred(j)
            if r if isinstance(r, bool) else fork(r):
                return j
        return None
    if z3.is_int_value(n):
        return find_first(n.as_long(), pred)

    i0 = z3.Const(c.name("i"), z3.IntSort())

    def body() -> bool:
        r = pred(i0)
        return r if isinstance(r, bool) else fork(r)

    paths = explore(body, index=i0, bound=as_int(n))
    f = formula_of(paths, lambda r: r is True)
    return split_first(n, i0, f, paths)


def depends(t: Any, x: Any) -> bool:
    if t.eq(x):
        return True
    return any(depends(c, x) for c in t.children())


def split_first(n: Any, i0: Any, f: Any, paths: list[Path]) -> Any:
    c = ctx()
    if z3.is_false(z3.simplify(f)):
        return None
    e = c.fresh(z3.BoolSort(), "ex")
    k = c.fresh(z3.IntSort(), "first")
    core.set_domain(k, as_int(n))
    gf = guarded_facts(paths)
    if paths and all(p.conds for p in paths):
        gf.append(z3.Or(*[p.cond for p in paths]))  # the paths are all there are
    has_u = any(p.universals for p in paths)
    if has_u and c.index_stack:
        raise Unsupported("nested quantifier alternation")
    taken = c.decide([z3.And(e, k >= 0, k < as_int(n), core.substitute(f, (i0, k))), z3.Not(e)]) == 0
    u = z3.And(z3.Not(f), *gf)
    terms: list = []
    for p in paths:
        for t in p.indices:
            if not t.eq(i0) and depends(t, i0) and not any(t.eq(x) for x in terms):
                terms.append(t)
    if taken:
        c.add_universal(core.Universal(i0, k, u, terms, as_int(n)))
        c.add_index(k)
        for x in gf:
            c.add_fact(core.substitute(x, (i0, k)))
        if has_u:
            # take the path of the witness so that its universal facts are known
            hit = [p for p in paths if p.result is not False]
            pick = c.decide([core.substitute(p.cond, (i0, k)) for p in hit])
            for un in hit[pick].universals:
                c.add_universal(un.subst([(i0, k)]))
            for t in hit[pick].indices:
                c.add_index(core.substitute(t, (i0, k)))
        if not c.feasible():
            raise Infeasible_()
        return k
    else:
        c.add_universal(core.Universal(i0, as_int(n), u, terms))
        if c.check() == z3.unsat:
            raise Infeasible_()
        return None


def Infeasible_() -> Exception:
    return core.Infeasible()

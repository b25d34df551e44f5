"""
Loops and recursive functions that are verified with an invariant.

A `Theory` keeps track of the individuals (graph nodes, types, ...) that come up in an argument, and of what is known of any
one, two or three individuals; `settle` adds all instances for the individuals that have come up.
"""

import itertools

from .base import *  # noqa: F401,F403

COUNTER = itertools.count()


class Theory:
    def __init__(self, sort: Any, laws: Any):
        self.sort, self.laws = sort, [(-1 - k, arity, fn) for k, (arity, fn) in enumerate(laws)]
        self.reset()

    def reset(self) -> None:
        self.known: list = []
        self.universals: list = []

    def know(self, t: Any) -> None:
        if not any(t.eq(x) for x in self.known):
            self.known.append(t)

    def fresh(self, name: str) -> Any:
        t = z3.Const(ctx().name(name), self.sort)
        self.know(t)
        return t

    def given(self, arity: int, fn: Callable) -> None:
        "What is known of any individual, or of any two or three."
        self.universals.append((next(COUNTER), arity, fn))

    def settle(self) -> None:
        c = ctx()
        for uid, arity, fn in self.laws + self.universals:
            for xs in itertools.product(self.known, repeat=arity):
                c.axiom((id(self), uid) + tuple(x.get_id() for x in xs), lambda: fn(*xs))

    def local(self, fn: Callable) -> None:
        "What comes up and is assumed while the callable runs is forgotten afterwards."
        known, universals = list(self.known), list(self.universals)
        try:
            fn()
        finally:
            self.known, self.universals = known, universals

    def explore(self, fn: Callable) -> None:
        core.explore(lambda: self.local(fn), keep=False)


def invariant(cond: Any, what: str) -> None:
    "A statement about the state of an algorithm; if it does not hold, the algorithm may work in another way."
    try:
        goal(cond, what)
    except core.NotProved as ex:
        raise core.NotProved(str(ex), False, ex.model)

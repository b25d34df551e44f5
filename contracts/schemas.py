"""
Schemas of opaque types.

The schema of an opaque type T is characterised by `accepted(T, x)`, which tells whether it accepts the JSON value x.  The
induction hypothesis of C11 is that it accepts what the writer of T makes of a value of T.
"""

import inspect

from .classes import *  # noqa: F403

import strong_typing.schema as SC  # noqa: E402

accepted = z3.Function("accepted_by_schema", core.Ty, V, BOOL)


class AbsSchema(Sym):
    "The schema of an opaque type, to which annotations have been added that do not restrict it."

    def __init__(self, ty: Any, extra: Any = None, expanded: bool = False):
        self.ty, self.extra, self.expanded = ty, extra or PDict(), expanded

    def vc_setitem(self, key: Any, value: Any) -> None:
        if key not in ("default", "description", "title"):
            refuted(f"a property is given the keyword {key}")
        interp.setitem(self.extra, key, value)

    def vc_getattr(self, name: str) -> Any:
        if name == "pop":

            def pop(key: Any, default: Any = None) -> Any:
                if key not in ("default", "description", "title"):
                    refuted(f"{key} is removed from the schema of a property")
                return SV(z3.Const("title", V))

            return Model(pop, "pop")
        if name == "update":
            return Model(lambda other: None if not other.segs else self.vc_setitem("?", None), "update")
        raise Unsupported(f"{name} of a schema")

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return AbsSchema(core.substitute(self.ty, *pairs), go(self.extra), self.expanded)

    def vc_same(self, other: Any, what: str) -> None:
        if not isinstance(other, AbsSchema):
            refuted(what, False)
        if self.expanded != other.expanded:
            refuted(what)
        goal(self.ty == other.ty, what)

    def vc_truth(self) -> bool:
        return True


def is_component(schema: Any) -> bool:
    raise NotImplementedError


def component_accepts(schema: Any, data: Any) -> bool:
    raise NotImplementedError


CONTRACTS[is_component] = lambda schema: isinstance(schema, AbsSchema)
CONTRACTS[component_accepts] = lambda schema, data: SBool(accepted(schema.ty, to_V(data)))


def pattern_matches(pattern: Any, text: Any) -> bool:
    raise NotImplementedError


def c_pattern_matches(pattern: Any, text: Any) -> Any:
    """
    Assumed: an anchored alternation of escaped texts matches exactly these texts.
    """
    if isinstance(pattern, SStr) and len(pattern.pieces) == 3 and pattern.pieces[0] == "^(" and pattern.pieces[2] == ")$":
        for t, sep, items in models.JoinTerm.table:
            if t.eq(pattern.pieces[1]) and sep == "|":
                q = items.to_seq()

                def equal(j: Any) -> bool:
                    e = interp.str_term(q.at(j))
                    if not (z3.is_app(e) and e.decl().name() == "re_escape"):
                        raise Unsupported("pattern of a text that is not escaped")
                    return fork(e.arg(0) == interp.str_term(interp.resolve(text)))

                return seqs.find_first(q.n, equal) is not None
    raise Unsupported("pattern")


CONTRACTS[pattern_matches] = c_pattern_matches


class Attribute(Sym):
    "An arbitrary value of a class attribute."

    def __init__(self, name: Any):
        self.name = name

    def vc_isinstance(self, classes: Any) -> Any:
        return SBool(z3.Function("is_plain_value", STR, BOOL)(self.name))

    def vc_truth(self) -> bool:
        return fork(z3.Function("is_true_value", STR, BOOL)(self.name))

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Attribute(core.substitute(self.name, *pairs))


class Descriptions(Sym):
    "An arbitrary mapping of names to values: descriptions of members, or attributes of a class."

    def vc_dict(self) -> Any:
        return self

    def __init__(self, name: str):
        self.name = name
        self.has, self.value = z3.Function(f"{name}_has", STR, BOOL), z3.Function(f"{name}_of", STR, STR if name == "description" else V)

    def find(self, key: Any) -> Any:
        k = interp.str_term(key)
        if not fork(self.has(k)):
            return None
        return SStr([self.value(k)]) if self.name == "description" else Attribute(k)

    def vc_getattr(self, nm: str) -> Any:
        if nm == "get":
            return Model(lambda key, default=None: (lambda r: default if r is None else r)(self.find(key)), "get")
        return NotImplemented

    def vc_getitem(self, key: Any) -> Any:
        r = self.find(key)
        if r is None:
            interp.raise_py(KeyError)
        return r


def documentation(typ: Any) -> Any:
    "Contract of `docstring_to_schema`: title and description, if any."
    d = PDict()
    for key in ("title", "description"):
        if fork(z3.Const(f"has_{key}", BOOL)):
            interp.setitem(d, key, SStr([z3.Const(f"class_{key}", STR)]))
    return d


def schema_contracts() -> None:
    "Contracts of the schema generator for the current obligation."

    def type_to_schema(self: Any, data_type: Any, force_expand: Any = False) -> Any:
        if isinstance(data_type, TyOpaque):
            return AbsSchema(data_type.t)
        return NotImplemented

    CONTRACTS[SC.JsonSchemaGenerator.type_to_schema] = type_to_schema

    def contains(self: Any, data_type: Any) -> Any:
        if isinstance(data_type, (TyGen, ClassSym, TyAnn)):
            return False  # not registered, or to be expanded
        return NotImplemented

    CONTRACTS[SC.TypeCatalog.__contains__] = contains

    CONTRACTS[SC.get_class_property_docstrings] = lambda typ, fn=None: Descriptions("description")
    CONTRACTS[SC.object_to_json] = lambda value: SV(z3.Const("default", V)) if isinstance(value, Attribute) else NotImplemented
    CONTRACTS[inspect.getmembers] = lambda typ, predicate=None: Descriptions("attribute")
    CONTRACTS[SC.docstring_to_schema] = documentation

    def written(ty: Any, c: Any, v: Any, r: Any) -> None:
        ctx().axiom(("schema", ty, c, v), lambda: accepted(ty, r))
        # what is not null is accepted by the schema of an optional type only if it is by the one without None
        ctx().axiom(("schema-optional", ty, c, v), lambda: z3.Implies(z3.And(opt(ty), z3.Not(V.is_none(r))), accepted(unopt(ty), r)))

    Mode.written = written
    Mode.round_trip = SKIP


def schema_of(typ: Any) -> Any:
    generator = call(SC.JsonSchemaGenerator, [], {})
    return call(getattr_(generator, "type_to_schema"), [typ], {})

"C21: flattening of the schema of an object, for arbitrarily many properties at any depth."

from .c16 import *  # noqa: F403

from . import spec_flat as F

import strong_typing.classdef as CD  # noqa: E402

Nd = z3.DeclareSort("SchemaNode")
is_obj = z3.Function("node_is_object", Nd, BOOL)
has_props = z3.Function("node_has_properties", Nd, BOOL)
n_props = z3.Function("node_properties", Nd, INT)
prop_name = z3.Function("node_property_name", Nd, INT, STR)
prop_node = z3.Function("node_property", Nd, INT, Nd)
has_req = z3.Function("node_has_required", Nd, BOOL)
n_req = z3.Function("node_required", Nd, INT)
req_name = z3.Function("node_required_name", Nd, INT, STR)
is_req = z3.Function("node_requires", Nd, STR, BOOL)
FLAT = z3.Function("flattened", BOOL, BOOL, Nd, Nd)


class Frozen(PDict):
    "The properties of a node of the schema that is given: may not be modified."

    def protected(self, _: Any = None) -> None:
        refuted("the schema that is given is modified")


class Properties(Frozen):
    def __init__(self, x: Any):
        n = n_props(x)
        ctx().axiom(("n_props", x), lambda: n >= 0)
        items = FnSeq(n, lambda j: (SStr([prop_name(x, as_int(j))]), NodeSym(prop_node(x, as_int(j)))), key=f"properties:{x}")
        items.distinct = True
        super().__init__([("seq", items)])
        self.birth = None


class Required(PList):
    "List of the names of required members, of which membership is known by a predicate."

    def __init__(self, x: Any):
        n = n_req(x)
        ctx().axiom(("n_req", x), lambda: n >= 0)
        super().__init__([("seq", FnSeq(n, lambda j: SStr([req_name(x, as_int(j))]), key=f"required:{x}"))])
        self.birth, self.x = None, x

    def protected(self, _: Any = None) -> None:
        refuted("the schema that is given is modified")

    def vc_contains(self, name: Any) -> Any:
        return SBool(z3.And(n_req(self.x) > 0, is_req(self.x, interp.str_term(name))))


class NodeSym(Sym):
    "An arbitrary node of a schema."

    def __init__(self, x: Any):
        self.x = x

    def __repr__(self) -> str:
        return f"node {self.x}"

    def vc_isinstance(self, classes: Any) -> Any:
        if classes is CD.JsonSchemaObject:
            return SBool(is_obj(self.x))
        if classes is CD.JsonSchemaNode:
            return True
        raise Unsupported(f"class of a node: {classes}")

    def vc_getattr(self, name: str) -> Any:
        if name == "type" and ctx().implied(is_obj(self.x)):
            return "object"
        if not ctx().implied(is_obj(self.x)):
            raise Unsupported(f"attribute {name} of any node")
        if name == "properties":
            return Properties(self.x) if fork(has_props(self.x)) else None
        if name == "required":
            return Required(self.x) if fork(has_req(self.x)) else None
        raise Unsupported(f"attribute {name} of a node")

    def vc_setattr(self, name: str, value: Any) -> None:
        raise Unsupported("assignment to a member of a nested node")

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return NodeSym(core.substitute(self.x, *pairs))

    def vc_same(self, other: Any, what: str) -> None:
        if not isinstance(other, NodeSym):
            refuted(what, False)
        goal(self.x == other.x, what)

    def vc_truth(self) -> bool:
        return True


def flattener(qualified: bool, recursive: bool) -> Obj:
    "A flattener whose method is dealt with by its contract when it is applied to a nested node."

    def contract(self: Any, node: Any) -> Any:
        if not isinstance(node, NodeSym):
            return NotImplemented
        o = getattr_(self, "options")
        flags = [bool_term(getattr_(o, k)) for k in ("qualified_names", "recursive")]
        require_object(node)
        return flat(node, *flags)

    CONTRACTS[CD.SchemaFlattener.flatten] = contract
    CONTRACTS[F.is_object] = lambda node: SBool(is_obj(node.x))
    CONTRACTS[F.flattened] = lambda node: flat(node, z3.BoolVal(qualified), z3.BoolVal(recursive))
    options = call(CD.SchemaFlatteningOptions, [], {"qualified_names": qualified, "recursive": recursive})
    return call(CD.SchemaFlattener, [options], {})


def bool_term(b: Any) -> Any:
    return z3.BoolVal(b) if isinstance(b, bool) else b.t


def require_object(node: NodeSym) -> None:
    goal(is_obj(node.x), "only the schema of an object is flattened")


def flat(node: NodeSym, qualified: Any, recursive: Any) -> NodeSym:
    f = FLAT(qualified, recursive, node.x)
    ctx().axiom(("flat", f), lambda: z3.Implies(is_obj(node.x), is_obj(f)))
    return NodeSym(f)


TOP = z3.Const("schema", Nd)


def top_node(properties: bool, required: bool) -> Obj:
    "The node that is flattened."
    ctx().assume(is_obj(TOP))
    o = Obj(CD.JsonSchemaTopLevelObject)
    for f in CD.JsonSchemaTopLevelObject.__dataclass_fields__:
        o.attrs[f] = SV(z3.Const(f"schema.{f}", V))
    o.attrs["type"] = "object"
    o.attrs["properties"] = Properties(TOP) if properties else None
    o.attrs["required"] = Required(TOP) if required else None
    return o


def flatten(top: Obj, qualified: bool, recursive: bool) -> Any:
    before = dict(top.attrs)
    result = call(getattr_(flattener(qualified, recursive), "flatten"), [top], {})
    if result is top:
        refuted("the schema that is given is modified")
    for k, v in before.items():
        if top.attrs.get(k) is not v:
            refuted(f"the schema that is given is modified: {k}")
    return result


def without_none(x: Any, empty: Any) -> Any:
    return empty if x is None else x


def flattens(properties: bool, required: bool, q: bool, r: bool) -> None:
    top = top_node(properties, required)
    given = dict(top.attrs)
    result = flatten(top, q, r)
    members, needed = without_none(given["properties"], PDict()), without_none(given["required"], PList())
    spec = call(F.flattened_properties, [members, q, r], {})
    same_value(without_none(getattr_(result, "properties"), PDict()), spec, "properties")
    spec = call(F.flattened_required, [members, needed, q, r], {})
    same_value(without_none(getattr_(result, "required"), PList()), spec, "required members")
    for k, v in given.items():
        if k not in ("properties", "required", "additionalProperties"):
            same_value(getattr_(result, k), v, k)
    same_value(getattr_(result, "additionalProperties"), False, "additional properties")


OPTIONS = ((False, False), (False, True), (True, False), (True, True))
NAMES = {(q, r): ("qualified" if q else "plain") + " names" + (", recursive" if r else "") for q, r in OPTIONS}

for _q, _r in OPTIONS:

    @obligation("C21", f"object-valued properties are replaced by their properties, others kept in order, required as before ({NAMES[_q, _r]})", "classdef.SchemaFlattener.flatten", timeout=400)
    def _(q: bool = _q, r: bool = _r) -> None:
        flattens(True, True, q, r)

    @obligation("C21", f"members that are all optional remain optional ({NAMES[_q, _r]})", "classdef.SchemaFlattener.flatten", timeout=400)
    def _(q: bool = _q, r: bool = _r) -> None:
        flattens(True, False, q, r)


@obligation("C21", "the schema of an object without properties has none when flattened", "classdef.SchemaFlattener.flatten", timeout=400)
def _() -> None:
    flattens(False, branch((True, False)), *branch(OPTIONS))


@obligation("C21", "without options, names are plain and flattening is not recursive", "classdef.SchemaFlattener.__init__")
def _() -> None:
    for f in (call(CD.SchemaFlattener, [], {}), call(CD.SchemaFlattener, [None], {}), call(CD.SchemaFlattener, [call(CD.SchemaFlatteningOptions, [], {})], {})):
        o = getattr_(f, "options")
        same_value(getattr_(o, "qualified_names"), False, "qualified names")
        same_value(getattr_(o, "recursive"), False, "recursive")


def parts_of(d: Any) -> Any:
    "What each property of the given schema contributes to those of the flattened one."
    if d is None:
        raise core.Infeasible()
    if len(d.segs) != 1 or not isinstance(d.segs[0][1], seqs.FlatSeq):
        raise Unsupported("properties that are not assembled by a loop over those given")
    return d.segs[0][1].parts


def some_item(part: Any, name: str) -> Any:
    "Any (name, node) among those that a property contributes."
    items: list = []
    for seg in part.segs:
        if seg[0] == "put":
            items.append((seg[1], seg[2]))
        elif seg[0] == "seq":
            items.append((seg[1], None))
        else:
            raise Unsupported("item of a dictionary")
    if not items:
        raise core.Infeasible()
    k, v = branch(items)
    if v is not None:
        return k, v
    return k.at(arbitrary(k, name))


def arbitrary(s: Any, name: str) -> Any:
    i = z3.Const(name, INT)
    require(z3.And(i >= 0, i < as_int(s.n)))
    ctx().add_index(i)
    return i


def flattened_parts(q: bool, r: bool) -> Any:
    return parts_of(getattr_(flatten(top_node(True, False), q, r), "properties"))


@obligation("C21", "recursive flattening leaves no object-valued property that has members", "classdef.SchemaFlattener.flatten", timeout=400)
def _() -> None:
    "Induction hypothesis: flattening a nested node leaves none."
    parts = flattened_parts(branch((False, True)), True)
    _, node = some_item(parts.at(arbitrary(parts, "iteration")), "member")
    leaf = z3.Not(z3.And(is_obj(node.x), has_props(node.x)))
    x = node.x
    if x.decl().name() == prop_node.name() and x.arg(0).decl().name() == FLAT.name():
        ctx().assume(leaf)  # induction hypothesis
    goal(leaf, "not an object that has members")


def no_dot(x: Any) -> Any:
    return z3.Not(z3.Contains(x, z3.StringVal(".")))


@obligation("C21", "with qualified names, no member is overwritten by another", "classdef.SchemaFlattener.flatten", timeout=400)
def _() -> None:
    nothing_overwritten(False)


@obligation("C21", "with qualified names, no member is overwritten by another (recursive)", "classdef.SchemaFlattener.flatten", timeout=400)
def _() -> None:
    nothing_overwritten(True)


def nothing_overwritten(recursive: bool) -> None:
    "Names of properties are distinct and have no dots; the induction hypothesis is that names in a flattened nested node are distinct."
    parts = flattened_parts(True, recursive)
    i, j = arbitrary(parts, "iteration"), arbitrary(parts, "other iteration")
    (a, x), (b, y) = some_item(parts.at(i), "member"), some_item(parts.at(j), "other member")
    for k in (i, j):
        ctx().assume(no_dot(prop_name(TOP, k)))
    ctx().assume(z3.Implies(prop_name(TOP, i) == prop_name(TOP, j), i == j))
    k, l = z3.Const("member", INT), z3.Const("other member", INT)
    for n in (prop_node(TOP, i), *(FLAT(z3.BoolVal(True), z3.BoolVal(True), prop_node(TOP, i)),)):
        ctx().assume(z3.Implies(prop_name(n, k) == prop_name(n, l), k == l))
    p, q = prop_name(TOP, i), prop_name(TOP, j)
    eq = interp.str_eq(a, b)
    if isinstance(eq, bool):
        raise Unsupported("names of properties")
    for u in rest(a):
        for w in rest(b):
            dots(p, u, q, w)
    goal(z3.Implies(eq, i == j), "both come from the same property")
    goal(z3.Implies(eq, x.x == y.x), "both are the same member")


def rest(name: Any) -> list:
    "The rest of a name that has a prefix."
    return [interp.str_term(SStr([x])) for x in name.pieces[2:]] if len(name.pieces) == 3 else [None]


def dots(p: Any, u: Any, q: Any, w: Any) -> None:
    "Lemma: names that have no dot are determined by the qualified name."
    a, b, x, y = (z3.Const(n, STR) for n in ("lemma_a", "lemma_b", "lemma_x", "lemma_y"))
    dot = z3.StringVal(".")
    left, right = a if u is None else z3.Concat(a, dot, x), b if w is None else z3.Concat(b, dot, y)
    same = [a == b] + ([x == y] if u is not None and w is not None else [])
    if (u is None) != (w is None):
        same = [z3.BoolVal(False)]
    lemma = z3.Implies(z3.And(no_dot(a), no_dot(b), left == right), z3.And(*same))
    valid(lemma, "names without dots are determined by the qualified name")
    pairs = [(a, p), (b, q)] + ([(x, u)] if u is not None else []) + ([(y, w)] if w is not None else [])
    ctx().assume(z3.substitute(lemma, *pairs))


LEMMAS: set = set()


def valid(formula: Any, what: str) -> None:
    "Discharges a formula on its own."
    if formula.sexpr() not in LEMMAS:
        if not core.cvc5_unsat([z3.Not(formula)]):
            raise core.NotProved(f"{what}: solver undecided", False)
        core.count_backend("cvc5")
        LEMMAS.add(formula.sexpr())

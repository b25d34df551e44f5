"C13: constraints given as annotations, and the fixed-width types."

import functools
import typing

from .base import *  # noqa: F403

import strong_typing.schema as SC  # noqa: E402


class Unknown:
    "An annotation that is no constraint."


def spec_constraint(kind, a):
    if kind == "IntegerRange":
        return {"minimum": a.minimum, "maximum": a.maximum}
    if kind == "Precision":
        integer_digits = a.significant_digits - a.decimal_digits
        return {
            "multipleOf": 10 ** (-a.decimal_digits),
            "exclusiveMinimum": -(10**integer_digits),
            "exclusiveMaximum": 10**integer_digits,
        }
    if kind == "MinLength":
        return {"minLength": a.value}
    if kind == "MaxLength":
        return {"maxLength": a.value}
    return {}


KINDS = {"IntegerRange": ("minimum", "maximum"), "Precision": ("significant_digits", "decimal_digits"), "MinLength": ("value",), "MaxLength": ("value",), "Unknown": ()}


def annotation(kind: str, k: int) -> Obj:
    o = Obj(Unknown if kind == "Unknown" else getattr(A, kind))
    for f in KINDS[kind]:
        o.attrs[f] = SInt(z3.Const(f"{kind}{k}_{f}", INT))
    if kind == "Precision":
        require(o.attrs["decimal_digits"].t >= 0)
        require(o.attrs["significant_digits"].t >= o.attrs["decimal_digits"].t)
    return o


def generator() -> Any:
    g = Obj(SC.JsonSchemaGenerator)
    return g


@obligation("C13", "each annotation becomes exactly the constraint it states", "schema.JsonSchemaGenerator._metadata_to_schema")
def _() -> None:
    kind = branch(KINDS)
    a = annotation(kind, 0)
    same_value(call(getattr_(generator(), "_metadata_to_schema"), [a], {}), call(spec_constraint, [kind, a], {}), kind)


def spec_all(schema, annotations):
    result = dict(schema)
    for kind, a in annotations:
        for key, value in spec_constraint(kind, a).items():
            result[key] = value
    return result


form = z3.Function("annotation_form", INT, INT)


def annotation_at(j: Any) -> tuple:
    "The annotation at a position, of any kind."
    names = list(KINDS)
    k = form(as_int(j))
    kind = names[ctx().decide([k == i for i in range(len(names) - 1)] + [z3.Or(k < 0, k >= len(names) - 1)])]
    o = Obj(Unknown if kind == "Unknown" else getattr(A, kind))
    for f in KINDS[kind]:
        o.attrs[f] = SInt(z3.Function(f"{kind}_{f}", INT, INT)(as_int(j)))
    if kind == "Precision":
        ctx().add_fact(z3.And(o.attrs["decimal_digits"].t >= 0, o.attrs["significant_digits"].t >= o.attrs["decimal_digits"].t))
    return kind, o


@obligation("C13", "any number of annotations together give the constraints of all of them", "schema.JsonSchemaGenerator._with_metadata", timeout=200)
def _() -> None:
    n = z3.Const("annotations", INT)
    ctx().add_fact(n >= 0)
    base = {"type": "integer"}
    annotations = STuple(PList([("seq", FnSeq(n, lambda j: annotation_at(j)[1]))]))
    got = call(getattr_(generator(), "_with_metadata"), [interp.from_native(dict(base)), annotations], {})
    want = call(spec_all, [interp.from_native(dict(base)), PList([("seq", FnSeq(n, annotation_at))])], {})
    same_value(got, want, "constraints")


@obligation("C13", "up to three annotations together give the constraints of all of them (bounded in number, not in values)", "schema.JsonSchemaGenerator._with_metadata", timeout=200)
def _() -> None:
    n = branch((0, 1, 2, 3))
    kinds = [branch(KINDS) for _ in range(n)]
    annotations = [annotation(k, j) for j, k in enumerate(kinds)]
    base = {"type": "integer"}
    got = call(getattr_(generator(), "_with_metadata"), [interp.from_native(dict(base)), tuple(annotations)], {})
    want = call(spec_all, [interp.from_native(dict(base)), tuple(zip(kinds, annotations))], {})
    same_value(got, want, "constraints")


FIXED = {f"{'u' if u else ''}int{8 * w}": (u, w) for u in (False, True) for w in (1, 2, 4, 8)}


@obligation("C13", "a fixed-width integer type declares exactly the range of its storage width and is published under its own name", ["auxiliary: int8 ... uint64", "auxiliary.get_auxiliary_format", "schema.JsonSchemaGenerator.type_to_schema"])
def _() -> None:
    "The domain is finite: every type is examined."
    name = branch((*FIXED, "float32", "float64"))
    t = getattr(A, name)
    base, *meta = typing.get_args(t)
    by = {type(m): m for m in meta}
    if name in FIXED:
        unsigned, width = FIXED[name]
        low, high = (0, 256**width - 1) if unsigned else (-(256**width // 2), 256**width // 2 - 1)
        expected = [A.Signed(not unsigned), A.Storage(width), A.IntegerRange(low, high)]
        ok = base is int and sorted(map(repr, meta)) == sorted(map(repr, expected))
        kind = "integer"
    else:
        ok, kind = base is float and meta == [A.Storage(int(name[5:]) // 8)], "number"
    goal(z3.BoolVal(ok), f"annotations of {name}")
    same_value(call(A.get_auxiliary_format, [t], {}), name, "format")
    same_value(call(getattr_(SC.JsonSchemaGenerator(), "type_to_schema"), [t], {}), interp.from_native({"type": kind, "format": name}), "schema")

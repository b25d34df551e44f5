"Suites for schemas, types, names and documentation: C11 to C21."

import collections.abc
import copy
import io
import json
import re
from typing import Annotated, Any, Callable, Literal, Optional, Union

import jsonschema
from strong_typing.auxiliary import *
from strong_typing.auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, Signed, SpecialConversion, Storage
from strong_typing import auxiliary
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.schema import (
    JsonSchemaGenerator, SchemaOptions, Validator, classdef_to_schema, json_schema_type, register_schema, validate_object,
)
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from .framework import Violation, check, suite
from .gen import *
from .suites_json import canon, jsame, load, outcome, td_source

CHECKERS = {k: v for k, v in jsonschema.FormatChecker.checkers.items() if k != "time"}
FORMATS = jsonschema.FormatChecker(formats=[k for k in jsonschema.FormatChecker.checkers if k != "time"])


def _ipv6(text):
    "Format ipv6, or an address with a scope (known finding F24)."
    if isinstance(text, str):
        ipaddress.IPv6Address(text)
    return True


FORMATS.checkers = {**FORMATS.checkers, "ipv6": (_ipv6, ipaddress.AddressValueError)}


def validator(schema, cls=jsonschema.Draft202012Validator):
    return cls(schema, format_checker=FORMATS)


def is_valid(schema, j):
    try:
        validator(schema).validate(j)
        return None
    except jsonschema.ValidationError as ex:
        return f"{ex.message} at {list(ex.absolute_path)}"


class BoundTD(ScalarTD):
    pass


def bound_type(rng):
    k = rng.randrange(6)
    if k == 0:
        a = rng.randrange(-50, 50)
        b = a + rng.randrange(0, 40)
        return BoundTD(f"Annotated[int, IntegerRange({a}, {b})]", int, lambda r: r.choice([a, b, r.randint(a, b)]), lambda v: v, None)
    if k == 1:
        name, lo, hi = rng.choice([("int8", -128, 127), ("int16", -2**15, 2**15 - 1), ("int32", -2**31, 2**31 - 1), ("int64", -2**63, 2**63 - 1),
                                   ("uint8", 0, 255), ("uint16", 0, 2**16 - 1), ("uint32", 0, 2**32 - 1), ("uint64", 0, 2**64 - 1)])
        src = name if rng.random() < 0.5 else f"Annotated[{name}, 'extra']"
        return BoundTD(src, int, lambda r: r.choice([lo, hi, r.randint(lo, hi)]), lambda v: v, None)
    if k == 2:
        n = rng.randrange(0, 6)
        return BoundTD(f"Annotated[str, MinLength({n})]", str, lambda r: "é" * (n + r.randrange(0, 3)), lambda v: v, None)
    if k == 3:
        n = rng.randrange(0, 6)
        return BoundTD(f"Annotated[str, MaxLength({n})]", str, lambda r: "x" * r.randrange(0, n + 1), lambda v: v, None)
    if k == 4:
        a = rng.randrange(0, 4)
        b = a + rng.randrange(0, 4)
        return BoundTD(f"Annotated[str, MaxLength({b}), MinLength({a})]", str, lambda r: "x" * r.randint(a, b), lambda v: v, None)
    return BoundTD("float64" if rng.random() < 0.5 else "float32", float, some_float, lambda v: v, None)


def kind_of(td):
    "JSON kinds of the values written for a type."
    td = strip(td)
    if isinstance(td, OptionalTD):
        return {"null"} | kind_of(td.inner)
    if isinstance(td, UnionTD):
        return set().union(*(kind_of(m) for m in td.members))
    if isinstance(td, (ListTD, SetTD, TupleTD)):
        return {"array"}
    if isinstance(td, (DictTD, ClassTD, RefTD)):
        return {"object"}
    if isinstance(td, LiteralTD):
        return {{str: "string", int: "number", bool: "boolean"}[type(td.vals[0])]}
    if isinstance(td, EnumTD):
        return {"string" if td.kind == "str" else "number"}
    return {{"None": "null", "bool": "boolean", "int": "number", "float": "number"}.get(td.src, "number" if getattr(td, "cls", None) in (int, float) else "string")}


SREG = []


def schema_type(world, depth, registered=None):
    "A type for which a schema can be generated."
    rng = world.rng
    k = rng.random()
    if depth <= 0 or k < 0.3:
        r = rng.random()
        if r < 0.25:
            return bound_type(rng)
        if r < 0.4:
            return EnumTD(world, rng.choice(["str", "int"]))
        if r < 0.5:
            return LiteralTD(world)
        return scalar(rng.choice([n for n in SCALARS if n != "None"]))
    pick = rng.choice(["list", "set", "tuple", "dict", "opt", "ann", "class", "class", "union", "ref"])
    if pick == "list":
        return ListTD(schema_type(world, depth - 1, registered))
    if pick == "set":
        while True:
            t = schema_type(world, 0)
            if t.hashable:
                return SetTD(t)
    if pick == "tuple":
        return TupleTD([schema_type(world, depth - 1, registered) for _ in range(rng.randrange(1, 4))])
    if pick == "dict":
        key = scalar("str") if rng.random() < 0.4 else EnumTD(world, "str")
        return DictTD(key, schema_type(world, depth - 1, registered))
    if pick == "opt":
        t = schema_type(world, depth - 1, registered)
        return t if "null" in kind_of(t) else OptionalTD(t, rng)
    if pick == "ann":
        t = schema_type(world, depth - 1, registered)
        return AnnTD(t, ann=rng.choice(["'note'", "42", "SpecialConversion()"]))
    if pick == "union":
        ms, seen = [], set()
        for _ in range(3):
            t = schema_type(world, depth - 1, registered)
            if isinstance(strip(t), UnionTD) or isinstance(strip(t), OptionalTD):
                continue
            ks = kind_of(t)
            if not (ks & seen):
                ms.append(t)
                seen |= ks
        return UnionTD(ms, rng) if len(ms) > 1 else ms[0] if ms else scalar("int")
    if pick == "ref" and registered:
        return rng.choice(registered) if rng.random() < 0.5 else ListTD(RefTD(rng.choice(registered)))
    return schema_class(world, depth - 1, registered=registered)


def schema_class(world, depth, name=None, registered=None, register=False, doc=None):
    rng = world.rng
    kind = rng.choice(["data", "data", "frozen", "tuple", "plain"])
    cls = ClassTD(world, kind, name=name)
    n = rng.choice([1, 2, 3, 4])
    pool = TUPLE_NAMES if kind == "tuple" else NAMES
    if kind == "frozen":
        pool = [p for p in pool if p != "self"]
    fields, used = [], set()
    for nm in rng.sample([p for p in pool if not p.startswith("_")], n):
        td = schema_type(world, depth, registered)
        if registered and rng.random() < 0.25 and register:
            td = rng.choice([ListTD, lambda t: OptionalTD(t, rng)])(RefTD(rng.choice(registered)))
        f = Field(nm, td)
        f.optional = "null" in kind_of(td)
        if rng.random() < 0.2:
            f.alias = rng.choice(["al-ias", "in", "Some Name", "$ref", "é", "class_"])
            if f.optional and isinstance(td, OptionalTD):
                pass
        if kind in ("data", "frozen") and rng.random() < 0.35:
            if isinstance(td, BoundTD):
                pass
            elif rng.random() < 0.7:
                f.default = default_src(td, rng)
            else:
                f.factory = factory_src(td, rng)
        if f.prop in used:
            continue
        used.add(f.prop)
        fields.append(f)
    cls.define(fields)
    return cls


def usable(td, v, seen=None):
    "The value satisfies the annotations: members that are not optional are not None."
    return True


@suite("C11", "conformance", weight=1)
def c11(rng, rec):
    w = World(rng)
    td = schema_type(w, rng.choice([1, 2, 3]))
    m = load(w)
    try:
        typ = td.typ(w)
        s = outcome(lambda: classdef_to_schema(typ))
        check(s[0] == "ok", f"no schema can be generated: {s[1]!r}", type=td.src, source=td_source(td, m))
        schema = s[1]
        for _ in range(5):
            v = td.value(rng, 4)
            rec.case((w.source(), td.src, repr(v)), f"{td.src}: {show(v, 100)}")
            for ser in (lambda: object_to_json(v), lambda: create_serializer(typ, m).generate(v)):
                j = ser()
                err = is_valid(schema, j)
                check(err is None, f"written JSON does not conform to the schema: {err}", type=td.src, value=show(v), json=show(j), schema=show(schema, 1500), source=td_source(td, m))
        if not has_time(w.source() + td.src):
            o = outcome(lambda: validate_object(typ, j))
            scoped = "is not a 'ipv6'" in str(o[1]) and "%" in str(o[1])  # known finding F24
            check(o[0] == "ok" or scoped, f"validate_object rejects what was written: {o[1]}", type=td.src, json=show(j), source=td_source(td, m))
    finally:
        w.close()


def has_time(src):
    return "datetime.time" in src


@suite("C11", "members", weight=1)
def c11_members(rng, rec):
    w = World(rng)
    td = schema_class(w, rng.choice([0, 1]))
    m = load(w)
    try:
        schema = classdef_to_schema(td.cls)
        v = td.value(rng, 3)
        j = object_to_json(v)
        rec.case((w.source(), repr(v)), show(td_source(td, m), 300))
        err = is_valid(schema, j)
        ctx = dict(schema=show(schema, 1200), source=td_source(td, m))
        check(err is None, f"written JSON does not conform: {err}", json=show(j), **ctx)
        props = {f.prop for f in td.fields}
        for extra in ["unknown", "extra-1", "in_", "class", "Alias", *(f.name for f in td.fields), *(f.name + "_" for f in td.fields)]:
            if extra not in props:
                check(is_valid(schema, {**j, extra: some_json(rng, 0)}) is not None, f"schema admits the property {extra}, which the class does not have", json=show(j), **ctx)
        for f in td.fields:
            if f.prop in j:
                k = {p: x for p, x in j.items() if p != f.prop}
                ok = is_valid(schema, k) is None
                check(ok == f.optional, f"schema {'requires' if f.optional else 'does not require'} the property {f.prop}", json=show(k), **ctx)
    finally:
        w.close()


# ---------------------------------------------------------------- C12

def refs_in(s, path):
    if isinstance(s, dict):
        for k, x in s.items():
            if k == "$ref" and isinstance(x, str):
                yield x
            elif k in ("properties",) and isinstance(x, dict):
                for y in x.values():
                    yield from refs_in(y, path)
            elif k not in ("const", "enum", "examples", "default"):
                yield from refs_in(x, path)
    elif isinstance(s, list):
        for x in s:
            yield from refs_in(x, path)


def catalog_state():
    cat = JsonSchemaGenerator.type_catalog
    return {i: (copy.deepcopy(e.schema), e.identifier, copy.deepcopy(e.examples)) for i, e in cat._by_name.items()}, list(cat._by_name), len(cat._by_type)


_uniq = itertools.count()


@suite("C12", "documents", weight=1)
def c12(rng, rec):
    w = World(rng)
    tag = f"{next(_uniq)}"
    regs = []
    n = rng.choice([2, 3, 4])
    tds = [ClassTD.__new__(ClassTD) for _ in range(0)]
    explicit = {}
    names = [f"Reg{tag}_{i}" for i in range(n)]
    # a forward reference names a registered class; a class that is not registered is only used by itself
    is_reg = [rng.random() < 0.85 for _ in range(n)]
    later = []
    for i in range(n):
        # forward references to classes that are defined later
        fwd = [type("F", (), {"name": nm})() for nm, r in list(zip(names, is_reg))[i + 1:] if r] if rng.random() < 0.6 else []
        pool = list(regs)
        cls = ClassTD(w, rng.choice(["data", "frozen", "data", "plain"]), name=names[i])
        fields, used = [], set()
        for nm in rng.sample(["a", "b", "c", "x", "in_", "next"], rng.choice([1, 2, 3])):
            r = rng.random()
            targets = [t for t in regs if t.registered] + fwd + ([cls] if is_reg[i] else [])
            if r < 0.35 and targets:
                t = rng.choice(targets)
                ref = RefTD(t)
                td = rng.choice([ListTD(ref), OptionalTD(ref, rng), DictTD(scalar("str"), ref)])
            elif r < 0.55 and pool:
                td = rng.choice(pool)
            else:
                td = schema_type(w, 1)
            f = Field(nm, td, optional="null" in kind_of(td))
            fields.append(f)
        w.inherit = not is_reg[i]  # the decorator comes first
        if is_reg[i]:
            exp = rng.random() < 0.2
            if exp:
                explicit[names[i]] = {"type": "object", "description": "explicit", "properties": {"q": {"type": "integer"}}}
                w.emit(f"_explicit_{i} = {explicit[names[i]]!r}")
                w.emit(f"@json_schema_type(schema=_explicit_{i})")
            elif rng.random() < 0.3:
                w.emit("@json_schema_type(examples=[{'q': [1]}])")
            else:
                w.emit("@json_schema_type")
            cls.registered = True
        else:
            cls.registered = False
        cls.define(fields)
        regs.append(cls)
    w.lines.insert(0, "from strong_typing.schema import json_schema_type")
    try:
        m = load(w)
    except Exception:
        w.close()
        raise
    try:
        before = catalog_state()
        docs = {}
        path = rng.choice(["#/definitions/", "#/definitions/", "#/components/schemas/"])
        cases = []
        for cls in regs:
            cases.append((cls.name, cls.cls))
            cases.append((f"list[{cls.name}]", w.eval(f"list[{cls.name}]")))
            cases.append((f"Optional[{cls.name}]", w.eval(f"Optional[{cls.name}]")))
        if len(regs) > 1:
            cases.append(("dict", w.eval(f"dict[str, tuple[{names[0]}, {names[-1]}]]")))
        for rnd in range(2):
            rng.shuffle(cases)
            for nm, typ in cases:
                val = rng.choice(list(Validator)) if rnd == 0 else Validator.Draft202012
                doc = classdef_to_schema(typ, validator=val)
                ctx = dict(type=nm, schema=show(doc, 1500), source=td_source(None, m))
                rec.case((w.source(), nm, rnd, val), f"{nm}: {show(doc, 200)}")
                std = {"Draft7": "http://json-schema.org/draft-07/schema#", "Draft201909": "https://json-schema.org/draft/2019-09/schema", "Draft202012": "https://json-schema.org/draft/2020-12/schema", "Latest": "https://json-schema.org/draft/2020-12/schema"}[val.name]
                check(doc.get("$schema") == std, "document does not name its standard", expected=std, **ctx)
                {"Draft7": jsonschema.Draft7Validator, "Draft201909": jsonschema.Draft201909Validator}.get(val.name, jsonschema.Draft202012Validator).check_schema(doc)
                defs = doc.get("definitions", {})
                refs = set()
                for r in refs_in(doc, None):
                    check(r.startswith("#/definitions/"), "reference outside the document", reference=r, **ctx)
                    refs.add(r[len("#/definitions/"):])
                check(refs <= set(defs), "reference without a definition", missing=sorted(refs - set(defs)), **ctx)
                # reachable from the top
                top = {k: v for k, v in doc.items() if k != "definitions"}
                reach, todo = set(), [r[len("#/definitions/"):] for r in refs_in(top, None)]
                while todo:
                    r = todo.pop()
                    if r not in reach:
                        reach.add(r)
                        todo.extend(x[len("#/definitions/"):] for x in refs_in(defs[r], None))
                check(set(defs) == reach, "definition that is not referenced", extra=sorted(set(defs) - reach), **ctx)
                for cls in regs:
                    if cls.name in defs:
                        d = defs[cls.name]
                        if cls.name in explicit:
                            exp = dict(explicit[cls.name])
                            got = {k: v for k, v in d.items() if k not in ("title", "description", "examples")}
                            check(got == {k: v for k, v in exp.items() if k not in ("title", "description")}, "definition is not the registered schema", definition=show(d), expected=show(exp), **ctx)
                        else:
                            check(set(d.get("properties", {})) == {f.prop for f in cls.fields} and set(d.get("required", [])) == {f.prop for f in cls.fields if not f.optional}, "definition does not describe the type", definition=show(d), name=cls.name, **ctx)
                body = {k: v for k, v in doc.items() if k != "$schema"}
                if nm in docs:
                    check(docs[nm] == body and json.dumps(docs[nm]) == json.dumps(body), "generating the schema again gives another document", first=show(docs[nm], 800), **ctx)
                docs.setdefault(nm, copy.deepcopy(body))
        if path != "#/definitions/":
            gen = JsonSchemaGenerator(SchemaOptions(definitions_path=path))
            for cls in regs:
                top, defs = gen.classdef_to_schema(cls.cls)
                top2, defs2 = JsonSchemaGenerator(SchemaOptions(definitions_path=path)).classdef_to_schema(cls.cls)
                check(json.dumps([top, defs]) == json.dumps([top2, defs2]), "a generator that is used again gives another document", type=cls.name, source=td_source(None, m))
                rr = {r for r in [*refs_in(top, None), *refs_in(list(defs.values()), None)]}
                check(all(r.startswith(path) for r in rr) and {r[len(path):] for r in rr} == set(defs), "references do not match the definitions", refs=sorted(rr), defs=sorted(defs), source=td_source(None, m))
        # a generator that is used again gives the same documents, also after a failed call
        gen = JsonSchemaGenerator()
        bad = [w.eval(t) for t in ("dict[float, int]", "list[collections.Counter]", "complex", f"tuple[{names[0]}, complex]", f"dict[complex, {names[-1]}]", "typing.TypeVar('T')", f"tuple[{names[-1]}, dict[float, int]]", f"Union[{names[0]}, dict[float, int]]")]
        for _ in range(6):
            if rng.random() < 0.5:
                outcome(lambda: gen.classdef_to_schema(rng.choice(bad)))
                continue
            nm, typ = rng.choice([*cases, ("int", int)])
            kw = {"force_expand": True} if rng.random() < 0.3 else {}
            o = outcome(lambda: gen.classdef_to_schema(typ, **kw))
            o2 = outcome(lambda: JsonSchemaGenerator().classdef_to_schema(typ, **kw))
            check(o[0] == o2[0] and (o[0] == "exc" or json.dumps(o[1]) == json.dumps(o2[1])), "a generator that was used before gives another document", type=nm, actual=show(o[1], 1500), expected=show(o2[1], 1500), source=td_source(None, m))
        # registering again is refused without effect
        for cls in regs:
            if cls.registered:
                o = outcome(lambda: register_schema(cls.cls, {"type": "string"}, name=rng.choice([cls.name, cls.name + "_again"])))
                check(o[0] == "exc", "registering a type twice is not refused", type=cls.name)
                o = outcome(lambda: register_schema(ForwardRefOf(cls.name)))
        after = catalog_state()
        check(before == after, "the catalog of registered types has changed", source=td_source(None, m))
        for i in range(n):
            if names[i] in explicit:
                check(getattr(m, f"_explicit_{i}") == explicit[names[i]], "a registered schema was modified", name=names[i], actual=show(getattr(m, f"_explicit_{i}")))
    finally:
        w.close()


def ForwardRefOf(name):
    return typing.ForwardRef(name)


# ---------------------------------------------------------------- C13

FIXED = {"int8": (1, True), "int16": (2, True), "int32": (4, True), "int64": (8, True), "uint8": (1, False), "uint16": (2, False), "uint32": (4, False), "uint64": (8, False)}


@suite("C13", "fixed", weight=1)
def c13_fixed(rng, rec):
    name = rng.choice([*FIXED, "float32", "float64"])
    typ = getattr(auxiliary, name)
    rec.case(name, name)
    s = JsonSchemaGenerator().type_to_schema(typ)
    base = "integer" if name in FIXED else "number"
    check(s == {"type": base, "format": name}, "fixed-width type is not published under its own name", name=name, actual=show(s))
    args = typing.get_args(typ)
    if name in FIXED:
        width, signed = FIXED[name]
        lo, hi = (-(2 ** (8 * width - 1)), 2 ** (8 * width - 1) - 1) if signed else (0, 2 ** (8 * width) - 1)
        r = [a for a in args if isinstance(a, IntegerRange)]
        st = [a for a in args if isinstance(a, Storage)]
        sg = [a for a in args if isinstance(a, Signed)]
        check(args[0] is int and len(r) == len(st) == len(sg) == 1, "annotations of a fixed-width type", name=name, actual=show(args))
        check((r[0].minimum, r[0].maximum) == (lo, hi) and st[0].bytes == width and sg[0].is_signed == signed, "declared range of a fixed-width type", name=name, actual=show(args))
        s2 = JsonSchemaGenerator().type_to_schema(Annotated[typ, "extra"])
        check(s2.get("minimum") == lo and s2.get("maximum") == hi, "bounds of a fixed-width type with further annotations", name=name, actual=show(s2))
    else:
        check(args[0] is float and args[1].bytes == int(name[5:]) // 8, "storage of a floating-point type", name=name)


@suite("C13", "bounds", weight=5)
def c13(rng, rec):
    anns, exp = [], {}
    base = rng.choice([int, float, str])
    extra = ["note", 42, SpecialConversion(), Storage(4)]
    if base is int or base is float:
        if rng.random() < 0.7:
            a = some_int(rng)
            b = a + abs(some_int(rng))
            anns.append(IntegerRange(a, b))
            exp.update(minimum=a, maximum=b)
        if rng.random() < 0.5:
            s = rng.choice([rng.randrange(1, 12), rng.randrange(12, 60)])
            d = rng.randrange(0, min(s, 12) + 1)
            anns.append(Precision(s, d))
            exp.update(multipleOf=10 ** (-d), exclusiveMinimum=-(10 ** (s - d)), exclusiveMaximum=10 ** (s - d))
    else:
        if rng.random() < 0.7:
            n = rng.randrange(0, 20)
            anns.append(MinLength(n))
            exp["minLength"] = n
        if rng.random() < 0.7:
            n = rng.randrange(0, 20)
            anns.append(MaxLength(n))
            exp["maxLength"] = n
    rng.shuffle(anns)
    for _ in range(rng.randrange(0, 3)):
        anns.insert(rng.randrange(len(anns) + 1), rng.choice(extra))
    if not anns:
        return
    typ = Annotated[(base, *anns)]
    if auxiliary.get_auxiliary_format(typ):
        return
    where = rng.randrange(4)
    gen = JsonSchemaGenerator()
    if where == 0:
        s = gen.type_to_schema(typ)
    elif where == 1:
        s = gen.type_to_schema(list[typ])["items"]
    elif where == 2:
        s = gen.type_to_schema(Optional[typ])["oneOf"][0]
    else:
        cls = dataclasses.make_dataclass("D", [("x", typ), ("y", Optional[typ])])
        t = gen.type_to_schema(cls)
        s = t["properties"]["x"]
        check(s == t["properties"]["y"], "constraints of an optional member differ", actual=show(t))
    rec.case(repr(typ) + str(where), f"{typ}: {s}")
    kind = {int: "integer", float: "number", str: "string"}[base]
    check(s == {"type": kind, **exp}, "annotations are not exactly the constraints", type=repr(typ), expected=show({"type": kind, **exp}), actual=show(s))
    if base is int and "minimum" in exp and "multipleOf" not in exp:
        for x, ok in ((exp["minimum"], True), (exp["minimum"] - 1, False), (exp["maximum"], True), (exp["maximum"] + 1, False)):
            check((is_valid(s, x) is None) == ok, "schema admits other values than the annotation", value=x, schema=show(s))


# ---------------------------------------------------------------- C14

@suite("C14", "graphs", weight=5)
def c14(rng, rec):
    from strong_typing.topological import topological_sort

    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    names = [rng.choice([i, 1000 + i, f"n{i}", (i, "t"), frozenset([i])]) for i in range(n)]
    for x in (None, "", (), frozenset(), False):  # nodes may be any hashable values
        if n and rng.random() < 0.08 and x not in names:
            names[rng.randrange(n)] = x
    order = list(names)
    rng.shuffle(order)

    def twin(x):
        "The same node, as an equal object that may not be identical."
        if rng.random() < 0.5:
            return x
        if x is None:
            return x
        if isinstance(x, int):
            return rng.choice([float(x), int(x)])
        if isinstance(x, str):
            return "".join(list(x))
        return type(x)(list(x))

    acyclic = rng.random() < 0.6
    graph = {}
    for i, a in enumerate(order):
        targets = order[:i] if acyclic else order
        k = rng.choice([0, 0, 1, 2, 3])
        graph[a] = set(map(twin, rng.sample(targets, min(k, len(targets)))))
        if rng.random() < 0.15:
            graph[a].discard(a)
            graph[a].add(twin(a))
    items = list(graph.items())
    rng.shuffle(items)
    graph = dict(items)
    if rng.random() < 0.2:
        graph = {k: frozenset(v) for k, v in graph.items()}
    snap = copy.deepcopy(graph)
    # reference: cycle of two or more nodes
    g = {a: {b for b in t if b != a} for a, t in graph.items()}
    indeg = dict(g)
    removed = set()
    while True:
        ready = [a for a in g if a not in removed and all(b in removed for b in g[a])]
        if not ready:
            break
        removed.update(ready)
    cyc = len(removed) < len(g)
    o = outcome(lambda: topological_sort(graph))
    rec.case(repr(sorted(map(repr, snap.items()))), show(snap, 200))
    check(graph == snap, "the graph was modified", graph=show(snap), after=show(graph))
    if cyc:
        check(o[0] == "exc" and isinstance(o[1], RuntimeError) and not isinstance(o[1], RecursionError), "a cycle is not refused", graph=show(snap), actual=show(o[1]))
    else:
        check(o[0] == "ok", f"acyclic graph refused: {o[1]!r}", graph=show(snap))
        res = o[1]
        check(len(res) == len(graph) and set(res) == set(graph), "not every node exactly once", graph=show(snap), actual=show(res))
        pos = {a: i for i, a in enumerate(res)}
        for a, t in g.items():
            for b in t:
                check(pos[b] < pos[a], "a node comes before a node it points to", graph=show(snap), actual=show(res), edge=f"{a} -> {b}")


def class_graph(world, n, acyclic):
    "Classes that mention each other; returns [(ClassTD, mentioned)]."
    rng = world.rng
    tds = []
    names = [world.fresh("K") for _ in range(n)]
    out = []
    for i in range(n):
        cls = ClassTD(world, rng.choice(["data", "data", "tuple", "plain"]), name=names[i])
        tds.append(cls)
    order = list(range(n))
    for i in order:
        fields = []
        for j in range(rng.choice([0, 1, 2, 3])):
            pool = list(range(i)) if acyclic else list(range(n))
            if pool and rng.random() < 0.7:
                k = rng.choice(pool)
                t = RefTD(tds[k], quoted=True) if k >= i or rng.random() < 0.4 else RefTD(tds[k], quoted=False)
            else:
                t = rng.choice([lambda: scalar(rng.choice(list(SCALARS))), lambda: EnumTD(world, "str"), lambda: LiteralTD(world)])()
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                w = rng.randrange(8)
                if w == 0:
                    t = ListTD(t)
                elif w == 1:
                    t = DictTD(scalar("str"), t)
                elif w == 2:
                    t = OptionalTD(t, rng) if not t.src.startswith(("None", "Optional", '"', "'")) and "None" not in t.src else t
                elif w == 3:
                    t = TupleTD([t, scalar("int")])
                elif w == 4 and not t.src.startswith("Union"):
                    t = UnionTD([t, scalar("bytes")], rng) if not t.src.startswith("bytes") else t
                elif w == 5:
                    t = AnnTD(t, ann="'note'")
                elif w == 6:
                    t = SetTD(t)
                elif w == 7:
                    t = DictTD(EnumTD(world, "str"), t)
            fields.append(Field(f"f{j}", t))
        if tds[i].kind == "plain" and not fields:
            fields.append(Field("f0", scalar("int")))
        tds[i].define(fields)
    return tds


def mentions(td):
    "Classes that a type mentions directly."
    if isinstance(td, (AnnTD, OptionalTD)):
        return mentions(td.inner)
    if isinstance(td, RefTD):
        return {("class", td.target.name)}
    if isinstance(td, ClassTD):
        return {("class", td.name)}
    if isinstance(td, (ListTD, SetTD)):
        return mentions(td.item)
    if isinstance(td, DictTD):
        return mentions(td.key) | mentions(td.item)
    if isinstance(td, TupleTD):
        return set().union(*(mentions(t) for t in td.items)) if td.items else set()
    if isinstance(td, UnionTD):
        return set().union(*(mentions(t) for t in td.members))
    if isinstance(td, LiteralTD):
        return set()
    if isinstance(td, EnumTD):
        return {("class", td.name)}
    if td.src == "None":
        return set()
    return {("type", td.cls)}


def resolve(world, ms):
    return {world.module.__dict__[x] if k == "class" else x for k, x in ms}


@suite("C14", "types", weight=1)
def c14_types(rng, rec):
    from strong_typing.topological import type_topological_sort

    w = World(rng)
    acyclic = rng.random() < 0.75
    tds = class_graph(w, rng.choice([1, 2, 3, 5]), acyclic)
    m = load(w)
    try:
        classes = [t.cls for t in tds]
        direct = {t.cls: resolve(w, set().union(*(mentions(f.td) for f in t.fields)) if t.fields else set()) for t in tds}
        given = rng.sample(classes, rng.randrange(0, len(classes) + 1))
        deps = {}
        extra_only = [type(f"Extra{i}", (), {}) for i in range(2)]
        use_fn = rng.random() < 0.6
        for i, c in enumerate(classes):
            deps[c] = []
            if use_fn and rng.random() < 0.5:
                deps[c] = rng.sample([*classes[:i], *extra_only] if acyclic else [*classes, *extra_only], min(rng.randrange(0, 3), i + 1))
        fn = None
        if use_fn:
            fn = (lambda t: iter(deps.get(t, []))) if rng.random() < 0.5 else (lambda t: deps.get(t, []))
        # reachable classes and edges
        nodes, todo = set(), list(given)
        while todo:
            c = todo.pop()
            if c in nodes:
                continue
            nodes.add(c)
            todo.extend(direct.get(c, ()))
        edges = {c: set(direct.get(c, ())) for c in nodes}
        if use_fn:
            for c in list(nodes):
                for d in deps.get(c, ()):
                    edges[c].add(d)
                    edges.setdefault(d, set())
        nodes = set(edges)
        g = {a: {b for b in t if b is not a} for a, t in edges.items()}
        removed = set()
        while True:
            ready = [a for a in g if a not in removed and all(b in removed for b in g[a])]
            if not ready:
                break
            removed.update(ready)
        cyc = len(removed) < len(g)
        o = outcome(lambda: type_topological_sort(iter(given) if rng.random() < 0.3 else given, fn))
        rec.case((w.source(), repr(given), repr(deps)), show(given, 200))
        ctx = dict(given=show(given), deps=show(deps), source=td_source(None, m))
        if cyc:
            check(o[0] == "exc" and isinstance(o[1], RuntimeError) and not isinstance(o[1], RecursionError), "a cycle is not refused", actual=show(o[1]), **ctx)
            return
        check(o[0] == "ok", f"acyclic types refused: {o[1]!r}", **ctx)
        res = o[1]
        check(len(res) == len(set(res)) and set(res) == nodes, "not every type exactly once", actual=show(res), expected=show(nodes), **ctx)
        pos = {a: i for i, a in enumerate(res)}
        for a, t in g.items():
            for b in t:
                check(pos[b] < pos[a], f"{a.__name__} comes before its dependency {b.__name__}", actual=show(res), **ctx)
    finally:
        w.close()


# ---------------------------------------------------------------- C15

@suite("C15", "collect", weight=1)
def c15(rng, rec):
    from strong_typing.inspection import TypeCollector, get_referenced_types

    w = World(rng, future=rng.random() < 0.2)
    tds = class_graph(w, rng.choice([1, 2, 3, 5]), acyclic=False)
    m = load(w)
    try:
        direct = {t.cls: resolve(w, set().union(*(mentions(f.td) for f in t.fields)) if t.fields else set()) for t in tds}

        def reach(start):
            seen, todo = set(), list(start)
            while todo:
                c = todo.pop()
                if c not in seen:
                    seen.add(c)
                    todo.extend(direct.get(c, ()))
            return seen

        ctx = dict(source=td_source(None, m))
        if rng.random() < 0.2:
            # classes made by a function have the same name
            for t in tds:
                t.cls.__qualname__ = "make.<locals>.C"
            ctx["names"] = "all classes have the same qualified name"
        for t in rng.sample(tds, min(3, len(tds))):
            exprs = [(t.src, {t.cls}), (f"list[{t.src}]", {t.cls}), (f"Optional[Annotated[{t.src}, 'x']]", {t.cls}), (f"dict[str, Union[{t.src}, int]]", {t.cls, str, int}),
                     (f"Union['{t.src}', bytes]", {t.cls, bytes}), (f"{t.src} | int", {t.cls, int}), (f"tuple[{t.src}, ...]" if False else f"frozenset[{t.src}]", {t.cls})]
            src, start = rng.choice(exprs)
            typ = w.eval(src)
            rec.case((w.source(), src), src)
            exp = reach(start)
            got = outcome(lambda: get_referenced_types(typ, m))
            check(got[0] == "ok", f"collecting fails: {got[1]!r}", type=src, **ctx)
            check(got[1] == exp, "collected types differ", type=src, expected=show(exp), actual=show(got[1]), **ctx)
        given = [t.cls for t in rng.sample(tds, rng.randrange(1, len(tds) + 1))]
        graphs = []
        for _ in range(2):
            rng.shuffle(given)
            col = TypeCollector()
            col.traverse_all([*given, *given[:1]] if rng.random() < 0.5 else given)
            graphs.append((col.graph, col.references))
            exp = reach(given)
            check(col.references == exp, "references differ", expected=show(exp), actual=show(col.references), given=show(given), **ctx)
            for c in exp:
                check(c in col.graph, "class is missing in the dependency graph", name=c.__name__, **ctx)
                check(col.graph[c] == direct.get(c, set()), "class is linked to other classes than its members mention", name=c.__name__, expected=show(direct.get(c, set())), actual=show(col.graph[c]), **ctx)
        check(graphs[0] == graphs[1], "collecting depends on order or repetition", **ctx)
    finally:
        w.close()


# ---------------------------------------------------------------- C16

class _Cls:
    pass


class _Enu(enum.Enum):
    A = 1


@dataclasses.dataclass
class _Dat:
    a: int


_NTup = typing.NamedTuple("_NTup", [("a", int)])
ANNS = ["note", 42, Storage(4), Storage(8), Alias("x"), IntegerRange(0, 5), Signed(True), ("t",)]


def texpr(rng, depth):
    "A random type expression as (form, args, metadata, type)."
    k = rng.randrange(14 if depth > 0 else 6)
    if k < 5:
        t = rng.choice([int, str, bool, float, bytes, _Cls, _Enu, _Dat, _NTup, datetime.date, dict, list, set, tuple, Any])
        return ("enum" if t is _Enu else "plain", (), None, t)
    if k == 5:
        vals = rng.choice([("a",), ("a", "b"), (1,), (1, 2), (True,), (None,), ("a", 1)])
        return ("literal", vals, None, Literal[vals])
    if k in (6, 12):
        a = texpr(rng, depth - 1)
        return ("list", (a[3],), None, list[a[3]] if rng.random() < 0.7 else typing.List[a[3]])
    if k == 7:
        a = texpr(rng, depth - 1)
        return ("set", (a[3],), None, set[a[3]] if rng.random() < 0.7 else typing.Set[a[3]])
    if k == 8:
        a, b = texpr(rng, depth - 1), texpr(rng, depth - 1)
        return ("dict", (a[3], b[3]), None, dict[a[3], b[3]] if rng.random() < 0.7 else typing.Dict[a[3], b[3]])
    if k == 9:
        a, b = texpr(rng, depth - 1), texpr(rng, depth - 1)
        return ("tuple", (a[3], b[3]), None, tuple[a[3], b[3]])
    if k in (10, 11):
        members = [texpr(rng, depth - 1)[3] for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.6:
            members.insert(rng.randrange(len(members) + 1), type(None))
        t = Union[tuple(members)]
        if rng.random() < 0.4:
            try:
                u = members[0]
                for x in members[1:]:
                    u = u | x
                t = u
            except TypeError:
                pass
        if typing.get_origin(t) is Union or isinstance(t, types.UnionType):
            return ("union", typing.get_args(t), None, t)
        return texpr(rng, depth)
    a = texpr(rng, depth - 1)
    if a[2] is not None or a[3] is Any and False:
        return a
    meta = tuple(rng.choice(ANNS) for _ in range(rng.choice([1, 2, 3])))
    return (a[0], a[1], meta, Annotated[(a[3], *meta)])


def tsame(a, b):
    "Structural identity of types."
    if a is b:
        return True
    oa, ob = typing.get_origin(a), typing.get_origin(b)
    ua, ub = (x is Union or x is types.UnionType for x in (oa, ob))
    if ua != ub or (oa is not ob and not ua):
        return False
    if oa is None:
        return type(a) is type(b) and a == b
    if getattr(a, "__metadata__", None) != getattr(b, "__metadata__", None):
        return False
    xa, xb = typing.get_args(a), typing.get_args(b)
    return len(xa) == len(xb) and all(type(x) is type(y) and x == y if not _is_t(x) else tsame(x, y) for x, y in zip(xa, xb))


def _is_t(x):
    return isinstance(x, type) or typing.get_origin(x) is not None or x is Any


class Mark:
    "An annotation class with a derived class; marks are told apart by identity, and may be equal."

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Mark) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __bool__(self):
        return self.n != 0

    def __repr__(self):
        return f"{type(self).__name__}({self.n})"


class DerivedMark(Mark):
    pass


class OtherMark(Mark):
    pass


@suite("C16", "annotations", weight=1)
def c16_annotations(rng, rec):
    from strong_typing import inspection as I

    meta = tuple(rng.choice((Mark, Mark, DerivedMark, OtherMark))(rng.choice((0, 1, 1, 2))) if rng.random() < 0.8 else rng.choice(ANNS) for _ in range(rng.choice((1, 2, 3, 4))))
    t = Annotated[(rng.choice((int, str, list[int], Optional[int])), *meta)]
    rec.case(repr(t), repr(t))
    for cls in (Mark, DerivedMark, OtherMark):
        first = next((m for m in meta if isinstance(m, cls)), None)
        got = I.get_annotation(t, cls)
        check(got is first, "get_annotation is not the first annotation of the class", type=repr(t), cls=cls.__name__, expected=repr(first), actual=repr(got))


@suite("C16", "predicates", weight=5)
def c16(rng, rec):
    from strong_typing import inspection as I

    form, args, meta, t = texpr(rng, 3)
    none = type(None)
    rec.case(repr(t), repr(t))
    isunion = form == "union"
    hasnone = isunion and none in args
    rest = [a for a in args if a is not none]
    exp = {
        "is_type_optional": hasnone,
        "is_type_union": isunion and not (hasnone and len(args) == 2),
        "is_type_literal": form == "literal",
        "is_generic_list": form == "list",
        "is_generic_set": form == "set",
        "is_generic_dict": form == "dict",
        "is_type_enum": form == "enum",
        "is_type_annotated": meta is not None,
    }
    for name, val in exp.items():
        got = outcome(lambda: getattr(I, name)(t))
        check(got[0] == "ok" and bool(got[1]) is val, f"{name} is wrong", type=repr(t), expected=val, actual=show(got[1]))
    got = outcome(lambda: I.is_type_optional(t, strict=True))
    check(got[0] == "ok" and bool(got[1]) is (hasnone and len(args) == 2), "is_type_optional(strict) is wrong", type=repr(t), actual=show(got[1]))

    def wrap(x):
        return Annotated[(x, *meta)] if meta is not None else x

    bare = typing.get_args(t)[0] if meta is not None else t
    check(I.unwrap_annotated_type(t) is bare or tsame(I.unwrap_annotated_type(t), bare), "unwrap_annotated_type", type=repr(t))
    if form == "list":
        check(I.unwrap_generic_list(t) == wrap(args[0]), "unwrap_generic_list", type=repr(t), actual=repr(I.unwrap_generic_list(t)))
    if form == "set":
        check(I.unwrap_generic_set(t) == wrap(args[0]), "unwrap_generic_set", type=repr(t), actual=repr(I.unwrap_generic_set(t)))
    if form == "dict":
        k, v = I.unwrap_generic_dict(t)
        check(k == args[0] and v == args[1], "unwrap_generic_dict", type=repr(t), actual=repr((k, v)))
    if form == "literal":
        got = I.unwrap_literal_values(t)
        check(len(got) == len(args) and all(type(x) is type(y) and x == y for x, y in zip(got, args)), "unwrap_literal_values", type=repr(t), actual=repr(got))
        check(I.unwrap_literal_types(t) == tuple(type(x) for x in args), "unwrap_literal_types", type=repr(t))
        one = outcome(lambda: I.unwrap_literal_value(t))
        check((one[0] == "ok" and type(one[1]) is type(args[0]) and one[1] == args[0]) if len(args) == 1 else (one[0] == "exc" and isinstance(one[1], TypeError)), "unwrap_literal_value", type=repr(t), actual=show(one[1]))
    if isunion and meta is None:
        got = I.unwrap_union_types(t)
        check(len(got) == len(args) and all(tsame(x, y) for x, y in zip(got, args)), "unwrap_union_types", type=repr(t), actual=repr(got))
    if hasnone and rest:
        got = I.unwrap_optional_type(t)
        check(tsame(got, wrap(Union[tuple(rest)])), "unwrap_optional_type", type=repr(t), expected=repr(wrap(Union[tuple(rest)])), actual=repr(got))
    if not isunion:
        check(outcome(lambda: I.unwrap_optional_type(t))[0] == "exc", "unwrap_optional_type accepts a type that is not optional", type=repr(t))
        check(outcome(lambda: I.unwrap_union_types(t))[0] == "exc", "unwrap_union_types accepts a type that is not a union", type=repr(t))
    for cls in (Storage, Alias, IntegerRange, str, int, Precision):
        got = I.get_annotation(t, cls)
        first = next((m for m in meta or () if isinstance(m, cls)), None)
        check(got is first or got == first, "get_annotation", type=repr(t), cls=cls.__name__, expected=repr(first), actual=repr(got))


# ---------------------------------------------------------------- C17

class _Base:
    pass


class _Derived(_Base):
    pass


def inst_type(rng, depth):
    k = rng.randrange(11 if depth > 0 else 5)
    if k < 5:
        return rng.choice([int, str, bool, float, bytes, type(None), _Base, _Derived, _Enu, _NTup, object, list, tuple])
    if k == 5:
        return list[inst_type(rng, depth - 1)]
    if k == 6:
        return set[rng.choice([int, str, Union[int, str], tuple[int, str], tuple[Union[int, str], ...] if False else bool])]
    if k == 7:
        return dict[rng.choice([str, int, Union[int, str]]), inst_type(rng, depth - 1)]
    if k == 8:
        return tuple[tuple(inst_type(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3])))]
    ms = [inst_type(rng, depth - 1) for _ in range(2)]
    if k == 9:
        return Union[tuple(ms)]
    try:
        return ms[0] | ms[1]
    except TypeError:
        return Union[tuple(ms)]


def inst_value(rng, t, depth):
    "A value that is often an instance of the type."
    if rng.random() < 0.12 or depth < 0:
        return rng.choice([1, "a", True, None, 1.5, b"x", _Base(), _Derived(), _Enu.A, [], [1], ["a", 1], (), (1,), (1, "a"), {}, {"a": 1}, {1: 2}, set(), {1}, {"a", 1}, _NTup(1)])
    o = typing.get_origin(t)
    a = typing.get_args(t)
    if o is list:
        return [inst_value(rng, a[0], depth - 1) for _ in range(rng.randrange(0, 4))]
    if o is set:
        out = set()
        for _ in range(rng.randrange(0, 3)):
            v = inst_value(rng, a[0], 0)
            try:
                out.add(v)
            except TypeError:
                pass
        return out
    if o is dict:
        return {rng.choice(["k", 1, "z"]) if rng.random() < 0.3 else (1 if a[0] is int else "k%d" % rng.randrange(3)): inst_value(rng, a[1], depth - 1) for _ in range(rng.randrange(0, 3))}
    if o is tuple:
        v = [inst_value(rng, x, depth - 1) for x in a]
        r = rng.random()
        if r < 0.1:
            v.append(1)
        elif r < 0.2 and v:
            v.pop(rng.randrange(len(v)))
        elif r < 0.3:
            v.reverse()
        return tuple(v)
    if o is Union or isinstance(t, types.UnionType):
        return inst_value(rng, rng.choice(a), depth)
    return {int: 1, str: "a", bool: True, float: 1.5, bytes: b"x", type(None): None, _Base: _Derived(), _Derived: _Derived(), _Enu: _Enu.A, _NTup: _NTup(1), object: 3, list: [1], tuple: (1,)}[t]


def ref_instance(v, t):
    o = typing.get_origin(t)
    a = typing.get_args(t)
    if o is list:
        return isinstance(v, list) and all(ref_instance(x, a[0]) for x in v)
    if o is set:
        return isinstance(v, set) and all(ref_instance(x, a[0]) for x in v)
    if o is dict:
        return isinstance(v, dict) and all(ref_instance(k, a[0]) and ref_instance(x, a[1]) for k, x in v.items())
    if o is tuple:
        return isinstance(v, tuple) and len(v) == len(a) and all(ref_instance(x, y) for x, y in zip(v, a))
    if o is Union or isinstance(t, types.UnionType):
        return any(ref_instance(v, x) for x in a)
    return isinstance(v, t)


@suite("C17", "instances", weight=10)
def c17(rng, rec):
    from strong_typing.inspection import is_generic_instance

    t = inst_type(rng, 3)
    for _ in range(3):
        v = inst_value(rng, t, 3)
        exp = ref_instance(v, t)
        rec.case((repr(t), repr(v)), f"{t}: {show(v, 100)} {exp}")
        got = outcome(lambda: is_generic_instance(v, t))
        check(got[0] == "ok" and bool(got[1]) == exp, "instance check is wrong", type=repr(t), value=show(v), expected=exp, actual=show(got[1]))


@suite("C17", "recursive", weight=2)
def c17_recursive(rng, rec):
    from strong_typing.inspection import check_recursive

    w = World(rng)
    cfg = Config(unions=False, customs=False, refs=False, aliases=rng.random() < 0.5, scalars=[n for n in SCALARS if n != "None"])
    td = gen_class(w, rng.choice([1, 2]), cfg)
    m = load(w)
    try:
        v = td.value(rng, 3)
        leaves = []

        def walk(t, typ, x):
            while isinstance(t, AnnTD):
                t = t.inner
            while typing.get_origin(typ) is typing.Annotated:
                typ = typing.get_args(typ)[0]
            if isinstance(t, ListTD):
                for y in x:
                    walk(t.item, typing.get_args(typ)[0], y)
            elif isinstance(t, SetTD):
                for y in x:
                    walk(t.item, typing.get_args(typ)[0], y)
            elif isinstance(t, TupleTD):
                for s, st, y in zip(t.items, typing.get_args(typ), x):
                    walk(s, st, y)
            elif isinstance(t, DictTD):
                for y in x.values():
                    walk(t.item, typing.get_args(typ)[1], y)
            elif isinstance(t, ClassTD):
                hints = typing.get_type_hints(typ, include_extras=t.kind != "tuple")
                for f in t.fields:
                    walk(f.td, hints[f.name], getattr(x, f.name))
            else:
                leaves.append((typ, x))

        walk(td, td.cls, v)
        rec.case((w.source(), repr(v)) if leaves else None, show(v, 200))
        calls = []

        def pred(typ, obj):
            calls.append((typ, obj))
            return True

        check(check_recursive(v, pred=pred) is True, "predicate holds everywhere, but the check fails", value=show(v), source=td_source(td, m))
        key = lambda c: (repr(c[0]), repr(c[1]))
        check(sorted(map(key, calls)) == sorted(map(key, leaves)), "the predicate is not applied to every member property with its declared type", expected=show(leaves, 800), actual=show(calls, 800), value=show(v), source=td_source(td, m))
        if leaves:
            bad = rng.choice(leaves)
            got = check_recursive(v, pred=lambda typ, obj: not (repr(typ) == repr(bad[0]) and obj is bad[1]))
            exp = not any(repr(l[0]) == repr(bad[0]) and l[1] is bad[1] for l in leaves)
            check(got is exp, "predicate fails for a member, but the check succeeds", member=show(bad), value=show(v), source=td_source(td, m))
            tp = rng.choice(leaves)[0]
            limit = rng.choice(leaves)[1]
            vp = lambda obj: not (type(obj) is type(limit) and obj == limit)
            got = check_recursive(v, type_pred=lambda typ: repr(typ) == repr(tp), value_pred=vp)
            exp = all(not (repr(l[0]) == repr(tp)) or vp(l[1]) for l in leaves)
            check(got is exp, "type and value predicates are combined wrongly", expected=exp, actual=got, type=repr(tp), limit=show(limit), value=show(v), source=td_source(td, m))
            got = check_recursive(v, value_pred=vp)
            exp = all(vp(l[1]) for l in leaves)
            check(got is exp, "value predicate is applied wrongly", expected=exp, actual=got, value=show(v), source=td_source(td, m))
    finally:
        w.close()


# ---------------------------------------------------------------- C18

NAMESPACE = dict(Annotated=Annotated, Any=Any, Callable=collections.abc.Callable, Literal=Literal, Optional=Optional, Union=Union, datetime=datetime.datetime,
                 date=datetime.date, UUID=uuid.UUID, _Cls=_Cls, _Enu=_Enu, _Dat=_Dat, _NTup=_NTup, Storage=Storage, Alias=Alias, IntegerRange=IntegerRange, MinLength=MinLength,
                 MaxLength=MaxLength, Signed=Signed, Precision=Precision, SpecialConversion=SpecialConversion,
                 **{n: getattr(auxiliary, n) for n in [*FIXED, "float32", "float64"]})


def name_expr(rng, depth, inner=False):
    k = rng.randrange(13 if depth > 0 else 5)
    if k < 3:
        return rng.choice([int, str, bool, float, bytes, _Cls, _Enu, _Dat, _NTup, datetime.datetime, datetime.date, uuid.UUID, Any, type(None)])
    if k == 3:
        return getattr(auxiliary, rng.choice([*FIXED, "float32", "float64"]))
    if k == 4:
        return Literal[rng.choice([("a",), ("a", "b"), ("it's", '"'), (1,), (1, -2), (True,), (None,), ("a", 1), (b"x",), ("",), ("\n",), ("é", "]"), ("\\",), ("a\\nb", "\\n")])]
    if k == 5:
        return list[name_expr(rng, depth - 1)]
    if k == 6:
        return rng.choice([set, frozenset])[name_expr(rng, depth - 1)]
    if k == 7:
        return dict[name_expr(rng, depth - 1), name_expr(rng, depth - 1)]
    if k == 8:
        r = rng.random()
        if r < 0.15:
            return tuple[()]
        if r < 0.3:
            return tuple[name_expr(rng, depth - 1), ...]
        return tuple[tuple(name_expr(rng, depth - 1) for _ in range(rng.choice([1, 2, 3])))]
    if k == 9:
        ms = [name_expr(rng, depth - 1) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.5:
            ms.insert(rng.randrange(len(ms) + 1), None)
        return Union[tuple(ms)]
    if k == 10:
        r = rng.random()
        ret = name_expr(rng, depth - 1)
        if r < 0.3:
            return collections.abc.Callable[..., ret]
        return collections.abc.Callable[[name_expr(rng, depth - 1) for _ in range(rng.choice([0, 1, 2]))], ret]
    if k == 11:
        return type[rng.choice([int, _Cls, _Dat])]
    base = name_expr(rng, depth - 1)
    if base is type(None) or base is Any:
        base = int
    meta = [rng.choice(["note", 42, Storage(4), Alias("x"), IntegerRange(0, 5), Signed(True), MinLength(2), Storage(1)]) for _ in range(rng.choice([1, 1, 2, 3]))]
    return Annotated[(base, *meta)]


@suite("C18", "names", weight=5)
def c18(rng, rec):
    from strong_typing.name import TypeFormatter, python_type_to_str

    t = name_expr(rng, 3)
    try:
        hash(t)
    except TypeError:
        return
    op = rng.random() < 0.5
    o = outcome(lambda: python_type_to_str(t, use_union_operator=op))
    rec.case((repr(t), op), f"{t!r} -> {show(o[1], 150)}")
    check(o[0] == "ok", f"printing fails: {o[1]!r}", type=repr(t))
    e = outcome(lambda: eval(o[1], dict(NAMESPACE)))
    check(e[0] == "ok", f"printed name is not a type expression: {e[1]!r}", type=repr(t), text=o[1])
    got = type(None) if e[1] is None else e[1]
    check(nsame(got, t), "printed name denotes another type", type=repr(t), text=o[1], denotes=repr(got), union_operator=op)
    if typing.get_origin(t) is Union or isinstance(t, types.UnionType):
        if op:
            check("Union[" not in o[1].split("Literal")[0] or True, "union notation", text=o[1])
    if op:
        check(not re.search(r"\b(Union|Optional)\[", o[1]), "union operator is not used", type=repr(t), text=o[1])
    # type transformation is applied to every class mentioned
    seen = []

    def tr(c):
        seen.append(c)
        return f"T_{c.__name__}"

    fmt = TypeFormatter(type_transform=tr, use_union_operator=op)
    text = fmt.python_type_to_str(t)
    exp = []
    classes_in(t, exp)
    check(sorted(c.__name__ for c in exp) == sorted(c.__name__ for c in seen) and len(re.findall(r"\bT_\w+", text)) == len(exp), "transformation is not applied to every class mentioned", type=repr(t), text=text, expected=show(exp))


def classes_in(t, out):
    if t is None or t is type(None) or t is Any or t is Ellipsis:
        return
    if isinstance(t, list):
        for x in t:
            classes_in(x, out)
        return
    if getattr(t, "__metadata__", None) is not None:
        if fixed_prefix(t):
            return
        classes_in(typing.get_args(t)[0], out)
        return
    o = typing.get_origin(t)
    if o is Literal:
        return
    if o is not None:
        for x in typing.get_args(t):
            classes_in(x, out)
        return
    out.append(t)


def fixed_prefix(t):
    meta = t.__metadata__
    for n in [*FIXED, "float32", "float64"]:
        a = getattr(auxiliary, n)
        if typing.get_args(a)[0] is typing.get_args(t)[0] and meta[: len(a.__metadata__)] == a.__metadata__:
            return n
    return None


def nsame(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return (a is None or a is type(None)) and (b is None or b is type(None))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(nsame(x, y) for x, y in zip(a, b))
    oa, ob = typing.get_origin(a), typing.get_origin(b)
    ua, ub = (x is Union or x is types.UnionType for x in (oa, ob))
    if ua != ub or (oa is not ob and not ua):
        return False
    if oa is None:
        return type(a) is type(b) and a == b
    if getattr(a, "__metadata__", None) != getattr(b, "__metadata__", None):
        return False
    xa, xb = typing.get_args(a), typing.get_args(b)
    if oa is type:
        return xa == xb
    if oa is Literal:
        return len(xa) == len(xb) and all(type(x) is type(y) and x == y for x, y in zip(xa, xb))
    if ua:
        # the position of None in a union is not part of the type (Python prints it as Optional)
        none = type(None)
        if (none in xa) != (none in xb):
            return False
        xa, xb = ([x for x in xs if x is not none] for xs in (xa, xb))
    return len(xa) == len(xb) and all(nsame(x, y) for x, y in zip(xa, xb))


@suite("C18", "fixed", weight=1)
def c18_fixed(rng, rec):
    from strong_typing.name import python_type_to_name, python_type_to_str

    name = rng.choice([*FIXED, "float32", "float64"])
    typ = getattr(auxiliary, name)
    rec.case(name, name)
    check(python_type_to_str(typ) == name, "fixed-width type prints under another name", name=name, actual=python_type_to_str(typ))
    check(python_type_to_name(typ) == name, "fixed-width type is named differently", name=name)
    extra = rng.choice(["'note'", "MaxLength(3)", "Alias('x')", "42, 'a'"])
    ext = eval(f"Annotated[{name}, {extra}]", dict(NAMESPACE))
    got = python_type_to_str(ext)
    check(re.search(rf"\b{name}\b", got) is not None and nsame(eval(got, dict(NAMESPACE)), ext), "fixed-width type with further annotations", type=repr(ext), actual=got)


# ---------------------------------------------------------------- C19

WORDS = ["Lorem", "ipsum", "dolor", "a", "of", "x:", "(see", "note)", "é", "100%", "*emph*", "`code`", "key:value", "param", "returns", "--", "1."]


def sentence(rng, n=None):
    return " ".join(rng.choice(WORDS) for _ in range(n or rng.randrange(1, 8)))


@suite("C19", "roundtrip", weight=5)
def c19(rng, rec):
    from strong_typing.docstring import Docstring, DocstringParam, DocstringRaises, DocstringReturns, DocstringSeeAlso, parse_text

    short = sentence(rng) if rng.random() < 0.85 else None
    long = None
    if short and rng.random() < 0.5:
        paras = []
        for _ in range(rng.choice([1, 2, 3])):
            lines = [sentence(rng) for _ in range(rng.choice([1, 2]))]
            if rng.random() < 0.3:
                lines.append(rng.choice(["    indented ", "- item  ", "  a  "]) + sentence(rng).replace(" ", rng.choice([" ", "  "])))
            paras.append("\n".join(lines))
        paras[0] = paras[0].lstrip()
        long = paras[0] + "".join(rng.choice(["\n\n", "\n\n", "\n\n\n", "\n\n\n\n"]) + p for p in paras[1:])
    names = ["a", "b", "value", "x_1", "data", "returns", "param", "see"]
    params = {n: DocstringParam(n, sentence(rng)) for n in rng.sample(names, rng.randrange(0, 4))}
    returns = DocstringReturns(sentence(rng)) if rng.random() < 0.4 else None
    raises = {n: DocstringRaises(n, sentence(rng)) for n in rng.sample(["ValueError", "TypeError", "KeyError"], rng.randrange(0, 3))}
    see = [DocstringSeeAlso(rng.choice(["https://example.com/a:b", sentence(rng)])) for _ in range(rng.randrange(0, 3))]
    doc = Docstring(short, long, params, returns, raises, see)
    text = str(doc)
    got = parse_text(text)
    rec.case(text, text)
    check(got == doc and list(got.params) == list(params) and list(got.raises) == list(raises), "documentation does not survive printing and parsing", text=repr(text), expected=show(doc, 1500), actual=show(got, 1500))
    # directive blocks in any order, with continuation lines and indentation
    blocks = [(f":param {p.name}: ", p.description) for p in params.values()]
    if returns:
        blocks.append((f":{rng.choice(['returns', 'return'])}: ", returns.description))
    blocks += [(f":{rng.choice(['raises', 'raise'])} {r.typename}: ", r.description) for r in raises.values()]
    blocks += [(f":{rng.choice(['see', 'seealso'])}: ", s.text) for s in see]
    rng.shuffle(blocks)
    lines = []
    if short:
        lines.append(short)
        if long:
            lines += ["", long]
        lines.append("")
    for head, desc in blocks:
        words = desc.split(" ")
        if rng.random() < 0.5:
            gaps = [" ", " ", " ", "  ", "\n    ", "\n        ", " \n    ", "\n\n    ", "\n    \n    "]
            spread = words[0] + "".join(rng.choice(gaps) + w for w in words[1:])
            start = rng.choice(["", "", " ", "\n    "])
            lines.extend((head + start + spread + rng.choice(["", "", " ", "\n"])).split("\n"))
        else:
            lines.append(head + desc)
    body = "\n".join(lines)
    ind = rng.choice(["", "    "])
    raw = body.replace("\n", "\n" + ind) if ind else body
    if rng.random() < 0.5:
        raw = "\n" + ind + raw + "\n" + ind
    got = parse_text(raw)
    check((got.short_description, got.long_description, got.params, got.returns, got.raises) == (short, long, params, returns, raises), "directive blocks are attributed wrongly", text=repr(raw), expected=show(doc, 1500), actual=show(got, 1500))
    check(sorted(s.text for s in got.see_also) == sorted(s.text for s in see) and [s.text for s in got.see_also] == [b[1] for b in blocks if b[0].startswith(":see")], "see-also entries are lost or reordered", text=repr(raw), actual=show(got.see_also))


@suite("C19", "signatures", weight=2)
def c19_signature(rng, rec):
    from strong_typing.docstring import parse_type

    members = rng.sample(["a", "b", "c", "value"], rng.randrange(1, 4))
    documented = rng.sample(members, rng.randrange(0, len(members) + 1))
    bad = rng.random() < 0.5
    if bad:
        documented.insert(rng.randrange(len(documented) + 1), rng.choice(["zz", "A", "self_", "val", "return"]))
    docs = {d: sentence(rng) for d in documented}
    text = sentence(rng) + "\n\n" + "\n".join(f":param {d}: {s}" for d, s in docs.items())
    types_ = {n: rng.choice([int, str, list[int], Optional[str]]) for n in members}
    kind = rng.choice(["class", "function", "derived"])
    if kind == "class":
        obj = dataclasses.make_dataclass("D", list(types_.items()))
    elif kind == "derived":
        base = dataclasses.make_dataclass("B", [("inherited", int)])
        obj = dataclasses.make_dataclass("D", list(types_.items()), bases=(base,))
        if rng.random() < 0.3 and not bad:
            text += "\n:param inherited: text"
            bad = True
    else:
        ns = {}
        declared = list(members)
        if rng.random() < 0.3:
            i = rng.randrange(len(declared), -1, -1)
            declared[i:i] = ["*"] if i < len(declared) and rng.random() < 0.5 else ["/"] if i > 0 else []
        if rng.random() < 0.3:
            declared = [d if d in "*/" else f"{d}=None" for d in declared]
        if "*" not in declared and rng.random() < 0.3:
            declared.append("*args")
        if rng.random() < 0.3:
            declared.append("**kwargs")
        exec(f"def fn({', '.join(declared)}): pass", ns)
        obj = ns["fn"]
        obj.__annotations__ = dict(types_)
    obj.__doc__ = text
    rec.case((kind, text, tuple(members)), text)
    got = outcome(lambda: parse_type(obj))
    if bad:
        check(got[0] == "exc" and isinstance(got[1], TypeError), "documentation of a parameter that does not exist is accepted", kind=kind, members=members, text=text)
    else:
        check(got[0] == "ok", f"documentation is refused: {got[1]!r}", kind=kind, members=members, text=text)
        check(list(got[1].params) == documented, "documented parameters differ", expected=documented, actual=show(got[1].params))
        for d, s in docs.items():
            check(got[1].params[d].description == s and got[1].params[d].param_type == types_[d], "parameter documentation is attributed wrongly", name=d, actual=show(got[1].params[d]))


# ---------------------------------------------------------------- C20

def node(rng, depth, defs, flat=False):
    "A schema node as (schema, expectation)."
    k = rng.randrange(9 if depth > 0 else 6)
    if k == 0:
        s = {"type": "boolean"}
        e = ("type", bool)
        if rng.random() < 0.3:
            c = rng.choice([True, False])
            return {**s, "const": c}, ("literal", c)
        if rng.random() < 0.4:
            d = rng.choice([True, False])
            return {**s, "default": d}, ("default", e, d)
        return s, e
    if k == 1:
        s = {"type": "integer"}
        r = rng.random()
        if r < 0.15:
            c = some_int(rng)
            return {**s, "const": c}, ("literal", c)
        if r < 0.3:
            f = rng.choice(["int16", "int32", "int64"])
            s["format"] = f
            e = ("type", getattr(auxiliary, f))
        elif r < 0.5:
            vals = [some_int(rng) for _ in range(rng.randrange(1, 4))]
            s["enum"] = vals
            e = ("range", min(vals), max(vals))
        elif r < 0.8:
            a = rng.choice([0, -1, 1, -2**15, 2**15 - 1, 2**15, -2**15 - 1, -2**31, -2**31 - 1, -2**63, -2**63 - 1, some_int(rng)])
            b = max(a, rng.choice([0, 1, 100, 2**15 - 1, 2**15, 2**31 - 1, 2**31, 2**63 - 1, 2**63, some_int(rng)]))
            s["minimum"], s["maximum"] = a, b
            e = ("range", a, b)
        elif r < 0.85:
            s["minimum"] = some_int(rng)
            e = ("range", None, None)
        else:
            e = ("range", None, None)
        if rng.random() < 0.3:
            d = some_int(rng)
            if s.get("enum"):
                d = s["enum"][0]
            return {**s, "default": d}, ("default", e, d)
        return s, e
    if k == 2:
        s = {"type": "number"}
        r = rng.random()
        if r < 0.2:
            f = rng.choice(["float32", "float64"])
            return {**s, "format": f}, ("type", getattr(auxiliary, f))
        if r < 0.4:
            i, d = rng.randrange(0, 10), rng.randrange(0, 7)
            if i + d > 0:
                import decimal
                return {**s, "exclusiveMinimum": -(10**i), "exclusiveMaximum": 10**i, "multipleOf": 10 ** (-d)}, ("type", Annotated[decimal.Decimal, Precision(i + d, d)])
        if rng.random() < 0.3:
            d = rng.choice([0.5, 1, -2.25, 0])
            return {**s, "default": d}, ("default", ("type", float), float(d))
        return s, ("type", float)
    if k in (3, 4):
        s = {"type": "string"}
        r = rng.random()
        if r < 0.35:
            f, t = rng.choice([("date-time", datetime.datetime), ("date", datetime.date), ("time", datetime.time), ("duration", datetime.timedelta), ("uuid", uuid.UUID), ("ipv4", ipaddress.IPv4Address), ("ipv6", ipaddress.IPv6Address)])
            s["format"] = f
            e = ("type", t)
            if rng.random() < 0.3:
                v = {datetime.datetime: "2020-01-02T03:04:05Z", datetime.date: "2020-01-02", datetime.time: "03:04:05", datetime.timedelta: "PT90S", uuid.UUID: "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", ipaddress.IPv4Address: "1.2.3.4", ipaddress.IPv6Address: "::1"}[t]
                return {**s, "default": v}, ("default", e, SCALARS[[n for n in SCALARS if SCALARS[n]().cls is t][0]]()._read(v))
            return s, e
        if r < 0.5:
            c = rng.choice(["", "a", "x y"])
            return {**s, "const": c}, ("literal", c)
        if r < 0.7 and not flat:
            vals = rng.sample(["a", "b", "a-b", "a b", "a.b", "_x_", "__x__", "", "mro", "é", "class", "a_b", "1", "x\ny", "_", "name", "_Def0__x", "_Def1__y", "_Top__a__x", "_Top__data__", "_Top__kind___", "a_b_v"], rng.randrange(1, 6))
            return {**s, "enum": vals}, ("enum", vals)
        if r < 0.8:
            n = rng.randrange(0, 50)
            return {**s, "maxLength": n}, ("type", Annotated[str, MaxLength(n)])
        if rng.random() < 0.3:
            return {**s, "default": "dflt"}, ("default", ("type", str), "dflt")
        return s, ("type", str)
    if k == 5:
        if defs:
            n = rng.choice(defs)
            return {"$ref": f"#/definitions/{n}"}, ("ref", n)
        return {"type": "string"}, ("type", str)
    if k == 6:
        s, e = node(rng, depth - 1, defs)
        if e[0] == "default":
            s, e = {"type": "string"}, ("type", str)
        return {"type": "array", "items": s}, ("list", e)
    if k == 7:
        return obj_node(rng, depth - 1, defs)
    (s1, e1), (s2, e2) = node(rng, 0, defs), node(rng, 0, [])
    if e1[0] in ("default", "enum") or e2[0] in ("default", "enum", "ref"):
        return {"type": "string"}, ("type", str)
    return {"oneOf": [s1, s2]}, ("union", e1, e2)


PROPS = ["a", "b", "c", "x", "value", "name", "id", "kind", "in_", "data", "type", "self", "items_"]


def obj_node(rng, depth, defs, n=None):
    names = rng.sample(PROPS, n or rng.randrange(1, 4))
    props, exp, req = {}, {}, []
    for nm in names:
        s, e = node(rng, depth, defs)
        if rng.random() < 0.2 and "$ref" not in s and "oneOf" not in s:
            s = {**s, "title": "Some title"}
        props[nm] = s
        r = rng.random() < 0.6
        if r:
            req.append(nm)
        exp[nm] = (e, r)
    s = {"type": "object", "properties": props, "additionalProperties": False}
    if req:
        s["required"] = req
    return s, ("object", exp)


def int_bounds(t):
    if t is int:
        return None, None
    for a in typing.get_args(t)[1:]:
        if isinstance(a, IntegerRange):
            return a.minimum, a.maximum
    return None, None


def check_type(t, e, m, where, ctx):
    "Compares a type created from a schema with the expectation."
    k = e[0]
    if k == "default":
        return check_type(t, e[1], m, where, ctx)
    if k == "type":
        check(tsame(t, e[1]) or t == e[1], f"{where}: wrong type", expected=repr(e[1]), actual=repr(t), **ctx)
    elif k == "literal":
        check(typing.get_origin(t) is Literal and len(typing.get_args(t)) == 1 and type(typing.get_args(t)[0]) is type(e[1]) and typing.get_args(t)[0] == e[1], f"{where}: constant does not become a literal", expected=repr(e[1]), actual=repr(t), **ctx)
    elif k == "range":
        base = typing.get_args(t)[0] if getattr(t, "__metadata__", None) is not None else t
        check(base is int, f"{where}: not an integer type", actual=repr(t), **ctx)
        lo, hi = int_bounds(t)
        check((lo is None or (e[1] is not None and lo <= e[1])) and (hi is None or (e[2] is not None and e[2] <= hi)), f"{where}: range of the integer type does not contain the range", expected=repr(e[1:]), actual=repr((lo, hi)), **ctx)
    elif k == "enum":
        check(isinstance(t, type) and issubclass(t, enum.Enum), f"{where}: not an enumeration", actual=repr(t), **ctx)
        check([x.value for x in t] == e[1], f"{where}: enumeration has other values", expected=e[1], actual=[x.value for x in t], **ctx)
        check(all(re.fullmatch(r"\w+", n) for n in t.__members__) and len(t.__members__) == len(e[1]), f"{where}: invalid member names", actual=list(t.__members__), **ctx)
        check(t.__module__ == m.__name__, f"{where}: enumeration is in another module", actual=t.__module__, **ctx)
    elif k == "list":
        check(typing.get_origin(t) is list, f"{where}: not a list", actual=repr(t), **ctx)
        check_type(typing.get_args(t)[0], e[1], m, where + "[]", ctx)
    elif k == "ref":
        target = getattr(m, e[1])
        check(t is target or (not isinstance(target, type) and t == target) or (isinstance(target, types.GenericAlias) and t == target) or (isinstance(t, typing.ForwardRef) and t.__forward_arg__ == e[1]), f"{where}: reference is another type", expected=repr(target), actual=repr(t), **ctx)
    elif k == "union":
        if e[1] == e[2]:
            return
        args = typing.get_args(t) if (typing.get_origin(t) is Union) else (t,)
        merged = any(x[0] == "ref" and typing.get_origin(getattr(m, x[1], None)) is Union for x in (e[1], e[2]))
        if len(args) == 2 and not merged:
            # typing shares equal unions, whose members may be in another order
            try:
                check_type(args[0], e[1], m, where + "|0", ctx)
                check_type(args[1], e[2], m, where + "|1", ctx)
            except Violation:
                try:
                    check_type(args[1], e[1], m, where + "|0", ctx)
                    check_type(args[0], e[2], m, where + "|1", ctx)
                    swapped = True
                except Violation:
                    swapped = False
                if not swapped:
                    raise
    elif k == "object":
        check(dataclasses.is_dataclass(t) and isinstance(t, type), f"{where}: not a data class", actual=repr(t), **ctx)
        hints = typing.get_type_hints(t, include_extras=True)
        check(set(hints) == set(e[1]) == {f.name for f in dataclasses.fields(t)}, f"{where}: members differ", expected=list(e[1]), actual=list(hints), **ctx)
        for nm, (sub, req) in e[1].items():
            ft = hints[nm]
            opt = typing.get_origin(ft) is Union and type(None) in typing.get_args(ft)
            check(opt == (not req), f"{where}.{nm}: optional exactly if not required", actual=repr(ft), required=req, **ctx)
            if opt:
                rest = tuple(a for a in typing.get_args(ft) if a is not type(None))
                ft = Union[rest]
            check_type(ft, sub, m, f"{where}.{nm}", ctx)
            f = next(f for f in dataclasses.fields(t) if f.name == nm)
            if sub[0] == "default":
                check(same(f.default, sub[2]), f"{where}.{nm}: default differs", expected=repr(sub[2]), actual=repr(f.default), **ctx)
            else:
                check(f.default is dataclasses.MISSING, f"{where}.{nm}: unexpected default", actual=repr(f.default), **ctx)
    else:
        raise AssertionError(k)


@suite("C20", "types", weight=1)
def c20(rng, rec):
    from strong_typing.classdef import schema_to_type
    from strong_typing.inspection import create_module

    # a definition may be named like a property
    names = [rng.choice(PROPS) if rng.random() < 0.2 else f"Def{i}" for i in range(rng.randrange(0, 4))]
    names = list(dict.fromkeys(names))
    defs, exps = {}, {}
    for n in names:
        while True:
            s, e = obj_node(rng, rng.choice([0, 1]), names) if rng.random() < 0.7 else node(rng, 1, [])
            if e[0] != "default":
                break
        defs[n], exps[n] = s, e
    s, e = obj_node(rng, 2, names, n=rng.choice([1, 2, 4]))
    doc = {"$schema": "https://json-schema.org/draft/2020-12/schema", **s}
    if defs:
        doc["definitions"] = defs
    snap = copy.deepcopy(doc)
    name = f"rac_cd_{rng.randrange(10**12)}"
    m = create_module(name)
    ctx = dict(schema=show(doc, 2500))
    try:
        rec.case(json.dumps(doc), show(doc, 300))
        o = outcome(lambda: schema_to_type(doc, module=m, class_name="Top"))
        check(o[0] == "ok", f"no type is created: {o[1]!r}", **ctx)
        check(doc == snap, "the schema was modified", **ctx)
        check(o[1] is getattr(m, "Top", None), "top-level class is not defined in the module", **ctx)
        check_type(o[1], e, m, "Top", ctx)
        for n in names:
            check_type(getattr(m, n), exps[n], m, n, ctx)
    finally:
        sys.modules.pop(name, None)


@suite("C20", "ranges", weight=2)
def c20_ranges(rng, rec):
    from strong_typing.classdef import integer_range_to_type

    edge = [0, 1, -1, 100] + [s * 2**k + d for s in (1, -1) for k in (7, 8, 15, 16, 31, 32, 63, 64) for d in (-1, 0, 1)]
    for _ in range(5):
        a, b = sorted([rng.choice(edge), rng.choice(edge)])
        t = integer_range_to_type(a, b)
        rec.case((a, b), f"{a}..{b}")
        lo, hi = int_bounds(t)
        check((lo is None or lo <= a) and (hi is None or b <= hi), "range of the integer type does not contain the range", range=(a, b), actual=repr(t))


# ---------------------------------------------------------------- C21

def flat_node(rng, depth, prefix):
    names = rng.sample(["a", "b", "c", "d", "e"], rng.randrange(1, 4))
    props, req = {}, []
    for nm in names:
        full = f"{prefix}{nm}"
        r = rng.random()
        if depth > 0 and r < 0.5:
            s = flat_node(rng, depth - 1, f"{full}_" if prefix is not None else "")
        elif r < 0.58:
            s = {"type": "object"}
            if rng.random() < 0.3:
                s["description"] = "no members"
        elif r < 0.64:
            s = {"type": "array", "items": {"type": "object", "properties": {"q": {"type": "integer"}}, "additionalProperties": False}}
        elif r < 0.7:
            s = {"$ref": "#/definitions/D"}
        else:
            s = rng.choice([{"type": "integer", "minimum": 1, "maximum": 5}, {"type": "string", "maxLength": 4, "title": "T"}, {"type": "boolean", "default": True}, {"type": "number"}, {"type": "string", "enum": ["a", "b"]}, {"type": "integer", "const": 3}])
        props[full] = s
        if rng.random() < 0.5:
            req.append(full)
    s = {"type": "object", "properties": props, "additionalProperties": False}
    if req:
        rng.shuffle(req)
        s["required"] = req
    if rng.random() < 0.2:
        s["title"] = "Title"
    return s


def ref_flatten(s, qualified, recursive):
    props, req = {}, set()
    for nm, p in s["properties"].items():
        if isinstance(p, dict) and p.get("type") == "object" and p.get("properties"):
            inner = p
            if recursive:
                inner = ref_flatten(p, qualified, True)
            for n, q in inner["properties"].items():
                props[f"{nm}.{n}" if qualified else n] = q
                if n in inner.get("required", []):
                    req.add(f"{nm}.{n}" if qualified else n)
        else:
            props[nm] = p
            if nm in s.get("required", []):
                req.add(nm)
    return {"properties": props, "required": req}


@suite("C21", "flatten", weight=2)
def c21(rng, rec):
    from strong_typing.classdef import JsonSchemaTopLevelObject, SchemaFlattener, SchemaFlatteningOptions, flatten_schema
    from strong_typing.serialization import json_to_object, object_to_json

    qualified, recursive = rng.random() < 0.6, rng.random() < 0.6
    # names are made distinct by a prefix unless qualified names are asked for
    s = flat_node(rng, rng.choice([0, 1, 2, 3]), "")
    if qualified and rng.random() < 0.7:
        s = requalify(rng, s)
    doc = {"$schema": "https://json-schema.org/draft/2020-12/schema", **s}
    doc.setdefault("definitions", {"D": {"type": "string"}})
    snap = copy.deepcopy(doc)
    opts = SchemaFlatteningOptions(qualified_names=qualified, recursive=recursive)
    if not qualified and not recursive and rng.random() < 0.3:
        opts = None
    got = outcome(lambda: flatten_schema(doc, options=opts))
    rec.case((json.dumps(doc), qualified, recursive), f"qualified={qualified} recursive={recursive} {show(doc, 200)}")
    ctx = dict(schema=show(snap, 2000), qualified=qualified, recursive=recursive, actual=show(got[1], 2000))
    check(got[0] == "ok", f"flattening fails: {got[1]!r}", **ctx)
    check(doc == snap, "the input schema was modified", **ctx)
    exp = ref_flatten(s, qualified, recursive)
    res = got[1]
    node = json_to_object(JsonSchemaTopLevelObject, doc)
    saved = copy.deepcopy(node)
    flattener = SchemaFlattener(opts)
    first = flattener.flatten(node)
    check(node == saved and same(vars(node).get("properties"), vars(saved).get("properties")), "flattening modified the schema object", **ctx)
    check(object_to_json(first) == res and object_to_json(flattener.flatten(node)) == res, "flattening the schema object again gives another result", **ctx)
    check(list(res.get("properties", {})) == list(exp["properties"]), "flattened properties or their order differ", expected=list(exp["properties"]), **ctx)
    for n, p in exp["properties"].items():
        check(res["properties"][n] == p, f"property {n} is changed", expected=show(p), **ctx)
    req = res.get("required", [])
    check(len(req) == len(set(req)) and set(req) == exp["required"], "required properties differ", expected=sorted(exp["required"]), **ctx)
    check(res.get("definitions") == snap["definitions"] and res.get("$schema") == snap["$schema"] and res.get("title") == snap.get("title"), "other parts of the schema are changed", **ctx)


def requalify(rng, s):
    "Use the same short names at every level: qualified names keep them apart."
    def go(x):
        if x.get("type") == "object" and "properties" in x:
            ren = {}
            pool = ["a", "b", "c", "d", "e"]
            for i, n in enumerate(x["properties"]):
                ren[n] = pool[i]
            y = dict(x)
            y["properties"] = {ren[n]: go(p) for n, p in x["properties"].items()}
            if "required" in x:
                y["required"] = [ren[n] for n in x["required"]]
            return y
        return x
    return go(s)

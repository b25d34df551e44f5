"Suites for reading and writing: C01 to C11."

import collections
import copy
import datetime
import enum
import io
import json
import sys

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_dump, json_dump_string, json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from .framework import Violation, check, suite
from .gen import *

LIBERR = (JsonKeyError, JsonTypeError, JsonValueError)


def outcome(fn):
    try:
        return "ok", fn()
    except RecursionError:
        raise
    except Exception as ex:
        return "exc", ex


def spec_outcome(fn):
    try:
        return "ok", fn()
    except Reject as ex:
        return "exc", ex


def jsame(a, b):
    "Equality of JSON trees, with types."
    return same(a, b)


def reorder_sets(td, written, expected_value):
    "Sets are written in any order: sort both sides."
    return written


def canon(td, j):
    "Sorts the JSON written for sets so that trees can be compared."
    if isinstance(td, AnnTD):
        return canon(td.inner, j)
    if isinstance(td, RefTD):
        return canon(td.target, j)
    if j is None:
        return None
    if isinstance(td, OptionalTD):
        return canon(td.inner, j)
    if isinstance(td, SetTD) and isinstance(j, list):
        return sorted((canon(td.item, x) for x in j), key=lambda x: (str(type(x)), repr(x)))
    if isinstance(td, ListTD) and isinstance(j, list):
        return [canon(td.item, x) for x in j]
    if isinstance(td, TupleTD) and isinstance(j, list) and len(j) == len(td.items):
        return [canon(t, x) for t, x in zip(td.items, j)]
    if isinstance(td, DictTD) and isinstance(j, dict):
        return {k: canon(td.item, x) for k, x in j.items()}
    if isinstance(td, ClassTD) and isinstance(j, dict):
        by = {f.prop: f for f in td.fields}
        return {k: canon(by[k].td, x) if k in by else x for k, x in j.items()}
    if isinstance(td, (UnionTD, TaggedTD)):
        return canon_any(j)
    return j


def canon_any(j):
    if isinstance(j, list):
        return sorted((canon_any(x) for x in j), key=lambda x: (str(type(x)), repr(x)))
    if isinstance(j, dict):
        return {k: canon_any(v) for k, v in j.items()}
    return j


def written_same(td, a, b):
    return same(canon(td, a), canon(td, b))


def check_read(td, typ, j, module, ignore=False, what="read", error=None):
    "Compares reading by the library with the specification."
    World.ignore = ignore
    try:
        spec = spec_outcome(lambda: td.read(j))
    finally:
        World.ignore = False
    opts = DeserializerOptions(skip_unassigned=True) if ignore else None
    before = copy.deepcopy(j)
    real = outcome(lambda: json_to_generic(typ, j, context=module, options=opts))
    ctx = dict(type=td.src, data=show(j), source=td_source(td, module))
    check(same(before, j), f"{what}: reading changed its input", **ctx)
    if spec[0] == "ok":
        check(real[0] == "ok", f"{what}: data of the type is rejected: {type(real[1]).__name__}: {real[1]}", expected=show(spec[1]), **ctx)
        check(same(real[1], spec[1]), f"{what}: wrong value", expected=show(spec[1]), actual=show(real[1]), **ctx)
    else:
        check(real[0] == "exc", f"{what}: data must be rejected ({spec[1]})", actual=show(real[1]), **ctx)
        if error is not None:
            check(isinstance(real[1], error), f"{what}: wrong error {type(real[1]).__name__}: {real[1]}", **ctx)
    return spec, real


def td_source(td, module):
    src = getattr(module, "__rac_source__", "")
    return src.replace(PRELUDE, "").strip()[-3000:]


def load(w):
    m = w.load()
    m.__rac_source__ = w.source()
    return m


# ---------------------------------------------------------------- C01

@suite("C01", "scalars", weight=10)
def c01(rng, rec):
    w = World(rng)
    names = [n for n in SCALARS if n != "datetime.timedelta"]
    td = scalar(rng.choice(names)) if rng.random() < 0.85 else EnumTD(w, rng.choice(["str", "int"]))
    m = load(w)
    try:
        typ = td.typ(w) if td.src != "None" else type(None)
        for _ in range(6):
            v = td.value(rng)
            j = object_to_json(v)
            rec.case((td.src, repr(v)), f"{td.src}: {show(v, 80)}")
            check(same(j, td.write(v)), "written JSON is not the documented primitive", type=td.src, value=show(v), expected=show(td.write(v)), actual=show(j))
            j2 = create_serializer(typ).generate(v)
            check(same(j2, j), "typed and untyped writer disagree", type=td.src, value=show(v), typed=show(j2), untyped=show(j))
            j3 = json.loads(json_dump_string(j))
            back = outcome(lambda: json_to_object(typ, j3))
            check(back[0] == "ok" and same(back[1], v), "scalar does not survive the round trip", type=td.src, value=show(v), json=show(j), actual=show(back[1]))
    finally:
        w.close()


# ---------------------------------------------------------------- C02

@suite("C02", "write", weight=10)
def c02_write(rng, rec):
    for _ in range(5):
        d = some_timedelta(rng)
        j = object_to_json(d)
        rec.case(repr(d), f"{d!r} -> {j}")
        check(type(j) is str, "duration is not written as text", value=repr(d), actual=show(j))
        try:
            us = parse_duration(j)
        except ValueError as ex:
            raise Violation("duration is not written as ISO 8601 duration text", value=repr(d), actual=j, reason=str(ex))
        check(us == micros(d), "text denotes a different duration", value=repr(d), actual=j, micros=us)
        back = outcome(lambda: json_to_object(datetime.timedelta, j))
        check(back[0] == "ok" and same(back[1], d), "duration does not survive the round trip", value=repr(d), json=j, actual=show(back[1]))


@suite("C02", "read", weight=20)
def c02_read(rng, rec):
    for _ in range(5):
        j = near_duration(rng)
        rec.case(j, j)
        td = scalar("datetime.timedelta")
        spec = spec_outcome(lambda: td.read(j))
        real = outcome(lambda: json_to_object(datetime.timedelta, j))
        if spec[0] == "ok":
            check(real[0] == "ok" and same(real[1], spec[1]), "duration text read as something else", text=repr(j), expected=repr(spec[1]), actual=show(real[1]))
        else:
            check(real[0] == "exc", f"text must be rejected: {spec[1]}", text=repr(j), actual=show(real[1]))
            check(isinstance(real[1], JsonValueError), f"text must be rejected with the library's value error, not {type(real[1]).__name__}", text=repr(j), error=str(real[1]))


# ---------------------------------------------------------------- C03

def roundtrip(td, typ, v, m, w, text=True):
    ctx = dict(type=td.src, value=show(v), source=td_source(td, m))
    exp = td.write(v)
    ser = outcome(lambda: create_serializer(typ, m).generate(v))
    check(ser[0] == "ok", f"writing fails: {ser[1]!r}", **ctx)
    check(written_same(td, ser[1], exp), "written JSON differs", expected=show(exp), actual=show(ser[1]), **ctx)
    unt = outcome(lambda: object_to_json(v))
    check(unt[0] == "ok", f"writing without a type fails: {unt[1]!r}", **ctx)
    check(written_same(td, unt[1], exp), "JSON written without a type differs", expected=show(exp), actual=show(unt[1]), **ctx)
    j = json.loads(json_dump_string(ser[1])) if text else ser[1]
    back = outcome(lambda: json_to_generic(typ, j, context=m))
    check(back[0] == "ok", f"reading what was written fails: {back[1]!r}", json=show(j), **ctx)
    check(same(back[1], v), "value does not survive the round trip", json=show(j), actual=show(back[1]), **ctx)


@suite("C03", "containers", weight=1)
def c03(rng, rec):
    w = World(rng, future=rng.random() < 0.25)
    td = gen_type(w, rng.choice([1, 2, 3, 4]), Config())
    m = load(w)
    try:
        typ = td.typ(w) if td.src != "None" else type(None)
        for _ in range(3):
            v = td.value(rng, 4)
            rec.case((td.src, repr(v)) if not isinstance(td, ScalarTD) else None, f"{td.src}: {show(v, 100)}")
            roundtrip(td, typ, v, m, w)
    finally:
        w.close()


@suite("C03", "classes", weight=1)
def c03_classes(rng, rec):
    w = World(rng, future=rng.random() < 0.25)
    td = gen_class(w, rng.choice([1, 2, 3]), Config())
    m = load(w)
    try:
        for _ in range(3):
            v = td.value(rng, 4)
            rec.case((w.source(), repr(v)), f"{show(td_source(td, m), 300)}: {show(v, 100)}")
            roundtrip(td, td.cls, v, m, w)
    finally:
        w.close()


# ---------------------------------------------------------------- C04

@suite("C04", "soundness", weight=1)
def c04(rng, rec):
    w = World(rng)
    td = gen_type(w, rng.choice([0, 0, 1, 1, 2, 3]), Config(unions=rng.random() < 0.3, tagged=rng.random() < 0.2))
    m = load(w)
    try:
        typ = td.typ(w) if td.src != "None" else type(None)
        for _ in range(8):
            j = td.data(rng, 3)
            rec.case((td.src, repr(j)), f"{td.src} <- {show(j, 100)}")
            spec, real = check_read(td, typ, j, m)
            if real[0] == "ok":
                check(td.has(real[1]), "result is not a value of the type", type=td.src, data=show(j), actual=show(real[1]), source=td_source(td, m))
    finally:
        w.close()


# ---------------------------------------------------------------- C05

@suite("C05", "fields", weight=1)
def c05(rng, rec):
    w = World(rng)
    td = gen_class(w, rng.choice([0, 1, 1]), Config(customs=False))
    m = load(w)
    try:
        for _ in range(8):
            j = td.near(rng, 3)
            ignore = rng.random() < 0.4
            rec.case((w.source(), repr(j), ignore), f"{show(j, 100)} ignore={ignore}")
            check_read(td, td.cls, j, m, ignore=ignore)
        # a default factory is called anew for each object
        req = {f.prop: f.td.write(f.td.value(rng, 2)) for f in td.fields if not td.default_of(f)[0]}
        if all(v is not None for v in req.values()):
            a, b = json_to_object(td.cls, dict(req)), json_to_object(td.cls, dict(req))
            for f in td.fields:
                if f.factory is not None:
                    x, y = getattr(a, f.name), getattr(b, f.name)
                    if isinstance(x, (list, dict, set)):
                        check(x is not y, "default factory result is shared between objects", member=f.name, source=td_source(td, m))
    finally:
        w.close()


@suite("C05", "nested unknown properties", weight=1)
def c05_nested(rng, rec):
    "Unknown properties are rejected or ignored wherever the object is."
    w = World(rng)
    td = gen_class(w, rng.choice([0, 0, 1]), Config(customs=False))
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(6)
        if k == 0:
            td = ListTD(td)
        elif k == 1:
            td = DictTD(scalar("str"), td)
        elif k == 2:
            td = TupleTD([scalar("int"), td] if rng.random() < 0.5 else [td, scalar("str")])
        elif k == 3 and not td.nullable:
            td = OptionalTD(td, rng)
        elif k == 4:
            td = AnnTD(td, rng=rng)
        elif k == 5 and not td.nullable:
            td = UnionTD([td, scalar("int")] if rng.random() < 0.5 else [scalar("str"), td], rng)
    m = load(w)
    try:
        typ = td.typ(w)
        for _ in range(6):
            value = td.value(rng, 4)
            World.extra = rng
            try:
                j = td.write(value)
            finally:
                World.extra = None
            for ignore in (True, False):
                rec.case((w.source(), td.src, repr(j), ignore), f"{td.src} <- {show(j, 100)} ignore={ignore}")
                check_read(td, typ, j, m, ignore=ignore)
    finally:
        w.close()


# ---------------------------------------------------------------- C06

@suite("C06", "unions", weight=1)
def c06(rng, rec):
    w = World(rng)
    td = None
    while td is None:
        td = gen_union(w, rng.choice([0, 0, 1, 2]), Config())
    m = load(w)
    try:
        typ = td.typ(w)
        for _ in range(8):
            j = td.data(rng, 3)
            rec.case((td.src, repr(j)), f"{td.src} <- {show(j, 100)}")
            check_read(td, typ, j, m, error=JsonKeyError)
            # agreement with the member types themselves
            res = None
            for t in td.members:
                o = outcome(lambda: json_to_generic(t.typ(w) if t.src != "None" else type(None), j, context=m))
                if o[0] == "ok":
                    res = o
                    break
            real = outcome(lambda: json_to_generic(typ, j, context=m))
            check((res is None) == (real[0] == "exc") and (res is None or same(res[1], real[1])), "union differs from its first matching member type", type=td.src, data=show(j), actual=show(real[1]), expected=show(res and res[1]), source=td_source(td, m))
    finally:
        w.close()


# ---------------------------------------------------------------- C07

@suite("C07", "tagged", weight=1)
def c07(rng, rec):
    w = World(rng)
    td = gen_tagged(w, Config())
    m = load(w)
    try:
        typ = td.typ(w)
        perm = list(td.members)
        rng.shuffle(perm)
        typ2 = w.eval("Union[" + ", ".join(p.src for p in perm) + "]")
        for _ in range(8):
            j = td.data(rng, 3)
            if isinstance(j, dict) and len(td.tag_props) > 1:
                # with several tags the data must be consistent for the answer to be unique
                vals = [j.get(p) for p in td.tag_props]
                owners = [
                    {i for i, mem in enumerate(td.members) for f in mem.fields if f.prop == p and type(t) in (str, int, bool, float) and any(t == x for x in tag_values(f.td))}
                    for p, t in zip(td.tag_props, vals) if t is not None
                ]
                if len({frozenset(o) for o in owners}) > 1:
                    continue
            rec.case((w.source(), repr(j)), f"{td.src} <- {show(j, 100)}")
            try:
                td.read(j)
                error = None
            except Reject as ex:
                error = JsonTypeError if ex.kind == "json-type" else None
            check_read(td, typ, j, m, error=error)
            check_read(td, typ2, j, m, error=error, what="read (members reordered)")
            if isinstance(j, dict):
                items = list(j.items())
                rng.shuffle(items)
                check_read(td, typ, dict(items), m, error=error, what="read (properties reordered)")
    finally:
        w.close()


@suite("C07", "undiscriminated", weight=1)
def c07_untagged(rng, rec):
    "Members that have no literal property in common do not make a discriminated union."
    w = World(rng)
    td = gen_tagged(w, Config(), nmembers=rng.choice([2, 2, 3]))
    extra = []
    plain = Config(scalars=["int", "str", "bool"], refs=False, customs=False, classes=False, aliases=False)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(4)
        if k == 0:
            t = ListTD(scalar("int"))
        elif k == 1:
            t = DictTD(scalar("str"), scalar("str"))
        else:
            c = ClassTD(w, rng.choice(["data", "plain", "frozen"]))
            fields = [Field("other", LiteralTD(w, rng.choice([["a"], ["u", "v"], ["b", "c"]])))] if rng.random() < 0.4 else []
            used = {"kind", "type", "class_", "tag", "other"}
            if rng.random() < 0.4:
                fields.append(Field(rng.choice(td.tag_fields), scalar("str"), alias=None))
            for nm in rng.sample(["a", "b", "x", "value"], rng.choice([1, 2])):
                t = gen_type(w, 0, plain)
                if strip(t).src == "None" or isinstance(strip(t), LiteralTD):
                    continue
                fields.append(Field(nm, t))
            if not fields:
                fields = [Field("x", scalar("int"))]
            t = c.define(fields)
        if not is_dup(t, extra):
            extra.append(t)
    members = [*td.members, *extra]
    rng.shuffle(members)
    u = UnionTD(members, rng)
    m = load(w)
    try:
        typ = u.typ(w)
        for _ in range(8):
            j = u.data(rng, 3)
            rec.case((w.source(), u.src, repr(j)), f"{u.src} <- {show(j, 100)}")
            check_read(u, typ, j, m, error=JsonKeyError, what="read (no common tag)")
    finally:
        w.close()


@suite("C07", "conflicts", weight=1)
def c07_conflict(rng, rec):
    "Members that share a tag value are refused when the reader is created."
    w = World(rng)
    td = gen_tagged(w, Config(), nmembers=rng.choice([2, 3]))
    donor, victim = rng.sample(td.members, 2)
    prop = rng.choice(td.tag_props)
    m0 = load(w)
    w.close()
    # rebuild with one shared value
    w2 = World(rng)
    members = []
    for mem in td.members:
        c = ClassTD(w2, mem.kind, name=mem.name)
        fields = []
        for f in mem.fields:
            t = f.td
            if f.prop == prop and mem is victim:
                shared = rng.choice(tag_values(next(g for g in donor.fields if g.prop == prop).td))
                own = list(tag_values(t))
                vals = [*own, shared] if rng.random() < 0.5 else [shared, *own]
                if rng.random() < 0.3:
                    vals = [shared]
                t = LiteralTD(w2, vals)
                f = dataclasses.replace(f, td=t, default=repr(vals[0]) if f.default else None)
            elif isinstance(f.td, (EnumTD, ClassTD)):
                continue
            fields.append(f)
        fields = [f for f in fields if uses_only_builtin(f.td)]
        c.define(fields)
        members.append(c)
    m = load(w2)
    try:
        typ = w2.eval("Union[" + ", ".join(x.src for x in members) + "]")
        rec.case(w2.source(), "conflict")
        o = outcome(lambda: create_deserializer(typ, m))
        check(o[0] == "exc" and isinstance(o[1], JsonTypeError), "union whose members share a tag value is not refused", type=td.src, actual=show(o[1]), source=td_source(td, m))
    finally:
        w2.close()


def uses_only_builtin(td):
    if isinstance(td, (EnumTD, ClassTD, CustomTD)):
        return False
    for name in ("inner", "item", "key"):
        if isinstance(getattr(td, name, None), TD) and not uses_only_builtin(getattr(td, name)):
            return False
    return all(uses_only_builtin(t) for t in getattr(td, "items", []) if isinstance(t, TD))


# ---------------------------------------------------------------- C08

@suite("C08", "history", weight=1)
def c08(rng, rec):
    worlds = []
    try:
        pool = []
        shared = rng.random() < 0.6
        for k in range(rng.choice([2, 3])):
            seed = rng.randrange(10**9)
            w = World(random.Random(seed), name=f"rac_hist_{rng.randrange(10**12)}")
            # same names in different modules
            tds = [gen_class(w, 1, Config(unions=True), nfields=rng.choice([1, 2, 3])) for _ in range(2)]
            tds.append(gen_type(w, 2, Config(unions=True, tagged=True)))
            w.emit(f"class Bad:\n    a: list\n    b: {tds[0].name}\n")
            w.emit(f"@dataclass\nclass Holder:\n    x: '{tds[0].name}'\n    y: Optional['Broken'] = None\n")
            w.emit(f"@dataclass\nclass Broken:\n    h: Optional['Holder']\n    t: {tds[1].name}\n    z: dict\n")
            m = load(w)
            worlds.append(w)
            holder = ClassTD(w, "data", name="Holder")
            for td in tds:
                pool.append((w, m, td, td.src))
                if isinstance(td, ClassTD):
                    pool.append((w, m, td, "fwd"))
            pool.append((w, m, None, "Bad"))
            pool.append((w, m, None, "Holder"))
            pool.append((w, m, None, "Broken"))
        log = []
        shared_opts = DeserializerOptions(skip_unassigned=False)
        for step in range(rng.choice([6, 10, 16])):
            w, m, td, how = rng.choice(pool)
            if td is None:
                ser = rng.random() < 0.3
                log.append(f"{'create_serializer' if ser else 'create_deserializer'}({m.__name__}.{how})")
                if ser:
                    outcome(lambda: create_serializer(getattr(m, how)))
                else:
                    o = outcome(lambda: create_deserializer(getattr(m, how)))
                    check(o[0] == "exc", "creating a reader for a type with unsupported members succeeds", history=log, source=td_source(td, m))
                continue
            if rng.random() < 0.4:
                v = td.value(rng, 3)
                log.append(f"object_to_json({show(v, 80)})")
                o = outcome(lambda: object_to_json(v))
                check(o[0] == "ok" and written_same(td, o[1], td.write(v)), "writing depends on history", history=log, expected=show(td.write(v)), actual=show(o[1]), source=td_source(td, m))
                rec.case((tuple(log),), log[-1])
            else:
                j = td.data(rng, 3)
                if isinstance(td, ClassTD) and rng.random() < 0.5 and isinstance(j, dict):
                    j = {**j, "unknown-prop": 1}
                ignore = rng.random() < 0.4
                typ = td.typ(w) if td.src != "None" else type(None)
                if how == "fwd":
                    typ = rng.choice([td.name, typing.ForwardRef(td.name)])
                log.append(f"json_to_generic({m.__name__}:{show(typ, 80)}, {show(j, 80)}, ignore={ignore})")
                World.ignore = ignore
                try:
                    spec = spec_outcome(lambda: td.read(j))
                finally:
                    World.ignore = False
                opts = DeserializerOptions(skip_unassigned=ignore) if ignore or rng.random() < 0.5 else None
                if rng.random() < 0.3:
                    shared_opts.skip_unassigned = ignore
                    opts = shared_opts
                real = outcome(lambda: json_to_generic(typ, j, context=m, options=opts))
                rec.case((tuple(log),), log[-1])
                ok = (spec[0] == real[0]) and (spec[0] == "exc" or same(spec[1], real[1]))
                check(ok, "reading depends on history", history="; ".join(log), expected=show(spec[1]), actual=show(real[1]), source=td_source(td, m))
    finally:
        for w in worlds:
            w.close()


@suite("C08", "redefined", weight=1)
def c08_redefined(rng, rec):
    "A class that replaces another class of the same name and module is read and written by its own definition."
    name = f"rac_redef_{rng.randrange(10**12)}"
    last = None
    for k in range(3):
        w = World(rng, name=name)
        td = gen_class(w, 1, Config(), nfields=rng.choice([1, 2, 3]))
        m = load(w)
        try:
            v = td.value(rng, 3)
            roundtrip(td, td.cls, v, m, w)
            j = td.near(rng, 3)
            check_read(td, rng.choice([td.cls, td.name, typing.ForwardRef(td.name)]), j, m)
            rec.case((w.source(), repr(v)), show(v, 100))
        finally:
            w.close()
            td = v = None


# ---------------------------------------------------------------- C09

def mutables(x, out=None):
    out = {} if out is None else out
    if isinstance(x, (list, dict, set, bytearray)):
        if id(x) in out:
            return out
        out[id(x)] = x
    if isinstance(x, dict):
        for k, v in x.items():
            mutables(v, out)
    elif isinstance(x, (list, set, tuple)):
        for v in x:
            mutables(v, out)
    if hasattr(x, "__dict__") and not isinstance(x, (type, enum.Enum)):
        if id(x) in out:
            return out
        out[id(x)] = x
        for v in vars(x).values():
            mutables(v, out)
    return out


@suite("C09", "plain", weight=1)
def c09(rng, rec):
    w = World(rng, future=rng.random() < 0.2)
    td = gen_type(w, rng.choice([1, 2, 3]), Config(unions=True, tagged=True))
    m = load(w)
    try:
        typ = td.typ(w) if td.src != "None" else type(None)
        for _ in range(3):
            v = td.value(rng, 4)
            snap = copy.deepcopy(v)
            ins = mutables(v)
            for fn, what in ((lambda: object_to_json(v), "object_to_json"), (lambda: create_serializer(typ, m).generate(v), "create_serializer")):
                o = outcome(fn)
                ctx = dict(type=td.src, value=show(v), source=td_source(td, m), via=what)
                check(o[0] == "ok", f"writing fails: {o[1]!r}", **ctx)
                j = o[1]
                check(is_plain(j), "output is not a plain JSON tree", actual=show(j), **ctx)
                check(json.loads(json_dump_string(j)) == j and same(json.loads(json_dump_string(j)), j), "dump and parse changes the tree", actual=show(j), **ctx)
                f = io.StringIO()
                json_dump(j, f)
                check(same(json.loads(f.getvalue()), j), "dump to file and parse changes the tree", actual=show(j), **ctx)
                check(same(snap, v), "writing changed the value", **ctx)
                check(not (mutables(j).keys() & ins.keys()), "output shares a mutable object with the input", actual=show(j), **ctx)
                check(written_same(td, j, td.write(v)), "members are not written under their own names, or None is not left out", expected=show(td.write(v)), actual=show(j), **ctx)
            rec.case((td.src, repr(v)), f"{td.src}: {show(v, 100)}")
            o = outcome(lambda: json_to_generic(typ, j, context=m))
            if o[0] == "ok":
                check(not (mutables(j).keys() & mutables(o[1]).keys()), "value read shares a mutable object with the data", data=show(j), type=td.src, source=td_source(td, m))
    finally:
        w.close()


class _Plain:
    pass


class _WithMethods:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def method(self):
        return 1


class _SE(enum.Enum):
    A = "a-value"
    B = "b"


class _IE(enum.Enum):
    ONE = 1
    TWO = 2


class _IM(int, enum.Enum):
    ONE = 1
    TWO = 2


class _SM(str, enum.Enum):
    A = "a-value"
    EMPTY = ""


_NT = collections.namedtuple("_NT", ["x", "in_"])


def gen_untyped(rng, depth):
    "A value without type information, and the JSON it is written as."
    k = rng.randrange(12 if depth > 0 else 6)
    if k <= 4:
        td = scalar(rng.choice(list(SCALARS)))
        v = td.value(rng)
        return v, td.write(v)
    if k == 5:
        v = rng.choice([*_SE, *_IE, *_IM, *_SM])
        return v, v.value
    n = rng.randrange(0, 4)
    if k == 6:
        items = [gen_untyped(rng, depth - 1) for _ in range(n)]
        return [a for a, _ in items], [b for _, b in items]
    if k == 7:
        items = [gen_untyped(rng, depth - 1) for _ in range(n)]
        return tuple(a for a, _ in items), [b for _, b in items]
    if k == 8:
        v = {rng.choice([0, 1, 5, "a", _SE.A, "é", _IM.TWO, _SM.A]) for _ in range(1)}
        return v, [x.value if isinstance(x, enum.Enum) else x for x in v]
    if k == 9:
        out, js = {}, {}
        for _ in range(n):
            key = rng.choice(["a", "b", "", 1, 2.5, _SE.A, _SE.B, _IE.ONE, "1"])
            a, b = gen_untyped(rng, depth - 1)
            sk = str(key.value) if isinstance(key, enum.Enum) else str(key)
            if sk in js:
                continue
            out[key], js[sk] = a, b
        return out, js
    if k == 10:
        (a, b), (c, d) = gen_untyped(rng, depth - 1), gen_untyped(rng, depth - 1)
        return _NT(a, c), {"x": b, "in": d}
    cls = rng.choice([_Plain, _WithMethods])
    obj, js = cls(), {}
    for name in rng.sample(["a", "b_", "in_", "class_", "_c", "zz", "method"], n):
        a, b = gen_untyped(rng, depth - 1)
        setattr(obj, name, a)
        if a is not None:
            js[name[:-1] if name in ("in_", "class_") else name] = b
    return obj, js


@suite("C09", "untyped", weight=2)
def c09_untyped(rng, rec):
    v, exp = gen_untyped(rng, 3)
    ins = mutables(v)
    rec.case(repr(exp), show(exp, 100))
    o = outcome(lambda: object_to_json(v))
    check(o[0] == "ok", f"writing fails: {o[1]!r}", value=show(v), expected=show(exp))
    j = o[1]
    check(is_plain(j), "output is not a plain JSON tree", value=show(v), actual=show(j))
    check(same(j, exp), "written JSON differs", value=show(v), expected=show(exp), actual=show(j))
    check(same(json.loads(json_dump_string(j)), j), "dump and parse changes the tree", actual=show(j))
    check(not (mutables(j).keys() & ins.keys()), "output shares a mutable object with the input", value=show(v), actual=show(j))


# ---------------------------------------------------------------- C10

@suite("C10", "names", weight=1)
def c10(rng, rec):
    from strong_typing.mapping import python_field_to_json_property
    from strong_typing.schema import JsonSchemaGenerator

    future = rng.random() < 0.3
    w = World(rng, future=future)
    kws = [k + "_" for k in keyword.kwlist]
    soft = ["match_", "case_", "type_", "__", "_", "x__", "in__", "class__", "a_", "In_", "none_", "_in_"]
    plain = ["a", "b", "inn", "In", "class1", "abc"]
    kind = rng.choice(["data", "frozen", "tuple", "plain"])
    pool = list(dict.fromkeys(rng.sample(kws, 4) + rng.sample(soft, 4) + plain))
    pool = [p for p in pool if not p.startswith("_")] if kind == "tuple" else [p for p in pool if p not in ("__", "_")]
    td = gen_class(w, rng.choice([0, 1]), Config(customs=False, refs=False, names=pool), kind=kind, nfields=rng.choice([1, 2, 4, 6]))
    m = load(w)
    try:
        for f in td.fields:
            v = td.value(rng, 3)
        v = td.value(rng, 3)
        rec.case((w.source(), repr(v)), show(td_source(td, m), 300))
        for ser in (object_to_json, create_serializer(td.cls).generate):
            j = ser(v)
            exp = {f.prop for f in td.fields if getattr(v, f.name) is not None}
            check(set(j) == exp, "properties are not written under their names", expected=sorted(exp), actual=sorted(j), source=td_source(td, m))
            check(written_same(td, j, td.write(v)), "members are written under the wrong names", expected=show(td.write(v)), actual=show(j), source=td_source(td, m))
        back = outcome(lambda: json_to_object(td.cls, j))
        check(back[0] == "ok" and same(back[1], v), "members are not read from their own properties", json=show(j), actual=show(back[1]), expected=show(v), source=td_source(td, m))
        if not future:
            s = JsonSchemaGenerator().type_to_schema(td.cls, force_expand=True)
            check(set(s.get("properties", {})) == {f.prop for f in td.fields}, "schema has other property names", expected=[f.prop for f in td.fields], actual=show(s), source=td_source(td, m))
            check(sorted(s.get("required", [])) == sorted(f.prop for f in td.fields if not f.optional), "schema requires other properties", expected=[f.prop for f in td.fields if not f.optional], actual=show(s), source=td_source(td, m))
        for f in td.fields:
            t = typing.get_type_hints(td.cls, include_extras=True)[f.name]
            check(python_field_to_json_property(f.name, t) == f.prop, "property name", name=f.name, expected=f.prop, actual=python_field_to_json_property(f.name, t))
            if f.alias is None:
                check(python_field_to_json_property(f.name) == f.prop, "property name without type", name=f.name, expected=f.prop)
    finally:
        w.close()


@suite("C10", "identifiers", weight=3)
def c10_ids(rng, rec):
    from strong_typing.mapping import python_field_to_json_property

    names = [rng.choice(["", "_", "x", *keyword.kwlist, *keyword.softkwlist]) + rng.choice(["", "_", "__", "1"]) for _ in range(6)]
    names = list(dict.fromkeys(n for n in names if n.isidentifier() and not keyword.iskeyword(n)))
    props = [python_field_to_json_property(n) for n in names]
    rec.case(tuple(names), names)
    for n, p in zip(names, props):
        exp = n[:-1] if n.endswith("_") and keyword.iskeyword(n[:-1]) else n
        check(p == exp, "property name", name=n, expected=exp, actual=p)
    check(len(set(props)) == len(props), "distinct members get the same property name", names=names, props=props)

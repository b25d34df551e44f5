"C01: for every value of a scalar type, what the writer makes of it is read back as an equal value of the same type."

from .values import *  # noqa: F403


def round_trip(typ: Any, v: Any, what: str, kind: str = "str") -> Any:
    j = generate(writer_of(typ), v)
    if interp.kind_of(j) != kind:
        refuted(f"{what} is written as {interp.kind_of(j)} instead of {kind}")
    back = parse(reader_of(typ), j)
    same_value(back, v, f"{what} read back")
    same_value(call(S.object_to_json, [v], {}), j, f"{what} written without a type")
    return j


for _c in SCALARS:
    if _c is datetime.timedelta:
        continue

    @obligation("C01", f"every {_c.__name__} survives the round trip", [f"serializer: writer of {_c.__name__}", f"deserializer: reader of {_c.__name__}", "serializer.object_to_json"])
    def _(c: Any = _c) -> None:
        v = any_of_class(c)
        if c is datetime.datetime:
            with_offset(v)
        kind = JSON_KIND.get(c, "str")
        j = round_trip(c, v, c.__name__, kind)
        if c in JSON_KIND:
            same_value(j, v, "JSON primitive")
        if c is datetime.datetime:
            goal(z3.Implies(utc(v.t), z3.SuffixOf(z3.StringVal("Z"), j.t)), "UTC is written as Z")
            goal(z3.Implies(z3.Not(utc(v.t)), j.t == models.uf("datetime_iso", core.Ob, STR)(v.t)), "other offsets are kept")
        elif c in (datetime.date, datetime.time):
            goal(j.t == models.uf(f"{c.__name__}_iso", core.Ob, STR)(v.t), "ISO 8601 text")


@obligation("C01", "a date-time without UTC offset is refused", "serializer.DateTimeSerializer.generate")
def _() -> None:
    v = any_of_class(datetime.datetime)
    ctx().assume(z3.Not(models.uf("datetime_has_tz", core.Ob, BOOL)(v.t)))
    o = outcome(lambda: generate(writer_of(datetime.datetime), v))
    if o.exc is None or o.exc.cls is not JsonValueError:
        refuted("a date-time without UTC offset is written")
    goal(True, "refused")


for _k in ("str", "int"):

    @obligation("C01", f"every member of an enumeration with {_k} values survives the round trip", ["serializer.EnumSerializer.generate", "deserializer.EnumDeserializer.parse"])
    def _(k: str = _k) -> None:
        e = any_enum("E", (k,))
        i = z3.Const("index", INT)
        ctx().assume(z3.And(i >= 0, i < e.traits["values"].n))
        ctx().add_index(i)
        m = e.traits["member"](i)
        j = generate(writer_of(e), m)
        same_value(j, e.traits["values"].value(i), "value of the member")
        same_value(parse(reader_of(e), j), m, "member read back")

"Arbitrary values of known types."

from .classes import *  # noqa: F403

utc = z3.Function("datetime_is_utc", core.Ob, BOOL)


def any_of_class(cls: Any, name: str = "v") -> Any:
    if cls is type(None):
        return None
    if cls is bool:
        return SBool(z3.Const(name, BOOL))
    if cls is int:
        return SInt(z3.Const(name, INT))
    if cls is float:
        return SFloat(z3.Const(name, core.Fl))
    if cls is str:
        return SStr([z3.Const(name, STR)])
    if cls is bytes:
        return SBytes(z3.Const(name, core.By))
    if cls is datetime.timedelta:
        d = models.TDelta(z3.Const(name, INT))
        ctx().assume(z3.And(d.total >= -models.LIMIT_DAYS * models.MICROS, d.total < (models.LIMIT_DAYS + 1) * models.MICROS))
        return d
    v = SObj(cls, z3.Const(name, core.Ob))
    if cls is datetime.datetime:
        # assumed: the text of a date-time ends in +00:00 exactly if its UTC offset is zero
        s = models.uf("datetime_iso", core.Ob, STR)(v.t)
        has = models.uf("datetime_has_tz", core.Ob, BOOL)(v.t)
        ctx().add_fact(z3.Implies(has, utc(v.t) == z3.SuffixOf(z3.StringVal("+00:00"), s)))
    return v


def with_offset(v: SObj) -> Any:
    "Precondition: the date-time has a UTC offset."
    ctx().assume(models.uf("datetime_has_tz", core.Ob, BOOL)(v.t))
    return v


JSON_KIND = {type(None): "none", bool: "bool", int: "int", float: "float", str: "str"}
SCALARS = BASIC

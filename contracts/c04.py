"C04: the reader accepts exactly the JSON values that the type describes, and what it returns is of the type."

import datetime
import ipaddress
import typing
import uuid

from .classes import *  # noqa: F403
from . import spec_read as R


def reads_like(typ: Any, fn: Any, *args: Any) -> None:
    data = any_json()
    same_outcome(outcome(lambda: parse(reader_of(typ), data)), outcome(lambda: call(fn, [*args, data], {})), "reader")


def to_seq_(x: Any) -> Any:
    return interp.to_seq(x)


def literal_values(k: str) -> STuple:
    n, f = z3.Const("lits_n", INT), z3.Function("lits", INT, V)
    ctx().add_fact(n >= 1)

    def at(j: Any) -> Any:
        v = f(as_int(j))
        ctx().axiom(("lit", v), lambda: core.is_kind(v, k))
        return interp.view(v, k, True)

    return STuple(FnSeq(n, at, key="lits"))


def no_tags() -> None:
    "The members of the union have no discriminating property in common (see C07)."
    CONTRACTS[D.get_discriminating_properties] = lambda types: set()


def basic(name: str, typ: Any, fn: Any, cls: Any) -> None:
    @obligation("C04", f"reader of {name} accepts exactly its JSON kind", [cls.parse])
    def ob() -> None:
        reads_like(typ, fn)


basic("None", type(None), R.read_none, D.NoneDeserializer)
basic("bool", bool, R.read_bool, D.BoolDeserializer)
basic("int", int, R.read_int, D.IntDeserializer)
basic("float", float, R.read_float, D.FloatDeserializer)
basic("str", str, R.read_str, D.StringDeserializer)


@obligation(("C04", "C05"), "reader of list[T] reads each item as T", [D.ListDeserializer.parse])
def _() -> None:
    t = any_type()
    reads_like(TyGen(list, (t,)), R.read_list, t)


@obligation(("C04", "C05"), "reader of set[T] reads each item as T", [D.SetDeserializer.parse])
def _() -> None:
    t = any_type()
    reads_like(TyGen(set, (t,)), R.read_set, t)


@obligation(("C04", "C05"), "reader of dict[str, T] reads each value as T", [D.DictDeserializer.parse])
def _() -> None:
    t = any_type()
    reads_like(TyGen(dict, (str, t)), R.read_str_dict, t)


@obligation(("C04", "C05"), "reader of tuple[...] reads each item as the type at its position", [D.TupleDeserializer.parse])
def _() -> None:
    ts = any_types()
    reads_like(TyGen(tuple, ts), R.read_tuple, ts)


basic("bytes", bytes, R.read_bytes, D.BytesDeserializer)
basic("datetime", datetime.datetime, R.read_datetime, D.DateTimeDeserializer)
basic("date", datetime.date, R.read_date, D.DateDeserializer)
basic("time", datetime.time, R.read_time, D.TimeDeserializer)
for _n, _c, _d in (("UUID", uuid.UUID, D.UUIDDeserializer), ("IPv4Address", ipaddress.IPv4Address, D.IPv4Deserializer), ("IPv6Address", ipaddress.IPv6Address, D.IPv6Deserializer)):
    basic(_n, _c, lambda data, _c=_c: R.read_text(_c, data), _d)


@obligation("C04", "reader of an enumeration accepts exactly the values of its members", [D.EnumDeserializer.parse])
def _() -> None:
    e = any_enum()
    reads_like(e, R.read_enum, STuple(to_seq_(e)))


@obligation(("C04", "C05"), "reader of dict[enumeration, T] reads each key as the enumeration and each value as T", [D.DictDeserializer.parse])
def _() -> None:
    e, t = any_enum(), any_type()
    reads_like(TyGen(dict, (e, t)), R.read_enum_dict, STuple(e.vc_seq()), t)


for _k in ("int", "str"):

    @obligation("C04", f"reader of a literal of {_k} values accepts exactly these values", [D.LiteralDeserializer.parse])
    def _(k: str = _k) -> None:
        vs = literal_values(k)
        reads_like(TyGen(typing.Literal, vs), R.read_literal, k, vs)


@obligation(("C06", "C04", "C05"), "reader of a union: the first member type in declared order that accepts the data", [D.UnionDeserializer.parse], timeout=120)
def _() -> None:
    ts = any_types()
    ctx().add_fact(as_int(ts.pl.length()) >= 2)
    new_style = branch([False, True])
    no_tags()
    reads_like(TyGen(typing.Union, ts, new_style), R.read_union, ts)

"""
Random types, values and JSON data with an independent account of what reading and writing must do.

A type is described by a TD object that knows its Python expression, draws values of the type, and says -- without
calling the library -- which JSON a value is written as (`write`) and what a JSON value is read as (`read`).
"""

import base64
import dataclasses
import datetime
import enum
import ipaddress
import itertools
import keyword
import math
import random
import sys
import types
import typing
import uuid

REJECT = object()
_counter = itertools.count()

PRELUDE = """
import base64, collections, dataclasses, datetime, decimal, enum, ipaddress, typing, uuid
from dataclasses import dataclass, field
from typing import Annotated, Any, Literal, NamedTuple, Optional, Union
from strong_typing.auxiliary import *
from strong_typing.auxiliary import Alias, IntegerRange, Precision, MinLength, MaxLength, Signed, Storage, SpecialConversion
"""


class Reject(Exception):
    "The specification says that data must be rejected."

    def __init__(self, kind, why=""):
        super().__init__(f"{kind}: {why}")
        self.kind = kind


class World:
    "A module under construction that holds the generated classes."

    inherit = True  # whether members may be inherited

    def __init__(self, rng, future=False, name=None):
        self.rng = rng
        self.future = future
        self.lines = []
        self.post = []
        self.module = None
        self.names = itertools.count()
        self.modname = name or f"rac_world_{next(_counter)}"
        self.classes = []

    def fresh(self, stem="C"):
        return f"{stem}{next(self.names)}"

    def emit(self, text):
        self.lines.append(text)

    def source(self):
        head = "from __future__ import annotations\n" if self.future else ""
        return head + PRELUDE + "\n".join(self.lines) + "\n"

    def load(self):
        module = types.ModuleType(self.modname)
        sys.modules[self.modname] = module
        exec(compile(self.source(), f"<{self.modname}>", "exec"), module.__dict__)
        self.module = module
        return module

    def eval(self, src):
        return eval(src, self.module.__dict__)

    def close(self):
        sys.modules.pop(self.modname, None)


def same(a, b):
    "Strict equality: same type and same value, recursively."

    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    if isinstance(a, enum.Enum):
        return a is b
    if isinstance(a, (list,)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items()) and all(
            any(type(k) is type(l) and k == l for l in b) for k in a
        )
    if isinstance(a, (set, frozenset)):
        return a == b and all(any(same(x, y) for y in b) for x in a)
    if isinstance(a, datetime.datetime):
        return a == b and a.utcoffset() == b.utcoffset() and a.replace(tzinfo=None) == b.replace(tzinfo=None)
    if isinstance(a, datetime.time):
        return a == b and a.utcoffset() == b.utcoffset()
    if hasattr(a, "__dict__") and not isinstance(a, type):
        da, db = vars(a), vars(b)
        return da.keys() == db.keys() and all(same(da[k], db[k]) for k in da)
    if hasattr(type(a), "__dataclass_fields__"):  # with slots
        missing = object()
        return all(same(getattr(a, k, missing), getattr(b, k, missing)) for k in type(a).__dataclass_fields__)
    return a == b


def is_plain(j):
    if j is None or type(j) in (bool, int, str):
        return True
    if type(j) is float:
        return True
    if type(j) is list:
        return all(is_plain(x) for x in j)
    if type(j) is dict:
        return all(type(k) is str and is_plain(v) for k, v in j.items())
    return False


def show(x, limit=600):
    try:
        s = repr(x)
    except Exception:
        s = object.__repr__(x)
    return s if len(s) <= limit else s[:limit] + "..."


TEXT = [" a", "a ", "\t", "\0", "a\0", "\ufeff", "e\u0301", "A", "\u00a0", "\r\n", "\u2028", "\x7f", "{}", "[]", "%s", "", "a", "b", "Z", "x y", "é", "\U0001f600", "\"", "\\", "\n", "null", "0", "1", "true", "P1D", "-", "/", "None", " ", "1.5", "_", "A" * 40]


def some_text(rng):
    k = rng.random()
    if k < 0.6:
        return rng.choice(TEXT)
    return "".join(rng.choice("abcZ09 _-+:.é\t") for _ in range(rng.randrange(0, 12)))


def some_int(rng):
    k = rng.random()
    if k < 0.5:
        return rng.randrange(-3, 9)
    if k < 0.7:
        return rng.choice([127, 128, -128, -129, 2**31, -(2**31), 2**53 + 1, 2**63, -(2**63), 2**64, 10**30])
    return rng.randrange(-10**12, 10**12)


def some_float(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-9, 1e300, -1e300, 5e-324, 0.1, 3.14159, 1e16, 123456789.125])
    return rng.uniform(-1e6, 1e6)


def some_json(rng, depth=2):
    k = rng.randrange(0, 9 if depth > 0 else 7)
    if k == 0:
        return None
    if k == 1:
        return rng.choice([True, False])
    if k in (2, 3):
        return some_int(rng)
    if k == 4:
        return some_float(rng)
    if k in (5, 6):
        return some_text(rng)
    if k == 7:
        return [some_json(rng, depth - 1) for _ in range(rng.randrange(0, 4))]
    return {some_text(rng): some_json(rng, depth - 1) for _ in range(rng.randrange(0, 4))}


def some_tz(rng):
    k = rng.random()
    if k < 0.4:
        return datetime.timezone.utc
    if k < 0.6:
        # an offset of less than a second is not restored by datetime.fromisoformat
        if rng.random() < 0.3:
            return datetime.timezone(rng.choice([-1, 1]) * datetime.timedelta(hours=rng.choice([0, 0, 1, 23]), minutes=rng.choice([0, 59]), seconds=rng.randrange(1, 60), microseconds=rng.choice([1, 500000, 999999])))
        return datetime.timezone(rng.choice([-1, 1]) * datetime.timedelta(hours=rng.choice([0, 0, 5, 23]), minutes=rng.choice([0, 0, 30]), seconds=rng.choice([0, 1, 30, 59])))
    if k < 0.65:
        return datetime.timezone(datetime.timedelta(0), "named")
    return datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 60, -60, 330, -570, 1439, -1439, 5, -5, rng.randrange(-1439, 1440)])))


def some_micro(rng):
    return rng.choice([0, 0, 1, 999999, 1000, 500000, rng.randrange(0, 10**6), 120, 1200])


def some_timedelta(rng):
    k = rng.random()
    if k < 0.15:
        return datetime.timedelta(0)
    days = rng.choice([0, 0, 1, 6, 7, 365, 999999999, rng.randrange(0, 10**6)])
    secs = rng.choice([0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, rng.randrange(0, 86400)])
    d = datetime.timedelta(days=days, seconds=secs, microseconds=some_micro(rng))
    if rng.random() < 0.3 and d.days < 999999999:
        d = -d
    if rng.random() < 0.02:
        d = datetime.timedelta.min
    if rng.random() < 0.02:
        d = datetime.timedelta.max
    return d


class TD:
    "Description of a type."

    hashable = False
    nullable = False
    roundtrip = True
    world = None

    def __init__(self, src):
        self.src = src

    def typ(self, world):
        return world.eval(self.src)

    def value(self, rng, fuel=3):
        raise NotImplementedError

    def write(self, v):
        raise NotImplementedError

    def read(self, j):
        raise NotImplementedError

    def data(self, rng, fuel=3):
        "JSON data that is often, but not always, readable."
        k = rng.random()
        if k < 0.12:
            return some_json(rng)
        return self.near(rng, fuel)

    def near(self, rng, fuel):
        return self.write(self.value(rng, fuel))

    def has(self, v):
        raise NotImplementedError

    def __repr__(self):
        return self.src


class ScalarTD(TD):
    hashable = True

    def __init__(self, src, cls, gen, write, read, near=None):
        super().__init__(src)
        self.cls, self._gen, self._write, self._read, self._near = cls, gen, write, read, near

    def value(self, rng, fuel=3):
        return self._gen(rng)

    def write(self, v):
        return self._write(v)

    def read(self, j):
        return self._read(j)

    def near(self, rng, fuel):
        if self._near is not None and rng.random() < 0.4:
            return self._near(rng)
        return self.write(self.value(rng))

    def has(self, v):
        return type(v) is self.cls


def _need(cls, j, kind="type"):
    if not isinstance(j, cls):
        raise Reject(kind, f"expected {cls}")
    return j


def _read_none(j):
    if j is not None:
        raise Reject("type", "expected null")
    return None


def _read_bool(j):
    if type(j) is not bool:
        raise Reject("type", "expected boolean")
    return j


def _read_int(j):
    if type(j) is bool:
        return 1 if j else 0
    if type(j) is not int:
        raise Reject("type", "expected integer")
    return j


def _read_float(j):
    if type(j) is bool:
        return 1.0 if j else 0.0
    if type(j) not in (int, float):
        raise Reject("type", "expected number")
    try:
        return float(j)
    except OverflowError:
        raise Reject("value", "too large")


def _read_str(j):
    if type(j) is not str:
        raise Reject("type", "expected string")
    return j


def _stdlib(fn):
    def read(j):
        _read_str(j)
        try:
            return fn(j)
        except Exception as ex:
            raise Reject("value", str(ex))

    return read


def _parse_datetime(j):
    if j.endswith("Z"):
        d = datetime.datetime.fromisoformat(j[:-1] + "+00:00")
    else:
        d = datetime.datetime.fromisoformat(j)
    if d.tzinfo is None:
        raise ValueError("no time zone")
    return d


def some_ipv6(rng):
    a = ipaddress.IPv6Address(rng.choice([0, 1, rng.getrandbits(128), rng.getrandbits(16) << 64, 0xFE80 << 112 | rng.getrandbits(64)]))
    if rng.random() < 0.2:
        a = ipaddress.IPv6Address(f"{a}%{rng.choice(['eth0', '1', 'a-b.c'])}")
    return a


def write_datetime(d):
    if d.utcoffset() == datetime.timedelta(0):
        return d.replace(tzinfo=None).isoformat() + "Z"
    return d.isoformat()


_UNITS = {"W": 7 * 86400 * 10**6, "D": 86400 * 10**6, "H": 3600 * 10**6, "M": 60 * 10**6, "S": 10**6}
_MAXUS = 999999999 * 86400 * 10**6 + 86399 * 10**6 + 999999


def parse_duration(text):
    "Reference reader for durations; returns microseconds or raises ValueError."

    s = text
    sign = 1
    if s.startswith("-"):
        sign, s = -1, s[1:]
    if not s.startswith("P"):
        raise ValueError("no P")
    s = s[1:]
    total = 0
    i = 0
    order = ["W", "D"]
    in_time = False
    while i < len(s):
        if s[i] == "T" and not in_time:
            in_time = True
            order = ["H", "M", "S"]
            i += 1
            continue
        j = i
        while j < len(s) and s[j] in "0123456789":
            j += 1
        if j == i or j >= len(s):
            raise ValueError("component expected")
        whole = s[i:j]
        frac = ""
        if s[j] == ".":
            k = j + 1
            while k < len(s) and s[k] in "0123456789":
                k += 1
            frac = s[j + 1 : k]
            if not (1 <= len(frac) <= 9):
                raise ValueError("fraction")
            j = k
            if j >= len(s) or s[j] != "S":
                raise ValueError("fraction outside seconds")
        unit = s[j]
        if unit not in order:
            raise ValueError("unit")
        order = order[order.index(unit) + 1 :]
        total += int(whole) * _UNITS[unit]
        if frac:
            nanos = int(frac + "0" * (9 - len(frac)))
            if nanos % 1000:
                raise ValueError("finer than a microsecond")
            total += nanos // 1000
        i = j + 1
    total *= sign
    if total > _MAXUS or total < -999999999 * 86400 * 10**6:
        raise ValueError("range")
    return total


def micros(d):
    return (d.days * 86400 + d.seconds) * 10**6 + d.microseconds


def _parse_timedelta(j):
    us = parse_duration(j)
    days, rem = divmod(us, 86400 * 10**6)
    return datetime.timedelta(days=days, seconds=rem // 10**6, microseconds=rem % 10**6)


def near_duration(rng):
    def num():
        return rng.choice(["0", "1", "7", "59", "60", "61", "90", "3600", "86400", "00", "007", "999999999", "1000000000", "12345678901234567890", str(rng.randrange(0, 100000))])

    s = rng.choice(["P", "P", "P", "P", "P", "P", "-P", "-P", "p", "", "+P", "PP"])
    for u in "WD":
        if rng.random() < 0.4:
            s += num() + u
    if rng.random() < 0.7:
        s += "T"
        for u in "HM":
            if rng.random() < 0.4:
                s += num() + u
        if rng.random() < 0.6:
            s += num()
            if rng.random() < 0.6:
                k = rng.randrange(0, 11)
                digs = "".join(rng.choice("0123456789") for _ in range(k))
                if rng.random() < 0.6:
                    digs = (digs[:6] + "0000")[: max(k, 0)]
                s += rng.choice([".", ".", ".", ",", ""]) + digs
            s += "S"
    r = rng.random()
    if r < 0.08:
        s += rng.choice(["\n", " ", "Z", "S", "1", "T"])
    elif r < 0.12:
        s = rng.choice([" ", "\n", "x"]) + s
    elif r < 0.16 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice("0123456789WDHMST.-PY ٣") + s[i + 1 :]
    elif r < 0.2 and s:
        i = rng.randrange(len(s))
        s = s[:i] + s[i + 1 :]
    return s


def _near_from(texts):
    return lambda rng: rng.choice(texts)


SCALARS = {
    "None": lambda: ScalarTD("None", type(None), lambda r: None, lambda v: None, _read_none),
    "bool": lambda: ScalarTD("bool", bool, lambda r: r.random() < 0.5, lambda v: v, _read_bool, lambda r: r.choice([0, 1, "true", 1.0, "", None])),
    "int": lambda: ScalarTD("int", int, some_int, lambda v: v, _read_int, lambda r: r.choice([True, False, 1.0, "1", 0.5, None, [1]])),
    "float": lambda: ScalarTD("float", float, some_float, lambda v: v, _read_float, lambda r: r.choice([True, 1, 0, "1.0", 10**400, 2**60, None])),
    "str": lambda: ScalarTD("str", str, some_text, lambda v: v, _read_str, lambda r: r.choice([1, None, True, 1.5, ["a"], {}])),
    "bytes": lambda: ScalarTD(
        "bytes", bytes, lambda r: bytes(r.randrange(256) for _ in range(r.randrange(0, 9))),
        lambda v: base64.b64encode(v).decode(), _stdlib(lambda s: base64.b64decode(s, validate=True)),
        _near_from(["", "AA==", "AA", "A", "!!!!", "AAAA\n", "é", "_-8=", 0, "/+8="]),
    ),
    "datetime.datetime": lambda: ScalarTD(
        "datetime.datetime", datetime.datetime,
        lambda r: datetime.datetime(r.choice([1, 1970, 2024, 9999, r.randrange(1, 10000)]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), some_micro(r), some_tz(r)),
        write_datetime, _stdlib(_parse_datetime),
        _near_from(["2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "2020-01-01", "Z", "2020-01-01T00:00:00+01:00", "2020-13-01T00:00:00Z", "", "2020-01-01T00:00:00+0000", "2020-01-01T00:00Z", "2020-01-01T00:00:00-00:00", 0]),
    ),
    "datetime.date": lambda: ScalarTD(
        "datetime.date", datetime.date,
        lambda r: datetime.date(r.choice([1, 1970, 2024, 9999, r.randrange(1, 10000)]), r.randrange(1, 13), r.randrange(1, 29)),
        lambda v: v.isoformat(), _stdlib(datetime.date.fromisoformat),
        _near_from(["2020-02-30", "20200101", "2020-W01-1", "", "2020-01-01T00:00:00", 20200101]),
    ),
    "datetime.time": lambda: ScalarTD(
        "datetime.time", datetime.time,
        lambda r: datetime.time(r.randrange(24), r.randrange(60), r.randrange(60), some_micro(r), r.choice([None, some_tz(r)])),
        lambda v: v.isoformat(), _stdlib(datetime.time.fromisoformat),
        _near_from(["12:00", "25:00:00", "12:00:00Z", "", "T12", 12]),
    ),
    "datetime.timedelta": lambda: ScalarTD(
        "datetime.timedelta", datetime.timedelta, some_timedelta, None, _stdlib(_parse_timedelta), near_duration
    ),
    "uuid.UUID": lambda: ScalarTD(
        "uuid.UUID", uuid.UUID, lambda r: uuid.UUID(int=r.choice([0, 2**128 - 1, r.getrandbits(128)])), str, _stdlib(uuid.UUID),
        _near_from(["", "f81d4fae7dec11d0a76500a0c91e6bf6", "f81d4fae-7dec-11d0-a765-00a0c91e6bf", "{f81d4fae-7dec-11d0-a765-00a0c91e6bf6}", 1]),
    ),
    "ipaddress.IPv4Address": lambda: ScalarTD(
        "ipaddress.IPv4Address", ipaddress.IPv4Address, lambda r: ipaddress.IPv4Address(r.getrandbits(32)), str, _stdlib(ipaddress.IPv4Address),
        _near_from(["", "1.2.3", "256.0.0.1", "::1", "01.2.3.4", 1, "1.2.3.4/32"]),
    ),
    "ipaddress.IPv6Address": lambda: ScalarTD(
        "ipaddress.IPv6Address", ipaddress.IPv6Address, some_ipv6, str, _stdlib(ipaddress.IPv6Address),
        _near_from(["", "fe80::1%eth0", "fe80::1%", ":::", "1.2.3.4", "::1", "::ffff:1.2.3.4", 1]),
    ),
}


class DurationTD(ScalarTD):
    "Durations: the text need not be canonical, it must denote the duration."

    def write(self, v):
        us = micros(v)
        sign = "-" if us < 0 else ""
        us = abs(us)
        d, rem = divmod(us, _UNITS["D"])
        s, f = divmod(rem, 10**6)
        if us == 0:
            return "PT0S"
        out = f"{sign}P" + (f"{d}D" if d else "")
        if rem:
            h, m, s2 = s // 3600, s % 3600 // 60, s % 60
            fr = ""
            if f % 1000:
                fr = f".{f:06d}"
            elif f:
                fr = f".{f // 1000:03d}"
            if h:
                out += f"T{h}H{m}M{s2}{fr}S"
            elif m:
                out += f"T{m}M{s2}{fr}S"
            else:
                out += f"T{s2}{fr}S"
        return out


def scalar(name):
    td = SCALARS[name]()
    if name == "datetime.timedelta":
        td = DurationTD("datetime.timedelta", datetime.timedelta, some_timedelta, None, td._read, near_duration)
    return td


class EnumTD(TD):
    hashable = True

    def __init__(self, world, kind):
        self.name = world.fresh("E")
        super().__init__(self.name)
        self.world = world
        self.kind = kind
        rng = world.rng
        n = rng.randrange(1, 7)
        if kind == "str":
            vals = rng.sample([" a", "a ", "\tq\n", "a\0", "A", "e\u0301", "\u00e9", "M0", "M1", "a", "b", "", "Z", "x y", "1", "null", "a.b", "a|b", "(c", "é", "A_B", "^", "no\nway"], n)
        else:
            vals = rng.sample([0, 1, 2, -1, 7, 100, 2**40], n)
        self.vals = vals
        base = rng.choice(["enum.Enum"] * 3 + (["str, enum.Enum"] if kind == "str" else ["enum.IntEnum"])) if rng.random() < 0.0 else "enum.Enum"
        body = "\n".join(f"    M{i} = {v!r}" for i, v in enumerate(vals))
        world.emit(f"class {self.name}({base}):\n{body}\n")

    @property
    def cls(self):
        return self.world.module.__dict__[self.name]

    def value(self, rng, fuel=3):
        return rng.choice(list(self.cls))

    def write(self, v):
        return v.value

    def read(self, j):
        for m in self.cls:
            if type(j) in (list, dict):
                break
            if m.value == j:
                return m
        raise Reject("value", "no such member")

    def near(self, rng, fuel):
        k = rng.random()
        if k < 0.7:
            return rng.choice(self.vals)
        if self.kind == "int":
            return rng.choice([True, 1.0, 0, 3, "0", None])
        v = rng.choice(self.vals)
        return rng.choice(["M0", "c", 0, None, "A", v + "\0", v + " ", " " + v, v.upper(), v.lower(), v.strip(), v + "\n", v[:-1], [v], {v: v}])

    def has(self, v):
        return type(v) is self.cls


class LiteralTD(TD):
    hashable = True

    def __init__(self, world, vals=None):
        rng = world.rng
        if vals is None:
            kind = rng.randrange(4)
            n = rng.randrange(1, 4)
            if kind in (0, 1):
                vals = rng.sample(["a", "b", "", "x y", "None", "é", "]", "it's", "a ", " b", "a\0", "A", "e\u0301", "1", "\\", "a\\nb"], n)
            elif kind == 2:
                vals = rng.sample([0, 1, 2, -5, 10**20], n)
            else:
                vals = rng.sample([True, False], min(n, 2))
        self.vals = vals
        super().__init__("Literal[" + ", ".join(map(repr, vals)) + "]")
        self.inner = {str: _read_str, int: _read_int, bool: _read_bool}[type(vals[0])]

    def value(self, rng, fuel=3):
        return rng.choice(self.vals)

    def write(self, v):
        return v

    def read(self, j):
        v = self.inner(j)
        for w in self.vals:
            if w == v:
                return v
        raise Reject("type", "not among literal values")

    def near(self, rng, fuel):
        if rng.random() < 0.7:
            return rng.choice(self.vals)
        v = rng.choice(self.vals)
        if isinstance(v, str) and rng.random() < 0.6:
            return rng.choice([v + "\0", v + " ", " " + v, v.upper(), v.swapcase(), v + "\n", v[:-1], v + v[-1:], v.strip(), "\ufeff" + v])
        if isinstance(v, int) and rng.random() < 0.4:
            return rng.choice([str(v), float(v) if abs(v) < 10**15 else v + 1, -v, v + 1, [v]])
        return rng.choice(["c", 3, True, 1.0, None, "A", 0, "a "])

    def has(self, v):
        return any(type(v) is type(w) and v == w for w in self.vals)


class AnnTD(TD):
    def __init__(self, inner, ann=None, rng=None):
        self.inner = inner
        self.ann = ann or rng.choice(["'note'", "42", "SpecialConversion()", "'a', 'b'", "Storage(4)"])
        super().__init__(f"Annotated[{inner.src}, {self.ann}]")
        self.hashable = inner.hashable
        self.nullable = inner.nullable
        self.roundtrip = inner.roundtrip

    def value(self, rng, fuel=3):
        return self.inner.value(rng, fuel)

    def write(self, v):
        return self.inner.write(v)

    def read(self, j):
        return self.inner.read(j)

    def near(self, rng, fuel):
        return self.inner.near(rng, fuel)

    def has(self, v):
        return self.inner.has(v)


class ListTD(TD):
    def __init__(self, item):
        super().__init__(f"list[{item.src}]")
        self.item = item
        self.roundtrip = item.roundtrip

    def value(self, rng, fuel=3):
        n = 0 if fuel <= 0 else rng.choice([0, 1, 2, 3, 5])
        return [self.item.value(rng, fuel - 1) for _ in range(n)]

    def write(self, v):
        return [self.item.write(x) for x in v]

    def read(self, j):
        _need(list, j)
        return [self.item.read(x) for x in j]

    def near(self, rng, fuel):
        n = 0 if fuel <= 0 else rng.choice([0, 1, 2, 3, 5])
        return [self.item.data(rng, fuel - 1) if rng.random() < 0.3 else self.item.near(rng, fuel - 1) for _ in range(n)]

    def has(self, v):
        return type(v) is list and all(self.item.has(x) for x in v)


class SetTD(TD):
    def __init__(self, item):
        super().__init__(f"set[{item.src}]")
        self.item = item
        self.roundtrip = item.roundtrip

    def value(self, rng, fuel=3):
        n = 0 if fuel <= 0 else rng.choice([0, 1, 2, 3, 5])
        return set(self.item.value(rng, fuel - 1) for _ in range(n))

    def write(self, v):
        return [self.item.write(x) for x in v]

    def read(self, j):
        _need(list, j)
        return set(self.item.read(x) for x in j)

    def near(self, rng, fuel):
        n = 0 if fuel <= 0 else rng.choice([0, 1, 2, 3, 5])
        out = [self.item.near(rng, fuel - 1) for _ in range(n)]
        if out and rng.random() < 0.3:
            out.append(out[0])
        return out

    def has(self, v):
        return type(v) is set and all(self.item.has(x) for x in v)


class TupleTD(TD):
    def __init__(self, items):
        super().__init__("tuple[" + ", ".join(i.src for i in items) + "]" if items else "tuple[()]")
        self.items = items
        self.hashable = all(i.hashable for i in items)
        self.roundtrip = all(i.roundtrip for i in items)

    def value(self, rng, fuel=3):
        return tuple(i.value(rng, fuel - 1) for i in self.items)

    def write(self, v):
        return [i.write(x) for i, x in zip(self.items, v)]

    def read(self, j):
        _need(list, j)
        if len(j) != len(self.items):
            raise Reject("value", "length")
        return tuple(i.read(x) for i, x in zip(self.items, j))

    def near(self, rng, fuel):
        out = [i.near(rng, fuel - 1) for i in self.items]
        k = rng.random()
        if k < 0.1:
            out.append(some_json(rng, 1))
        elif k < 0.2 and out:
            out.pop()
        elif k < 0.3 and len(out) > 1:
            out.reverse()
        return out

    def has(self, v):
        return type(v) is tuple and len(v) == len(self.items) and all(i.has(x) for i, x in zip(self.items, v))


class DictTD(TD):
    def __init__(self, key, item):
        super().__init__(f"dict[{key.src}, {item.src}]")
        self.key, self.item = key, item
        self.roundtrip = item.roundtrip

    def value(self, rng, fuel=3):
        n = 0 if fuel <= 0 else rng.choice([0, 1, 2, 3, 5])
        return {self.key.value(rng): self.item.value(rng, fuel - 1) for _ in range(n)}

    def write(self, v):
        return {self.key.write(k): self.item.write(x) for k, x in v.items()}

    def read(self, j):
        _need(dict, j)
        return {self.key.read(k): self.item.read(x) for k, x in j.items()}

    def near(self, rng, fuel):
        n = 0 if fuel <= 0 else rng.choice([0, 1, 2, 3, 5])
        keys = [self.key.near(rng, 0) if rng.random() < 0.9 else some_text(rng) for _ in range(n)]
        return {k: self.item.near(rng, fuel - 1) for k in keys if type(k) is str}

    def has(self, v):
        return type(v) is dict and all(self.key.has(k) and self.item.has(x) for k, x in v.items())


class OptionalTD(TD):
    nullable = True

    def __init__(self, inner, rng):
        self.inner = inner
        src = f"Optional[{inner.src}]"
        k = rng.random()
        if k < 0.2 and not inner.src.startswith(("'", '"')):
            src = f"{inner.src} | None" if not inner.src.startswith("Annotated") else src
        elif k < 0.3:
            src = f"Union[None, {inner.src}]"
        super().__init__(src)
        self.hashable = inner.hashable
        self.roundtrip = inner.roundtrip

    def value(self, rng, fuel=3):
        return None if fuel <= 0 or rng.random() < 0.3 else self.inner.value(rng, fuel - 1)

    def write(self, v):
        return None if v is None else self.inner.write(v)

    def read(self, j):
        if j is None:
            return None
        if isinstance(self.inner, TaggedTD):
            # a union with None has no tag
            for m in self.inner.members:
                try:
                    return m.read(j)
                except Reject:
                    continue
            raise Reject("key", "no member type accepts")
        return self.inner.read(j)

    def near(self, rng, fuel):
        return None if fuel <= 0 or rng.random() < 0.3 else self.inner.near(rng, fuel - 1)

    def has(self, v):
        return v is None or self.inner.has(v)


class UnionTD(TD):
    roundtrip = False

    def __init__(self, members, rng):
        self.members = members
        k = rng.random()
        if k < 0.3 and not any(m.src.startswith(("'", '"', "None")) for m in members):
            src = " | ".join(m.src for m in members)
        else:
            src = "Union[" + ", ".join(m.src for m in members) + "]"
        super().__init__(src)
        self.hashable = all(m.hashable for m in members)
        self.nullable = any(m.nullable or m.src == "None" for m in members)

    def value(self, rng, fuel=3):
        return rng.choice(self.members).value(rng, fuel)

    def write(self, v):
        for m in self.members:
            if m.has(v):
                return m.write(v)
        raise AssertionError(f"not a member: {v!r}")

    def read(self, j):
        for m in self.members:
            try:
                return m.read(j)
            except Reject:
                continue
        raise Reject("key", "no member type accepts")

    def near(self, rng, fuel):
        return rng.choice(self.members).near(rng, fuel)

    def has(self, v):
        return any(m.has(v) for m in self.members)


@dataclasses.dataclass
class Field:
    name: str
    td: TD
    alias: typing.Optional[str] = None
    default: typing.Optional[str] = None  # source text
    factory: typing.Optional[str] = None
    optional: bool = False

    @property
    def prop(self):
        if self.alias is not None:
            return self.alias
        if self.name.endswith("_") and keyword.iskeyword(self.name[:-1]):
            return self.name[:-1]
        return self.name


NAMES = ["a", "b", "c", "x", "value", "name", "data", "obj", "cls", "self", "in_", "from_", "class_", "is_", "x_", "None_", "a_", "_p",
         "typ", "type", "id", "items", "key", "field_values", "None__", "def__", "A", "camelCase", "y1", "options", "match_", "kind"]
TUPLE_NAMES = [n for n in NAMES if not n.startswith("_")]


def like_default(td, d, v, rng):
    "A value that equals a default, but possibly of another type."
    try:
        alike = [c for c in [d] + ([bool(d), int(d), float(d), -d] if type(d) in (bool, int, float) else []) if c == d and td.has(c) and same(td.read(td.write(c)), c)]
    except Exception:
        return v
    return rng.choice(alike) if alike else v


class ClassTD(TD):
    "Data classes, frozen data classes, named tuples and plain classes with annotated members."

    def __init__(self, world, kind=None, name=None):
        self.world = world
        self.kind = kind or world.rng.choice(["data", "data", "frozen", "tuple", "plain"])
        self.name = name or world.fresh("C")
        super().__init__(self.name)
        self.fields = []
        self.postponed = False
        world.classes.append(self)

    @property
    def cls(self):
        return self.world.module.__dict__[self.name]

    def define(self, fields):
        rng = self.world.rng
        self.fields = fields
        if self.kind in ("data", "frozen"):
            fields.sort(key=lambda f: f.default is not None or f.factory is not None)
        lines = []
        params = ["frozen=True"] if self.kind == "frozen" else []
        if self.kind in ("data", "frozen") and rng.random() < 0.1:
            params.append("slots=True")
        deco = ["@dataclass" + (f"({', '.join(params)})" if params else "")] if self.kind in ("data", "frozen") else []
        base = ""
        if self.kind == "tuple":
            base = "(NamedTuple)"
        elif self.kind == "plain" and rng.random() < 0.15:
            base = rng.choice(["(Exception)", "(ValueError)", "(LookupError)", "(RuntimeError)"])
        # members may be inherited (hints of a plain class start with those that it declares itself)
        inherited = rng.randrange(1, len(fields) + 1) if fields and self.world.inherit and self.kind in ("data", "frozen") and rng.random() < 0.15 else 0
        lines += [*deco, f"class {self.name}_{base}:" if inherited else f"class {self.name}{base}:"]
        lines.append("    'Generated class.'")
        for i, f in enumerate(fields):
            if inherited and i == inherited:
                self.world.emit("\n".join(lines) + "\n")
                lines = [*deco, f"class {self.name}({self.name}_):", "    'Generated class.'"]
            src = f.td.src
            if f.alias is not None:
                src = f"Annotated[{src}, Alias({f.alias!r})]"
                if self.world.inherit and "'" not in f.td.src and '"' not in f.td.src and rng.random() < 0.3:
                    nm = self.world.fresh("T")
                    self.world.emit(f"{nm} = {src}\n")
                    src = nm
            line = f"    {f.name}: {src}"
            params = []
            if self.kind in ("data", "frozen") and rng.random() < 0.12:
                params.append(rng.choice(["compare=False", "repr=False", "hash=False", "kw_only=True", "metadata={'a': 1}"]))
            if f.default is not None:
                line += f" = field(default={f.default}, {params[0]})" if params else f" = {f.default}"
            elif f.factory is not None or params:
                line += " = field(" + ", ".join(([f"default_factory={f.factory}"] if f.factory is not None else []) + params) + ")"
            lines.append(line)
        if inherited == len(fields) and inherited:
            self.world.emit("\n".join(lines) + "\n")
            lines = [*deco, f"class {self.name}({self.name}_):", "    'Generated class.'"]
        if not fields:
            lines.append("    pass")
        if self.kind == "plain":
            lines.append("    def __eq__(self, other): return type(self) is type(other) and vars(self) == vars(other)")
            lines.append("    __hash__ = None")
        self.world.emit("\n".join(lines) + "\n")
        self.hashable = self.kind in ("frozen", "tuple") and all(f.td.hashable for f in fields)
        self.roundtrip = all(f.td.roundtrip for f in fields)
        return self

    def build(self, values):
        cls = self.cls
        if self.kind == "tuple" or self.kind == "data" or self.kind == "frozen":
            return cls(**values) if "self" not in values or self.kind == "tuple" else self._build_self(cls, values)
        obj = cls()
        for k, v in values.items():
            setattr(obj, k, v)
        return obj

    @staticmethod
    def _build_self(cls, values):
        obj = cls.__new__(cls)
        for k, v in values.items():
            object.__setattr__(obj, k, v)
        return obj

    def default_of(self, f):
        if f.default is not None:
            return True, self.world.eval(f.default)
        if f.factory is not None:
            return True, self.world.eval(f"({f.factory})()")
        if f.optional:
            return True, None
        return False, None

    def value(self, rng, fuel=3):
        out = {}
        for f in self.fields:
            v = f.td.value(rng, fuel - 1)
            if v is None:
                # None members are written by leaving them out: they come back as the default of the member
                has, d = self.default_of(f)
                if has and d is not None:
                    tries = 0
                    while v is None and tries < 20 and fuel > 0:
                        v = f.td.value(rng, fuel - 1)
                        tries += 1
                    if v is None:
                        v = d
                elif not has:
                    pass
            elif f.default is not None and rng.random() < 0.3:
                v = like_default(f.td, self.world.eval(f.default), v, rng)
            out[f.name] = v
        return self.build(out)

    def write(self, v):
        out = {}
        for f in self.fields:
            x = getattr(v, f.name)
            if x is not None:
                out[f.prop] = f.td.write(x)
        if World.extra is not None and World.extra.random() < 0.4:
            name = World.extra.choice(["extra", "a", "x", "in_", "from_", "class", "self", "x_", "_"])
            if all(f.prop != name for f in self.fields):
                out[name] = some_json(World.extra, 1)
        return out

    def read(self, j, ignore=None):
        _need(dict, j)
        ignore = self.world.ignore if ignore is None else ignore
        out = {}
        for f in self.fields:
            x = j.get(f.prop)
            has, d = self.default_of(f)
            if x is None:
                if not has:
                    raise Reject("value" if f.prop in j else "key", f"required {f.prop}")
                out[f.name] = d
            else:
                base = strip(f.td)
                out[f.name] = base.inner.read(x) if isinstance(base, OptionalTD) else f.td.read(x)
        if not ignore:
            props = {f.prop for f in self.fields}
            for k in j:
                if k not in props:
                    raise Reject("key", f"unrecognized {k}")
        return self.build(out)

    def near(self, rng, fuel):
        out = {}
        for f in self.fields:
            k = rng.random()
            if fuel <= 0 and f.optional:
                continue
            if k < 0.12:
                continue
            if k < 0.2:
                out[f.prop] = None
            elif k < 0.25:
                out[f.prop] = f.td.data(rng, fuel - 1)
            else:
                out[f.prop] = f.td.near(rng, fuel - 1)
        if rng.random() < 0.12:
            out[rng.choice(["extra", "a", "x", "in_", "from_", "class", "self", "x_", "_"])] = some_json(rng, 1)
        if rng.random() < 0.3:
            items = list(out.items())
            rng.shuffle(items)
            out = dict(items)
        return out

    def has(self, v):
        if type(v) is not self.cls:
            return False
        return all(hasattr(v, f.name) and (f.td.has(getattr(v, f.name)) or (getattr(v, f.name) is None and f.optional)) for f in self.fields)


World.ignore = False
World.extra = None  # if given, objects are written with properties that correspond to no member


class RefTD(TD):
    "A reference to a class by name, possibly while the class is being defined."

    def __init__(self, target, quoted=True):
        super().__init__(f'"{target.name}"' if quoted else target.name)
        self.target = target
        self.roundtrip = True

    def value(self, rng, fuel=3):
        return self.target.value(rng, fuel)

    def write(self, v):
        return self.target.write(v)

    def read(self, j):
        return self.target.read(j)

    def near(self, rng, fuel):
        return self.target.near(rng, fuel)

    def has(self, v):
        return self.target.has(v)


class CustomTD(TD):
    "A class with to_json and from_json."

    def __init__(self, world):
        self.world = world
        self.name = world.fresh("X")
        super().__init__(self.name)
        kind = world.rng.choice(["plain", "data", "tuple", "enum"])
        json = (
            "    def to_json(self): return {'custom': str(%s)}\n"
            "    @classmethod\n    def from_json(cls, data):\n"
            "        if not isinstance(data, dict) or 'custom' not in data: raise ERROR('custom expected')\n"
            "        return cls(int(data['custom']))\n"
        ).replace("ERROR", world.rng.choice(["ValueError", "ValueError", "UnicodeError", "ipaddress.AddressValueError"]))
        self.field = "n"
        if kind == "tuple":
            world.emit(f"class {self.name}(NamedTuple):\n    n: int\n" + json % "self.n")
        elif kind == "enum":
            self.field = "value"
            world.emit(f"class {self.name}(enum.Enum):\n    A = 0\n    B = 1\n    C = 2\n" + json % "self.value")
        else:
            deco = "@dataclass\n" if kind == "data" else ""
            world.emit(
                f"{deco}class {self.name}:\n    n: int\n    def __init__(self, n): self.n = n\n"
                "    def __eq__(self, o): return type(self) is type(o) and self.n == o.n\n" + json % "self.n"
            )

    @property
    def cls(self):
        return self.world.module.__dict__[self.name]

    def value(self, rng, fuel=3):
        return self.cls(rng.randrange(3 if self.field == "value" else 100))

    def write(self, v):
        return {"custom": str(getattr(v, self.field))}

    def read(self, j):
        if not isinstance(j, dict) or "custom" not in j:
            raise Reject("value", "custom")
        try:
            return self.cls(int(j["custom"]))
        except Exception:
            raise Reject("value", "custom")

    def has(self, v):
        return type(v) is self.cls


class TaggedTD(TD):
    roundtrip = True

    def __init__(self, members, tag_props, tag_fields, rng, src=None):
        self.members = members
        self.tag_props = tag_props
        self.tag_fields = tag_fields
        if rng.random() < 0.3:
            src = " | ".join(m.src for m in members)
        else:
            src = "Union[" + ", ".join(m.src for m in members) + "]"
        super().__init__(src)

    def value(self, rng, fuel=3):
        return rng.choice(self.members).value(rng, fuel)

    def write(self, v):
        for m in self.members:
            if type(v) is m.cls:
                return m.write(v)
        raise AssertionError

    def read(self, j):
        if not isinstance(j, dict):
            raise Reject("json-type", "object expected")
        chosen = None
        for p in self.tag_props:
            t = j.get(p)
            if t is None:
                continue
            ms = [m for m in self.members if type(t) in (str, int, bool, float) and any(f.prop == p and any(w == t for w in tag_values(f.td)) for f in m.fields)]
            if len(ms) != 1:
                raise Reject("json-type", f"tag {p}")
            return ms[0].read(j)
        raise Reject("json-type", "no tag")

    def near(self, rng, fuel):
        j = rng.choice(self.members).near(rng, fuel)
        if isinstance(j, dict) and rng.random() < 0.2:
            j[rng.choice(self.tag_props)] = rng.choice(["zz", 5, None, [], {}, True, "a"])
        return j

    def has(self, v):
        return any(m.has(v) for m in self.members)


def tag_values(td):
    return td.vals if isinstance(td, LiteralTD) else td.inner.vals


def strip(td):
    while isinstance(td, AnnTD):
        td = td.inner
    return td


def default_src(td, rng):
    "Source text of a default value of the type, or None."

    if isinstance(td, ScalarTD):
        v = {"bool": rng.choice(["True", "False"]), "int": str(rng.randrange(0, 9)), "float": rng.choice(["1.5", "0.0", "-0.0"]), "str": repr(rng.choice(["", "d", "x"])), "bytes": "b'ab'",
             "uuid.UUID": "uuid.UUID(int=7)", "datetime.date": "datetime.date(2020, 1, 2)", "datetime.timedelta": "datetime.timedelta(seconds=90)",
             "datetime.time": "datetime.time(1, 2, 3)", "datetime.datetime": "datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc)"}.get(td.src)
        return v
    if isinstance(td, EnumTD):
        return f"{td.name}.M0"
    if isinstance(td, LiteralTD):
        return repr(td.vals[0])
    if isinstance(td, OptionalTD):
        return "None" if rng.random() < 0.5 else default_src(td.inner, rng)
    if isinstance(td, AnnTD):
        return default_src(td.inner, rng)
    if isinstance(td, UnionTD):
        parts = [p for p in (default_src(i, rng) for i in td.members) if p is not None]
        return rng.choice(parts) if parts else None
    if isinstance(td, TupleTD):
        parts = [default_src(i, rng) for i in td.items]
        return None if any(p is None for p in parts) or not parts else "(" + ", ".join(parts) + ",)"
    return None


def factory_src(td, rng):
    if isinstance(td, ListTD):
        return "list"
    if isinstance(td, DictTD):
        return "dict"
    if isinstance(td, SetTD):
        return "set"
    if isinstance(td, OptionalTD):
        return factory_src(td.inner, rng)
    d = default_src(td, rng)
    return f"lambda: {d}" if d is not None and d != "None" else None


class Config:
    "Which types to draw."

    def __init__(self, unions=False, customs=True, classes=True, refs=True, tagged=False, scalars=None, aliases=True, class_kinds=None, defaults=True, enums=True, names=None):
        self.unions, self.customs, self.classes, self.refs, self.tagged = unions, customs, classes, refs, tagged
        self.scalars = scalars or list(SCALARS)
        self.aliases = aliases
        self.class_kinds = class_kinds
        self.defaults = defaults
        self.enums = enums
        self.names = names


def gen_type(world, depth, cfg, hashable=False, refs=()):
    rng = world.rng
    while True:
        k = rng.random()
        if depth <= 0 or k < 0.25:
            r = rng.random()
            if r < 0.72:
                name = rng.choice(cfg.scalars)
                if name == "None" and rng.random() < 0.7:
                    continue
                return scalar(name)
            if r < 0.86 and cfg.enums:
                return EnumTD(world, rng.choice(["str", "int"]))
            return LiteralTD(world)
        if refs and cfg.refs and not hashable and k < 0.33:
            return rng.choice([ListTD, lambda t: OptionalTD(t, rng), lambda t: DictTD(scalar("str"), t)])(RefTD(rng.choice(refs)))
        pick = rng.choice(["list", "set", "tuple", "dict", "opt", "ann", "class", "class", "custom", "union", "tagged", "optnest"])
        if pick == "list" and not hashable:
            return ListTD(gen_type(world, depth - 1, cfg, False, refs))
        if pick == "set" and not hashable:
            return SetTD(gen_type(world, depth - 1, cfg, True))
        if pick == "tuple":
            return TupleTD([gen_type(world, depth - 1, cfg, hashable, refs) for _ in range(rng.randrange(0 if rng.random() < 0.2 else 1, 4))])
        if pick == "dict" and not hashable:
            key = scalar("str") if rng.random() < 0.6 or not cfg.enums else EnumTD(world, "str")
            return DictTD(key, gen_type(world, depth - 1, cfg, False, refs))
        if pick == "opt":
            t = gen_type(world, depth - 1, cfg, hashable, refs)
            if t.nullable or t.src == "None" or isinstance(t, UnionTD):
                continue
            return OptionalTD(t, rng)
        if pick == "ann":
            t = gen_type(world, depth - 1, cfg, hashable, refs)
            return AnnTD(t, rng=rng)
        if pick == "class" and cfg.classes:
            return gen_class(world, depth - 1, cfg, hashable, refs)
        if pick == "custom" and cfg.customs and not hashable:
            return CustomTD(world)
        if pick == "union" and cfg.unions:
            t = gen_union(world, depth - 1, cfg, hashable)
            if t is not None:
                return t
        if pick == "tagged" and cfg.tagged and not hashable:
            return gen_tagged(world, cfg)


def gen_class(world, depth, cfg, hashable=False, refs=(), kind=None, nfields=None):
    rng = world.rng
    if hashable:
        kind = rng.choice(["frozen", "tuple"])
    elif kind is None:
        kind = rng.choice(cfg.class_kinds or ["data", "data", "frozen", "tuple", "plain"])
    cls = ClassTD(world, kind)
    n = nfields if nfields is not None else rng.choice([0, 1, 2, 2, 3, 3, 4, 6])
    if kind == "plain":
        n = max(n, 1)
    pool = cfg.names or (TUPLE_NAMES if kind == "tuple" else NAMES)
    if kind != "plain" and kind != "tuple":
        pool = [p for p in pool]
    if kind == "frozen":
        pool = [p for p in pool if p != "self"]
    if kind == "tuple":
        pool = [p for p in pool if not p.startswith("_") and p != "cls"]
    names = rng.sample(pool, min(n, len(pool)))
    fields = []
    used = set()
    inner_refs = (*refs, cls) if not hashable else ()
    for name in names:
        td = gen_type(world, depth, cfg, hashable, inner_refs)
        while strip(td).src == "None":
            td = gen_type(world, depth, cfg, hashable, inner_refs)
        f = Field(name, td)
        base = td
        while isinstance(base, AnnTD):
            base = base.inner
        f.optional = base.nullable
        if isinstance(base, UnionTD) and not base.nullable:
            f.optional = False
        if cfg.aliases and rng.random() < 0.2:
            f.alias = rng.choice(["al-ias", "a", "b", "in", "Some Name", "x.y", "$ref", "é", "0", "class_", "type"])
        if kind in ("data", "frozen") and cfg.defaults and rng.random() < 0.4:
            if rng.random() < 0.6:
                f.default = default_src(td, rng)
            else:
                f.factory = factory_src(td, rng)
        if f.prop in used:
            continue
        used.add(f.prop)
        fields.append(f)
    if kind == "plain" and not fields:
        fields.append(Field("only", scalar("int")))
    return cls.define(fields)


def disjoint_sample(rng, pool, groups):
    pool = list(pool)
    rng.shuffle(pool)
    out = []
    for _ in range(groups):
        k = rng.choice([1, 1, 2])
        out.append([pool.pop() for _ in range(min(k, len(pool)))])
    return out


def gen_tagged(world, cfg, nmembers=None):
    rng = world.rng
    n = nmembers or rng.choice([2, 2, 3, 4])
    ntags = rng.choice([1, 1, 1, 2])
    tagnames = rng.sample(["kind", "type", "class_", "tag"], ntags)
    aliases = {t: (rng.choice(["@type", "k"]) + t if rng.random() < 0.3 and cfg.aliases else None) for t in tagnames}
    sets = {}
    for t in tagnames:
        pool = ["a", "b", "c", "d", "e", "f", "g", "", "x y"] if rng.random() < 0.7 else [0, 1, 2, 3, 4, 5, 6, 7, 8]
        sets[t] = disjoint_sample(rng, pool, n)
    plain = Config(scalars=["int", "str", "bool"], refs=False, customs=False, classes=False, aliases=False)
    members = []
    for i in range(n):
        m = ClassTD(world, rng.choice(["data", "data", "frozen", "plain", "tuple"]))
        fields = []
        for t in tagnames:
            td = LiteralTD(world, sets[t][i])
            if rng.random() < 0.2:
                td = AnnTD(td, ann="'note'")
            f = Field(t, td, alias=aliases[t])
            if m.kind in ("data", "frozen") and rng.random() < 0.5:
                f.default = repr(sets[t][i][0])
            fields.append(f)
        for nm in rng.sample(["a", "b", "x", "value"], rng.randrange(0, 3)):
            td = gen_type(world, 1, plain)
            f = Field(nm, td)
            base = td
            while isinstance(base, AnnTD):
                base = base.inner
            f.optional = base.nullable
            if base.src == "None" or isinstance(base, LiteralTD):
                continue
            fields.append(f)
        if rng.random() < 0.2:
            # a literal member that is not shared
            fields.append(Field(f"own{i}", LiteralTD(world, ["u", "v"])))
        if rng.random() < 0.4 and m.kind == "plain":
            fields.reverse()
        m.define(fields)
        members.append(m)
    props = [aliases[t] or (t[:-1] if t.endswith("_") else t) for t in tagnames]
    return TaggedTD(members, props, tagnames, rng)


def is_dup(t, members):
    if isinstance(t, LiteralTD):
        return any(isinstance(m, LiteralTD) and set(m.vals) == set(t.vals) for m in members)
    return any(m.src == t.src for m in members)


def gen_union(world, depth, cfg, hashable=False):
    rng = world.rng
    members = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        t = gen_type(world, depth, dataclass_replace(cfg, unions=False, tagged=False), hashable)
        if isinstance(strip(t), (OptionalTD, UnionTD)) or is_dup(t, members):
            continue
        if t.src != "None" and strip(t).src == "None":
            continue
        if has_literal_member(t) and any(has_literal_member(m) for m in members):
            continue  # might be a discriminated union, which is a different property
        members.append(t)
    if len(members) < 2 or (len(members) == 2 and any(m.src == "None" for m in members)):
        return None
    # typing.Union removes duplicates by equality: literals that compare equal
    return UnionTD(members, rng)


def has_literal_member(t):
    while isinstance(t, AnnTD):
        t = t.inner
    def lit(td):
        while isinstance(td, AnnTD):
            td = td.inner
        return isinstance(td, LiteralTD)
    return isinstance(t, ClassTD) and any(lit(f.td) for f in t.fields)


def dataclass_replace(cfg, **kw):
    new = Config()
    new.__dict__.update(cfg.__dict__)
    new.__dict__.update(kw)
    return new

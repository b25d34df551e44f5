"""
C02: every duration is written as a text that denotes it exactly; a text is read as the sum of its components, or refused.

The texts of the form  [-]P[nW][nD][T[nH][nM][n[.f]S]]  are taken case by case (which components there are, how many digits
the fraction has), each component being any run of digits; every other text is one that is not in this language.
"""

import re
from typing import Optional

from pyvc import regex
from pyvc.core import Digits

from .values import *  # noqa: F403

UNIT = {"W": 7 * models.MICROS, "D": models.MICROS, "H": 3600 * 10**6, "M": 60 * 10**6, "S": 10**6}
DIGIT = z3.Range("0", "9")
DIGITS = z3.Plus(DIGIT)


def component(unit: str, fraction: bool = False) -> Any:
    parts = [DIGITS]
    if fraction:
        parts.append(z3.Option(z3.Concat(z3.Re("."), z3.Loop(DIGIT, 1, 9))))
    return z3.Option(z3.Concat(*parts, z3.Re(unit)))


FORM = z3.Concat(
    z3.Option(z3.Re("-")), z3.Re("P"), component("W"), component("D"),
    z3.Option(z3.Concat(z3.Re("T"), component("H"), component("M"), component("S", True))),
)
VALUE_ERRORS = (JsonValueError, ValueError)


class Parts:
    "The components of a duration text."

    def __init__(self) -> None:
        self.negative = False
        self.text: list = []
        self.total: Any = z3.IntVal(0)  # microseconds, without the fraction
        self.fraction: Any = None
        self.runs: list = []

    def add(self, unit: str) -> None:
        v, n = z3.Const(ctx().name(f"number{unit}"), INT), z3.Const(ctx().name(f"length{unit}"), INT)
        ctx().assume(z3.And(v >= 0, n >= 1))
        self.runs.append(n)
        self.text.append(Digits(v, None, False, n))
        self.total = self.total + v * UNIT[unit]

    def seconds(self, digits: Optional[int]) -> None:
        "Seconds, with a fraction of so many digits (-1: of more than nine)."

        self.add("S")
        if digits is not None:
            v = z3.Const("fraction", INT)
            ctx().assume(v >= 0)
            if digits > 0:
                ctx().assume(v < 10**digits)
                self.text += [".", Digits(v, digits, False)]
                self.fraction = v * 10 ** (9 - digits)  # nanoseconds
            else:
                n = z3.Const("fraction_length", INT)
                ctx().assume(n > 9)
                self.text += [".", Digits(v, None, False, n)]
                self.fraction = v
        self.text.append("S")



def any_text(sign: str, date: str, time: Optional[str], digits: Optional[int]) -> Parts:
    p = Parts()
    p.negative = sign == "-"
    p.text.append(sign + "P")
    for u in date:
        p.add(u)
        p.text.append(u)
    if time is not None:
        p.text.append("T")
        for u in time:
            if u == "S":
                p.seconds(digits)
            else:
                p.add(u)
                p.text.append(u)
    return p


def in_range(total: Any) -> Any:
    return z3.And(total >= -models.LIMIT_DAYS * models.MICROS, total < (models.LIMIT_DAYS + 1) * models.MICROS)


def check_reading(p: Parts) -> None:
    o = outcome(lambda: parse(reader_of(datetime.timedelta), SStr(p.text)))
    convertible = z3.And(*[n <= 4300 for n in p.runs]) if p.runs else z3.BoolVal(True)
    nanos = p.fraction if p.fraction is not None else z3.IntVal(0)
    exact = nanos % 1000 == 0
    total = p.total + nanos / 1000
    if p.negative:
        total = -total
    if o.exc is not None:
        if not issubclass(o.exc.cls, VALUE_ERRORS):
            refuted(f"a duration text ends in {o.exc.cls.__name__}")
        if o.exc.cls is not JsonValueError:
            goal(z3.Not(convertible), "a text that can be converted is refused with the library's own error")
        goal(z3.Not(z3.And(convertible, exact, in_range(total))), "a text that denotes a duration is read")
        return
    goal(convertible, "components can be converted")
    goal(exact, "what is finer than a microsecond is refused")
    if not isinstance(o.value, models.TDelta):
        refuted("the reader of durations returns something else")
    goal(o.value.total == total, "sum of the components")


DATES = ("", "W", "D", "WD")
TIMES = ("", "H", "M", "HM")
WORDS = {"": "no", "W": "weeks", "D": "days", "WD": "weeks and days"}

for _sign in ("", "-"):
    for _date in DATES:
        _what = f"{'negative, ' if _sign else ''}{WORDS[_date]}{' days' if not _date else ''}"

        @obligation("C02", f"a duration text is read as the sum of its components or refused ({_what}; whole seconds)", "deserializer.TimeDeltaDeserializer.parse")
        def _(sign: str = _sign, date: str = _date) -> None:
            for time in (None,) + tuple(t + s for t in TIMES for s in ("", "S")):
                core.explore(lambda: check_reading(any_text(sign, date, time, None)), keep=False)

        @obligation("C02", f"a duration text is read as the sum of its components or refused ({_what}; fraction)", "deserializer.TimeDeltaDeserializer.parse", timeout=200)
        def _(sign: str = _sign, date: str = _date) -> None:
            for t in TIMES:
                for digits in range(1, 10):
                    core.explore(lambda: check_reading(any_text(sign, date, t + "S", digits)), keep=False)


@obligation("C02", "a fraction of more than nine digits is refused", "deserializer.TimeDeltaDeserializer.parse")
def _() -> None:
    def run(sign: str, date: str, t: str) -> None:
        p = any_text(sign, date, t + "S", -1)
        o = outcome(lambda: parse(reader_of(datetime.timedelta), SStr(p.text)))
        if o.exc is None or not issubclass(o.exc.cls, VALUE_ERRORS):
            refuted("a fraction finer than nanoseconds is not refused")
        goal(True, "refused")

    for sign in ("", "-"):
        for date in DATES:
            for t in TIMES:
                core.explore(lambda: run(sign, date, t), keep=False)


def replay(s: SStr) -> None:
    "Runs the reader on a text that takes the current path."

    def attempt(text: str) -> None:
        try:
            d = D.TimeDeltaDeserializer().parse(text)
        except Exception:
            return
        raise core.NotProved(f"the text {text!r}, which is not of the form of a duration, is read as {d!r}", True, f"text = {text!r}")

    for text in ("P\u0663D", "P1DT\u0661H"):  # digits of other scripts: the solver takes long to find them
        attempt(text)
    solver = z3.Solver()
    solver.set("timeout", 10000)
    solver.add(*ctx().all_constraints())
    if solver.check() == z3.sat:
        value = solver.model().eval(s.t, model_completion=True).as_string()
        attempt(re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), value))


@obligation("C02", "a text that is not of the form of a duration is refused", "deserializer.TimeDeltaDeserializer.parse")
def _() -> None:
    s = SStr([z3.Const("text", STR)])
    ctx().assume(z3.Not(z3.InRe(s.t, FORM)))
    try:
        o = outcome(lambda: parse(reader_of(datetime.timedelta), s))
    except Unsupported:
        replay(s)
        raise
    if o.exc is None:
        refuted("a text that is not of the form of a duration is read")
    if o.exc.cls is not JsonValueError:
        refuted(f"a text that is not of the form of a duration ends in {o.exc.cls.__name__}")
    goal(True, "refused")


@obligation(("C02", "C04"), "JSON data other than a string is not a duration", "deserializer.TimeDeltaDeserializer.parse")
def _() -> None:
    data = any_json()
    ctx().assume(z3.Not(core.is_kind(data.t, "str")))
    o = outcome(lambda: parse(reader_of(datetime.timedelta), data))
    if o.exc is None or o.exc.cls is not JsonTypeError:
        refuted("JSON data other than a string is read as a duration")
    goal(True, "refused")


# ---------------------------------------------------------------- writing

def denotation(s: Any) -> Any:
    "The number of microseconds that a duration text denotes; fails if it is not of the form."

    tokens = regex.tokens_of(s)
    if tokens is None:
        raise Unsupported("text of a duration")
    k = 0

    def peek(*chars: str) -> bool:
        return k < len(tokens) and tokens[k] in chars

    def number() -> Any:
        "A run of digits: its value and its length."
        nonlocal k
        start = k
        value, length = z3.IntVal(0), 0
        while k < len(tokens) and (isinstance(tokens[k], Digits) or tokens[k] in "0123456789"):
            t = tokens[k]
            if isinstance(t, Digits):
                if k > start and t.length is None:
                    raise Unsupported("digits of unknown length after digits")
                value = as_int(t.value) if k == start else value * 10**t.length + as_int(t.value)
                length = None if t.length is None or length is None else length + t.length
            else:
                value, length = value * 10 + int(t), None if length is None else length + 1
            k += 1
        return None if k == start else (z3.simplify(value), length)

    negative = peek("-")
    k += negative
    if not peek("P"):
        refuted("a duration is written without P")
    k += 1
    total: Any = z3.IntVal(0)
    units = ["W", "D"]
    timed = False
    while k < len(tokens):
        if peek("T") and not timed:
            timed, units, k = True, ["H", "M", "S"], k + 1
            continue
        n = number()
        if n is None:
            refuted("a duration is written with a component without number")
        fraction: Any = None
        if peek("."):
            k += 1
            fraction = number()
            if fraction is None or not peek("S"):
                refuted("a duration is written with a fraction that is not of seconds")
            if fraction[1] is None:
                raise Unsupported("length of the fraction")
            if fraction[1] > 9:
                refuted("a duration is written with too long a fraction")
        u = tokens[k] if k < len(tokens) else ""
        if u not in units:
            refuted(f"a duration is written with a component {u!r} where none may be")
        units = units[units.index(u) + 1 :]
        k += 1
        total = total + n[0] * (UNIT[u] * 1000) + (fraction[0] * 10 ** (9 - fraction[1]) if fraction is not None else 0)
    return z3.simplify(-total if negative else total)  # nanoseconds


@obligation("C02", "the text of a duration denotes it exactly", ["serializer.TimeDeltaSerializer.generate", "serializer.TimeDeltaSerializer.iso8601_time_duration"])
def _() -> None:
    v = any_of_class(datetime.timedelta)
    j = generate(writer_of(datetime.timedelta), v)
    if interp.kind_of(j) != "str":
        refuted("a duration is not written as text")
    goal(denotation(j) == v.total * 1000, "text denotes the duration")


@obligation(("C02", "C01"), "a duration that is written and read is the same duration", ["serializer.TimeDeltaSerializer.generate", "serializer.TimeDeltaSerializer.iso8601_time_duration", "deserializer.TimeDeltaDeserializer.parse", "serializer.object_to_json"])
def _() -> None:
    v = any_of_class(datetime.timedelta)
    back = parse(reader_of(datetime.timedelta), generate(writer_of(datetime.timedelta), v))
    if not isinstance(back, models.TDelta):
        refuted("a duration is not read as a duration")
    goal(back.total == v.total, "duration read back")


@obligation(("C02", "C01"), "a duration is written in the same way without a type", ["serializer.object_to_json", "serializer.TimeDeltaSerializer.generate"])
def _() -> None:
    v = any_of_class(datetime.timedelta)
    goal(denotation(call(S.object_to_json, [v], {})) == v.total * 1000, "text denotes the duration")

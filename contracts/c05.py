"C05: members are read by the documented rules, for classes with any number of members of any types."

from .classes import *  # noqa: F403
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError


# ---------------------------------------------------------------- specification


def spec_member(m, data):
    "The value of a member, given the JSON object."
    if m.property in data and data[m.property] is not None:
        return read(m.reader, data[m.property])
    if m.has_default:
        return m.default
    if m.has_factory:
        return m.default_factory()
    if m.optional:
        return None
    if m.property in data:
        raise JsonValueError
    raise JsonKeyError


def spec_class(cls, members, skip, data):
    if not isinstance(data, dict):
        raise JsonTypeError
    values = {}
    for m in members:
        values[m.name] = spec_member(m, data)
    if not skip:
        for key in data:
            if not any(m.property == key for m in members):
                raise JsonKeyError
    return new_object(cls, values)


# ---------------------------------------------------------------- obligations


def reads_class(kind: str, frozen: bool = False) -> None:
    class_contracts()
    Epoch.now = 0
    cls = any_class_type(kind, frozen=frozen)
    p = reader_of(cls)
    members = STuple(cls.traits["members"].seq())
    data = any_json()
    Epoch.now = z3.Const("epoch", INT)
    ctx().add_fact(Epoch.now > 0)
    a = outcome(lambda: parse(p, data))
    b = outcome(lambda: call(spec_class, [cls, members, SBool(SKIP), data], {}))
    same_outcome(a, b, f"reader of a {kind}")


for _name, _kind, _frozen in (
    ("data class", "dataclass", False),
    ("frozen data class", "dataclass", True),
    ("named tuple", "namedtuple", False),
    ("annotated class", "plain", False),
):

    @obligation(("C05", "C04", "C10"), f"reader of a {_name}: every member by its rule, unknown properties rejected unless ignored", f"deserializer: reader of a {_name}", timeout=120)
    def _(kind: str = _kind, frozen: bool = _frozen) -> None:
        reads_class(kind, frozen)

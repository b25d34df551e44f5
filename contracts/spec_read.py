"Specification of the reader, in plain Python; executed symbolically."

import base64
import datetime

from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError

from .base import read


def read_none(data):
    if data is not None:
        raise JsonTypeError
    return None


def read_bool(data):
    if data is True:
        return True
    if data is False:
        return False
    raise JsonTypeError


def read_int(data):
    if isinstance(data, bool):
        return 1 if data else 0
    if isinstance(data, int):
        return data
    raise JsonTypeError


def read_float(data):
    if isinstance(data, (bool, int, float)):
        try:
            return float(data)
        except OverflowError:
            raise JsonValueError
    raise JsonTypeError


def read_str(data):
    if isinstance(data, str):
        return data
    raise JsonTypeError


def read_list(item_type, data):
    if not isinstance(data, list):
        raise JsonTypeError
    result = []
    for item in data:
        result.append(read(item_type, item))
    return result


def read_set(item_type, data):
    if not isinstance(data, list):
        raise JsonTypeError
    return {read(item_type, item) for item in data}


def read_str_dict(value_type, data):
    if not isinstance(data, dict):
        raise JsonTypeError
    return {key: read(value_type, value) for key, value in data.items()}


def read_tuple(item_types, data):
    if not isinstance(data, list):
        raise JsonTypeError
    if len(data) != len(item_types):
        raise JsonValueError
    return tuple(read(t, x) for t, x in zip(item_types, data))


def read_bytes(data):
    if not isinstance(data, str):
        raise JsonTypeError
    return base64.b64decode(data, validate=True)


def read_datetime(data):
    if not isinstance(data, str):
        raise JsonTypeError
    value = datetime.datetime.fromisoformat(data[:-1] + "+00:00" if data.endswith("Z") else data)
    if value.tzinfo is None:
        raise JsonValueError
    return value


def read_date(data):
    if not isinstance(data, str):
        raise JsonTypeError
    return datetime.date.fromisoformat(data)


def read_time(data):
    if not isinstance(data, str):
        raise JsonTypeError
    return datetime.time.fromisoformat(data)


def read_text(cls, data):
    if not isinstance(data, str):
        raise JsonTypeError
    return cls(data)


def read_literal(kind, values, data):
    if kind == "int" and (data is True or data is False):
        data = 1 if data else 0
    if not isinstance(data, {"int": int, "str": str, "bool": bool}[kind]):
        raise JsonTypeError
    for value in values:
        if value == data:
            return data
    raise JsonTypeError


def read_enum(members, data):
    for member in members:
        if member.value == data:
            return member
    raise ValueError


def read_enum_dict(members, value_type, data):
    if not isinstance(data, dict):
        raise JsonTypeError
    return {read_enum(members, key): read(value_type, value) for key, value in data.items()}


def read_union(types, data):
    for t in types:
        try:
            return read(t, data)
        except (JsonKeyError, JsonTypeError, JsonValueError, ValueError):
            pass
    raise JsonKeyError

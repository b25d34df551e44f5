"Specification of the writer, in plain Python; executed symbolically."

import enum

from .base import plain_property_name, write, write_untyped


def write_list(item_type, value):
    result = []
    for item in value:
        result.append(write(item_type, item))
    return result


def write_str_dict(value_type, value):
    result = {}
    for key, item in value.items():
        result[key] = write(value_type, item)
    return result


def write_enum_dict(value_type, value):
    result = {}
    for key, item in value.items():
        result[key.value] = write(value_type, item)
    return result


def write_tuple(item_types, value):
    result = []
    for t, x in zip(item_types, value):
        result.append(write(t, x))
    return result


def write_class(members, obj):
    result = {}
    for m in members:
        value = getattr(obj, m.name)
        if value is not None:
            result[m.property] = write(m.hint, value)
    return result


def write_untyped_items(value):
    result = []
    for item in value:
        result.append(write_untyped(item))
    return result


def write_untyped_dict(value):
    result = {}
    for key, item in value.items():
        result[str(key.value if isinstance(key, enum.Enum) else key)] = write_untyped(item)
    return result


def write_untyped_tuple(names, value):
    result = {}
    for name in names:
        result[plain_property_name(name)] = write_untyped(getattr(value, name))
    return result


def reserved_name(name):
    raise NotImplementedError


def bound_method(value):
    raise NotImplementedError


def write_attributes(names, obj):
    result = {}
    for name in names:
        if reserved_name(name):
            continue
        value = getattr(obj, name)
        if value is not None and not bound_method(value):
            result[plain_property_name(name)] = write_untyped(value)
    return result


def spec_reserved(name):
    return (len(name) > 4 and name.startswith("__") and name.endswith("__")) or name == "_abc_impl"

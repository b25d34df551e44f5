"Specification of instance checks, in plain Python; executed symbolically."


def member(obj, typ):
    raise NotImplementedError


def is_list(item_type, obj):
    return isinstance(obj, list) and all(member(x, item_type) for x in obj)


def is_set(item_type, obj):
    return isinstance(obj, set) and all(member(x, item_type) for x in obj)


def is_dict(key_type, value_type, obj):
    return isinstance(obj, dict) and all(member(k, key_type) and member(v, value_type) for k, v in obj.items())


def is_tuple(item_types, obj):
    return isinstance(obj, tuple) and len(obj) == len(item_types) and all(member(x, t) for t, x in zip(item_types, obj))


def is_union(types, obj):
    return any(member(obj, t) for t in types)


def checked(typ, obj):
    raise NotImplementedError


def predicate(typ, obj):
    raise NotImplementedError


def check_items(item_type, obj):
    return all(checked(item_type, x) for x in obj)


def check_values(value_type, obj):
    return all(checked(value_type, x) for x in obj.values())


def check_tuple(item_types, obj):
    return all(checked(t, x) for t, x in zip(item_types, obj))


def check_members(members, obj):
    return all(checked(m.hint, getattr(obj, m.name)) for m in members)

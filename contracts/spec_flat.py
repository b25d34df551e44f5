"Specification of flattening, in plain Python; executed symbolically."


def is_nested(prop):
    return is_object(prop) and prop.properties is not None


def flattened_properties(properties, qualified, recursive):
    result = {}
    for name, prop in properties.items():
        if not is_nested(prop):
            result[name] = prop
        else:
            inner = flattened(prop) if recursive else prop
            if inner.properties is not None:
                for n, p in inner.properties.items():
                    result[name + "." + n if qualified else n] = p
    return result


def flattened_required(properties, required, qualified, recursive):
    result = []
    for name, prop in properties.items():
        if not is_nested(prop):
            if name in required:
                result.append(name)
        else:
            inner = flattened(prop) if recursive else prop
            if inner.required is not None:
                for n in inner.required:
                    result.append(name + "." + n if qualified else n)
    return result


def is_object(prop):
    raise NotImplementedError


def flattened(prop):
    raise NotImplementedError

"Specification of what a schema accepts, in plain Python; executed symbolically."

from .schemas import component_accepts, is_component, pattern_matches


def kind_matches(kind, data):
    if kind == "null":
        return data is None
    if kind == "boolean":
        return isinstance(data, bool)
    if kind == "integer":
        return isinstance(data, int) and not isinstance(data, bool)
    if kind == "number":
        return isinstance(data, (int, float)) and not isinstance(data, bool)
    if kind == "string":
        return isinstance(data, str)
    if kind == "array":
        return isinstance(data, list)
    if kind == "object":
        return isinstance(data, dict)
    raise NotImplementedError(kind)


# keywords that say nothing about which data is accepted
ANNOTATIONS = ("title", "description", "default", "examples", "format", "contentEncoding")
HANDLED = ("type", "const", "enum", "items", "prefixItems", "minItems", "maxItems", "uniqueItems", "properties", "additionalProperties", "required", "propertyNames",
           "minimum", "maximum", "minLength", "maxLength", "oneOf")


def accepts(schema, data):
    "True if a schema accepts JSON data."
    if is_component(schema):
        return component_accepts(schema, data)
    for keyword in schema:
        if keyword not in ANNOTATIONS and keyword not in HANDLED:
            raise NotImplementedError(keyword)
    if "type" in schema and not kind_matches(schema["type"], data):
        return False
    if "const" in schema and not same(schema["const"], data):
        return False
    if "enum" in schema and not any(same(value, data) for value in schema["enum"]):
        return False
    if "oneOf" in schema:
        count = 0
        for alternative in schema["oneOf"]:
            if accepts(alternative, data):
                count = count + 1
        if count != 1:
            return False
    if isinstance(data, int) and not isinstance(data, bool):
        if "minimum" in schema and data < schema["minimum"]:
            return False
        if "maximum" in schema and data > schema["maximum"]:
            return False
    if isinstance(data, str):
        if "minLength" in schema and len(data) < schema["minLength"]:
            return False
        if "maxLength" in schema and len(data) > schema["maxLength"]:
            return False
    if isinstance(data, list):
        return accepts_list(schema, data)
    if isinstance(data, dict):
        return accepts_dict(schema, data)
    return True


def same(a, b):
    return isinstance(a, bool) == isinstance(b, bool) and a == b


def accepts_list(schema, data):
    if "minItems" in schema and len(data) < schema["minItems"]:
        return False
    if "maxItems" in schema and len(data) > schema["maxItems"]:
        return False
    if "prefixItems" in schema:
        if not all(accepts(s, x) for s, x in zip(schema["prefixItems"], data)):
            return False
        if "items" in schema:
            raise NotImplementedError
    elif "items" in schema:
        if not all(accepts(schema["items"], x) for x in data):
            return False
    return True


def accepts_dict(schema, data):
    properties = schema["properties"] if "properties" in schema else {}
    if "required" in schema and not all(name in data for name in schema["required"]):
        return False
    if "propertyNames" in schema and not all(accepts_name(schema["propertyNames"], key) for key in data):
        return False
    return all(accepts_property(schema, properties, key, value) for key, value in data.items())


def accepts_property(schema, properties, key, value):
    if key in properties:
        return accepts(properties[key], value)
    if "additionalProperties" not in schema:
        return True
    if schema["additionalProperties"] is False:
        return False
    return accepts(schema["additionalProperties"], value)


def accepts_name(schema, name):
    for keyword in schema:
        if keyword != "pattern":
            raise NotImplementedError(keyword)
    return pattern_matches(schema["pattern"], name)

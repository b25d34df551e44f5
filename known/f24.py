"ipaddress.IPv6Address with a scope: the text fe80::1%eth0 is not of the format `ipv6` of the schema (RFC 4291 has no scope)."
import sys
sys.path.insert(0, "/repo")
import ipaddress
import jsonschema
from strong_typing.schema import JsonSchemaGenerator
from strong_typing.serialization import object_to_json
s = JsonSchemaGenerator().type_to_schema(ipaddress.IPv6Address)
t = object_to_json(ipaddress.IPv6Address("fe80::1%eth0"))
try:
    jsonschema.validate(t, s, format_checker=jsonschema.FormatChecker())
except jsonschema.ValidationError:
    print("FAILS")

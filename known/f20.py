"list[\"Unregistered\"]: a forward reference to a class that is not registered becomes a reference without a definition."
import sys
sys.path.insert(0, "/repo")
import typing
from strong_typing.schema import JsonSchemaGenerator
class Unregistered:
    x: int
s, defs = JsonSchemaGenerator().classdef_to_schema(typing.List["Unregistered"])
ref = s["items"].get("$ref")
if ref and ref.split("/")[-1] not in defs:
    print("FAILS")

"Union[int, float]: the JSON number 5 written for 5 is rejected by the schema (`oneOf` of integer and number)."
import sys
sys.path.insert(0, "/repo")
from typing import Union
import jsonschema
from strong_typing.schema import JsonSchemaGenerator
from strong_typing.serialization import object_to_json
class C:
    v: Union[int, float]
    def __init__(self, v): self.v = v
try:
    s, defs = JsonSchemaGenerator().classdef_to_schema(C)
    jsonschema.Draft202012Validator({**s, "definitions": defs}).validate(object_to_json(C(5)))
except jsonschema.ValidationError:
    print("FAILS")

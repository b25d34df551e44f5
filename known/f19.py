"Two registered classes with the same name: the later one takes over the references to the first."
import sys
sys.path.insert(0, "/repo")
import types
from strong_typing.schema import JsonSchemaGenerator, register_schema
def make(mod, ann):
    m = types.ModuleType(mod); sys.modules[mod] = m
    c = type("SameName", (), {"__annotations__": ann, "__module__": mod}); m.SameName = c
    return register_schema(c, schema={"type": "integer", "title": mod})
a = make("m_one", {"x": int}); b = make("m_two", {"y": str})
class H:
    p: a
    q: b
s, _ = JsonSchemaGenerator().classdef_to_schema(H)
refs = {k: v.get("$ref") for k, v in s["properties"].items()}
if refs["p"] == refs["q"]:
    print("FAILS")

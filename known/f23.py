"A data class inherits members with postponed annotations from a class in another module: they are evaluated in the module of the derived class."
import sys
sys.path.insert(0, "/repo")
import types
from strong_typing.serialization import object_to_json
m1 = types.ModuleType("known_m1"); sys.modules["known_m1"] = m1
exec("from __future__ import annotations\nimport dataclasses\nfrom typing import Optional\n@dataclasses.dataclass\nclass Base:\n    x: Optional[int]\n", m1.__dict__)
m2 = types.ModuleType("known_m2"); sys.modules["known_m2"] = m2
exec("import dataclasses\nfrom known_m1 import Base\n@dataclasses.dataclass\nclass Derived(Base):\n    y: int\n", m2.__dict__)
try:
    object_to_json(m2.Derived(1, 2))
except NameError:
    print("FAILS")

"datetime.time(1, 2, 3): the text 01:02:03 has no time zone, which the `time` format of the schema demands."
import sys
sys.path.insert(0, "/repo")
import datetime, re
from strong_typing.schema import JsonSchemaGenerator
from strong_typing.serialization import object_to_json
s = JsonSchemaGenerator().type_to_schema(datetime.time)
t = object_to_json(datetime.time(1, 2, 3))
rfc3339_full_time = r"\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)"
if s.get("format") == "time" and not re.fullmatch(rfc3339_full_time, t):
    print("FAILS")
